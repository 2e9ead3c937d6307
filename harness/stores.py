"""Stores: CSV directories, JSON files, SQLite databases, SQL scripts and Excel workbooks.

What is in a store is read here without any ticdat code; so are stores put that ticdat did not write.
"""
import csv, datetime, hashlib, json, os, re, sqlite3
import dateutil.parser
import numpy as np, openpyxl, pandas as pd, xlrd, xlwt
from openpyxl.styles import Font
from values import V, NULL, enc, dec

EXT = {"csv": "", "json": ".json", "sqlite": ".db", "sqltext": ".sql", "xls": ".xls", "xlsx": ".xlsx", "pg": "", "mdb": ".accdb"}
CUT = 30
NA_TEXT = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA", "NULL",
           "NaN", "None", "n/a", "nan", "null"}


def digest(path):
    h = hashlib.md5()
    if os.path.isdir(path):
        for n in sorted(os.listdir(path)):
            h.update(n.encode("utf8", "replace"))
            p = os.path.join(path, n)
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    h.update(f.read())
    elif os.path.exists(path):
        with open(path, "rb") as f:
            h.update(f.read())
    else:
        return "absent"
    return h.hexdigest()[:16]


def tab(name, form, cols, rows, aff=()):
    return {"name": name, "form": form, "cols": list(cols), "aff": list(aff), "rows": rows}


def affinity(decl):
    d = (decl or "").upper()
    if "INT" in d:
        return "num"
    if any(x in d for x in ("CHAR", "CLOB", "TEXT")):
        return "text"
    if not d or "BLOB" in d:
        return "none"
    return "num"


def raw_csv(path, m):
    out = []
    for n in sorted(os.listdir(path)):
        if not n.lower().endswith(".csv"):
            continue
        with open(os.path.join(path, n), newline="") as f:
            rows = list(csv.reader(f, dialect=m.get("dialect") or "excel"))
        cols = []
        if m["hdr"]:
            cols, rows = (rows[0], rows[1:]) if rows else ([], [])
        out.append(tab(n[:-4], "cols", cols, [[V("str", 0, c) for c in r] for r in rows]))
    return out


def raw_json(path, m):
    with open(path) as f:
        d = json.load(f)
    out = []
    for n in sorted(d):
        x = d[n]
        if isinstance(x, dict):
            out.append(tab(n, "split", [str(c) for c in x["columns"]], [[enc(c) for c in r] for r in x["data"]]))
        elif x and all(isinstance(r, dict) for r in x):
            cols = list(x[0])
            assert all(set(r) == set(cols) for r in x)
            out.append(tab(n, "dicts", cols, [[enc(r[c]) for c in cols] for r in x]))
        else:
            out.append(tab(n, "lists", [], [[enc(c) for c in r] for r in x]))
    return out


def raw_con(con):
    out = []
    for (n,) in sorted(con.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%'")):
        info = list(con.execute("PRAGMA table_info([%s])" % n))
        rows = [[enc(c) for c in r] for r in con.execute("select * from [%s]" % n)]
        out.append(tab(n, "cols", [i[1] for i in info], rows, [affinity(i[2]) for i in info]))
    return out


def raw_sqlite(path, m):
    con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    try:
        return raw_con(con)
    finally:
        con.close()


def declared(path):
    """the columns of every table of a database as they were declared"""
    con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    try:
        return [{"name": n, "cols": [[i[1], (i[2] or "").lower()] for i in con.execute("PRAGMA table_info([%s])" % n)],
                 "pk": [i[1] for i in sorted((i for i in con.execute("PRAGMA table_info([%s])" % n) if i[5]), key=lambda i: i[5])]}
                for (n,) in sorted(con.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%'"))]
    finally:
        con.close()


def raw_sqltext(path, m):
    with open(path, newline="") as f:
        text = f.read()
    con = sqlite3.connect(":memory:")
    try:
        if not m["schema"]:      # any table the inserts mention, without types
            seen, buf = {}, ""
            for ch in re.split(r"(;)", text):
                buf += ch
                if ch == ";" and sqlite3.complete_statement(buf):
                    g = re.match(r"\s*INSERT INTO \[(.*?)\] \((.*?)\) VALUES", buf, re.S)
                    if g and g.group(1) not in seen:
                        seen[g.group(1)] = re.findall(r"\[(.*?)\]", g.group(2))
                    buf = ""
            for n, cols in seen.items():
                if "Create TABLE [%s]" % n not in text:
                    con.execute("create table [%s] (%s)" % (n, ",".join("[%s]" % c for c in cols)))
        con.executescript(text)
        return raw_con(con)
    finally:
        con.close()


def x_enc(c):
    if c.data_type in ("f", "e"):
        return V("other", 0, c.data_type + ":" + str(c.value))
    return enc(c.value)


def raw_xlsx(path, m):
    wb = openpyxl.load_workbook(path)
    out = []
    for ws in wb.worksheets:
        rows = [[x_enc(c) for c in r] for r in ws.iter_rows(min_row=1, max_row=ws.max_row, max_col=ws.max_column)]
        out.append(sheet(ws.title, rows, m))
    wb.close()
    return out


def sheet(name, rows, m):
    off = m["offs"].get(name, 0)
    rows = rows[off:]
    cols = []
    if m["hdr"]:
        head, rows = (rows[0], rows[1:]) if rows else ([], [])
        while head and head[-1]["k"] == "null":
            head = head[:-1]
        cols = [h["s"] if h["k"] == "str" else "?%s" % (h,) for h in head]
        rows = [r[:len(cols)] for r in rows]
    if not cols and len(rows) == 1 and all(c["k"] == "null" for c in rows[0]):
        rows = []       # what a sheet without any cell looks like
    return tab(name, "cols", cols, rows)


def raw_xls(path, m):
    bk = xlrd.open_workbook(path)

    def cell(c):
        if c.ctype in (0, 6):
            return NULL
        if c.ctype == 1:
            return V("null") if c.value == "" else enc(c.value)
        if c.ctype == 2:
            return enc(c.value)
        if c.ctype == 3:
            try:
                return enc(xlrd.xldate_as_datetime(c.value, bk.datemode))
            except Exception:
                return V("other", 0, "date %r" % c.value)
        if c.ctype == 4:
            return V("bool", int(c.value))
        return V("other", 0, "xls error")
    return [sheet(s.name, [[cell(s.cell(i, j)) for j in range(s.ncols)] for i in range(s.nrows)], m) for s in bk.sheets()]


RAW = {"csv": raw_csv, "json": raw_json, "sqlite": raw_sqlite, "sqltext": raw_sqltext, "xls": raw_xls, "xlsx": raw_xlsx, "mdb": raw_sqlite}


def project(sid, m):
    """the content of a store"""
    p = m["path"]
    there = os.path.isdir(p) if m["fmt"] == "csv" else os.path.isfile(p)
    r = {"id": sid, "fmt": m["fmt"], "exists": there, "hdr": m["hdr"], "schema": m["schema"], "tabs": [], "shape": "ok", "fp": digest(p)}
    if there:
        try:
            r["tabs"] = sorted(RAW[m["fmt"]](p, m), key=lambda t: t["name"])
        except Exception as e:
            r["shape"] = "unreadable: %s %s" % (type(e).__name__, str(e)[:80])
    return r


# ------------------------------------------------------------------ stores ticdat did not write
def plain(v):
    return dec(v)


def put_csv(path, m, tabs, e):
    os.makedirs(path, exist_ok=True)
    for t in tabs:
        with open(os.path.join(path, t["name"] + ".csv"), "w", newline="") as f:
            w = csv.writer(f, dialect=m.get("dialect") or "excel")
            if m["hdr"]:
                w.writerow(t["cols"])
            for r in t["rows"]:
                w.writerow([c["s"] for c in r])


def put_json(path, m, tabs, e):
    d = {}
    for t in tabs:
        rows = [[plain(c) for c in r] for r in t["rows"]]
        d[t["name"]] = rows if t["form"] == "lists" else [dict(zip(t["cols"], r)) for r in rows] if t["form"] == "dicts" else \
            {"columns": t["cols"], "data": rows}
    with open(path, "w") as f:
        json.dump(d, f)


def put_sqlite(path, m, tabs, e):
    open(path, "wb").close()
    con = sqlite3.connect(path)
    for t in tabs:
        aff = t["aff"] or [""] * len(t["cols"])
        con.execute("create table [%s] (%s)" % (t["name"], ",".join("[%s] %s" % (c, {"num": "FLOAT", "text": "TEXT"}.get(a, ""))
                                                                    for c, a in zip(t["cols"], aff))))
        for r in t["rows"]:
            con.execute("insert into [%s] values (%s)" % (t["name"], ",".join("?" * len(r))), [plain(c) for c in r])
    con.commit()
    con.close()


def put_xlsx(path, m, tabs, e):
    wb = openpyxl.Workbook()
    wb.remove(wb.active)
    for t in tabs:
        ws = wb.create_sheet(t["name"])
        off = m["offs"].get(t["name"], 0)
        for i in range(0 if e.get("bare") else off):
            ws.cell(i + 1, 1, "title %d" % i)
        if m["hdr"]:
            for j, c in enumerate(t["cols"]):
                ws.cell(off + 1, j + 1, c)
            off += 1
        for i, r in enumerate(t["rows"]):
            for j, c in enumerate(r):
                cell = ws.cell(off + i + 1, j + 1)
                if c["k"] == "null":
                    cell.font = Font(bold=True)     # an empty cell that the sheet nevertheless knows about
                else:
                    v = plain(c)
                    cell.value = v
                    if isinstance(v, str):
                        cell.data_type = "s"
    wb.save(path)


def put_xls(path, m, tabs, e):
    wb = xlwt.Workbook()
    fmt = xlwt.easyxf(num_format_str="YYYY-MM-DD HH:MM:SS")
    for t in tabs:
        ws = wb.add_sheet(t["name"])
        off = m["offs"].get(t["name"], 0)
        for i in range(off):
            ws.write(i, 0, "title %d" % i)
        if m["hdr"]:
            for j, c in enumerate(t["cols"]):
                ws.write(off, j, c)
            off += 1
        for i, r in enumerate(t["rows"]):
            for j, c in enumerate(r):
                v = plain(c)
                if isinstance(v, datetime.datetime):
                    ws.write(off + i, j, v.to_pydatetime() if hasattr(v, "to_pydatetime") else v, fmt)
                elif v is not None:
                    ws.write(off + i, j, v)
    wb.save(path)


PUT = {"csv": put_csv, "json": put_json, "sqlite": put_sqlite, "xlsx": put_xlsx, "xls": put_xls, "mdb": put_sqlite}


# ------------------------------------------------------------------ lexical facts about texts
_date, _num = {}, {}


def lex_date(s):
    """the date a text denotes, if it is one"""
    if s not in _date:
        r = ""
        if s and s.strip():
            try:
                t = pd.Timestamp(s)
                r = "" if t is pd.NaT else t.isoformat()
            except Exception:
                try:
                    r = pd.Timestamp(dateutil.parser.parse(s)).isoformat()
                except Exception:
                    r = ""
        _date[s] = r
    return _date[s]


def lex_num(s):
    try:
        return enc(float(s))
    except (ValueError, OverflowError):
        return V("other", 0, "none")


_con = None


def lex_sql(s):
    """what a column with numeric affinity makes of a text"""
    global _con
    if s not in _num:
        if _con is None:
            _con = sqlite3.connect(":memory:")
            _con.execute("create table t (x FLOAT)")
        _con.execute("delete from t")
        try:
            _con.execute("insert into t values (?)", [s])
            v = next(iter(_con.execute("select x from t")))[0]
            _num[s] = V("other", 0, "none") if isinstance(v, str) else enc(v)
        except Exception:
            _num[s] = V("other", 0, "none")
    return _num[s]


def pretty(s):
    """blanks for underscores, words capitalised"""
    return " ".join(w[:1].upper() + w[1:] for w in s.split("_"))


def clumsy(s):
    """quotes that the readable SQL format documents it cannot hold"""
    return "''" in s or (s.startswith("'") and s.endswith("'") and len(s) > 0)


def pgname(s):
    """the PostgreSQL friendly rendering of a name"""
    r = "".join(c if c.isalnum() else "_" for c in s.lower())
    return "_" + r[1:] if r[:1].isdigit() else r


def lex(texts):
    out = {}
    for s in sorted(texts):
        low = s.lower()
        nrm = low.replace(" ", "_")
        out[s] = {"num": lex_num(s), "date": lex_date(s), "low": low, "norm": nrm, "pretty": pretty(s), "cut": s[:CUT],
                  "lowcut": low[:CUT], "normcut": nrm[:CUT], "na": s in NA_TEXT, "bl": {"true": "T", "false": "F"}.get(low, ""),
                  "sqln": lex_sql(s), "cr": "\r" in s, "cq": clumsy(s), "quoted": re.findall("'([^']*)'", s), "pg": pgname(s)}
    return out


def texts_of(x, acc):
    """every text that occurs in a projection"""
    if isinstance(x, str):
        acc.add(x)
    elif isinstance(x, dict):
        if set(x) == {"k", "n", "s"}:
            if x["k"] == "str":
                acc.add(x["s"])
        else:
            for v in x.values():
                texts_of(v, acc)
    elif isinstance(x, (list, tuple)):
        for v in x:
            texts_of(v, acc)
    return acc


def store_texts(p, acc):
    for t in p["tabs"]:
        acc.add(t["name"])
        acc.update(t["cols"])
        texts_of(t["rows"], acc)
    return acc

"""Scenario generators: files - what is written, what is read, how names match, what is overwritten."""
import random
from values import V, NULL, PINF, MINF, num, intv, st, boolv, date, norm_in
import gen
from gen import table, desc, fields, norm_key, mk, ty, legal
from genobj import tin

TNAMES = ["t1", "my_table", "Big_Tab_le", "parents", "u_v", "aVeryLongTableNameThatExcelWillCutOff"]
FNAMES = ["a", "Name x", "q_1", "Bee", "c d e", "plant", "KEY"]
NUMS = [intv(0), intv(1), intv(2), intv(-3), num(2), num(10), intv(100), intv(12345), num(-7), intv(33554432), V("num", 12, "3.0000001")]
TEXTS = ["a", "b", "x y", "it's", 'say "hi"', "semi;colon", "comma,sep", "tab\there", "line\nbreak", " lead", "trail ", "=1+1", "http://a.b/c",
         "ünï", "日本", "A", "zz top", "[br]", "50%", "back\\slash", "{b}", "-", "_u", "not a number"]
HARD = ["", "12", "007", "1e3", "inf", "-inf", "nan", "None", "none", "NA", "true", "False", "2020-01-02", "null", "Infinity", "0.5",
        "''", "'q'", "cr\rcr", "crlf\r\nx", "1,000", "TRUE", "1_000", " 12 "]
DATES = [date("2020-01-02T00:00:00"), date("2021-12-31T00:00:00"), date("2019-06-07T08:09:10")]
T = [st(x) for x in TEXTS]
H = [st(x) for x in HARD]
TIC_FMTS = ["csv", "json", "sqlite", "sqltext", "xls", "xlsx"]
PAN_FMTS = ["csv", "json", "sqlite", "xlsx"]


def w_ty(r, kind):
    """a type for the kind of field"""
    null = r.random() < 0.5
    if kind == "num":
        return ty(min=r.choice([intv(0), MINF, intv(-100)]), max=PINF, imax=r.random() < 0.6, imin=r.random() < 0.7,
                  int=False, null=null)
    if kind == "int":
        return ty(min=intv(-100), max=PINF, imax=r.random() < 0.3, int=True, null=null)
    if kind == "text":
        return ty(num=False, any=True, null=null)
    if kind == "multi":
        return ty(num=True, min=MINF, max=PINF, imin=r.random() < 0.5, imax=r.random() < 0.5, any=r.random() < 0.7, strs=["a", "b"], null=null)
    if kind == "date":
        return ty(dt=True, null=null)
    raise ValueError(kind)


def store_schema(r, fl, n=None, flag=None, kinds=None, pkless=0.25, generic=0.0, gen=0.0, params=0.0, tnames=TNAMES):
    """tables with per-field profiles: (desc, {(t, f): pool})"""
    tables, dts, dvs, pool = [], [], [], {}
    names = r.sample(tnames, n or r.randint(1, 3))
    for t in sorted(names):
        fl_ = r.sample(FNAMES, min(len(FNAMES), r.choice([1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 7])))
        p = 0 if r.random() < pkless else min(r.choice([1, 1, 1, 2, 2, 3]), len(fl_))
        kind = "std"
        if r.random() < generic:
            kind = "generic"
        elif p == 0 and fl == "tic" and r.random() < gen:
            kind = "gen"
        tb = table(t, fl_[:p], fl_[p:], kind)
        if kind == "generic":
            tb["pk"], tb["df"] = [], []
        tables.append(tb)
        for f in fields(tb):
            k = r.choice(kinds or ["num", "num", "int", "text", "text", "untyped", "untext", "multi", "date", "bool", "nulltext", "wild"])
            pk = f in tb["pk"]
            typed = k in ("num", "int", "text", "multi", "date") and (k in ("multi", "date") or r.random() < 0.7)
            T_ = None
            if typed:
                T_ = w_ty(r, k)
                if flag == "null" and k in ("num", "int", "multi"):
                    if r.random() < 0.6:
                        T_["null"] = False
                    # at most one infinity may be legal
                    if not T_["null"] and T_["max"]["k"] == "inf" and T_["imax"] and T_["min"]["k"] == "inf" and T_["imin"]:
                        T_["imin" if r.random() < 0.5 else "imax"] = False
                dts.append({"t": t, "f": f, "ty": T_})
            vals = {"num": NUMS, "int": [v for v in NUMS if v["n"] % 4 == 0], "text": T, "untyped": NUMS, "untext": T, "multi": NUMS + T,
                    "date": DATES, "bool": [boolv(True), boolv(False)], "nulltext": T + [NULL], "wild": NUMS + T}[k]
            if pk and k == "bool":
                vals = T
            vals = list(vals)
            if k in ("num", "untyped", "multi") and r.random() < 0.35:
                vals += [PINF, PINF, MINF]
            if k in ("text", "untext", "multi") and r.random() < 0.4:
                vals = vals[:6] + H
            if (T_ or {}).get("null") and r.random() < 0.7 or (not T_ and r.random() < 0.15):
                vals += [NULL] * max(1, len(vals) // 6)
            pool[t, f] = vals
            if k in ("untext", "nulltext", "text", "wild", "bool", "date") and (not pk) and r.random() < 0.75:
                dvs.append({"t": t, "f": f, "v": NULL if k == "nulltext" else st(r.choice(["x", "", "dflt"])) if k != "date" else NULL})
            elif not pk and r.random() < 0.25:
                dvs.append({"t": t, "f": f, "v": r.choice(NUMS)})
            if not pk and T_ and not T_["null"] and k in ("text", "num", "int") and r.random() < 0.15:
                dvs[:] = [x for x in dvs if (x["t"], x["f"]) != (t, f)] + [{"t": t, "f": f, "v": NULL}]
    d = desc(tables, dt=dts, dv=dvs)
    ps = []
    if r.random() < params:
        d["tables"] = sorted(d["tables"] + [table("parameters", ["Key"], ["Value"])], key=lambda x: x["t"])
        if r.random() < 0.7:
            for p in r.sample(["p one", "p2", "Three", "fourth"], r.randint(1, 4)):
                k = r.choice(["num", "text", "date", "multi", "none"])
                if k == "none":
                    ps.append({"p": p, "typed": False, "ty": ty(), "v": r.choice([intv(1), st("x")])})
                else:
                    T_ = w_ty(r, k)
                    v = {"num": intv(5), "text": st("x"), "date": st("2020-01-02"), "multi": intv(5)}[k]
                    ps.append({"p": p, "typed": True, "ty": T_, "v": v})
                pool["parameters", p] = {"num": NUMS[:6], "text": T[:8], "date": DATES + [st("zz qq")], "multi": NUMS[:4] + T[:4],
                                         "none": NUMS[:5] + T[:5]}[k]
                if k == "text" and r.random() < 0.6:
                    pool["parameters", p] = pool["parameters", p] + [st("")] * 3 + H
                if r.random() < (0.5 if k != "none" and T_["null"] else 0.2 if fl == "pan" else 0):
                    pool["parameters", p] = pool["parameters", p] + [NULL] * 3
        elif r.random() < 0.65:
            k = r.choice(["num", "num", "text", "multi"])
            T_ = w_ty(r, k)
            if flag == "null" and not T_["null"] and T_["max"]["k"] == "inf" and T_["imax"] and T_["min"]["k"] == "inf" and T_["imin"]:
                T_["imin"] = False
            d["dt"].append({"t": "parameters", "f": "Value", "ty": T_})
            pool["parameters", "Key"] = T[:8]
            pool["parameters", "Value"] = NUMS[:4] + T[:4] + [PINF]
        pool["parameters", ""] = NUMS[:4] + T[:4] + [PINF]
    d["params"] = ps
    return d, pool


def some_flag(r, p=0.4):
    x = r.random()
    return "" if x > p else "null" if x < p / 2 else "num"


def with_flag(r, d, flag):
    if flag == "null":
        d["inf"] = NULL
    elif flag == "num":
        d["inf"] = r.choice([intv(10000), intv(999), num(10)])
    return d


def one_pool(r, vals):
    """sometimes values of one kind only, so that whole columns look alike"""
    if r.random() < 0.5:
        k = r.choice(vals)["k"]
        c = [v for v in vals if v["k"] in (k, "null") or (k == "inf" and v["k"] == "num")]
        return c
    return vals


def store_data(r, fl, d, pool, nmax=5, big=None):
    out = []
    for tb in d["tables"]:
        t = tb["t"]
        if tb["kind"] == "generic":
            cols = r.sample(["p", "Q x", "r_1", "W"], r.randint(1, 3))
            cp = [r.choice([NUMS[:8], T]) for _ in cols]
            out.append({"t": t, "cols": cols, "rows": [[r.choice(c) for c in cp] for _ in range(r.randint(1, 4))]})
            continue
        if t == "parameters":
            keys = [p["p"] for p in d["params"]] + (["free key"] if r.random() < 0.3 or not d["params"] else [])
            rows = []
            for k in r.sample(keys, r.randint(0, len(keys))):
                rows.append([st(k), r.choice(pool.get((t, k)) or pool[t, ""])])
            out.append({"t": t, "cols": [], "rows": rows})
            continue
        ps = {f: one_pool(r, pool[t, f]) for f in fields(tb)}
        if fl == "pan":
            ps = {f: settle(r, c) for f, c in ps.items()}
        rows, seen = [], set()
        for _ in range(r.randint(0, nmax)):
            row = [r.choice(ps[f]) for f in fields(tb)]
            if big and r.random() < 0.4 and ps[fields(tb)[-1]][0]["k"] in ("num", "inf"):
                row[-1] = r.choice(big)
            k = tuple(norm_key(flat(d, v)) for v in row[:len(tb["pk"])])
            if tb["pk"] and k in seen:
                continue
            seen.add(k)
            rows.append(row)
        out.append({"t": t, "cols": [], "rows": rows})
    return out


def flat(d, v):
    """what the infinity flag may make of a key"""
    inf = d.get("inf", st("N/A"))
    if inf["k"] == "num" and v["k"] in ("num", "inf"):
        big = v["k"] == "inf" or abs(v["n"]) >= inf["n"]
        return (PINF if v["n"] > 0 else MINF) if big else v
    if inf["k"] == "null" and v["k"] in ("inf", "null"):
        return NULL
    return v


def settle(r, vals):
    """frames: numbers and booleans do not share a column"""
    ks = {v["k"] for v in vals}
    if "bool" in ks and (ks & {"num", "inf", "str"}):
        vals = [v for v in vals if v["k"] != "bool"]
    if "date" in ks and len(ks - {"null", "str"}) > 1:
        vals = [v for v in vals if v["k"] == "date"]
    return vals


def write(o, s, fmt, r=None, **kw):
    e = {"op": "write", "o": o, "s": s, "fmt": fmt, "pretty": False, "ov": False, "form": "lists", "exists": "replace", "hdr": True,
         "schema": False, "dialect": ""}
    e.update(kw)
    return e


def read(f, s, o2, **kw):
    e = {"op": "read", "f": f, "s": s, "o2": o2, "fill": False, "tinf": True, "freeze": False}
    e.update(kw)
    return e


def w_opts(r, fl, fmt, d):
    kw = {"pretty": r.random() < 0.3 and fmt in ("csv", "xls", "xlsx") or (fl == "pan" and r.random() < 0.3)}
    kw["schema"] = fmt == "sqltext" and r.random() < 0.5 and not any(t["kind"] == "generic" for t in d["tables"])
    if fmt == "json":
        special = any(t["kind"] in ("generic", "gen") for t in d["tables"])
        kw["form"] = r.choice(["lists", "dicts", "split"]) if fl == "tic" else r.choice(["lists", "split"]) if not special else "split"
        kw["pretty"] = kw["pretty"] and kw["form"] == "split" and fl == "pan"
    if fl == "tic" and fmt == "csv":
        kw["hdr"] = r.random() < 0.8 or any(t["kind"] == "generic" for t in d["tables"])
        kw["dialect"] = r.choice(["", "", "excel-tab", "unix"])
    if fl == "tic" and fmt in ("sqlite", "sqltext", "json"):
        kw["pretty"] = False
    return kw


def mkd(r, fl, f, o, tabs):
    return mk(f, o, tabs, obj=fl == "pan" and r.random() < 0.3, labels=r.choice(["", "", "rev", "gap"]) if fl == "pan" else "")


def rt_scenario(r, fl, fmt=None, flag=None, params=0.3, special=0.15, kinds=None):
    """write a data set, read it back; into several formats; also with other schemas and in the other flavour"""
    flag = some_flag(r) if flag is None else flag
    fmts = [fmt] if fmt else r.sample(TIC_FMTS if fl == "tic" else PAN_FMTS, 2)
    d, pool = store_schema(r, fl, flag=flag, params=params, generic=special if r.random() < 0.5 else 0, gen=special, kinds=kinds)
    with_flag(r, d, flag)
    clumsy = (["''", "'q'"] if "sqltext" in fmts else []) + (["nan"] if fl == "tic" else ["1_000"])
    pool = {k: [v for v in vs if v["s"] not in clumsy or v["k"] != "str"] for k, vs in pool.items()}
    big = [intv(20000), intv(-20000), intv(9999), intv(10000)] if flag in ("num",) else None
    if r.random() < 0.3:
        d["munge"] = False
    d["links"] = False
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, mkd(r, fl, "F", "A", store_data(r, fl, d, pool, big=big))]
    gens = any(t["kind"] == "gen" for t in d["tables"])
    for i, m in enumerate(fmts):
        s = "s%d" % i
        sc.append(write("A", s, m, **w_opts(r, fl, m, d)))
        sc.append(read("F", s, "B%d" % i, tinf=not gens or r.random() < 0.2, freeze=fl == "tic" and r.random() < 0.15))
        if r.random() < 0.25 and not any(t["kind"] == "generic" for t in d["tables"]):
            # once more from what was read
            sc.append(write("B%d" % i, "r" + s, m, **w_opts(r, fl, m, d)))
            sc.append(read("F", "r" + s, "C%d" % i, tinf=not gens))
    return {"ops": sc}


def cross_scenario(r, fl):
    """files written by one flavour, read by both"""
    other = "pan" if fl == "tic" else "tic"
    flag = some_flag(r, 0.3)
    d, pool = store_schema(r, fl, flag=flag, params=0.2, pkless=0.3,
                           kinds=["num", "num", "int", "text", "untyped", "untext", "multi", "date", "nulltext"])
    with_flag(r, d, flag)
    d["links"] = False
    pool = safe_pool(safe_pool(pool, "tic"), "pan")
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, {"op": "mkfac", "f": "G", "fl": other, "desc": d},
          mkd(r, fl, "F", "A", store_data(r, "pan", d, pool))]
    for i, m in enumerate(r.sample(["csv", "json", "json", "sqlite", "xlsx"], 2)):
        s = "s%d" % i
        opts = w_opts(r, fl, m, d)
        opts.update(hdr=True, dialect="")
        if fl == "tic" and m == "json":
            opts["form"] = r.choice(["lists", "split"])
        sc.append(write("A", s, m, **opts))
        sc.append(read("F", s, "B%d" % i))
        sc.append(read("G", s, "C%d" % i))
        if r.random() < 0.3:
            sc.append(write("C%d" % i, "r" + s, m, hdr=True, form=opts.get("form", "lists")))
            sc.append(read("F", "r" + s, "D%d" % i))
    return {"ops": sc}


def io_scenario(r, fl):
    """writing, reading and searching, again and again: nothing but the file changes"""
    flag = some_flag(r, 0.4)
    d, pool = store_schema(r, fl, flag=flag, params=0.3)
    with_flag(r, d, flag)
    d["links"] = False
    pool = safe_pool(pool, fl)
    data = store_data(r, fl, d, pool)
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, mkd(r, fl, "F", "A", data)]
    gens = any(t["kind"] == "gen" for t in d["tables"])
    for i in range(r.randint(3, 6)):
        x = r.random()
        if x < 0.45:
            m = r.choice(TIC_FMTS if fl == "tic" else PAN_FMTS)
            sc.append(write("A", "s%d" % i, m, **w_opts(r, fl, m, d)))
            if r.random() < 0.4:
                sc.append(read("F", "s%d" % i, "B%d" % i, tinf=not gens))
        elif x < 0.7:
            sc.append(gen.finddt("A"))
        elif x < 0.8:
            sc.append(gen.findfk("A"))
        elif fl == "tic" and x < 0.9:
            sc.append({"op": "fullparams", "o": "A"})
        else:
            sc.append(gen.findrow("A"))
    return {"ops": sc}


# ------------------------------------------------------------------ stores somebody else wrote
def raw(fmt, v):
    k = v["k"]
    if fmt == "csv":
        if k == "null":
            return st("")
        if k == "num":
            return st(str(v["n"] // 4) if v["n"] % 4 == 0 else repr(v["n"] / 4))
        if k == "inf":
            return st("inf" if v["n"] > 0 else "-inf")
        if k == "bool":
            return st("True" if v["n"] else "False")
        return st(v["s"])
    if k == "date":
        return v if fmt in ("xls", "xlsx") else st(v["s"])
    if k == "inf" and fmt in ("xls", "xlsx"):
        return st("inf" if v["n"] > 0 else "-inf")
    if k == "bool" and fmt == "sqlite":
        return intv(v["n"])
    if k == "str" and v["s"] == "" and fmt in ("xls", "xlsx"):
        return NULL
    return v


def spell(r, n, p=0.5):
    """another spelling of a table name"""
    if r.random() > p:
        return n
    part = "".join(r.choice("_ ") if c == "_" else c for c in n)
    return r.choice([n.upper(), n.lower(), n.title(), n.replace("_", " "), n.replace("_", " ").upper(), n.replace("_", " ").title(), part, part])


def spellf(r, f, p=0.4):
    if r.random() > p:
        return f
    return r.choice([f.upper(), f.lower(), f.title(), f.swapcase()])


def put_tabs(r, fl, fmt, d, data, hdr=True, names=0.0, flds=0.0, order=0.5, extra=0.0, missing=0.0, twice=0.0, mtab=0.0, xtab=0.0, form="lists",
             offs=None, blanks=0.0, inner=0.0, aff=0.0, natail=0.0):
    """raw tables holding the data, in some disguise"""
    out = []
    for x in data:
        tb = next(t for t in d["tables"] if t["t"] == x["t"])
        if r.random() < mtab:
            continue
        cols = fields(tb) if tb["kind"] != "generic" else list(x["cols"])
        rows = [[raw(fmt, v) for v in row] for row in x["rows"]]
        if fl == "tic" and not rows and (tb["kind"] == "generic" or (not hdr and fmt in ("xls", "xlsx"))):
            continue
        ix = list(range(len(cols)))
        named = hdr and form != "lists" or (hdr and fmt != "json")
        if named and r.random() < order:
            r.shuffle(ix)
        cols = [cols[j] for j in ix]
        rows = [[row[j] for j in ix] for row in rows]
        mine = list(cols)
        if named and cols and r.random() < missing and len(cols) > 1:
            j = r.randrange(len(cols))
            cols = cols[:j] + cols[j + 1:]
            rows = [row[:j] + row[j + 1:] for row in rows]
        if named and fmt != "json":
            cols = [spellf(r, c, flds) for c in cols]
            mine = list(cols)
        if named and r.random() < extra and not (form == "dicts"):
            j = r.randint(0, len(cols))
            nm = r.choice(["extra", "Other col", "zz"] + ([r.choice(mine) + " ", " " + r.choice(mine)] if mine else []))
            if r.random() < twice and fmt in ("csv", "xls", "xlsx") and fl == "tic" and cols:
                nm = r.choice(cols).swapcase()
            xs = [raw(fmt, r.choice([intv(7), st("w")])) for _ in rows]
            cols = cols[:j] + [nm] + cols[j:]
            rows = [row[:j] + [c] + row[j:] for row, c in zip(rows, xs)]
        blank = st("") if fmt == "csv" else NULL
        if cols:
            for _ in range(r.randint(1, 3)):
                if rows and r.random() < inner:
                    j = r.randint(0, len(rows))
                    rows = rows[:j] + [[blank] * len(cols)] * r.randint(1, 2) + rows[j:]
            if r.random() < blanks:
                for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8])):
                    row = [blank] * len(cols)
                    if natail and r.random() < natail:
                        for j, c in enumerate(cols):
                            if r.random() < 0.6:        # what pandas takes for nothing; or nothing but an undeclared field
                                row[j] = st(r.choice(["NA", "null", "n/a"])) if c in mine else r.choice([NULL, NULL, intv(7)])
                    rows = rows + [row]
        if not hdr and fmt in ("xls", "xlsx") and all(c == NULL for row in rows for c in row):
            continue            # nothing but blank rows: no telling how wide
        name = spell(r, x["t"], names)
        a = [r.choice(["num", "text", ""]) for _ in cols] if fmt == "sqlite" and r.random() < aff else []
        if fmt in ("xls", "xlsx"):
            name = name[:r.choice([30, 31])]
        out.append({"name": name, "form": "cols" if fmt != "json" else form, "cols": cols if named else [], "aff": a, "rows": rows})
        if r.random() < twice * 0.7:
            other = spell(r, x["t"], 1.0)[:30 if fmt in ("xls", "xlsx") else 99]
            if other != name and (other.lower() != name.lower() or fmt in ("csv", "json")):
                out.append(dict(out[-1], name=other))
    if r.random() < xtab or (fmt in ("xls", "xlsx") and not out):
        out.append({"name": "unrelated", "form": "cols" if fmt != "json" else form, "cols": ["u1", "u2"] if fmt != "json" or form != "lists" else [],
                    "aff": [], "rows": [[raw(fmt, intv(1)), raw(fmt, st("w"))]]})
    seen, res = set(), []
    for t in sorted(out, key=lambda t: t["name"]):
        k = t["name"].lower() if fmt in ("sqlite", "xls", "xlsx") else t["name"]
        if k not in seen:
            seen.add(k)
            res.append(t)
    return res


def put(s, fmt, tabs, hdr=True, offs=None, dialect=""):
    return {"op": "put", "s": s, "fmt": fmt, "tabs": tabs, "hdr": hdr, "schema": False, "dialect": dialect, "offs": offs or {}}


PUT_TIC = ["csv", "json", "sqlite", "xls", "xlsx"]
PUT_PAN = ["csv", "json", "sqlite", "xls", "xlsx"]


def safe_pool(pool, fl, flag=""):
    bad = ["nan", "''", "'q'", "1_000"]
    return {k: [v for v in vs if not (v["k"] == "str" and v["s"] in bad)] or vs for k, vs in pool.items()}


def names_scenario(r, fl):
    """how tables and fields of a store are matched with those of the schema"""
    flag = some_flag(r, 0.2)
    d, pool = store_schema(r, fl, flag=flag, params=0.15, generic=0.15 if r.random() < 0.3 else 0, gen=0.1,
                           kinds=["num", "num", "text", "text", "untext", "untyped", "multi", "date"], tnames=TNAMES + ["Ab_c", "My_T"])
    with_flag(r, d, flag)
    d["links"] = False
    pool = safe_pool(pool, fl)
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    gens = any(t["kind"] == "gen" for t in d["tables"])
    generic = any(t["kind"] == "generic" for t in d["tables"])
    for i in range(2):
        fmt = r.choice(PUT_TIC if fl == "tic" else PUT_PAN)
        data = store_data(r, fl, d, pool, nmax=3)
        form = r.choice(["lists", "dicts"]) if fl == "tic" else "split" if generic else r.choice(["lists", "split"])
        hdr = fl == "pan" or fmt not in ("csv", "xls", "xlsx") or generic or r.random() < 0.85
        hard = r.random()
        offs = None
        tabs = put_tabs(r, fl, fmt, d, data, hdr=hdr, names=0.6, flds=0.5 if fl == "tic" else 0.15, extra=0.35,
                        missing=0.25 if hard < 0.5 else 0, twice=0.25 if hard > 0.7 else 0, mtab=0.2, xtab=0.3, form=form)
        if form == "dicts" and fmt == "json":
            tabs = [t for t in tabs if t["name"] != "unrelated"]
        if fl == "tic" and fmt in ("xls", "xlsx") and r.random() < 0.35 and not generic:
            offs = {t["name"]: r.randint(0, 3) for t in tabs if r.random() < 0.6 and (hdr or t["rows"])}
        sc.append(put("s%d" % i, fmt, tabs, hdr, offs))
        sc[-1]["bare"] = r.random() < 0.4
        sc.append(read("F", "s%d" % i, "B%d" % i, fill=fl == "pan" and r.random() < 0.5, tinf=not gens))
    return {"ops": sc}


def trail_scenario(r, fl):
    """empty rows, at the end and inside of sheets"""
    flag = some_flag(r, 0.3)
    d, pool = store_schema(r, fl, flag=flag, params=0.1, kinds=["num", "num", "int", "text", "untext", "untyped", "nulltext"], pkless=0.45)
    with_flag(r, d, flag)
    d["links"] = False
    if r.random() < 0.5:
        d["trail"] = "ignore"
    pool = safe_pool(pool, fl)
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    fmt = "xlsx" if r.random() < 0.85 else r.choice(["csv", "xls"])
    for i in range(2):
        data = store_data(r, fl, d, pool, nmax=r.choice([1, 3, 6]))
        hdr = fl == "pan" or r.random() < 0.8
        tabs = put_tabs(r, fl, fmt, d, data, hdr=hdr, blanks=0.75 if fmt == "xlsx" else 0, inner=0.3 if fmt == "xlsx" else 0, extra=0.15, names=0.2,
                        natail=r.choice([0, 0.5, 1]) if hdr and (fl == "pan" or r.random() < 0.2) else 0)
        offs = {t["name"]: r.randint(0, 3) for t in tabs if r.random() < 0.6 and (hdr or t["rows"])} if fl == "tic" and r.random() < 0.3 else None
        sc.append(put("s%d" % i, fmt, tabs, hdr, offs))
        sc[-1]["bare"] = r.random() < 0.5
        sc.append(read("F", "s%d" % i, "B%d" % i))
        if fl == "tic" and r.random() < 0.3:
            sc.append({"op": "fdup", "f": "F", "s": "s%d" % i})
    return {"ops": sc}


def fdup_scenario(r):
    """duplicated keys in files"""
    flag = some_flag(r, 0.2)
    d, pool = store_schema(r, "tic", flag=flag, params=0.1, pkless=0.15, kinds=["num", "int", "text", "untext", "untyped", "multi"])
    with_flag(r, d, flag)
    d["links"] = False
    d["dups"] = r.choice(["assert", "warn", "ignore"])
    pool = {k: r.sample(vs, min(len(vs), 3)) for k, vs in safe_pool(pool, "tic").items()}
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": d}]
    for i in range(2):
        fmt = r.choice(PUT_TIC)
        data = []
        for tb in d["tables"]:
            ps = pool.get((tb["t"], ""))
            rows = []
            for _ in range(r.randint(0, 5)):
                rows.append([r.choice(pool.get((tb["t"], f)) or ps + [st("p2")]) for f in fields(tb)])
            if tb["t"] == "parameters":
                rows = [[st(r.choice(["p2", "p one"])), intv(r.randint(0, 3))] for _ in rows]
            data.append({"t": tb["t"], "cols": [], "rows": rows})
        hdr = fmt not in ("csv", "xls", "xlsx") or r.random() < 0.85
        sc.append(put("s%d" % i, fmt, put_tabs(r, "tic", fmt, d, data, hdr=hdr, names=0.2, flds=0.2, mtab=0.1,
                                               form="lists"), hdr))
        sc.append({"op": "fdup", "f": "F", "s": "s%d" % i})
        sc.append(read("F", "s%d" % i, "B%d" % i))
        sc.append({"op": "fdup", "f": "F", "s": "s%d" % i})
    return {"ops": sc}


def flag_scenario(r, fl):
    """infinities and nulls under an infinity flag, written and read, also from stores of others"""
    flag = r.choice(["null", "num"])
    d, pool = store_schema(r, fl, flag=flag, params=0.35, kinds=["num", "num", "int", "multi", "multi", "untyped", "text", "untext"], gen=0.1)
    with_flag(r, d, flag)
    d["links"] = False
    if r.random() < 0.3:
        d["munge"] = False
    edge = [PINF, MINF]
    if flag == "num":
        n = d["inf"]["n"]
        edge += [V("num", n), V("num", -n), V("num", n + 1), V("num", n - 1), V("num", -n - 1), V("num", 1 - n), V("num", 3 * n)]
    else:
        edge += [NULL, NULL]
    pool = safe_pool(pool, fl)
    pool = {k: vs + edge * 2 if vs and all(v["k"] in ("num", "inf", "null", "str") for v in vs) and any(v["k"] == "num" for v in vs) and k[0] != "parameters"
            else vs for k, vs in pool.items()}
    if ("parameters", "") in pool and not d["params"]:      # the parameters table has no part in it
        pool["parameters", ""] = pool["parameters", ""] + [v for v in edge if v["k"] != "null"] * 2
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    gens = any(t["kind"] == "gen" for t in d["tables"])
    for i in range(2):
        data = store_data(r, fl, d, pool)
        if r.random() < 0.5:
            fmt = r.choice(TIC_FMTS if fl == "tic" else PAN_FMTS)
            sc += [mkd(r, fl, "F", "A%d" % i, data), write("A%d" % i, "s%d" % i, fmt, **w_opts(r, fl, fmt, d))]
        else:
            fmt = r.choice(PUT_TIC if fl == "tic" else PUT_PAN)
            tabs = put_tabs(r, fl, fmt, d, data, form=r.choice(["lists", "dicts"]) if fl == "tic" else r.choice(["lists", "split"]))
            sc.append(put("s%d" % i, fmt, tabs))
        sc.append(read("F", "s%d" % i, "B%d" % i, tinf=not gens))
    return {"ops": sc}


def ov_scenario(r, fl):
    """writing where something is already"""
    flag = some_flag(r, 0.15)
    d, pool = store_schema(r, fl, flag=flag, generic=0.2 if fl == "tic" and r.random() < 0.3 else 0, params=0.1,
                           kinds=["num", "num", "text", "untext", "multi", "date"])
    with_flag(r, d, flag)
    d["links"] = False
    pool = safe_pool(pool, fl)
    fmt = r.choice((TIC_FMTS if fl == "tic" else PAN_FMTS) + (["csv", "sqlite"] if fl == "tic" else ["sqlite", "sqlite"]))
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    gens = any(t["kind"] == "gen" for t in d["tables"])
    generic = any(t["kind"] == "generic" for t in d["tables"])
    for i in range(2):
        sc.append(mkd(r, fl, "F", "A%d" % i, store_data(r, fl, d, pool, nmax=3)))
    if r.random() < 0.4 and len(d["tables"]) > 1:      # a schema with part of the tables
        d2 = dict(d, tables=d["tables"][:-1])
        keep = {t["t"] for t in d2["tables"]}
        d2["dt"] = [x for x in d["dt"] if x["t"] in keep]
        d2["dv"] = [x for x in d["dv"] if x["t"] in keep]
        d2["params"] = d["params"] if "parameters" in keep else []
        sc.append({"op": "mkfac", "f": "G", "fl": fl, "desc": d2})
        sc.append(mkd(r, fl, "G", "P", store_data(r, fl, d2, pool, nmax=3)))
    objs = [x["o"] for x in sc if x["op"] == "mk"]
    opts = w_opts(r, fl, fmt, d)
    if r.random() < 0.45 and fmt != "sqltext":
        data = store_data(r, fl, d, pool, nmax=2 if r.random() < 0.6 else 0)
        form = "split" if opts.get("form") == "split" else "lists"
        hdr = opts.get("hdr", True)
        if fl == "pan" and fmt == "sqlite":
            opts["pretty"] = False       # SQLite cannot tell names apart that pandas can
        tabs = put_tabs(r, fl, fmt, d, data, names=0.2 if fl == "tic" else 0, mtab=0.25, xtab=0.5, form=form, hdr=hdr, 
                        missing=0.1 if fmt == "sqlite" and fl == "tic" else 0, order=0.3)
        sc.append(put("s", fmt, tabs, hdr, dialect=opts.get("dialect", "")))
    for i in range(r.randint(2, 4)):
        o = r.choice(objs)
        sc.append(write(o, "s", fmt, ov=r.random() < 0.5, exists=r.choice(["replace", "fail", "append"]), **opts))
        if r.random() < 0.4:
            sc.append(read("F", "s", "B%d" % i, tinf=not gens))
    return {"ops": sc}

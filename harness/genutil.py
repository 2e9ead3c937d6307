"""Scenario generators: obfuscation, slices, the command line runner."""
from values import V, NULL, PINF, MINF, num, intv, st, boolv, date
from gen import table, desc, fields, mk, removefk, findfk, norm_key
import genobj

KEYS = {"int": [intv(0), intv(1), intv(2), intv(30)], "str": [st("a"), st("b"), st("c d"), st("P1")],
        "mix": [intv(0), intv(1), st("a"), st("b"), num(2)], "null": [NULL, st("a"), st("b")], "date": [date("2020-01-02T00:00:00"), date("2021-12-31T00:00:00")]}
TN = ["products", "plants", "i", "I_", "p", "Pi", "lines", "123", "pp", "demand", "ii"]


def obf_scenario(r, fl="tic"):
    tables, fks = genobj.link_schema(r)
    if r.random() < 0.6:
        ren = dict(zip([t["t"] for t in tables], r.sample(TN, len(tables))))
        tables = [dict(t, t=ren[t["t"]]) for t in tables]
        fks = [dict(k, nt=ren[k["nt"]], ft=ren[k["ft"]]) for k in fks]
    d = desc(tables, fks, links=False, dups="ignore")
    if fl == "tic" and r.random() < 0.08:
        d["tables"] = tables = tables + [table("gent", [], ["x"], "gen")]
    elif r.random() < 0.1:
        d["tables"] = tables = tables + [table("gent", [], [], "generic")]
    pool = KEYS[r.choice(["int", "str", "str", "mix", "null" if fl == "tic" else "int", "date"])]
    tabs = []
    for tb in tables:
        if tb["kind"] == "generic":
            tabs.append({"t": tb["t"], "cols": ["p", "q"], "rows": [[intv(1), st("a")], [intv(2), st("b")]]})
            continue
        rows, seen = [], set()
        big = r.choice([30, 60, 110]) if len(tb["pk"]) == 1 and r.random() < 0.02 else 0
        for i in range(big or r.randint(1, 6)):
            row = [r.choice(pool) for _ in fields(tb)]
            if big:
                row[0] = intv(i)
            k = tuple(norm_key(v) for v in row[:len(tb["pk"])])
            if tb["pk"] and k in seen:
                continue
            seen.add(k)
            rows.append(row)
        tabs.append({"t": tb["t"], "cols": [], "rows": rows})
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, mk("F", "A", tabs, labels=r.choice(["", "", "rev", "gap"]) if fl == "pan" else "")]
    if r.random() < 0.9:
        sc.append(removefk("A"))
    singles = [t["t"] for t in tables if len(t["pk"]) == 1]
    for i in range(r.randint(1, 2)):
        pre, skip = [], []
        for t in singles + ([r.choice(tables)["t"]] if r.random() < 0.1 else []):
            x = r.random()
            if x < 0.3:
                p = r.choice(["P", "PX", "Q", "PI" if r.random() < 0.3 else "PIP", "A", "p" if r.random() < 0.3 else "ZZ", ""  if r.random() < 0.2 else "B"])
                pre.append({"t": t, "p": p, "ok": all(c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" for c in p) and not p.endswith("I")})
            elif x < 0.5:
                skip.append(t)
            if x < 0.03:
                skip.append(t)
        pre = list({x["t"]: x for x in pre}.values())
        sc.append({"op": "obf", "o": "A", "o2": "B%d" % i, "pre": pre, "skip": skip, "freeze": fl == "tic" and r.random() < 0.25})
        if r.random() < 0.4:
            sc.append(findfk("B%d" % i))
        if r.random() < 0.3:
            sc.append({"op": "obf", "o": "B%d" % i, "o2": "C%d" % i, "pre": [], "skip": [], "freeze": False})
    return {"ops": sc}


TUP = V("other", 0, "tuple:('a', 1)")
TUP2 = V("other", 0, "tuple:('b', 'c')")
IXV = {"plain": [intv(0), intv(1), intv(2), st("a"), st("b"), st("")], "str": [st("a"), st("b"), st("c")], "tup": [TUP, TUP2, st("a"), intv(1)],
       "odd": [NULL, boolv(True), intv(1), intv(0), num(2), PINF, st("A"), st("a"), date("2020-01-02T00:00:00")], "star": [st("*"), st("a"), st("b")]}


def slicer_scenario(r):
    seqs = []
    for i in range(r.randint(1, 2)):
        sc = []
        seqs.append(sc)
        k = r.choice(["plain", "plain", "str", "tup", "odd", "odd", "tup"] + (["star"] if r.random() < 0.15 else []))
        w = r.randint(1, 4)
        pools = [r.sample(IXV[k], r.randint(2, len(IXV[k]))) for _ in range(w)]
        rows = [[r.choice(p) for p in pools] for _ in range(r.randint(0, 8))]
        rows += [list(r.choice(rows)) for _ in range(r.randint(0, 2)) if rows]
        if r.random() < 0.07 and rows:
            rows[-1] = rows[-1] + [st("a")]
        sid = "L%d" % i
        sc.append({"op": "slicer", "id": sid, "rows": rows, "how": r.choice(["lists", "tuples", "tuples", "gen"]), "opt": r.random() < 0.5})
        for _ in range(r.randint(3, 10)):
            x = r.random()
            if x < 0.08:
                sc.append({"op": "sclear", "id": sid, "how": r.choice(["clear", "clear", "gout"])})
                continue
            base = r.choice(rows) if rows and r.random() < 0.7 else [r.choice(p + [TUP, TUP2] if r.random() < 0.2 else p) for p in pools]
            star = r.choice([0.2, 0.5, 0.8, 1])
            pat = [st("*") if r.random() < star else v for v in base]
            if r.random() < 0.05:
                pat = pat[:-1] if r.random() < 0.5 else pat + [st("*")]
            sc.append({"op": "slice", "id": sid, "pat": pat, "spoil": r.random() < 0.3})
    out = []
    while any(seqs):
        out.append(r.choice([s for s in seqs if s]).pop(0))
    return {"ops": out}


# ------------------------------------------------------------------ the command line runner
import genstore
from genstore import NUMS, T, DATES, TIC_FMTS, PAN_FMTS
from gen import rand_pred


def main_schema(r, fl, errs):
    """a schema with types, foreign keys, predicates and parameters, and data that breaks them more or less"""
    flag = genstore.some_flag(r, 0.2)
    d, pool = genstore.store_schema(r, fl, flag=flag, params=0.3, pkless=0.3, generic=0.12, gen=0 if errs else 0.1,
                                    kinds=["num", "num", "int", "text", "text", "untyped", "untyped", "untext", "date", "nulltext"])
    genstore.with_flag(r, d, flag)
    pool = genstore.safe_pool(pool, fl)
    for x in d["dt"]:
        if x["ty"]["num"]:
            x["ty"]["dt"] = False  # numbers read as dates, such as the year -9999, cannot always be written
            tf = x["t"], x["f"]
            pool[tf] = [v for v in pool[tf] if v["k"] != "date"] or NUMS[:4]
    hard = ["", "inf", "-inf", "None", "none", "NA", "null", "Infinity", "cr\rcr", "crlf\r\nx"]
    pool = {k: [v for v in vs if not (v["k"] == "str" and v["s"] in hard)] or vs for k, vs in pool.items()}
    std = [t for t in d["tables"] if t["kind"] == "std" and t["t"] != "parameters"]
    kind = lambda t, f: sorted({v["k"] for v in pool[t, f]} - {"null", "inf"})
    fks = []
    flds = [(t, f) for t in std for f in fields(t)]
    for _ in range(r.choice([0, 1, 1, 2])):
        if not std:
            break
        ft = r.choice(std)
        ff = list(ft["pk"]) if ft["pk"] and r.random() < 0.8 else r.sample(fields(ft), min(len(fields(ft)), r.randint(1, 2)))
        nt = r.choice(std)
        m = []
        for f in ff:
            c = [x for x in fields(nt) if kind(nt["t"], x) == kind(ft["t"], f) and x not in [a for a, _ in m]]
            if c:
                m.append([r.choice(c), f])
        if len(m) == len(ff) and not (nt is ft and all(a == b for a, b in m)):
            k = {"nt": nt["t"], "ft": ft["t"], "m": m}
            if not any(x["nt"] == k["nt"] and x["ft"] == k["ft"] for x in fks):
                fks.append(k)
    d["fks"] = fks
    infk = {(k["nt"], p[0]) for k in fks for p in k["m"]} | {(k["ft"], p[1]) for k in fks for p in k["m"]}
    for tf in infk:
        pool[tf] = r.sample([v for v in pool[tf] if v["k"] not in ("null", "inf")] or NUMS[:4], 2)
    makers = [{"id": "m0", "m": "count", "t": r.choice(std)["t"], "home": fl}] if std and r.random() < 0.4 else []
    preds = []
    for i in range(r.choice([0, 0, 1, 2])):
        if not std:
            break
        p = rand_pred(r, r.choice(std), "pr%d" % i if r.random() < 0.8 else "#%d" % i, fl, makers, std)
        if p["e"] in ("raise", "xeq"):
            p["e"] = "true" if r.random() < 0.5 else "ge"
            p["v"] = intv(1)
        if p["resp"] == "Error Message":
            p["tru"] = "bool"
        if p["e"] == "lim" and not p["mk"]:
            p["e"] = "true"
        if not any((q["t"], q["name"]) == (p["t"], p["name"]) or q["name"][0] == "#" and p["name"][0] == "#" for q in preds):
            preds.append(p)
    d["preds"] = preds
    d["links"] = False
    return d, pool, infk


def main_data(r, fl, d, pool, infk, bad):
    data = genstore.store_data(r, fl, d, pool, nmax=4)
    for x in data:
        tb = next(t for t in d["tables"] if t["t"] == x["t"])
        if tb["kind"] == "generic" or x["t"] == "parameters":
            if x["t"] == "parameters" and r.random() < bad and x["rows"]:
                x["rows"].append([st("unheard of"), r.choice([intv(1), st("x")])])
            continue
        for row in x["rows"]:
            for j, f in enumerate(fields(tb)):
                if j >= len(tb["pk"]) and r.random() < bad / 3:
                    row[j] = r.choice([intv(-9999), st("odd one"), intv(77)] + ([NULL] if (x["t"], f) not in infk else []))
        if fl == "pan" and x["rows"] and r.random() < bad / 3:
            x["rows"].append(list(r.choice(x["rows"])))
    return data


def main_scenario(r, fl):
    errs = r.random() < 0.65
    d, pool, infk = main_schema(r, fl, errs)
    bad = r.choice([0, 0, 0.4, 1]) if errs else 0.3
    if bad == 0 and errs and r.random() < 0.7:
        d["preds"] = [p for p in d["preds"] if p["e"] in ("true", "isnull")]
        if r.random() < 0.6:
            d["fks"], d["preds"] = [], []
    g, gpool = genstore.store_schema(r, fl, params=0.1, kinds=["num", "text", "untext", "untyped"], generic=0.1)
    g["links"] = False
    gpool = genstore.safe_pool(gpool, fl)
    fmts = TIC_FMTS if fl == "tic" else PAN_FMTS
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, {"op": "mkfac", "f": "G", "fl": fl, "desc": g}]
    for i in range(2):
        sc.append(genstore.mkd(r, fl, "G", "R%d" % i, genstore.store_data(r, fl, g, gpool, nmax=3)))
    generic = any(t["kind"] == "generic" for t in d["tables"])
    s = r.choice(["in", "in", "input"])
    fmt = "xlsx" if s == "input" else r.choice([f for f in fmts if not (generic and f == "json") or r.random() < 0.2])
    out = r.choice(["out", "out", "output"])
    fmt2 = "xlsx" if out == "output" else r.choice(fmts)
    fmt3 = r.choice(PAN_FMTS + ["json"])
    data = main_data(r, fl, d, pool, infk, bad)
    x = r.random()
    if x < 0.12:
        s = ""
    elif x < 0.45 and fmt != "sqltext":
        if fl == "tic" and r.random() < 0.35:
            for q in data:                       # duplicates in a file
                if q["rows"] and q["t"] != "parameters":
                    q["rows"].append(list(r.choice(q["rows"])))
        data = [q for q in data if q["rows"] or next(t for t in d["tables"] if t["t"] == q["t"])["kind"] != "generic"]
        form = "split" if generic and fmt == "json" else "lists"
        tabs = genstore.put_tabs(r, fl, fmt, d, data, names=0.3, mtab=0.1, extra=0.15, order=0.5, missing=0.08, form=form)
        if fl == "tic" and fmt == "sqlite" and r.random() < 0.5:
            fmt = "mdb"
        sc.append(genstore.put(s, fmt, tabs))
    else:
        sc.append(genstore.mkd(r, fl, "F", "A", data))
        opts = genstore.w_opts(r, fl, fmt, d)
        opts.update(hdr=True, dialect="", schema=False)
        sc.append(genstore.write("A", s, fmt, **opts))
    pretty = r.random() < 0.3
    for i in range(r.randint(1, 3)):
        sc.append({"op": "main", "f": "F", "f2": "G", "s": s, "fmt": fmt, "s2": out, "fmt2": fmt2, "s3": "err" if errs and r.random() < 0.85 else "", "fmt3": fmt3,
                   "sol": "R%d" % r.randint(0, 1), "o2": "B%d" % i, "mode": r.choice(["sol", "sol", "sol", "msgsol", "none", "false", "msgnone", "raise"]),
                   "pretty": pretty, "long": r.randint(0, 1), "help": r.choice(["-h", "--help"]) if r.random() < 0.03 else "",
                   "defi": r.random() < 0.7, "defo": r.random() < 0.7})
        if r.random() < 0.3:
            sc.append(genstore.read("G", out, "C%d" % i))
    return {"ops": sc}

"""Scenario generators: Access files."""
from values import NULL, num, intv, st
import gen
from gen import fields, table
from genstore import TNAMES, store_schema, store_data, put_tabs, put, read, write, safe_pool, mkd, with_flag, some_flag

NAMES = TNAMES[:5] + ["order", "Group"]
KINDS = ["num", "int", "text", "text", "untext", "untyped", "nulltext"]


def what(d, pool, t, f):
    """what kind of column holds the field"""
    vs = [v for v in pool[t, f] if v["k"] != "null"]
    if vs and all(v["k"] == "str" for v in vs):
        return "text"
    return "int" if vs and all(v["k"] == "num" and v["n"] % 4 == 0 and v["s"] == "" for v in vs) else "double"


def schema(r, generic=0.0, params=0.2, pkless=0.25):
    flag = r.choice(["", "num", "num", "null", "null"])
    d, pool = store_schema(r, "tic", flag=flag, params=params, generic=generic, gen=0.3, kinds=KINDS, tnames=NAMES, pkless=pkless)
    with_flag(r, d, flag)
    d["links"] = False
    pool = safe_pool(pool, "tic")
    if not flag:
        pool = {k: [v for v in vs if v["k"] != "inf"] or [intv(1)] for k, vs in pool.items()}
    forced = []
    for tb in d["tables"]:
        for f in fields(tb):
            if (tb["t"], f) not in pool:
                continue
            k = what(d, pool, tb["t"], f)
            natural = "text" if f in tb["pk"] else "double"
            want = k if k == "text" else r.choice(["int", "double"]) if k == "int" else "double"
            if want != natural or r.random() < 0.2:
                forced.append([tb["t"], f, want])
    for p in d["params"]:
        if p["typed"] and p["ty"]["dt"]:
            p["ty"]["dt"] = False
            p["v"] = intv(5) if p["ty"]["num"] else st("x")
    pool = {k: [v for v in vs if v["k"] != "date"] or [intv(3)] for k, vs in pool.items()}      # no dates in Access files
    r.shuffle(forced)
    return d, pool, forced, flag


def ms(f, s, forced):
    return {"op": "mdbschema", "f": f, "s": s, "fmt": "mdb", "forced": forced}


def part(r, d):
    d2 = dict(d, tables=r.sample(d["tables"], r.randint(1, len(d["tables"]))))
    d2["tables"].sort(key=lambda t: t["t"])
    keep = {t["t"] for t in d2["tables"]}
    d2["dt"] = [x for x in d["dt"] if x["t"] in keep]
    d2["dv"] = [x for x in d["dv"] if x["t"] in keep]
    d2["params"] = d["params"] if "parameters" in keep else []
    return d2, keep


def mdb_scenario(r):
    d, pool, forced, flag = schema(r, generic=0.4 if r.random() < 0.06 else 0)
    big = [intv(20000), intv(-20000), intv(9999), intv(10000)] if flag == "num" else None
    data = lambda x, n=4: store_data(r, "tic", x, pool, nmax=n, big=None)
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": d}]
    for i in range(2):
        sc.append(mkd(r, "tic", "F", "A%d" % i, data(d)))
    objs = ["A0", "A1"]
    facs = ["F"]
    if r.random() < 0.4 and len(d["tables"]) > 1:
        d2, keep = part(r, d)
        sc += [{"op": "mkfac", "f": "G", "fl": "tic", "desc": d2}, mkd(r, "tic", "G", "P", data(d2))]
        objs.append("P")
        facs.append("G")
    x = r.random()
    if x < 0.04:
        sc.append(ms("F", "s", []))     # there is no file
        sc.append(put("s", "mdb", []))
    else:
        tabs = put_tabs(r, "tic", "sqlite", d, [], xtab=0.3)
        if r.random() < 0.15:           # a table is there already
            tb = r.choice(d["tables"])
            if tb["kind"] != "generic":
                tabs = sorted(tabs + [{"name": tb["t"], "form": "cols", "cols": fields(tb), "aff": [], "rows": []}], key=lambda t: t["name"])
        sc.append(put("s", "mdb", tabs))
    if r.random() < 0.15 and forced:
        bad = [list(y) for y in forced]
        bad[0][r.randrange(3)] = "nothing"
        sc.append(ms("F", "s", bad))
    if len(facs) > 1 and r.random() < 0.4:
        sc.append(ms("G", "s", [y for y in forced if y[0] in keep]))
        if r.random() < 0.5:
            sc.append(write("P", "s", "mdb", ov=r.random() < 0.5))
    if r.random() < 0.95:
        sc.append(ms("F", "s", forced))
        if r.random() < 0.05:
            sc.append(ms("F", "s", forced))
    gens = any(t["kind"] == "gen" for t in d["tables"])      # these are read from the file whenever they are iterated
    n = r.randint(1, 4)
    for i in range(n):
        sc.append(write(r.choice(objs), "s", "mdb", ov=r.random() < 0.5))
        if r.random() < 0.7 and (i == n - 1 or not gens):
            sc.append(read(r.choice(facs), "s", "B%d" % i, freeze=r.random() < 0.15))
        if r.random() < 0.15:
            sc.append({"op": "fdup", "f": "F", "s": "s"})
    return {"ops": sc}


def found_scenario(r):
    """files that ticdat did not write"""
    d, pool, forced, flag = schema(r, pkless=0.15)
    d["dups"] = r.choice(["assert", "warn", "ignore"])
    pool = {k: r.sample(vs, min(len(vs), 3)) for k, vs in pool.items()}
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": d}]
    for i in range(2):
        data = []
        dup = r.random() < 0.5
        gens = any(t["kind"] == "gen" for t in d["tables"])
        lack = r.random() < 0.4         # key counts don't need the other fields
        again = r.random() < 0.3 and not gens
        for tb in d["tables"]:
            rows = []
            if tb["t"] == "parameters":
                rows = [[st(r.choice(["p2", "p one"])), intv(r.randint(0, 3))] for _ in range(r.randint(0, 3))]
            elif dup:
                rows = [[r.choice(pool[tb["t"], f]) for f in fields(tb)] for _ in range(r.randint(0, 5))]
            else:
                rows = [x["rows"] for x in store_data(r, "tic", d, pool, nmax=3) if x["t"] == tb["t"]][0]
            data.append({"t": tb["t"], "cols": [], "rows": rows})
        sc.append(put("s%d" % i, "mdb", put_tabs(r, "tic", "sqlite", d, data, names=0.4, flds=0 if again else 0.3, extra=0.2, missing=0.2 if lack else 0,
                                                twice=0.2 if r.random() < 0.3 else 0, mtab=0.15, xtab=0.2)))
        if not lack and r.random() < 0.9 and any(t["pk"] for t in d["tables"]):
            sc.append({"op": "fdup", "f": "F", "s": "s%d" % i})
        sc.append(read("F", "s%d" % i, "B%d" % i, freeze=r.random() < 0.1))
        if again:
            sc.append(mkd(r, "tic", "F", "A%d" % i, store_data(r, "tic", d, pool, nmax=2)))
            sc.append(write("A%d" % i, "s%d" % i, "mdb", ov=r.random() < 0.7))
            sc.append(read("F", "s%d" % i, "C%d" % i))
    return {"ops": sc}

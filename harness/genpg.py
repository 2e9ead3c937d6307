"""Scenario generators: PostgreSQL."""
from values import V, NULL, PINF, MINF, num, intv, st, boolv
import gen, genstore
from gen import table, desc, fields, fk_key, mk, rand_fk
from genstore import T, DATES, NUMS, store_data, w_ty, mkd, some_flag, with_flag

TN = ["t1", "my_table", "zeta", "parents", "u_v", "w2x"]
FN = ["a", "Name x", "q 1", "Bee", "c d e", "plant", "KEY", "per%", "2nd"]
NEAR = [V("num", 4 * 3, "3.0000001"), V("num", 4 * 8 - 1, "7.99999999")]
INTS = [v for v in NUMS if v["n"] % 4 == 0]
KEYS = [st(x) for x in ["a", "b", "x y", "it's", "ünï", "A", "c:d", "50%", 'q"r']]
COMP = {"text": "text", "int": "integer", "num": "float", "date": "timestamp", "bool": "bool"}


def schema(r, fl, flag, params=0.2, badnames=0.0, odd=0.0):
    """tables and keys that fit a database, most of the time"""
    names = sorted(r.sample(TN, r.randint(1, 4)))
    if badnames and r.random() < badnames:
        names[0] = r.choice(["Big_Tab", "T9", "Zap"])
    tables, dts, dvs, pool, forced, kinds = [], [], [], {}, [], {}
    for t in names:
        fs = r.sample(FN, r.randint(1, 4))
        if badnames and r.random() < badnames:
            fs.append(r.choice(["order", "User", "current_date", "name-x", "q-1"]))
            fs = sorted(set(fs), key=fs.index)
        p = 0 if r.random() < 0.15 else min(r.choice([1, 1, 1, 2, 2, 3]), len(fs))
        tb = table(t, fs[:p], fs[p:])
        tables.append(tb)
        for f in fields(tb):
            pk = f in tb["pk"]
            kinds[t, f] = r.choice(["text", "text", "int", "num"]) if pk else r.choice(["text", "int", "num", "num", "date", "bool"])
    fks = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        c, p = r.choice(tables), r.choice(tables)
        if not p["pk"] or len(fields(c)) < len(p["pk"]) or (c["t"] == p["t"] and r.random() < 0.8):
            continue
        if c["t"] < p["t"] and r.random() < 0.9:        # circles are rare
            c, p = p, c
            if not p["pk"] or len(fields(c)) < len(p["pk"]):
                continue
        m = list(zip(r.sample(fields(c), len(p["pk"])), r.sample(p["pk"], len(p["pk"]))))
        k = {"nt": c["t"], "ft": p["t"], "m": [list(x) for x in m]}
        if any(fk_key(k) == fk_key(x) or (x["nt"], x["ft"], {a for a, _ in x["m"]}) == (k["nt"], k["ft"], {a for a, _ in m}) for x in fks):
            continue
        if c["t"] == p["t"] and any(a == b for a, b in m):
            continue
        fks.append(k)
    for _ in range(4):
        for k in fks:
            for a, b in k["m"]:
                if r.random() > 0.02:
                    kinds[k["nt"], a] = kinds[k["ft"], b]
    for tb in tables:
        t = tb["t"]
        for f in fields(tb):
            k, pk = kinds[t, f], f in tb["pk"]
            natural = "text" if pk else "num"
            null = r.random() < 0.5 and not pk
            how = "none" if k == natural and r.random() < 0.5 else "forced" if k == "bool" or r.random() < 0.2 else "typed"
            T_ = None
            if how == "typed" or (how == "forced" and k != "bool" and r.random() < 0.4):
                if r.random() < odd:
                    T_ = w_ty(r, "multi") if r.random() < 0.7 else gen.ty(num=False, any=False, strs=[], null=True)
                elif how == "forced" and r.random() < 0.3:
                    T_ = w_ty(r, "multi")
                else:
                    T_ = w_ty(r, k)
                T_["null"] = null
                if flag == "null" and T_["num"] and not T_["dt"] and not null and T_["max"]["k"] == "inf" and T_["imax"] and T_["min"]["k"] == "inf" and T_["imin"]:
                    T_["imin"] = False
                dts.append({"t": t, "f": f, "ty": T_})
            if how == "forced":
                forced.append([t, f, r.choice(["bool", "boolean"]) if k == "bool" else COMP[k]])
            vals = {"text": KEYS if pk or any([t, f] == [x["nt"], y[0]] for x in fks for y in x["m"]) else T + KEYS + [st("12"), st("")],
                    "int": INTS, "num": NUMS + NEAR, "date": DATES, "bool": [boolv(True), boolv(False)]}[k]
            vals = list(vals) if r.random() < 0.6 else list(vals)[:4]
            if k == "num" and r.random() < 0.3:
                vals += [PINF, MINF]
            if k == "int" and flag and r.random() < 0.2:
                vals += [PINF]
            if null and r.random() < 0.8 or (not pk and r.random() < 0.05):
                vals += [NULL] * max(1, len(vals) // 4)
            pool[t, f] = vals
            if not pk and k == "text" and r.random() < 0.9:
                dvs.append({"t": t, "f": f, "v": r.choice([st("x"), st("it's"), st("a:b c"), st("50%"), st("say \"q\""), NULL, NULL, st("\\n")])})
            elif not pk and k in ("num", "int", "date", "bool") and r.random() < 0.4:
                dvs.append({"t": t, "f": f, "v": r.choice(INTS[:6] + [NULL] + ([PINF, MINF, MINF, num(10)] if k == "num" else [])) if k != "date" else NULL})
    d = desc(tables, fks=fks, dt=dts, dv=dvs)
    ps = []
    if r.random() < params:
        d["tables"] = sorted(d["tables"] + [table("parameters", ["Key"], ["Value"])], key=lambda x: x["t"])
        for p in r.sample(["p one", "p2", "Three"], r.randint(1, 3)):
            k = r.choice(["num", "text", "date"])
            ps.append({"p": p, "typed": True, "ty": w_ty(r, k), "v": {"num": intv(5), "text": st("x"), "date": st("2020-01-02")}[k]})
            if r.random() < 0.1:
                forced.append(["parameters", "Value", "text"]) if ["parameters", "Value", "text"] not in forced else None
            pool["parameters", p] = {"num": NUMS[:6] + [PINF], "text": T[:8], "date": DATES}[k]
        pool["parameters", ""] = NUMS[:4] + T[:4]
    d["params"] = ps
    d["links"] = False
    return d, pool, forced


def refer(r, d, data, p=0.85):
    """makes most rows refer to rows that are there"""
    D = {x["t"]: x["rows"] for x in data}
    tb = {t["t"]: t for t in d["tables"]}
    for _ in range(3):
        for k in d["fks"]:
            C, P = tb[k["nt"]], tb[k["ft"]]
            cf, pf = fields(C), fields(P)
            for row in list(D[k["nt"]]):
                if not D[k["ft"]]:
                    if r.random() < p and row in D[k["nt"]]:
                        D[k["nt"]].remove(row)
                    continue
                if r.random() < p:
                    want = r.choice(D[k["ft"]])
                    if not any([row[cf.index(a)] for a, _ in k["m"]] == [x[pf.index(b)] for _, b in k["m"]] for x in D[k["ft"]]):
                        for a, b in k["m"]:
                            row[cf.index(a)] = want[pf.index(b)]
            n, seen = len(C["pk"]), set()
            for row in list(D[k["nt"]]) if n else []:
                key = tuple(gen.norm_key(genstore.flat(d, v)) for v in row[:n])
                if key in seen:
                    D[k["nt"]].remove(row)
                seen.add(key)
    return data


def pgdata(r, fl, d, pool, p=0.85):
    return refer(r, d, store_data(r, fl, d, pool, nmax=4, big=[intv(20000), intv(9999), intv(-20000)] if d.get("inf", NULL)["k"] == "num" else None), p)


HOW = ["engine", "engine", "future", "future", "conn"]


def w(r, o, pol=(), **kw):
    e = {"op": "pgwrite", "o": o, "s": "db", "fmt": "pg", "pol": [list(x) for x in pol], "usepol": r.random() < 0.2, "active": "",
         "dsn": r.choice(["", "", "dict", "text"]), "how": r.choice(HOW), "prog": r.choice([-1, -1, -1, 0, 1, 2, 3]), "ctx": []}
    e.update(kw)
    return e


def rd(r, f, o2, **kw):
    e = {"op": "pgread", "f": f, "s": "db", "o2": o2, "active": "", "how": r.choice(HOW), "freeze": r.random() < 0.1}
    e.update(kw)
    return e


def sch(r, f, forced, anc=True, **kw):
    e = {"op": "pgschema", "f": f, "s": "db", "fmt": "pg", "anc": anc, "forced": forced, "how": r.choice(HOW)}
    e.update(kw)
    return e


def pols(r, d):
    return [[t["t"], r.choice(["append", "append", "delete"])] for t in d["tables"] if r.random() < 0.5]


def raw_row(r, d, pool, tb, cols):
    return [r.choice(pool[tb["t"], f] if tb["t"] != "parameters" else [st("p one")]) for f in fields(tb)]


def write_scenario(r, fl):
    """a schema, then writes under all policies, each read back"""
    flag = some_flag(r, 0.4)
    d, pool, forced = schema(r, fl, flag)
    with_flag(r, d, flag)
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, sch(r, "F", forced, anc=r.random() < 0.85)]
    if r.random() < 0.25:
        other = "pan" if fl == "tic" else "tic"
        sc.append({"op": "mkfac", "f": "G", "fl": other, "desc": d})
    act = ""
    if r.random() < 0.3:
        act = r.choice(["active_row", "is_on"])
        ts = r.sample(d["tables"], r.randint(1, len(d["tables"])))
        sc.append({"op": "pgput", "s": "db", "fmt": "pg", "tabs": [{"name": t["t"], "create": False, "rows": [], "cols": [], "types": [],
                                                                    "add": [[act, "boolean" + r.choice(["", " default true", " default false"])]]} for t in ts]})
    if r.random() < 0.15:
        t = r.choice(d["tables"])
        sc.append({"op": "pgput", "s": "db", "fmt": "pg", "tabs": [
            {"name": t["t"], "create": False, "rows": [], "cols": [], "types": [], "add": [["zz_extra", r.choice(["integer", "text default 'd'"])]]},
            {"name": "stranger", "create": True, "cols": ["k", "v"], "types": ["integer", "text"], "rows": [[intv(1), st("x")]]}]})
    for i in range(r.randint(1, 4)):
        a = act if r.random() < 0.85 else ""
        o = "A%d" % i
        data = pgdata(r, fl, d, pool, 1 if r.random() < 0.7 else 0.6)
        sc.append(mkd(r, fl, "F", o, data))
        pol = pols(r, d) if i and r.random() < 0.7 else []
        if r.random() < 0.06:
            pol = pol + [r.choice([["no_such", "delete"], [d["tables"][0]["t"], "replace"]])]
            if any(x[0] == pol[-1][0] for x in pol[:-1]):
                pol = pol[-1:]
        sc.append(w(r, o, pol, active=a if r.random() < 0.95 else "Not-Good",
                    ctx=sorted(t["t"] for t in d["tables"] if r.random() < 0.4) if fl == "pan" and r.random() < 0.3 else []))
        if r.random() < 0.8:
            sc.append(rd(r, "F", "B%d" % i, active=a if r.random() < 0.9 else r.choice(["", "no_such_col"])))
        if len(sc) > 2 and sc[2].get("f") == "G" and r.random() < 0.7:
            sc.append(rd(r, "G", "C%d" % i, active=a))
        if fl == "tic" and r.random() < 0.15:
            sc.append({"op": "pgdup", "f": "F", "s": "db", "active": a, "how": r.choice(HOW)})
    return {"ops": sc}


def schema_scenario(r, fl):
    """schemas, well-formed and not, on empty and on populated databases"""
    flag = some_flag(r, 0.4)
    d, pool, forced = schema(r, fl, flag, badnames=r.choice([0, 0, 0.25]), odd=r.choice([0, 0, 0.15]))
    with_flag(r, d, flag)
    if r.random() < 0.08:
        t = r.choice([x for x in d["tables"]])
        if t["t"] != "parameters" and not any(t["t"] in (k["nt"], k["ft"]) for k in d["fks"]):
            t.update(kind="generic", pk=[], df=[])
            d["dt"] = [x for x in d["dt"] if x["t"] != t["t"]]
            d["dv"] = [x for x in d["dv"] if x["t"] != t["t"]]
            forced = [x for x in forced if x[0] != t["t"]]
    x = r.random()
    if x < 0.1:
        t = r.choice(d["tables"])
        forced = forced + [r.choice([["no_such", "a", "text"], [t["t"], "nofield", "text"], [t["t"], (fields(t) or ["a"])[0], "varchar"]])]
        forced = [list(y) for y in {(a, b): (a, b, c) for a, b, c in forced}.values()]
    elif x < 0.2 and fl == "tic" or x < 0.15:
        tb = [t for t in d["tables"] if t["df"]]
        if tb:
            t = r.choice(tb)
            f = r.choice(t["df"])
            forced = [y for y in forced if y[:2] != [t["t"], f]] + [[t["t"], f, r.choice(["date", "bytea"])]]
    odd_params = bool(d["params"]) and r.random() < 0.3
    if odd_params:
        forced = [y for y in forced if y[0] != "parameters"] + [["parameters", "Value", r.choice(["float", "integer"])]]
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    if r.random() < 0.3:
        sc.append({"op": "pgput", "s": "db", "fmt": "pg", "tabs": [
            {"name": r.choice(["stranger", "stranger", d["tables"][0]["t"]]), "create": True, "cols": ["k"], "types": ["integer"], "rows": [[intv(3)]]}]})
    sc.append(sch(r, "F", forced, anc=r.random() < 0.75))
    if r.random() < 0.2:
        sc.append(sch(r, "F", forced))
    if r.random() < 0.6 and not odd_params and not any(t["kind"] == "generic" for t in d["tables"]):
        sc += [mkd(r, fl, "F", "A", pgdata(r, fl, d, pool, 1)), w(r, "A"), rd(r, "F", "B")]
    return {"ops": sc}


def foreign_scenario(r, fl):
    """tables somebody else made: other columns, other orders, rows with the same key, missing tables"""
    flag = some_flag(r, 0.3)
    d, pool, forced = schema(r, fl, flag, params=0.15)
    with_flag(r, d, flag)
    d["fks"] = []
    if fl == "tic" and r.random() < 0.1:
        cand = [t for t in d["tables"] if not t["pk"]]
        if cand:
            cand[0]["kind"] = "gen"
    act = r.choice(["", "", "live"])
    tabs = []
    PT = {"text": "text", "num": "double precision", "bool": "boolean", "date": "timestamp", "inf": "double precision"}
    from stores import pgname
    for tb in d["tables"]:
        if r.random() < 0.1:
            continue
        fs = fields(tb)
        if tb["t"] == "parameters":
            cols, types, rows = ["key", "value"], ["text", "text"], [[st(p["p"]), r.choice([st("5"), st("x"), st("2020-01-02 00:00:00"), st("1e3"), NULL])] for p in d["params"]]
        else:
            types, ps = [], {}
            for f in fs:
                kinds = {v["k"] for v in pool[tb["t"], f]} - {"null"}
                k = "str" if "str" in kinds else "bool" if "bool" in kinds else "date" if "date" in kinds else "num"
                types.append({"str": "text", "num": "double precision", "bool": "boolean", "date": "timestamp"}[k])
            cols = [pgname(f) for f in fs]
            few = {f: r.sample(pool[tb["t"], f], min(2, len(pool[tb["t"], f]))) for f in tb["pk"]}
            rows = [[r.choice(few.get(f) or pool[tb["t"], f]) for f in fs] for _ in range(r.randint(0, 5))]
        if r.random() < 0.1 and len(cols) > 1:
            j = r.randrange(len(cols))
            cols, types, rows = cols[:j] + cols[j + 1:], types[:j] + types[j + 1:], [x[:j] + x[j + 1:] for x in rows]
        if act and r.random() < 0.7:
            cols, types, rows = cols + [act], types + ["boolean"], [x + [r.choice([boolv(True), boolv(True), boolv(False), NULL])] for x in rows]
        if r.random() < 0.4:
            cols, types, rows = cols + ["more"], types + ["integer"], [x + [intv(7)] for x in rows]
        perm = list(range(len(cols)))
        r.shuffle(perm)
        tabs.append({"name": tb["t"], "create": True, "cols": [cols[j] for j in perm], "types": [types[j] for j in perm],
                     "rows": [[x[j] for j in perm] for x in rows]})
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, {"op": "pgput", "s": "db", "fmt": "pg", "tabs": tabs}]
    for i in range(r.randint(1, 3)):
        x = r.random()
        a = act if r.random() < 0.8 else ""
        if fl == "tic" and x < 0.35:
            sc.append({"op": "pgdup", "f": "F", "s": "db", "active": a, "how": r.choice(HOW)})
        elif x < 0.8:
            sc.append(rd(r, "F", "B%d" % i, active=a))
        else:
            sc += [mkd(r, fl, "F", "A%d" % i, pgdata(r, fl, d, pool)), w(r, "A%d" % i, pols(r, d), active=a)]
    return {"ops": sc}

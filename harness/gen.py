"""Random and systematic scenario generators (inputs only; every verdict comes from the specification)."""
import itertools, random
from values import V, NULL, PINF, MINF, num, intv, st, boolv, date

FIELDS = ["a", "b", "c", "d", "Name x", "q_1", "_0_"]
TABLES = ["t1", "t2", "parents", "u_v"]


def table(t, pk, df, kind="std"):
    return {"t": t, "pk": list(pk), "df": list(df), "kind": kind}


def desc(tables, fks=(), dt=(), dv=(), preds=(), params=(), tips=(), **kw):
    d = {"tables": sorted(tables, key=lambda x: x["t"]), "fks": list(fks), "dt": list(dt), "dv": list(dv),
         "preds": list(preds), "params": list(params), "tips": list(tips)}
    d.update(kw)
    return d


def fields(tb):
    return tb["pk"] + tb["df"]


def rand_tables(r, n=None, maxf=4, pkless=0.2, names=None):
    n = n or r.randint(1, 4)
    out = []
    for t in r.sample(names or TABLES, n):
        k = r.randint(1, maxf)
        fl = r.sample(FIELDS, k)
        p = 0 if r.random() < pkless else r.randint(1, min(k, 3))
        out.append(table(t, fl[:p], fl[p:]))
    return sorted(out, key=lambda x: x["t"])


def rand_fk(r, tables, selfp=0.15, nodupff=True):
    a = r.choice(tables)
    b = a if r.random() < selfp else r.choice(tables)
    if b["pk"] and r.random() < 0.6:
        ff = list(b["pk"])
        r.shuffle(ff) if r.random() < 0.3 else None
    else:
        ff = r.sample(fields(b), r.randint(1, min(2, len(fields(b)))))
    nfs = fields(a)
    if len(nfs) < len(ff):
        ff = ff[:len(nfs)]
    if len(ff) == 1 and len(nfs) > 1 and r.random() < 0.06:
        ff = ff * 2     # two native fields that must both equal the same foreign field
    nf = r.sample(nfs, len(ff))
    m = [[x, y] for x, y in zip(nf, ff)]
    if a is b and all(x == y for x, y in m) and r.random() < 0.8:
        return rand_fk(r, tables, selfp, nodupff)
    return {"nt": a["t"], "ft": b["t"], "m": m}


def fk_key(k):
    return (k["nt"], k["ft"], frozenset(map(tuple, k["m"])))


def rand_fks(r, tables, n=None):
    out = []
    for _ in range(n if n is not None else r.choice([0, 1, 1, 2, 2, 3, 4])):
        k = rand_fk(r, tables)
        if fk_key(k) not in {fk_key(x) for x in out}:
            out.append(k)
    return out


POOLS = {
    "num": [intv(0), intv(1), intv(2), intv(3), num(10), intv(-1)],
    "int": [intv(0), intv(1), intv(2), intv(3)],
    "str": [st("a"), st("b"), st("c"), st("A")],
    "mix": [intv(0), intv(1), st("a"), st("b"), intv(2)],
    "mixd": [intv(0), intv(1), st("1"), st("0"), st("a")],
    "mixnull": [intv(0), intv(1), st("a"), st("b"), NULL],
    "numnull": [intv(0), intv(1), intv(2), NULL],
    "strnull": [st("a"), st("b"), NULL],
    "wild": [intv(0), intv(1), num(1), num(10), intv(-3), intv(100), PINF, MINF, st("a"), st("b"), st(""), NULL,
             V("num", 4, "1.0000001"), V("num", 3, "0.9999999"), boolv(True), boolv(False), st("2020-01-02"), date("2020-01-02T00:00:00"), st("Jan 5 2021"), st("not a date")],
    "dates": [date("2020-01-02T00:00:00"), st("2020-01-02"), st("zzz qq"), NULL, intv(3)],
}


def norm_key(v):
    return (("num", 4 * v["n"], "") if v["k"] == "bool" else (v["k"], v["n"], v["s"]))


def rand_rows(r, tb, pool, n, unique=True, pkpool=None):
    """rows for a table; with a primary key, keys are unique unless told otherwise"""
    rows, seen = [], set()
    for _ in range(n):
        row = [r.choice((pkpool or pool) if i < len(tb["pk"]) else pool) for i in range(len(fields(tb)))]
        k = tuple(norm_key(v) for v in row[:len(tb["pk"])])
        if unique and tb["pk"] and k in seen:
            continue
        seen.add(k)
        rows.append(row)
    return rows


def data(r, tables, pools, nmax=6, unique=True, pkpool=None):
    return [{"t": tb["t"], "rows": rand_rows(r, tb, r.choice(pools), r.randint(0, nmax), unique, pkpool), "cols": []}
            for tb in sorted(tables, key=lambda x: x["t"])]


def tmax(ty):
    return ty


def ty(num=True, imin=True, imax=False, min=None, max=None, int=False, strs=(), any=False, null=False, dt=False):
    return {"num": num, "imin": imin, "imax": imax, "min": min or intv(0), "max": max or PINF, "int": int,
            "any": any, "strs": list(strs), "null": null, "dt": dt}


def val_key(v):
    return v["n"] * 10 ** 9 if v["k"] == "inf" else v["n"]


def rand_ty(r):
    if r.random() < 0.12:
        return ty(dt=True, null=r.random() < 0.5)
    bounds = sorted([r.choice([MINF, intv(-3), intv(0), num(1), intv(1), num(10)]),
                     r.choice([intv(0), intv(1), num(10), intv(3), intv(100), PINF, PINF])], key=val_key)
    i = r.random() < 0.3
    if i and bounds[0]["k"] == "inf":
        bounds[0] = intv(-3)
        bounds.sort(key=val_key)
    return ty(num=r.random() < 0.8, imin=r.random() < 0.6, imax=r.random() < 0.5, min=bounds[0], max=bounds[1], int=i,
              any=r.random() < 0.25, strs=r.choice([[], [], ["a"], ["a", "b"], [""], ["A"]]), null=r.random() < 0.4)


def rand_dt(r, tables, p=0.6):
    out = []
    for tb in tables:
        for f in fields(tb):
            if r.random() < p:
                out.append({"t": tb["t"], "f": f, "ty": rand_ty(r)})
    return out


def rand_dv(r, tables, pool=None, p=0.4):
    pool = pool or [intv(0), intv(1), num(10), st("a"), st("zz"), NULL, PINF, boolv(True)]
    out = []
    for tb in tables:
        for f in fields(tb):
            if r.random() < (p if f in tb["df"] else p / 3):
                out.append({"t": tb["t"], "f": f, "v": r.choice(pool)})
    return out


# ------------------------------------------------------------------------- integrity
def mk(f, o, tabs, **kw):
    return dict({"op": "mk", "f": f, "o": o, "tabs": tabs, "obj": False, "labels": "", "extra": False}, **kw)


def findfk(o, verb="", mx=0, tb=True):
    return {"op": "findfk", "o": o, "verb": verb, "max": mx, "table": tb}


def finddt(o, mx=0, tb=True):
    return {"op": "finddt", "o": o, "max": mx, "table": tb}


def findrow(o, exc="", mx=0, tb=True):
    return {"op": "findrow", "o": o, "exc": exc, "max": mx, "table": tb}


def finddup(o, keep="first", tb=True):
    return {"op": "finddup", "o": o, "keep": keep, "table": tb}


def removefk(o, prop="default"):
    return {"op": "removefk", "o": o, "prop": prop}


def replacedt(o, repl=(), passit=False):
    return {"op": "replacedt", "o": o, "repl": list(repl), "pass": passit}


def setcell(o, t, i, fld, v, obj=True):
    return {"op": "setcell", "o": o, "t": t, "i": i, "fld": fld, "v": v, "obj": obj}


def pan_opts(r, fl):
    if fl == "tic":
        return {}
    return {"obj": r.random() < 0.4, "labels": r.choice(["", "", "rev", "dup", "str", "gap"]), "extra": r.random() < 0.25}


def fk_scenario(r, fl, ops):
    """factory with foreign keys, one object, then the given kinds of operations"""
    tables = rand_tables(r, r.randint(1, 4))
    fks = rand_fks(r, tables, r.choice([1, 1, 2, 2, 3, 4]))
    pools = r.choice([["int"], ["str"], ["num"], ["mix"], ["mixnull"], ["numnull"], ["strnull"], ["int", "str"], ["num", "mix"], ["mixd"], ["mixd", "int"]])
    tabs = data(r, tables, [POOLS[p] for p in pools], r.choice([3, 6, 6, 10]), unique=(fl == "tic" or r.random() < 0.6))
    po = pan_opts(r, fl)
    parent_cols = {(k["ft"], p[1]) for k in fks for p in k["m"]} if fl == "pan" else set()
    # whether a null joins a null of another representation is pandas' business: no nulls in pandas parent columns
    nonull = lambda t, f, v: intv(0) if v["k"] == "null" and (t, f) in parent_cols else v
    for d in tabs:
        fs = fields(next(t for t in tables if t["t"] == d["t"]))
        d["rows"] = [[nonull(d["t"], f, v) for f, v in zip(fs, row)] for row in d["rows"]]
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": desc(tables, fks)}, mk("F", "A", tabs, **po)]
    for o in ops:
        if o == "find":
            sc.append(findfk("A", r.choice(["", "High", "Low"]), 0, r.random() < 0.6))
        elif o == "limit":
            sc.append(findfk("A", r.choice(["", "High", "Low"]), r.randint(1, 7), r.random() < 0.4))
        elif o == "remove":
            sc.append(removefk("A", r.choice(["default", "yes", "no"]) if fl == "tic" else "default"))
        elif o == "edit":
            tb = r.choice([x for x in tables])
            rows = next(x["rows"] for x in tabs if x["t"] == tb["t"])
            cand = tb["df"] if fl == "tic" else fields(tb)
            if rows and cand:
                # the object may have lost rows meanwhile: only edit before removals
                f = r.choice(cand)
                sc.insert(2, setcell("A", tb["t"], r.randrange(len(rows)), f, nonull(tb["t"], f, r.choice(POOLS[pools[0]]))))
    return {"ops": sc}


def chain_scenario(fl, n, cyclic=False):
    """a self-referential chain whose removal cascades n deep"""
    tb = [table("t", ["k"], ["p"])]
    rows = [[intv(i), intv(i - 1)] for i in range(1, n + 1)]
    if cyclic:
        rows += [[intv(5000), intv(5001)], [intv(5001), intv(5000)]]
    return {"ops": [{"op": "mkfac", "f": "F", "fl": fl, "desc": desc(tb, [{"nt": "t", "ft": "t", "m": [["p", "k"]]}])},
                    mk("F", "A", [{"t": "t", "rows": rows, "cols": []}]),
                    dict(removefk("A"), rl=150 if fl == "tic" else 0)]}


def norm_ty(t):
    """what set_data_type makes of a declaration (only to keep generated inputs legal)"""
    return t


TYPED_POOLS = ["wild", "wild", "num", "mix", "mixnull", "dates", "strnull", "numnull"]
PLAIN = [intv(0), intv(1), intv(2), num(1), num(10), intv(-3), st("a"), st("b"), st("c"), st("q")]


def dt_data(r, tables, dts, fl, nmax=6, nullpk=True):
    """data in which every field draws from its own pool"""
    typed = {(d["t"], d["f"]) for d in dts}
    out = []
    for tb in tables:
        pools = {}
        for i, f in enumerate(fields(tb)):
            p = POOLS[r.choice(TYPED_POOLS)]
            if i < len(tb["pk"]):
                if (tb["t"], f) not in typed:
                    p = PLAIN + ([NULL] * 2 if nullpk and r.random() < 0.5 else []) + \
                        ([boolv(True), date("2020-01-02T00:00:00")] if r.random() < 0.4 else [])
                else:
                    p = r.choice([p, PLAIN, POOLS["wild"]])
            pools[f] = p
        rows, seen = [], set()
        for _ in range(r.randint(0, nmax)):
            row = [r.choice(pools[f]) for f in fields(tb)]
            k = tuple(norm_key(v) for v in row[:len(tb["pk"])])
            if tb["pk"] and k in seen and (fl == "tic" or r.random() < 0.7):
                continue
            seen.add(k)
            rows.append(row)
        out.append({"t": tb["t"], "rows": rows, "cols": []})
    return out


def dt_scenario(r, fl, ops):
    tables = rand_tables(r, r.randint(1, 3))
    dts = rand_dt(r, tables, r.choice([0.3, 0.6, 0.9]))
    dvs = rand_dv(r, tables)
    tabs = dt_data(r, tables, dts, fl)
    po = pan_opts(r, fl)
    if fl == "pan":
        po["obj"] = True        # frames of mixed values keep what was put in
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": desc(tables, dt=dts, dv=dvs)}, mk("F", "A", tabs, **po)]
    allf = [(tb["t"], f) for tb in tables for f in fields(tb)]
    for o in ops:
        if o == "find":
            sc.append(finddt("A", 0, r.random() < 0.6))
        elif o == "limit":
            sc.append(finddt("A", r.randint(1, 7), r.random() < 0.5))
        elif o == "replace":
            repl = []
            dfs = [(tb["t"], f) for tb in tables for f in (tb["df"] if fl == "tic" else fields(tb))]
            for t, f in r.sample(dfs, min(len(dfs), r.choice([0, 0, 1, 2, 5]))):
                cand = [d for d in dts if d["t"] == t and d["f"] == f]
                good = [v for v in POOLS["wild"] if cand and legal(cand[0]["ty"], v)]
                v = r.choice(good) if good and r.random() < 0.85 else r.choice(POOLS["wild"])
                repl.append({"t": t, "f": f, "v": v})
            if r.random() < 0.05:
                t, f = r.choice(allf)
                if not any(x["t"] == t and x["f"] == f for x in repl):
                    repl.append({"t": t, "f": f, "v": intv(1)})
            sc.append(replacedt("A", repl, r.random() < 0.5))
    return {"ops": sc}


def legal(t, v):
    """rough legality of a value, only used to bias generation towards accepted replacements"""
    k = v["k"]
    if k == "null":
        return t["null"]
    if t["dt"]:
        return k == "date"
    if k in ("num", "inf"):
        return t["num"] and val_key(t["min"]) < val_key(v) < val_key(t["max"]) and (not t["int"] or v["n"] % 4 == 0 and not v["s"])
    return k == "str" and (t["any"] or v["s"] in t["strs"])


def rand_pred(r, tb, name, fl, makers=(), tables=()):
    e = r.choice(["true", "false", "raise", "ge", "ge", "eq", "ne", "le2", "xeq", "isnull"] + (["lim"] * 4 if makers else []))
    resp = r.choice(["Boolean", "Boolean", "Error Message"])
    p = {"t": tb["t"], "name": name, "resp": resp, "e": e, "f": r.choice(fields(tb)), "g": r.choice(fields(tb)),
         "v": r.choice([intv(0), intv(1), num(10), st("a"), st("b"), NULL]), "tru": r.choice(["bool", "bool", "int", "str"]),
         "msg": r.choice(["bad row", "nope", ""]), "mk": []}
    if e == "ge":
        p["v"] = r.choice([intv(0), intv(1), num(10)])
    if resp == "Error Message" and p["tru"] == "str":
        p["tru"] = "bool"
    if makers and (e == "lim" or r.random() < 0.3):
        p["mk"] = [r.choice(makers)]
    return p


def row_scenario(r, fl, ops):
    tables = rand_tables(r, r.randint(1, 3))
    if r.random() < 0.12:
        # columns that already have the names which the reported table would use for its messages
        for t in tables:
            for old, new in zip(r.sample(fields(t), min(2, len(fields(t)))), ["Error Message", "Error Message (1)"]):
                t["pk"], t["df"] = ([new if x == old else x for x in t[k]] for k in ("pk", "df"))
    params = []
    if r.random() < 0.35:
        tables = [t for t in tables if t["t"] != "parents"] + [table("parameters", ["Key"], ["Value"])]
        tables.sort(key=lambda x: x["t"])
        for p in r.sample(["p1", "p2", "p3"], r.randint(1, 3)):
            typed = r.random() < 0.7
            t = rand_ty(r) if typed else ty()
            good = [v for v in POOLS["wild"] if legal(t, v) and v["k"] not in ("bool",)]
            if typed and not good:
                continue
            params.append({"p": p, "typed": typed, "ty": t, "v": r.choice(good) if typed else intv(1)})
    makers = [{"id": "m%d" % i, "m": r.choice(["count", "count", "count", "count", "raise", "notdict"]),
               "t": r.choice(tables)["t"]} for i in range(r.choice([0, 1, 1, 2]))]
    preds = []
    for i in range(r.randint(1, 4)):
        tb = r.choice(tables)
        preds.append(rand_pred(r, tb, r.choice(["pr%d" % i, "pr%d" % i, "%d" % i]) if r.random() < 0.9 else "#%d" % i,
                               fl, makers, tables))
    seen, pp = set(), []
    for p in preds:
        if (p["t"], p["name"]) not in seen:
            seen.add((p["t"], p["name"]))
            pp.append(p)
    tabs = data(r, tables, [POOLS[r.choice(["num", "mix", "int", "numnull"])]], r.choice([2, 5, 8]), unique=fl == "tic" or r.random() < 0.5,
                pkpool=PLAIN)
    for d in tabs:
        if d["t"] == "parameters":
            rows = [[st(k), r.choice(POOLS["wild"])] for k in r.sample(["p1", "p2", "p3", "zz"], r.randint(0, 4))]
            d["rows"] = rows
    po = pan_opts(r, fl)
    if fl == "pan":
        po["obj"] = True
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": desc(tables, preds=pp, params=params)}, mk("F", "A", tabs, **po)]
    for o in ops:
        exc = r.choice(["Handled as Failure", "Handled as Failure", "Handled as Failure", "", "Unhandled", "__debug__"])
        sc.append(findrow("A", exc, 0 if o == "find" else r.randint(1, 7), r.random() < 0.6))
    return {"ops": sc}


def dup_scenario(r):
    tables = rand_tables(r, r.randint(1, 3))
    tabs = data(r, tables, [POOLS[p] for p in r.choice([["int"], ["str"], ["mix"], ["mixnull"], ["num"]])], 8, unique=False,
                pkpool=POOLS[r.choice(["int", "str", "mix", "mixnull"])])
    po = pan_opts(r, "pan")
    sc = [{"op": "mkfac", "f": "F", "fl": "pan", "desc": desc(tables)}, mk("F", "A", tabs, **po)]
    for keep in ("first", "last", "none"):
        sc.append(finddup("A", keep, r.random() < 0.6))
    return {"ops": sc}

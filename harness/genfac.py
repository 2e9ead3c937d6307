"""Histories of schema declarations, uses, clones, exports and schema edits."""
from values import V, NULL, PINF, MINF, num, intv, st, boolv, date
from gen import (POOLS, PLAIN, FIELDS, TABLES, table, desc, fields, rand_tables, rand_fks, rand_fk, rand_ty, rand_dt, rand_dv, rand_pred,
                 ty, mk, findfk, finddt, findrow, removefk, legal, data, dt_data, fk_key)

NOTYPE = ty(num=False, imax=True)
NOTYPE["imin"] = True
DATEY = [st("2020-01-02"), st("Jan 5 2021"), st("2021-12-31")]
DVALS = [intv(0), intv(1), num(10), st("a"), st("zz"), NULL, PINF, MINF, boolv(True), boolv(False), st(""), num(-3)]
JUNK = V("other", 0, "junk")


def name(r, p):
    return dict(p)


def rich(r, fl, params=0.4, generic=0.2, gens=0.25, preds=True, simple=False, n=None, dates=False, pkless=0.2):
    """a factory description using every kind of declaration"""
    tables = rand_tables(r, n or r.randint(1, 4), pkless=pkless)
    if r.random() < params:
        tables = [t for t in tables if t["t"] != "parents"] + [table("parameters", ["Key"], ["Value"])]
    if r.random() < generic:
        tables.append(table("gg", [], [], "generic"))
    for t in tables:
        if fl == "tic" and t["kind"] == "std" and not t["pk"] and r.random() < gens:
            t["kind"] = "gen"
    tables.sort(key=lambda x: x["t"])
    std = [t for t in tables if t["kind"] != "generic"]
    if not std:
        return rich(r, fl, params, generic, gens, preds, simple, n, dates, pkless)
    fkt = [t for t in std if t["t"] != "parameters" and t["kind"] == "std"]
    fks = rand_fks(r, fkt) if fkt else []
    hasp = any(t["t"] == "parameters" for t in tables)
    ps = []
    if hasp:
        for p in r.sample(["p1", "p2", "p3"], r.randint(0, 3)):
            typed = r.random() < 0.7
            t = rand_ty(r) if typed else NOTYPE
            v = good_value(r, t, dates) if typed else r.choice(DVALS + DATEY)
            if v is None:
                continue
            ps.append({"p": p, "typed": typed, "ty": t, "v": v})
    dts = [d for d in rand_dt(r, std, 0.35) if d["t"] != "parameters" or d["f"] == "Key"]
    dvs = rand_dv(r, std, DVALS, 0.3)
    tips = []
    for t in tables:
        for f in [""] + (fields(t) if t["kind"] != "generic" else []):
            if r.random() < 0.2:
                tips.append({"t": t["t"], "f": f, "s": r.choice(["a tip", "ünïcode \"tip\"", "x"])})
    pp, seen = [], set()
    if preds:
        ptabs = [t for t in std if t["kind"] == "std" and (fl == "pan" or t["pk"])]
        makers = [{"id": "m%d" % i, "m": "count", "t": r.choice(ptabs)["t"]} for i in range(r.choice([0, 1, 2]))] if ptabs else []
        for i in range(r.choice([0, 1, 2, 3]) if ptabs else 0):
            p = rand_pred(r, r.choice(ptabs), r.choice(["pr%d" % i, "pr%d" % i, "#0"]), fl, makers)
            if (p["t"], p["name"]) not in seen:
                seen.add((p["t"], p["name"]))
                pp.append(p)
    d = desc(tables, fks=fks, dt=dts, dv=dvs, preds=pp, params=ps, tips=tips)
    if r.random() < 0.4:
        d["inf"] = r.choice([NULL, intv(1000), num(3998), V("str", 0, "N/A")])
    if r.random() < 0.3:
        d["trail"] = r.choice(["prune", "ignore"])
    if r.random() < 0.3:
        d["dups"] = r.choice(["assert", "warn", "ignore"])
    if r.random() < 0.3:
        d["munge"] = r.random() < 0.5
    simplefks = all({p[1] for p in k["m"]} == set(next(t for t in tables if t["t"] == k["ft"])["pk"]) for k in fks)
    d["links"] = fl == "tic" and r.random() < (0.4 if simplefks else 0.1)
    return d


def good_value(r, t, dates=False):
    if t["dt"]:
        return st(r.choice(["2020-01-02", "Jan 5 2021", "2021-12-31"])) if not dates or r.random() < 0.6 else date("2020-01-02T00:00:00")
    good = [v for v in POOLS["wild"] + [num(2), intv(5), intv(50)] if legal(t, v) and v["k"] not in ("bool", "date")]
    return r.choice(good) if good else None


# ------------------------------------------------------------------ declarations
def rand_decl(r, tables, fl, bad=0.2, kinds=None, n=[0]):
    """one declaration with valid or (sometimes) invalid arguments"""
    std = [t for t in tables if t["kind"] != "generic"]
    kinds = kinds or ["setdt"] * 3 + ["cleardt"] * 2 + ["setdv"] * 2 + ["setdvs", "addfk", "addfk", "addfk", "clearfk", "addparam",
                      "rmparam", "tip", "tip", "inf", "trail", "dups", "munge", "addpred", "addpred", "rmpred"] + \
        (["setgens", "links", "implied"] if fl == "tic" else [])
    k = r.choice(kinds)
    spoil = r.random() < bad
    tn = lambda: r.choice(["nope", "", "T1", "gg"] + [f(r.choice(tables)["t"]) for f in (str.upper, str.lower, str.title)]) if spoil and r.random() < 0.5 else r.choice(std)["t"] if std else "nope"

    def fn(t):
        tb = [x for x in std if x["t"] == t]
        if not tb or (spoil and r.random() < 0.6):
            near = r.choice(fields(tb[0])) if tb else "a"
            return r.choice(["nope", "A", "Name_x", "a", "d", near.upper(), near.lower(), near.replace(" ", "_"), near + " "])
        return r.choice(fields(tb[0]))
    t = tn()
    if k == "setdt":
        y = rand_ty(r)
        badstrs = 0
        if spoil and r.random() < 0.5:
            what = r.choice(["min", "max", "cross", "strs", "strs"])
            if what == "cross":
                y["min"], y["max"] = intv(5), intv(2)
            elif what == "strs":
                badstrs = r.choice([1, 2])
            else:
                y[what] = r.choice([st("a"), JUNK, NULL, boolv(True)])
        return {"k": k, "t": t, "f": fn(t), "ty": y, "badstrs": badstrs}
    if k == "cleardt":
        t = r.choice(std)["t"] if std else "nope"
        return {"k": k, "t": t, "f": r.choice(fields([x for x in std if x["t"] == t][0])) if std else "a"}
    if k == "setdv":
        return {"k": k, "t": t, "f": fn(t), "v": JUNK if spoil and r.random() < 0.5 else
                date("2020-01-02T00:00:00") if spoil and r.random() < 0.3 else r.choice(DVALS)}
    if k == "setdvs":
        ent = []
        for x in r.sample(std, min(len(std), r.randint(1, 3))):
            fs = r.sample(fields(x), r.randint(1, len(fields(x))))
            ent.append({"t": x["t"], "form": "dict", "cells": [{"f": f, "v": r.choice(DVALS)} for f in fs]})
        if spoil and ent:
            x = r.choice(ent)
            what = r.choice(["t", "f", "v", "form"])
            if what == "t":
                ent.append({"t": "nope", "form": "dict", "cells": [{"f": "a", "v": intv(1)}]})
            elif what == "f":
                x["cells"].append({"f": "nope", "v": intv(1)})
            elif what == "v":
                x["cells"][-1]["v"] = JUNK
            else:
                x["form"] = "list"
        return {"k": k, "ent": ent}
    if k == "addfk":
        if not std:
            return rand_decl(r, tables, fl, bad, ["tip"])
        c = rand_fk(r, std)
        d = {"k": k, "nt": c["nt"], "ft": c["ft"], "m": c["m"], "form": "ok", "nest": r.random() < 0.3, "tup": r.random() < 0.3}
        if r.random() < 0.3:
            r.shuffle(d["m"])
        if spoil:
            what = r.choice(["nt", "ft", "nf", "ff", "form", "form"])
            if what in ("nt", "ft"):
                d[what] = r.choice(["nope", "gg"])
            elif what == "nf":
                d["m"][-1][0] = r.choice(["nope", d["m"][-1][0].upper(), d["m"][-1][0].lower()])
            elif what == "ff":
                d["m"][-1][1] = r.choice(["nope", d["m"][-1][1].upper(), d["m"][-1][1].lower()])
            else:
                d["form"] = r.choice(["triple", "flat3", "dict", "number", "empty"])
        return d
    if k == "clearfk":
        return {"k": k, "t": r.choice(["", t]) if not spoil else "nope"}
    if k == "implied":
        return {"k": k}
    if k == "addparam":
        typed = r.random() < 0.7
        y = rand_ty(r) if typed else dict(NOTYPE)
        v = good_value(r, y) if typed and not (spoil and r.random() < 0.6) else r.choice(DVALS)
        return {"k": k, "p": r.choice(["p1", "p2", "p9"]), "typed": typed, "ty": y, "v": v or intv(1),
                "badstrs": r.choice([1, 2]) if spoil and typed and r.random() < 0.3 else 0}
    if k == "rmparam":
        return {"k": k, "p": r.choice(["p1", "p2", "p9"])}
    if k == "tip":
        t = r.choice(tables)["t"] if not (spoil and r.random() < 0.4) else "nope"
        return {"k": k, "t": t, "f": r.choice(["", fn(t)]), "v": JUNK if spoil and r.random() < 0.5 else st(r.choice(["", "tip", "other tip"]))}
    if k == "setgens":
        cand = [x["t"] for x in std if not x["pk"]]
        ts = [x for x in cand if r.random() < 0.7]
        if spoil:
            ts = ts + [r.choice([x["t"] for x in std if x["pk"]] + ["nope", "gg"])]
        return {"k": k, "ts": ts, "form": "number" if spoil and r.random() < 0.2 else "list"}
    if k == "inf":
        return {"k": k, "v": r.choice([intv(0), intv(-5), PINF, st("n/a"), boolv(True), MINF]) if spoil else
                r.choice([NULL, intv(100), num(2), V("str", 0, "N/A")])}
    if k == "trail":
        return {"k": k, "v": r.choice([st("Prune"), NULL, boolv(True)]) if spoil else st(r.choice(["prune", "ignore"]))}
    if k == "dups":
        return {"k": k, "v": r.choice([st("raise"), NULL]) if spoil else st(r.choice(["assert", "warn", "ignore"]))}
    if k == "munge":
        return {"k": k, "v": r.choice([st("x"), NULL, intv(5)]) if spoil else boolv(r.random() < 0.5)}
    if k == "links":
        return {"k": k}
    if k == "addpred":
        cand = [x for x in std if x["kind"] == "std" and (fl == "pan" or x["pk"])]
        if not cand:
            return rand_decl(r, tables, fl, bad, ["tip"])
        n[0] += 1
        makers = [{"id": "d%d" % n[0], "m": "count", "t": r.choice(cand)["t"]}] if r.random() < 0.3 else []
        p = rand_pred(r, r.choice(cand), r.choice(["pr0", "pr1", "new"]), fl, makers)
        p["auto"] = r.random() < 0.3
        b = ""
        if spoil:
            what = r.choice(["t", "pred", "maker", "resp"])
            if what == "t":
                p["t"] = "nope"
            else:
                b = what
        return {"k": k, "p": p, "bad": b}
    if k == "rmpred":
        return {"k": k, "t": t if t != "gg" else "nope", "name": r.choice(["pr0", "pr1", "new", "#0", "#1"])}
    raise ValueError(k)


def decl(f, d):
    return {"op": "decl", "f": f, "d": d}


def track(tables, d):
    """keeps the generator's idea of which tables are generator tables (inputs stay interesting, nothing is judged by it)"""
    return tables


def simple_data(r, tables, fl, nmax=4):
    """unique keys, no nulls: means the same in both flavours"""
    pools = [POOLS["int"], POOLS["str"], POOLS["num"], POOLS["mix"]]
    out = []
    for d in data(r, [t for t in tables if t["kind"] != "generic"], pools, nmax, True):
        if d["t"] == "parameters" and len(fields([t for t in tables if t["t"] == "parameters"][0])) == 2:
            d["rows"] = [[st(k), r.choice([intv(1), st("a"), num(10)])] for k in r.sample(["p1", "p2", "p3", "zz"], r.randint(0, 3))]
        out.append(d)
    for t in tables:
        if t["kind"] == "generic":
            out.append({"t": t["t"], "rows": [[intv(i), st("x")] for i in range(r.randint(0, 2))], "cols": ["u", "v"]})
    return sorted(out, key=lambda x: x["t"])


def use(r, f, o, tables, fl):
    """an operation after which the factory has been used"""
    x = r.random()
    tabs = simple_data(r, tables, fl, 3)
    if x < 0.75:
        return mk(f, o, tabs if r.random() < 0.7 else [], obj=True)
    ent = {"t": "nope", "form": "df", "ent": [], "cols": ["a"], "rows": [[intv(1)]], "idx": []}
    return {"op": "build", "f": f, "o": o, "ins": [ent], "src": "", "links": False}


def lock_scenario(r, fl):
    d = rich(r, fl)
    tables = d["tables"]
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    facs = {"F": (fl, tables)}
    n = 0
    for i in range(r.randint(5, 12)):
        x = r.random()
        f = r.choice(list(facs))
        ffl, tb = facs[f]
        if x < 0.62:
            sc.append(decl(f, rand_decl(r, tb, ffl, 0.08)))
        elif x < 0.85:
            n += 1
            sc.append(use(r, f, "A%d" % n, tb, ffl))
        elif len(facs) < 3:
            g = "G%d" % len(facs)
            fl2 = r.choice(["tic", "pan"])
            y = r.random()
            if y < 0.6:
                sc.append(clone(f, g, fl2))
            else:
                sc.append({"op": "import", "f": f, "f2": g, "fl2": fl2, "json": r.random() < 0.5, "cut": [], "junk": False})
            facs[g] = (fl2, [dict(t, kind="std" if t["kind"] == "gen" else t["kind"]) for t in tb])
    return {"ops": no_new_gens(sc)}


def no_new_gens(sc):
    return sc


def clone(f, g, fl2, restrict=(), via="class", conv=False, say=False):
    return {"op": "clone", "f": f, "f2": g, "fl2": fl2, "restrict": list(restrict), "via": via, "conv": conv, "say": say}


def gens_scenario(r):
    """which tables are generator tables, set again and again"""
    tables = [table("t%d" % i, [], ["a", "b"]) for i in range(r.randint(2, 3))] + [table("k", ["a"], ["b"])]
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": desc(tables)}]
    names = [t["t"] for t in tables[:-1]]
    for i in range(r.randint(2, 4)):
        ts = [t for t in names if r.random() < 0.5]
        if r.random() < 0.15:
            ts.append(r.choice(["k", "nope"]))
        sc.append(decl("F", {"k": "setgens", "ts": ts, "form": "list"}))
        if r.random() < 0.15:
            sc.append(clone("F", "G%d" % i, "tic"))
    return {"ops": sc}


# ------------------------------------------------------------------ C19
NAMES = ["t1", "t2", "u_v", "Parents", "T1", "U_v", "_t", "t 3", "parents"]


def entry(r, t, bad):
    fs = r.sample(["a", "b", "c", "Name x"], r.randint(1, 4))
    if bad and r.random() < 0.5:
        fs.append(r.choice([fs[0], fs[0].upper(), fs[0]]))
        r.shuffle(fs)
    k = r.randint(0, len(fs))
    form = r.choice(["flat", "triple", "text", "number", "intfield", "one"]) if bad and r.random() < 0.4 else \
        "*" if r.random() < 0.12 else "pair"
    pk, df = fs[:k], fs[k:]
    if bad and r.random() < 0.15:
        pk, df, fs = [], [], []
    return {"t": t, "form": form, "pk": pk, "df": df, "lo": t.lower(), "los": [x.lower() for x in pk + df],
            "under": t.startswith("_"), "space": " " in t}


def schema_entries(r, bad):
    ts = r.sample(NAMES if bad else ["t1", "t2", "u_v", "Parents"], r.randint(1, 4))
    return sorted([entry(r, t, bad and r.random() < 0.4) for t in ts], key=lambda x: x["t"])


def good_entries(es):
    return all(x["form"] in ("*", "pair") and not x["under"] and not x["space"] and
               (x["form"] == "*" or (x["los"] and len(set(x["los"])) == len(x["los"]))) for x in es) and \
        len({x["lo"] for x in es}) == len(es)


def illformed_scenario(r, fl):
    sc = []
    for i in range(r.randint(1, 3)):
        sc.append({"op": "newfac", "f": "X%d" % i, "fl": r.choice(["tic", "pan"]), "entries": schema_entries(r, True)})
    if r.random() < 0.5:
        d = rich(r, fl)
        d["links"] = False
        tables = d["tables"]
        sc.append({"op": "mkfac", "f": "F", "fl": fl, "desc": d})
    else:
        es = schema_entries(r, False)
        while not good_entries(es):
            es = schema_entries(r, False)
        tables = [table(x["t"], x["pk"] if x["form"] == "pair" else [], x["df"] if x["form"] == "pair" else [],
                        "std" if x["form"] == "pair" else "generic") for x in es]
        sc.append({"op": "newfac", "f": "F", "fl": fl, "entries": es})
    for i in range(r.randint(4, 12)):
        dd = rand_decl(r, tables, fl, 0.5)
        if dd["k"] == "links":
            continue
        sc.append(decl("F", dd))
        if dd["k"] == "addfk" and r.random() < 0.3:        # the same key again, its pairs in another order
            d2 = dict(dd, m=[list(p) for p in dd["m"]])
            r.shuffle(d2["m"])
            sc.append(decl("F", d2))
        if dd["k"] in ("addfk", "clearfk", "implied") and r.random() < 0.5:
            sc.append({"op": "fklist", "f": "F"})
    sc.append({"op": "fklist", "f": "F"})
    sc.append({"op": "schema", "f": "F"})
    for i in range(r.randint(0, 2)):
        x = r.random()
        if x < 0.4:
            cut = r.sample(["tables_fields", "foreign_keys", "default_values", "data_types"], 1) if r.random() < 0.5 else []
            sc.append({"op": "import", "f": "F", "f2": "I%d" % i, "fl2": fl, "json": False, "cut": cut, "junk": not cut})
        elif x < 0.6:
            sc.append(clone("F", "I%d" % i, fl, [r.choice(tables)["t"], "nope"]))
        else:
            e = cloneedit(r, "F", "I%d" % i, tables, 0.8, bool(d_params(sc)))
            if e:
                sc.append(e)
    return {"ops": sc}


def d_params(sc):
    return any(o["op"] == "decl" and o["d"]["k"] == "addparam" for o in sc) or \
        any(o["op"] == "mkfac" and o["desc"]["params"] for o in sc)


# ------------------------------------------------------------------ C16
def cloneedit(r, f, g, tables, bad=0.15, params=False):
    std = [t for t in tables if t["kind"] != "generic"]
    e = {"op": "cloneedit", "f": f, "f2": g, "k": "", "t": "", "fld": "", "new": "", "pk": [], "df": [], "kind": "", "pos": -1,
         "bad": "", "clash": False}
    spoil = r.random() < bad
    e["k"] = k = r.choice(["addtable", "addcol", "addcol", "rmcol", "rename", "rename"])
    lows = {t["t"].lower() for t in tables}
    if k == "addtable":
        e["t"] = r.choice(["w", "zz", "Alpha"])
        fs = r.sample(FIELDS, r.randint(1, 4))
        n = r.randint(0, len(fs))
        e["pk"], e["df"] = fs[:n], fs[n:]
        if spoil:
            what = r.choice(["exists", "case", "name", "pk", "pkint", "df", "none", "dupfield"])
            if what == "exists":
                e["t"] = r.choice(tables)["t"]
            elif what == "case":
                e["t"] = r.choice(tables)["t"].swapcase()
            elif what == "name":
                e["t"], e["clash"] = r.choice(["_x", "x y"]), True
            elif what == "none":
                e["pk"], e["df"] = [], []
            elif what == "dupfield":
                e["pk"], e["df"], e["clash"] = ["a"], [r.choice(["a", "A"])], True
            else:
                e["bad"] = what
        if e["t"].lower() in lows and e["t"] not in {t["t"] for t in tables}:
            e["clash"] = True
        return e
    if not std:
        return None
    tb = r.choice(std)
    if tb["t"] == "parameters" and k != "rename" and params:
        return None
    e["t"] = tb["t"]
    e["fld"] = r.choice(fields(tb))
    if spoil and r.random() < 0.3:
        e["t"] = r.choice(["nope", "gg"])
    if k == "rmcol":
        if spoil and r.random() < 0.5:
            e["fld"] = "nope"
        if e["t"] == "parameters" and params:
            return None
        return e
    if k == "addcol":
        e["kind"] = r.choice(["primary key", "data"])
        own = tb["pk"] if e["kind"] == "primary key" else tb["df"]
        e["fld"] = r.choice(["new", "Zed", "a b"])
        e["pos"] = r.choice([-1, -1, r.randint(0, len(own))])
        if spoil:
            what = r.choice(["exists", "case", "kind", "pos", "pos", "int"])
            if what == "exists":
                e["fld"] = r.choice(fields(tb))
            elif what == "case":
                e["fld"] = r.choice(fields(tb)).swapcase()
            elif what == "kind":
                e["kind"] = "other"
            elif what == "int":
                e["bad"] = "int"
            else:
                e["pos"] = r.choice([-2, len(own) + 1])
        e["clash"] = e["fld"] not in fields(tb) and e["fld"].lower() in {x.lower() for x in fields(tb)}
        return e
    e["new"] = r.choice(["new", "Zed", e["fld"].upper()])
    if spoil:
        what = r.choice(["exists", "case", "int", "fld"])
        if what == "exists":
            e["new"] = r.choice(fields(tb))
        elif what == "case":
            e["new"] = r.choice(fields(tb)).swapcase()
        elif what == "int":
            e["bad"] = "int"
        else:
            e["fld"] = "nope"
    e["clash"] = e["new"].lower() in {x.lower() for x in fields(tb) if x != e["fld"]} and e["new"] not in fields(tb)
    return e


def apply_edit(tables, e):
    """what the tables look like afterwards (to generate meaningful follow-ups)"""
    out = [dict(t, pk=list(t["pk"]), df=list(t["df"])) for t in tables]
    tb = [t for t in out if t["t"] == e["t"]]
    if e["bad"] or e["clash"]:
        return None
    if e["k"] == "addtable":
        if tb or not (e["pk"] or e["df"]):
            return None
        return sorted(out + [table(e["t"], e["pk"], e["df"])], key=lambda x: x["t"])
    if not tb or tb[0]["kind"] == "generic":
        return None
    tb = tb[0]
    if e["k"] == "addcol":
        if e["fld"] in fields(tb) or e["kind"] not in ("primary key", "data") or (tb["kind"] == "gen" and e["kind"] != "data"):
            return None
        own = tb["pk"] if e["kind"] == "primary key" else tb["df"]
        if e["pos"] > len(own) or e["pos"] < -1:
            return None
        own.insert(len(own) if e["pos"] < 0 else e["pos"], e["fld"])
        return out
    if e["fld"] not in fields(tb):
        return None
    own = tb["pk"] if e["fld"] in tb["pk"] else tb["df"]
    if e["k"] == "rmcol":
        if len(fields(tb)) == 1:
            return None
        own.remove(e["fld"])
    else:
        if e["new"] in fields(tb):
            return None
        own[own.index(e["fld"])] = e["new"]
    return out


def edits_scenario(r, fl):
    d = rich(r, fl, params=0.35, generic=0.3)
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    facs = {"F": d["tables"]}
    params = bool(d["params"])
    anygens = any(t["kind"] == "gen" for t in d["tables"])
    n = 0
    for i in range(r.randint(2, 6)):
        f = r.choice(list(facs)) if r.random() < 0.5 else list(facs)[-1]
        x = r.random()
        g = "G%d" % i
        if x < 0.7:
            e = cloneedit(r, f, g, facs[f], 0.12, params)
            if e:
                sc.append(e)
                nt = apply_edit(facs[f], e)
                if nt:
                    facs[g] = nt
        elif x < 0.85:
            keep = [t["t"] for t in facs[f] if r.random() < 0.6]
            if keep:
                sc.append(clone(f, g, fl, keep, say=r.random() < 0.3))
                facs[g] = [t for t in facs[f] if t["t"] in keep]
        else:
            dd = rand_decl(r, facs[f], fl, 0.1)
            if not (dd["k"] == "addparam" and not params):
                sc.append(decl(f, dd))
                if dd["k"] == "setgens":
                    anygens = True
                    for t in facs[f]:
                        if t["kind"] != "generic" and not t["pk"]:
                            t["kind"] = "gen" if t["t"] in dd["ts"] else "std"
        if r.random() < 0.25:
            n += 1
            f = list(facs)[-1]
            sc.append(mk(f, "A%d" % n, simple_data(r, facs[f], fl), obj=True))
            if not anygens:
                sc += [findfk("A%d" % n), finddt("A%d" % n)]
        if r.random() < 0.2:
            sc.append({"op": "schema", "f": list(facs)[-1]})
    return {"ops": sc}


# ------------------------------------------------------------------ C15
OPTIONAL = ["parameters", "infinity_io_flag", "xlsx_trailing_empty_rows", "duplicates_ticdat_init", "automunge_multitype_fields", "tooltips"]


def export_scenario(r, fl):
    d = rich(r, fl)
    if r.random() < 0.5:
        d["links"] = False
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    tables = d["tables"]
    for i in range(r.choice([0, 0, 1, 3, 6])):
        dd = rand_decl(r, tables, fl, 0.1)
        if dd["k"] not in ("setgens", "links"):
            sc.append(decl("F", dd))
    facs = [("F", fl, True)]
    allstd = all(t["kind"] == "std" for t in tables)
    for i in range(r.randint(1, 3)):
        f, f_fl, f_full = r.choice(facs)
        g, fl2 = "G%d" % i, r.choice(["tic", "pan"])
        if r.random() < 0.5:
            cut = r.sample(OPTIONAL, r.randint(1, 3)) if r.random() < 0.2 else []
            sc.append({"op": "import", "f": f, "f2": g, "fl2": fl2, "json": r.random() < 0.6, "cut": cut, "junk": False})
        else:
            sc.append(clone(f, g, fl2, via="function" if r.random() < 0.2 else "class", conv=allstd and r.random() < 0.25, say=r.random() < 0.3))
            if sc[-1]["via"] == "function" or (fl2 != f_fl and not sc[-1]["conv"]):
                f_full = f_full and sc[-1]["via"] != "function"
        facs.append((g, fl2, f_full))
    if r.random() < 0.3:
        sc.append({"op": "schemascribble", "f": r.choice(facs)[0]})
    t2 = [dict(t, kind="std" if t["kind"] == "gen" else t["kind"]) for t in tables]
    # later changes to one never affect another
    for i in range(r.randint(0, 5)):
        f, f_fl, _ = r.choice(facs)
        dd = rand_decl(r, t2 if f != "F" else tables, f_fl, 0.1)
        if dd["k"] not in ("setgens", "links"):
            sc.append(decl(f, dd))
    # and they behave identically
    if r.random() < 0.5:
        tabs = simple_data(r, tables, fl)
        for j, (f, f_fl, full) in enumerate(facs):
            o = "A%d" % j
            if not all(t["kind"] == "std" or f_fl == "tic" for t in (tables if f == "F" else t2)) and fl != f_fl:
                continue
            sc.append(mk(f, o, tabs, obj=True))
            if any(t["kind"] == "gen" for t in tables):
                continue
            sc += [findfk(o), finddt(o)]
            if full and all(t["kind"] != "generic" for t in tables):
                sc.append(findrow(o, "Handled as Failure"))
    return {"ops": sc}


def conv_scenario(r, fl):
    """row predicates whose argument makers demand the flavour they were written for, through chains of clones"""
    tables = rand_tables(r, r.randint(1, 3), pkless=0)
    makers = [{"id": "m%d" % i, "m": "count", "t": r.choice(tables)["t"], "home": fl} for i in range(r.choice([1, 2]))]
    pp = [rand_pred(r, r.choice(tables), "pr%d" % i, fl, makers) for i in range(r.randint(1, 3))]
    if not any(p["mk"] for p in pp):
        pp[0]["mk"] = [makers[0]]
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": desc(tables, preds=pp)}]
    facs = [("F", fl)]
    for i in range(r.randint(1, 4)):
        f, f_fl = facs[-1] if r.random() < 0.8 else r.choice(facs)
        other = "pan" if f_fl == "tic" else "tic"
        g = "G%d" % i
        if f_fl == fl and r.random() < 0.6:
            sc.append(clone(f, g, other, conv=True))
            facs.append((g, other))
        elif r.random() < 0.3:
            sc.append({"op": "cloneedit", "f": f, "f2": g, "k": "addtable", "t": "zz%d" % i, "pk": ["k"], "df": ["x"], "bad": "",
                       "fld": "", "kind": "", "pos": -1, "new": "", "clash": False})
            facs.append((g, f_fl))
        else:
            sc.append(clone(f, g, f_fl, say=r.random() < 0.5))
            facs.append((g, f_fl))
    tabs = data(r, tables, [[intv(0), intv(1), intv(2), intv(7)]], 4)
    for j, (f, _) in enumerate(facs):
        sc += [mk(f, "A%d" % j, tabs), findrow("A%d" % j, r.choice(["Handled as Failure", "Handled as Failure", ""]))]
    return {"ops": sc}


# ------------------------------------------------------------------ C18
def chain_tables(r):
    """bridging schemas: keys of a parent reappear in its children"""
    keys = ["a", "b", "c", "d"]
    n = r.randint(2, 5)
    tables = []
    for i in range(n):
        fs = r.sample(["a", "b", "c", "d", "e"], r.randint(1, 4))
        p = r.randint(1, min(3, len(fs)))
        tables.append(table("t%d" % i, fs[:p], fs[p:]))
    fks, seen = [], set()
    for _ in range(r.randint(1, 6)):
        x, y = r.choice(tables), r.choice(tables)
        if x is y and r.random() < 0.7:
            continue
        ff = list(y["pk"]) if r.random() < 0.75 else r.sample(fields(y), r.randint(1, min(3, len(fields(y)))))
        nfs = fields(x)
        if len(nfs) < len(ff):
            continue
        same = [f for f in ff if f in nfs]
        nf = ff if len(same) == len(ff) and r.random() < 0.6 else r.sample(nfs, len(ff))
        m = [[p, q] for p, q in zip(nf, ff)]
        if r.random() < 0.4:
            r.shuffle(m)
        k = {"nt": x["t"], "ft": y["t"], "m": m}
        if fk_key(k) not in seen:
            seen.add(fk_key(k))
            fks.append(k)
    return tables, fks


def implied_scenario(r, dense=False):
    tables, fks = chain_tables(r)
    d = desc(tables, fks=fks)
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": d}]
    if r.random() < 0.4:
        sc.append(decl("F", {"k": "implied"}))
        f = "F"
        if r.random() < 0.3:
            sc.append(decl("F", {"k": "implied"}))
    else:
        sc += [clone("F", "G", "tic"), decl("G", {"k": "implied"})]
        f = "G"
        if r.random() < 0.4:
            sc.append(decl("G", {"k": "implied"}))
    sc.append({"op": "fklist", "f": f})
    if r.random() < 0.2:
        c = rand_fk(r, tables)
        if len({p[1] for p in c["m"]}) == len(c["m"]):
            sc += [decl(f, dict(c, k="addfk", form="ok")), decl(f, {"k": "implied"})]
    rows = []
    small = [intv(0), intv(1)]
    for j in range(r.randint(1, 2)):
        pool = r.choice([small, small, [st("a"), st("b")], [intv(0), intv(1), intv(2)]])
        tabs = data(r, tables, [pool], r.choice([2, 4, 6]))
        o = "A%d" % j
        sc += [mk(f, o, tabs), findfk(o, r.choice(["", "Low"])), removefk(o, r.choice(["default", "yes", "no"])), findfk(o)]
        if f == "G" and r.random() < 0.6:
            sc += [mk("F", "B%d" % j, tabs), removefk("B%d" % j), findfk("B%d" % j)]
    return {"ops": sc}


# ------------------------------------------------------------------ C25
def params_scenario(r, fl):
    d = rich(r, fl, params=1, generic=0.1, gens=0.1, preds=False, n=r.randint(1, 2), dates=True)
    d["links"] = False
    tables = d["tables"]
    if not any(t["t"] == "parameters" for t in tables):
        return params_scenario(r, fl)
    if r.random() < 0.9 and not d["params"]:
        return params_scenario(r, fl)
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    for i in range(r.choice([0, 0, 1, 3])):
        sc.append(decl("F", rand_decl(r, tables, fl, 0.35, ["addparam", "addparam", "rmparam", "setdt"])))
    tabs = simple_data(r, tables, fl)
    for t in tabs:
        if t["t"] == "parameters":
            t["rows"] = [[st(k), r.choice(POOLS["wild"])] for k in r.sample(["p1", "p2", "p3", "p9", "zz"], r.randint(0, 4))]
    sc.append(mk("F", "A", tabs, obj=True))
    sc.append({"op": "fullparams", "o": "A"})
    if fl == "tic" and r.random() < 0.5:
        sc.append({"op": "edit", "o": "A", "t": "parameters", "e": "set", "k": [st(r.choice(["p1", "zz"]))], "kt": False,
                   "r": {"kind": "list", "vals": [intv(7)], "cells": [], "tup": False}, "i": 0, "fld": "", "v": NULL, "ent": []})
        sc.append({"op": "fullparams", "o": "A"})
    sc.append(findrow("A", ""))
    return {"ops": sc}

"""Scenario generators: construction, editing, freezing, object checks, links, copies, conversions."""
import itertools, random
from values import V, NULL, PINF, MINF, num, intv, st, boolv, date
from gen import (POOLS, FIELDS, TABLES, table, desc, fields, rand_tables, rand_fks, rand_rows, norm_key, mk, rand_dv, findfk,
                 finddt, findrow, finddup, removefk, replacedt, setcell, rand_dt, rand_pred)

CELLS = [intv(0), intv(1), intv(2), num(10), num(-6), st("a"), st("b"), st(""), st("x y"), NULL, PINF, boolv(True),
         date("2020-01-02T00:00:00")]
KEYS = [intv(0), intv(1), intv(2), intv(3), num(10), st("a"), st("b"), st("c")]
DUPS = ["assert", "assert", "warn", "ignore"]


def unknown(tb):
    return next(f for f in ("zz", "zy") if f not in fields(tb))


def row(r, flds, vals, style=None, partial=0.3):
    """a supplied row for the given fields and values"""
    styles = ["dict", "dict", "list"] + (["scalar"] if len(flds) == 1 else [])
    style = style or r.choice(styles)
    if style == "dict":
        p = partial if r.random() < 0.5 else 0
        cells = [{"f": f, "v": v} for f, v in zip(flds, vals) if r.random() >= p]
        if r.random() < 0.2:
            r.shuffle(cells)
        return {"kind": "dict", "cells": cells, "vals": [], "tup": False}
    if style == "scalar":
        return {"kind": "scalar", "cells": [], "vals": list(vals), "tup": False}
    return {"kind": "list", "cells": [], "vals": list(vals), "tup": r.random() < 0.4}


def spoil_row(r, tb, flds, x):
    k = r.choice(["field", "field", "long", "short", "scalar"])
    if k == "field" and x["kind"] == "dict":
        x["cells"].append({"f": unknown(tb), "v": intv(1)})
    elif k == "long" or k == "field":
        x.update({"kind": "list", "cells": [], "vals": [intv(1)] * (len(flds) + 1)})
    elif k == "short" and len(flds) > 0:
        x.update({"kind": "list", "cells": [], "vals": [intv(1)] * (len(flds) - 1)})
    elif len(flds) != 1:
        x.update({"kind": "scalar", "cells": [], "vals": [intv(1)]})
    return x


def key_vals(r, n, keys=KEYS):
    return [r.choice(keys) for _ in range(n)]


def entry(r, tb, k=None, full=False, keys=KEYS, cells=CELLS, partial=0.3, style=None):
    n = len(tb["pk"])
    k = key_vals(r, n, keys) if k is None else k
    flds = fields(tb) if full else tb["df"]
    vals = (list(k) if full else []) + [r.choice(cells) for _ in tb["df"]]
    if not flds:
        style = style if style in ("dict", "list") else r.choice(["dict", "list"])
    return {"k": [] if full else list(k), "kt": (n > 1) and not full, "r": row(r, flds, vals, style, partial)}


def distinct(entries):
    seen, out = set(), []
    for e in entries:
        k = tuple(norm_key(v) for v in e["k"])
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def tin(t, form, ent=(), cols=(), rows=(), idx=(), **kw):
    return dict({"t": t, "form": form, "ent": list(ent), "cols": list(cols), "rows": list(rows), "idx": list(idx)}, **kw)


def generic_in(r, t):
    cols = r.sample(["p", "q", "r s", "T"], r.randint(1, 3))
    return tin(t, "df", cols=cols, rows=[[r.choice(CELLS[:9]) for _ in cols] for _ in range(r.randint(0, 4))], obj=True)


def tic_in(r, tb, dup=0.3, spoil=0.0, nmax=5, forms=None, partial=0.3, keys=KEYS):
    n, d, t = len(tb["pk"]), len(tb["df"]), tb["t"]
    if tb["kind"] == "generic":
        return generic_in(r, t)
    cnt = r.randint(0, nmax)
    if tb["kind"] == "gen":
        form = r.choice(["list", "gen"])
    else:
        form = r.choice(forms or (["dict", "dict", "list", "df", "df"] + (["series"] if d == 1 else []) if n else ["list", "list", "df"]))
        if form == "series" and d != 1:
            form = "df"
    bad = r.random() < spoil
    if form == "dict":
        ent = distinct([entry(r, tb, keys=keys + ([NULL] if r.random() < 0.2 else []), partial=partial) for _ in range(cnt)])
        if bad and ent:
            e = r.choice(ent)
            if r.random() < 0.35:
                e["kt"] = True
                e["k"] = key_vals(r, n + 1 if n != 1 else 2)
            elif r.random() < 0.2 and n > 1:
                e["kt"], e["k"] = False, [intv(1)]
            else:
                spoil_row(r, tb, tb["df"], e["r"])
        return tin(t, "dict", ent)
    if form in ("list", "gen"):
        ks = [key_vals(r, n, keys) for _ in range(cnt)]
        if r.random() > dup:
            seen = set()
            ks = [k for k in ks if not n or not (tuple(map(norm_key, k)) in seen or seen.add(tuple(map(norm_key, k))))]
        # in a listing of rows a missing key field means its default; use partial rows sparingly
        ent = [entry(r, tb, k, full=True, partial=partial) for k in ks]
        for e in ent:
            if n and e["r"]["kind"] == "dict" and r.random() < 0.9:
                have = {c["f"] for c in e["r"]["cells"]}
                for f in tb["pk"]:
                    if f not in have:
                        e["r"]["cells"].append({"f": f, "v": r.choice(keys)})
        if bad and ent and (not n):
            spoil_row(r, tb, fields(tb), r.choice(ent)["r"])
        elif bad and ent:
            e = r.choice(ent)
            e["r"] = {"kind": "list", "cells": [], "vals": [intv(1)] * (len(fields(tb)) + r.choice([1, -1])), "tup": False}
            if not e["r"]["vals"]:
                e["r"]["vals"] = [intv(1)] * (len(fields(tb)) + 1)
        return tin(t, form, ent)
    # frames
    useidx = bool(n) and (form == "series" or r.random() < 0.45)
    cols = [] if useidx else list(tb["pk"])
    cols += tb["df"]
    drop = [f for f in tb["df"] if r.random() < 0.2] if form == "df" else []
    if not useidx and form == "df" and r.random() < 0.15:
        drop += tb["pk"][:1]
    cols = [c for c in cols if c not in drop]
    if form == "df" and r.random() < 0.3:
        r.shuffle(cols)
    if form == "df" and r.random() < 0.25:
        cols.insert(r.randint(0, len(cols)), unknown(tb))
    idx = list(tb["pk"]) if useidx else []
    rows, seen = [], set()
    uniq = r.random() > dup
    for _ in range(cnt):
        v = {f: r.choice(keys) for f in tb["pk"]}
        k = tuple(norm_key(v[f]) for f in tb["pk"])
        if uniq and n and k in seen:
            continue
        seen.add(k)
        v.update({f: r.choice(CELLS) for f in tb["df"] + [unknown(tb)]})
        rows.append([v[c] for c in cols + idx])
    if not cols and not idx:
        return tin(t, "list", [])
    if form == "series":
        return tin(t, "series", cols=cols, rows=rows, idx=idx)
    if useidx and len(idx) > 1 and bad and form == "df":
        idx2 = idx[::-1]
        rows = [rw[:len(cols)] + rw[len(cols):][::-1] for rw in rows]
        idx = idx2
    return tin(t, "df", cols=cols, rows=rows, idx=idx, obj=True)


def pan_in(r, tb, spoil=0.0, nmax=5, forms=None, keys=KEYS):
    t, n = tb["t"], len(tb["pk"])
    if tb["kind"] == "generic":
        return generic_in(r, t)
    form = r.choice(forms or ["df", "df", "df", "dictlist", "dicts", "listlist", "none"])
    fl = fields(tb)
    cnt = r.randint(0, nmax)
    if form in ("dicts", "listlist") and cnt == 0:
        form = "none"
    if form == "none":
        return tin(t, "none", what=r.choice(["none", "list", "dict"]))
    bad = r.random() < spoil
    if form == "listlist":
        extra = r.choice([0, 0, 0, 1])
        m = len(fl) + extra - (1 if bad and len(fl) > 1 else 0)
        rows = [[r.choice(KEYS) if j < n else r.choice(CELLS) for j in range(m)] for _ in range(cnt)]
        return tin(t, form, cols=fl[:m] + [str(len(fl) + j) for j in range(m - len(fl))], rows=rows)
    useidx = bool(n) and form == "df" and r.random() < 0.4
    idx = []
    if useidx:
        idx = list(tb["pk"])
        if r.random() < 0.3:
            r.shuffle(idx)
    cols = [f for f in fl if f not in idx]
    cols = [c for c in cols if r.random() >= (0.4 if bad else 0.1)]
    if r.random() < 0.3:
        r.shuffle(cols)
    if r.random() < 0.3:
        cols.insert(r.randint(0, len(cols)), unknown(tb))
    if not cols:
        if idx:
            pass
        else:
            cols = [unknown(tb)]
    rows = [[r.choice(KEYS) if c in tb["pk"] else r.choice(CELLS) for c in cols + idx] for _ in range(cnt)]
    return tin(t, form, cols=cols, rows=rows, idx=idx, obj=True)


def rand_schema(r, fl, generic=0.25, gen=0.15, n=None, pkless=0.25):
    tables = rand_tables(r, n or r.randint(1, 4), pkless=pkless)
    if r.random() < generic:
        r.choice(tables).update({"kind": "generic", "pk": [], "df": []})
    if fl == "tic":
        for tb in tables:
            if tb["kind"] == "std" and not tb["pk"] and r.random() < gen * 3:
                tb["kind"] = "gen"
    return tables


def dvs(r, tables, fl):
    return rand_dv(r, [t for t in tables if t["kind"] != "generic"],
                   [intv(0), intv(7), num(10), st("dflt"), NULL, PINF, boolv(True)], 0.5)


def build(f, o, ins, src="", links=False):
    return {"op": "build", "f": f, "o": o, "ins": ins, "src": src, "links": links}


def build_scenario(r, fl, edits=0, spoil=0.25, generic=0.25, gen=0.15):
    tables = rand_schema(r, fl, generic, gen)
    d = desc(tables, dv=dvs(r, tables, fl), dups=r.choice(DUPS))
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    for i in range(r.randint(1, 3)):
        ins = []
        for tb in tables:
            if r.random() < 0.85:
                ins.append(tic_in(r, tb, spoil=spoil) if fl == "tic" else pan_in(r, tb, spoil=spoil))
        if r.random() < spoil / 3:
            ins.append(tin("nosuch", "df", cols=["a"], rows=[[intv(1)]]))
        r.shuffle(ins)
        sc.append(build("F", "A%d" % i, ins))
    return {"ops": sc}


# ---------------------------------------------------------------- edits
def ed(o, t, e, **kw):
    return dict({"op": "edit", "o": o, "t": t, "e": e, "k": [], "kt": False, "r": {"kind": "dict", "cells": [], "vals": []},
                 "i": 0, "fld": "", "v": NULL, "ent": []}, **kw)


class Shadow:
    """what the generator believes a table holds: only used to aim edits at existing rows"""

    def __init__(self, tb, x):
        self.keys, self.n = [], 0
        if tb["pk"]:
            self.keys = [e["k"] for e in x["ent"]] if x else []
        else:
            self.n = len(x["ent"]) if x else 0


def good_ins(r, tables, keys=KEYS, nmin=0, nmax=5):
    """inputs that are accepted, keyed tables as dict, listed as list"""
    out = []
    for tb in tables:
        x = tic_in(r, tb, dup=0, forms=["dict"] if tb["pk"] else ["list"], partial=0.2, keys=keys, nmax=nmax)
        k = 0
        while tb["kind"] != "generic" and len(x["ent"]) < nmin and k < 20:
            k += 1
            x = tic_in(r, tb, dup=0, forms=["dict"] if tb["pk"] else ["list"], partial=0.2, keys=keys, nmax=nmax)
        out.append(x)
    return out


def rand_edit(r, o, tb, keyof, n, frozen=False, bad=0.2):
    """one edit of table tb; keyof() draws a key that probably exists, n the believed number of rows"""
    t, df = tb["t"], tb["df"]
    isbad = r.random() < bad
    if tb["pk"]:
        kinds = ["get", "get", "set", "set", "setdefault", "update", "ior", "cell", "cell", "del", "pop", "popdefault", "popitem"]
        if r.random() < 0.05 or frozen:
            kinds.append("clear")
        kind = r.choice(kinds)
        k = keyof() if r.random() < (0.75 if kind != "set" else 0.5) else key_vals(r, len(tb["pk"]))
        kt = len(tb["pk"]) > 1
        if isbad and kind in ("set", "setdefault") and r.random() < 0.4 and not frozen:
            k, kt = key_vals(r, len(tb["pk"]) + 1 if len(tb["pk"]) != 1 else 2), True
        rw = entry(r, tb, k)["r"]
        ent = distinct([entry(r, tb, keyof() if r.random() < 0.5 else None) for _ in range(r.randint(0, 3))])
        if isbad:
            if ent and kind in ("update", "ior"):
                if r.random() < 0.5:
                    spoil_row(r, tb, df, r.choice(ent)["r"])
                else:
                    r.choice(ent).update({"k": key_vals(r, len(tb["pk"]) + 1 if len(tb["pk"]) != 1 else 2), "kt": True})
            else:
                rw = spoil_row(r, tb, df, rw)
        fld = r.choice(df) if df and not (isbad and r.random() < 0.5) else (unknown(tb) if r.random() < 0.7 else tb["pk"][0])
        if kind == "cell" and (not df):
            kind = "get"
        if kind == "cell":
            k = keyof()
        return ed(o, t, kind, k=k, kt=kt, r=rw, fld=fld, v=r.choice(CELLS), ent=ent)
    kind = r.choice(["get", "append", "append", "insert", "set", "extend", "cell", "cell", "del", "pop"] + (["clear"] if r.random() < 0.1 else []))
    rw = entry(r, tb, [])["r"]
    ent = [entry(r, tb, []) for _ in range(r.randint(0, 3))]
    if isbad:
        rw = spoil_row(r, tb, df, rw)
        ent = []
    i = r.randrange(n) if n else 0
    if kind == "insert" and n == 0:
        i = 0
    if isbad and kind in ("get", "del", "pop", "cell", "set"):
        i = n + 50
    fld = r.choice(df) if not (isbad and r.random() < 0.5) else unknown(tb)
    return ed(o, t, kind, r=rw, ent=ent, i=i, fld=fld, v=r.choice(CELLS))


def simulate(tb, keys, n, e):
    """approximate effect on the generator's shadow"""
    if tb["pk"]:
        if e["e"] in ("set", "setdefault", "get"):
            keys.append(e["k"])
        elif e["e"] in ("update", "ior"):
            keys += [x["k"] for x in e["ent"]]
        return keys[-12:], 0
    return keys, n


def edit_history(r, o, tables, ins, m, frozen=False, bad=0.2):
    """edits whose list positions are always within what the specification can evaluate"""
    out = []
    st8 = {}
    for tb in tables:
        x = next((i for i in ins if i["t"] == tb["t"]), None)
        st8[tb["t"]] = ([e["k"] for e in x["ent"]] if x and tb["pk"] else [], len(x["ent"]) if x and not tb["pk"] else 0)
    cand = [tb for tb in tables if tb["kind"] == "std"]
    if not cand:
        return out
    for _ in range(m):
        tb = r.choice(cand)
        keys, n = st8[tb["t"]]
        keyof = lambda: list(r.choice(keys)) if keys else key_vals(r, len(tb["pk"]))
        e = rand_edit(r, o, tb, keyof, n, frozen, bad)
        out.append(e)
        if not frozen:
            if tb["pk"]:
                keys = [k for k in keys + ([e["k"]] if e["e"] in ("set", "setdefault", "get") else []) +
                        [x["k"] for x in e["ent"]] if len(k) == len(tb["pk"])][-10:]
                st8[tb["t"]] = (keys, 0)
            else:
                ok = all(good_row(tb, x) for x in ([e["r"]] if e["e"] in ("append", "insert", "set") else [y["r"] for y in e["ent"]]))
                if e["e"] in ("append", "insert") and ok:
                    n += 1
                elif e["e"] == "extend" and ok:
                    n += len(e["ent"])
                elif e["e"] in ("del", "pop") and e["i"] < n:
                    n -= 1
                elif e["e"] == "clear":
                    n = 0
                st8[tb["t"]] = (keys, n)
    return out


def good_row(tb, rw):
    if rw["kind"] == "dict":
        return all(c["f"] in tb["df"] for c in rw["cells"])
    return len(rw["vals"]) == len(tb["df"])


def edit_scenario(r, fl="tic"):
    if fl == "pan":
        tables = [t for t in rand_tables(r, r.randint(1, 2))]
        d = desc(tables, dv=dvs(r, tables, fl))
        ins = [pan_in(r, tb, forms=["df"]) for tb in tables]
        for x in ins:
            full = next(tb for tb in tables if tb["t"] == x["t"])
            x.update(tin(x["t"], "df", cols=fields(full), obj=True,
                         rows=[[r.choice(KEYS) if f in full["pk"] else r.choice(CELLS) for f in fields(full)] for _ in range(r.randint(1, 4))]))
        sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, build("F", "A", ins)]
        cnt = {x["t"]: len(x["rows"]) for x in ins}
        for _ in range(r.randint(2, 6)):
            e, tb = pan_edit(r, "A", tables, cnt)
            sc.append(e)
        return {"ops": sc}
    tables = rand_schema(r, "tic", 0, 0, r.randint(1, 3))
    d = desc(tables, dv=dvs(r, tables, fl))
    ins = good_ins(r, tables)
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, build("F", "A", ins)]
    sc += edit_history(r, "A", tables, ins, r.randint(3, 10))
    return {"ops": sc}


def pan_edit(r, o, tables, cnt):
    tb = r.choice(tables)
    n = cnt[tb["t"]]
    k = r.choice(["iloc", "iloc", "drop", "addcol"])
    if k != "addcol" and n == 0:
        k = "addcol"
    e = {"op": "panedit", "o": o, "t": tb["t"], "e": k, "i": r.randrange(n) if n else 0, "fld": r.choice(fields(tb)),
         "v": r.choice(CELLS)}
    if k == "drop":
        cnt[tb["t"]] -= 1
    return e, tb


# ---------------------------------------------------------------- frozen data
def freeze_scenario(r):
    links = r.random() < 0.6
    if links:
        tables, fks = link_schema(r)
    else:
        tables, fks = rand_schema(r, "tic", 0.15, 0.15, r.randint(1, 3)), []
    keys = r.choice([[intv(0), intv(1), intv(2)], KEYS])
    dts = []
    std = [t for t in tables if t["kind"] == "std"]
    if r.random() < 0.5:
        dts = rand_dt(r, std, 0.5)
    d = desc(tables, fks=fks, dt=dts, links=links)
    ins = good_ins(r, tables, keys)
    if links:
        ins = linked_ins(r, tables, fks)
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": d}, build("F", "A", ins, links=links)]
    how = r.choice(["freeze", "freeze", "copy"])
    o = "A"
    if how == "freeze":
        sc.append({"op": "freeze", "o": "A"})
    else:
        sc.append({"op": "copy", "o": "A", "o2": "B", "freeze": True})
        o = "B"
    if r.random() < 0.3:
        sc.append({"op": "freeze", "o": o})
    muts = edit_history(r, o, tables, ins, r.randint(4, 9), frozen=True, bad=0.05)
    have = {x["t"]: len(x["ent"]) for x in ins}
    for _ in range(r.randint(2, 5)):
        tb = r.choice(tables)
        if tb["kind"] != "std":
            continue
        k = r.choice(["setattr", "delattr", "rowattr", "tabattr", "unfreeze"])
        if k in ("rowattr", "unfreeze") and not have.get(tb["t"]):
            k = "setattr"
        if k == "tabattr" and not tb["pk"]:
            k = "delattr"
        muts.append(ed(o, tb["t"], k))
    if links:
        for k in r.sample(["linkset", "linkdel", "linkclear", "linkmiss", "linkpop", "linkupdate", "linkdefault", "linkattr", "linkrow"], 4):
            muts.append(ed(o, tables[0]["t"], k))
    if dts and r.random() < 0.7:
        muts.append(replacedt(o, []))
    if fks and r.random() < 0.7:
        muts.append(removefk(o, r.choice(["yes", "no"])))
    r.shuffle(muts)
    sc += muts
    if r.random() < 0.4:
        sc += [findfk(o, "High"), finddt(o), {"op": "copy", "o": o, "o2": "C", "freeze": False}]
        sc += edit_history(r, "C", tables, ins, 3)
    if how == "copy":
        sc += edit_history(r, "A", tables, ins, 3)
    return {"ops": sc}


# ---------------------------------------------------------------- links
def link_schema(r):
    """tables with simple foreign keys only"""
    if r.random() < 0.15:   # several compound keys between the same tables
        child = r.choice([(["a", "b", "c", "d"], []), (["a", "b", "c"], ["d"]), (["a"], ["b", "c", "d"]), (["z"], ["a", "b", "c", "d"])])
        tables = [{"t": "parent", "kind": "std", "pk": ["p", "q"], "df": ["v"]},
                  {"t": "child", "kind": "std", "pk": list(child[0]), "df": list(child[1])}]
        fks = []
        for pair in r.sample([x for x in itertools.combinations("abcd", 2)], r.randint(2, 4)):
            m = [[a, b] for a, b in zip(pair, r.choice([["p", "q"], ["q", "p"]]))]
            r.shuffle(m)
            fks.append({"nt": "child", "ft": "parent", "m": m})
        r.shuffle(tables)
        return tables, fks
    while True:
        tables = rand_tables(r, r.randint(1, 4), pkless=0.1)
        fks, seen = [], set()
        for _ in range(r.randint(1, 4)):
            p = r.choice([t for t in tables if t["pk"]] or [None])
            if p is None:
                break
            c = r.choice(tables)
            if len(fields(c)) < len(p["pk"]):
                continue
            nf = list(c["pk"]) if len(c["pk"]) == len(p["pk"]) and r.random() < 0.35 else r.sample(fields(c), len(p["pk"]))
            if c is p and set(nf) & set(p["pk"]) and r.random() < 0.7:
                continue
            m = [[a, b] for a, b in zip(nf, p["pk"])]
            if r.random() < 0.3:
                r.shuffle(m)
            k = (c["t"], p["t"], frozenset(nf))
            if k in seen:
                continue
            seen.add(k)
            fks.append({"nt": c["t"], "ft": p["t"], "m": m})
        if fks:
            return tables, fks


def linked_ins(r, tables, fks, nmax=5):
    small = [intv(0), intv(1), st("a")]
    out = []
    for tb in tables:
        n = len(tb["pk"])
        ent = distinct([{"k": [r.choice(small) for _ in range(n)], "kt": n > 1,
                         "r": {"kind": "list" if r.random() < 0.5 and tb["df"] else "dict", "tup": False, "vals": [], "cells": []}}
                        for _ in range(r.randint(1, nmax))]) if n else []
        for e in ent:
            vals = [r.choice(small) for _ in tb["df"]]
            if e["r"]["kind"] == "list":
                e["r"]["vals"] = vals
            else:
                e["r"]["cells"] = [{"f": f, "v": v} for f, v in zip(tb["df"], vals)]
        if n:
            out.append(tin(tb["t"], "dict", ent))
        else:
            out.append(tin(tb["t"], "list", [{"k": [], "kt": False, "r": {"kind": "list", "tup": False, "cells": [],
                       "vals": [r.choice(small) for _ in tb["df"]]}} for _ in range(r.randint(0, 3))]))
    return out


def link_scenario(r):
    tables, fks = link_schema(r)
    if r.random() < 0.1:   # a complex key forbids links
        a, b = r.choice(tables), r.choice(tables)
        cand = [f for f in fields(b) if [f] != b["pk"]]
        if cand:
            k = {"nt": a["t"], "ft": b["t"], "m": [[r.choice(fields(a)), r.choice(cand)]]}
            fks = fks + [k]
    d = desc(tables, fks=fks, links=True)
    ins = linked_ins(r, tables, fks)
    if r.random() < 0.2:
        ins = ins[:-1]
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": d}, build("F", "A", ins, links=True)]
    simple = all({p[1] for p in k["m"]} == set(next(t for t in tables if t["t"] == k["ft"])["pk"]) for k in fks)
    if simple:
        sc.append({"op": "links", "o": "A"})
        if r.random() < 0.3:
            sc += [{"op": "copy", "o": "A", "o2": "B", "freeze": r.random() < 0.4}, {"op": "links", "o": "B"}]
        if r.random() < 0.3:
            sc += [findfk("A", "High"), {"op": "links", "o": "A"}]
    return {"ops": sc}


# ---------------------------------------------------------------- checks of arbitrary objects
def link_clone_scenario(r):
    """links in data sets of cloned, restricted and edited factories"""
    tables, fks = link_schema(r)
    ins = linked_ins(r, tables, fks)
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": desc(tables, fks=fks, links=r.random() < 0.8)}]
    if r.random() < 0.3:
        sc += [build("F", "A", ins), {"op": "links", "o": "A"}]
    src, keep = "F", [t["t"] for t in tables]
    for i in range(r.randint(1, 2)):
        g = "G%d" % i
        x = r.random()
        if x < 0.3:
            sc.append({"op": "clone", "f": src, "f2": g, "fl2": "tic", "restrict": [], "via": r.choice(["class", "function"]), "conv": False, "say": False})
        elif x < 0.65:
            sub = [t for t in keep if r.random() < 0.8] or keep
            sc.append({"op": "clone", "f": src, "f2": g, "fl2": "tic", "restrict": sub, "via": "class", "conv": False, "say": r.random() < 0.3})
            keep = sub
        else:
            sc.append({"op": "cloneedit", "f": src, "f2": g, "k": "addtable", "t": "zz%d" % i, "fld": "", "new": "", "pk": ["q"], "df": ["u"],
                       "kind": "", "pos": -1, "bad": "", "clash": False})
        src = g
    sc += [build(src, "B", [x for x in ins if x["t"] in keep]), {"op": "links", "o": "B"}]
    return {"ops": sc}


def good_scenario(r, fl):
    tables = rand_schema(r, fl, 0.2, 0.15)
    d = desc(tables, dv=dvs(r, tables, fl), dups=r.choice(["ignore", "assert"]))
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    for i in range(r.randint(2, 4)):
        mode = r.choice(["default", "strict", "generous", "generous"]) if fl == "tic" else "default"
        ins = []
        tamper = r.random() < 0.5
        only = None
        if fl == "tic" and r.random() < 0.25:        # a single flaw in a single row
            only, tamper = r.choice([tb["t"] for tb in tables if tb["kind"] == "std" and tb["df"]] or [None]), False
        for tb in tables:
            if fl == "pan":
                x = pan_in(r, tb, forms=["df"], spoil=0.15 if tamper else 0)
                if tb["kind"] != "generic":
                    cols = [c for c in x["cols"]]
                    miss = [f for f in fields(tb) if f not in cols]
                    if miss and not (tamper and r.random() < 0.5):
                        cols += miss
                    r.shuffle(cols)
                    x = tin(tb["t"], "df", cols=cols, rows=[[r.choice(KEYS) for _ in cols] for _ in range(r.randint(0, 3))], obj=True)
                if tamper and r.random() < 0.15:
                    x = tin(tb["t"], "dictlist", cols=x["cols"], rows=x["rows"])
            else:
                part = 0 if mode != "generous" and not (tamper and r.random() < 0.4) else 0.3
                x = tic_in(r, tb, dup=0, forms=["dict"] if tb["pk"] else ["list"], partial=part,
                           spoil=0.4 if tamper else 0)
                if tb["kind"] == "std" and tb["df"] and (r.random() < 0.25 or tb["t"] == only):
                    # rows that are dictionaries, at most one of which doesn't fit
                    ok = lambda: {"kind": "dict", "vals": [], "tup": False, "cells": [{"f": f, "v": r.choice(CELLS)} for f in tb["df"]]}
                    n = r.randint(1, 4)
                    ks = r.sample(KEYS, n)
                    x = tin(tb["t"], "dict" if tb["pk"] else "list",
                            [{"k": [v] + [r.choice(KEYS) for _ in tb["pk"][1:]] if tb["pk"] else [], "kt": len(tb["pk"]) > 1, "r": ok()} for v in ks])
                    if tamper or tb["t"] == only:
                        cs = r.choice(x["ent"])["r"]["cells"]
                        if r.random() < 0.4:
                            cs.pop(r.randrange(len(cs)))
                        else:
                            r.choice(cs)["f"] = "other field"
                if mode != "generous" and tb["kind"] != "generic" and x["form"] in ("dict", "list", "gen") and not tamper:
                    for e in x["ent"]:      # rows as dictionaries of exactly the data fields
                        if e["r"]["kind"] != "dict":
                            e["r"] = {"kind": "dict", "vals": [], "tup": False,
                                      "cells": [{"f": f, "v": v} for f, v in zip(tb["df"], e["r"]["vals"])]}
                if tb["kind"] == "std" and tb["pk"] and not tb["df"] and r.random() < 0.3:
                    x = tin(tb["t"], "list", [{"k": [], "kt": False, "r": {"kind": "scalar" if len(tb["pk"]) == 1 else "list",
                            "cells": [], "vals": key_vals(r, len(tb["pk"])), "tup": True}} for _ in range(r.randint(0, 3))])
                if tamper and tb["kind"] == "std" and r.random() < 0.1:
                    x = tic_in(r, tb, dup=0, forms=["df"])
            ins.append(x)
        if tamper and r.random() < 0.3 and len(ins) > 0:
            ins.pop(r.randrange(len(ins)))
        if r.random() < 0.3:
            ins.append(tin("unrelated", "list"))
        sc.append({"op": "good", "f": "F", "ins": ins, "mode": mode, "o2": "C%d" % i})
    return {"ops": sc}


# ---------------------------------------------------------------- copies and independence
def scribble(r, o, fl):
    return {"op": "scribble", "o": o, "kind": r.choice(["pandas", "pandas", "asdict", "json", "finddt", "findfk"] if fl == "tic" else
                                                      ["totic", "finddt", "findfk", "finddup", "findrow"]),
            "opt": r.choice(["keep", "none", "drop", "reset"])}


def copy_scenario(r, fl):
    tables = rand_schema(r, fl, 0.2, 0)
    links = False
    d = desc(tables, dv=dvs(r, tables, fl), links=links, dups="ignore")
    full = lambda tb: tin(tb["t"], "df", cols=fields(tb), obj=True,
                          rows=[[r.choice(KEYS) if f in tb["pk"] else r.choice(CELLS) for f in fields(tb)] for _ in range(r.randint(1, 4))])
    raw = r.random() < 0.4
    if fl == "pan":
        ins = [full(tb) if tb["kind"] != "generic" else generic_in(r, tb["t"]) for tb in tables]
        if r.random() < 0.4:
            ins = [pan_in(r, tb, forms=["df", "dictlist"]) if r.random() < 0.5 else x for tb, x in zip(tables, ins)]
            ins = [x if set(fields(tb)) <= set(x["cols"]) or tb["kind"] == "generic" else full(tb) for tb, x in zip(tables, ins)]
    else:
        ins = good_ins(r, tables, nmin=1)
        if raw:
            ins = [tic_in(r, tb, dup=0) for tb in tables]
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}]
    if raw:
        sc += [{"op": "args", "o": "R", "ins": ins}, build("F", "A", ins, src="R")]
    else:
        sc.append(build("F", "A", ins))
    objs, flav = ["A"], {"A": fl}
    if fl == "tic" and r.random() < 0.2:
        sc.append({"op": "freeze", "o": "A"})
        flav["A"] = "frozen"
    cnt = {"A": {x["t"]: len(x["rows"]) for x in ins}}
    for i in range(r.randint(1, 2)):
        src = r.choice(objs)
        o2 = "B%d" % i
        k = r.random()
        generic = any(t["kind"] == "generic" for t in tables)
        if k < 0.6 or flav[src] not in (fl, "frozen"):
            if flav[src] not in (fl, "frozen"):
                src = "A"
            sc.append({"op": "copy", "o": src, "o2": o2, "freeze": fl == "tic" and r.random() < 0.2})
            flav[o2] = fl if not sc[-1]["freeze"] else "frozen"
        elif fl == "tic":
            sc.append({"op": "mkfac", "f": "P", "fl": "pan", "desc": dict(d, links=False)})
            sc.append({"op": "convert", "o": src, "o2": o2, "f2": "P", "kind": "topan", "opt": r.choice(["keep", "none", "drop"]), "restrict": []})
            flav[o2] = "pan"
        else:
            sc.append({"op": "mkfac", "f": "T", "fl": "tic", "desc": d})
            sc.append({"op": "convert", "o": src, "o2": o2, "f2": "T", "kind": "totic", "opt": "", "restrict": []})
            flav[o2] = "tic"
        if flav[o2] == fl:
            objs.append(o2)
        cnt[o2] = dict(cnt.get(src, {}))
        flav.setdefault(o2, fl)
    allo = list(flav)
    for o in allo:      # what conversions and searches hand out doesn't share data with the data set
        if r.random() < 0.3:
            sc.append(scribble(r, o, "pan" if flav[o] == "pan" else "tic"))
    for _ in range(r.randint(3, 8)):
        o = r.choice(allo)
        if raw and r.random() < 0.35:
            x = r.choice(ins)
            if x["form"] == "gen" or (not x["ent"] and not (x["rows"] and x["cols"])) or x["form"] in ("none", "dicts"):
                continue
            if x["form"] == "list" and x["ent"][0]["r"]["tup"]:
                continue
            sc.append({"op": "rawedit", "o": "R", "t": x["t"], "v": st("EDITED"), "more": False})
            if x["form"] == "dict":
                break
            continue
        if flav[o] == "frozen":
            continue
        if flav[o] == "pan" and fl == "pan":
            std = [t for t in tables if t["kind"] == "std"]
            if std:
                e, _tb = pan_edit(r, o, std, cnt[o])
                sc.append(e)
        elif flav[o] == "tic" and fl == "tic":
            if r.random() < 0.15:
                sc.append({"op": "freeze", "o": o})
                flav[o] = "frozen"
            else:
                es = edit_history(r, o, tables, ins if not raw else [], 1, bad=0.1)
                sc += [e for e in es if raw is False or e["e"] not in ("cell", "set", "insert", "del", "pop", "get") or
                       next(t for t in tables if t["t"] == e["t"])["pk"]]
    return {"ops": sc}


# ---------------------------------------------------------------- conversions
def no_dates(x):
    if isinstance(x, dict) and x.get("k") == "date":
        return st("undated")
    return {k: no_dates(v) for k, v in x.items()} if isinstance(x, dict) else [no_dates(v) for v in x] if isinstance(x, list) else x


def convert_scenario(r, fl):
    tables = rand_schema(r, fl, 0.25, 0.15 if fl == "tic" else 0)
    dd = dvs(r, tables, fl)
    d = desc(tables, dv=dd, dups=r.choice(DUPS) if fl == "pan" else "assert")
    other = desc([dict(t, kind="std" if t["kind"] == "gen" else t["kind"]) for t in tables], dv=dd, dups=d["dups"])
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d},
          {"op": "mkfac", "f": "G", "fl": "pan" if fl == "tic" else "tic", "desc": other},
          {"op": "mkfac", "f": "H", "fl": fl, "desc": d}]
    if fl == "tic":
        ins = [tic_in(r, tb, dup=0) for tb in tables]
        if r.random() < 0.1:
            ins = []
        sc.append(build("F", "A", ins))
        gens = any(t["kind"] == "gen" for t in tables)
        k = r.choice(["topan", "topan", "asdict", "json"])
        if k == "topan":
            restrict = [t["t"] for t in tables if t["kind"] != "gen" and r.random() < 0.6] if r.random() < 0.15 else []
            sc.append({"op": "convert", "o": "A", "o2": "B", "f2": "G", "kind": "topan", "opt": r.choice(["keep", "drop", "none", "reset"]),
                       "restrict": restrict})
            if not gens and not restrict:
                sc.append({"op": "convert", "o": "B", "o2": "C", "f2": "H", "kind": "totic", "opt": r.choice(["", "freeze"]), "restrict": []})
        elif k == "asdict":
            sc.append({"op": "convert", "o": "A", "o2": "B", "f2": "H", "kind": "asdict", "opt": "", "restrict": []})
        else:
            if any(t["kind"] != "std" for t in tables):
                return convert_scenario(r, fl)
            sc.append({"op": "convert", "o": "A", "o2": "B", "f2": "H", "kind": "json", "opt": r.choice(["", "verbose"]), "restrict": []})
            return {"ops": no_dates(sc)}       # JSON has no dates
    else:
        ins = [pan_in(r, tb, forms=["df"]) for tb in tables]
        ins = [x if tb["kind"] == "generic" or set(fields(tb)) <= set(x["cols"]) | set(x["idx"]) else
               tin(tb["t"], "df", cols=fields(tb), obj=True,
                   rows=rand_rows(r, tb, CELLS, r.randint(0, 4), r.random() < 0.6, KEYS)) for tb, x in zip(tables, ins)]
        sc.append(build("F", "A", ins))
        sc.append({"op": "convert", "o": "A", "o2": "B", "f2": "G", "kind": "totic", "opt": r.choice(["", "freeze"]), "restrict": []})
        sc.append({"op": "convert", "o": "B", "o2": "C", "f2": "H", "kind": "topan", "opt": r.choice(["keep", "drop", "none", "reset"]),
                   "restrict": []})
    return {"ops": sc}


def special_scenario(r):
    """generator and generic tables through construction, copies and conversions"""
    tables = rand_schema(r, "tic", 0, 0, r.randint(1, 3), pkless=1)
    for tb in tables:
        if r.random() < 0.4:
            tb.update({"kind": "generic", "pk": [], "df": []})
        else:
            tb["kind"] = "gen"
    dd = dvs(r, tables, "tic")
    d = desc(tables, dv=dd)
    other = desc([dict(t, kind="std" if t["kind"] == "gen" else t["kind"]) for t in tables], dv=dd)
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": d}, {"op": "mkfac", "f": "G", "fl": "pan", "desc": other},
          build("F", "A", [tic_in(r, tb, dup=0, spoil=0.15, forms=None) for tb in tables if r.random() < 0.85])]
    ok = [tic_in(r, tb, dup=0) for tb in tables if r.random() < 0.9]
    sc.append(build("F", "B", ok))
    sc += [{"op": "copy", "o": "B", "o2": "C", "freeze": r.random() < 0.3}, finddt("B"), findfk("B")]
    gens = any(t["kind"] == "gen" for t in tables)
    sc.append({"op": "convert", "o": "B", "o2": "D", "f2": "F" if r.random() < 0.3 else "G", "kind": "topan",
               "opt": r.choice(["keep", "drop", "none"]), "restrict": []})
    if sc[-1]["f2"] == "F":
        sc[-1].update({"kind": "asdict"})
    sc.append({"op": "copy", "o": "B", "o2": "E", "freeze": False})
    return {"ops": sc}


# ---------------------------------------------------------------- nothing but questions
def read_scenario(r, fl):
    import gen
    base = r.choice([gen.fk_scenario, gen.dt_scenario, gen.row_scenario])(r, fl, [])
    sc = base["ops"][:2]
    d = sc[0]["desc"]
    sc[0]["desc"] = d = dict(d, dups="ignore", links=False)
    std = d["tables"]
    if base is not None and not d["preds"]:
        d["preds"] = [rand_pred(r, r.choice(std), "p%d" % i, fl) for i in range(r.randint(0, 2))]
    if not d["dt"]:
        d["dt"] = rand_dt(r, [t for t in std if t["t"] != "parameters"], 0.3)
    if any(v["k"] == "str" and v["s"].isdigit() for t in sc[1]["tabs"] for row in t["rows"] for v in row):
        for x in d["dt"]:     # whether "1" reads as a date is pandas' business
            x["ty"] = dict(x["ty"], dt=False)
    if fl == "pan":
        sc[1]["obj"] = True
    sc.append({"op": "mkfac", "f": "G", "fl": "pan" if fl == "tic" else "tic", "desc": dict(d, preds=[], links=False)})
    pool = [lambda: findfk("A", r.choice(["High", "Low"]), r.choice([0, 0, 2]), r.random() < 0.5),
            lambda: finddt("A", r.choice([0, 0, 2]), r.random() < 0.5),
            lambda: findrow("A", r.choice(["Handled as Failure", "Handled as Failure", ""]), r.choice([0, 0, 2]), r.random() < 0.5),
            lambda: {"op": "copy", "o": "A", "o2": "C%d" % r.randint(0, 99), "freeze": fl == "tic" and r.random() < 0.3},
            lambda: {"op": "convert", "o": "A", "o2": "D%d" % r.randint(0, 99), "f2": "G", "restrict": [],
                     "kind": "topan" if fl == "tic" else "totic", "opt": r.choice(["keep", "drop", "none", "reset"]) if fl == "tic" else ""}]
    if fl == "pan":
        pool.append(lambda: finddup("A", r.choice(["first", "last", "none"]), r.random() < 0.5))
    else:
        pool.append(lambda: {"op": "convert", "o": "A", "o2": "D%d" % r.randint(0, 99), "f2": "F", "restrict": [], "kind": "asdict", "opt": ""})
    asked = []
    for _ in range(r.randint(4, 8)):
        q = r.choice(asked) if asked and r.random() < 0.35 else r.choice(pool)()
        if q["op"] not in ("copy", "convert"):
            asked.append(q)
        sc.append(q)
    return {"ops": sc}


def dup_build_scenario(r):
    tables = [t for t in rand_tables(r, r.randint(1, 3), pkless=0.15)]
    few = [intv(0), intv(1), st("a")]
    d = desc(tables, dups=r.choice(["assert", "warn", "ignore"]))
    sc = [{"op": "mkfac", "f": "F", "fl": "tic", "desc": d}]
    for i in range(2):
        sc.append(build("F", "A%d" % i, [tic_in(r, tb, dup=0.7, forms=["list", "list", "df", "dict"] if tb["pk"] else ["list"],
                                                partial=0, keys=few, nmax=4) for tb in tables]))
    if r.random() < 0.4:    # the same policy governs conversions from frames
        tabs = [{"t": tb["t"], "rows": rand_rows(r, tb, CELLS[:6], r.randint(0, 4), False, few), "cols": []} for tb in tables]
        sc += [{"op": "mkfac", "f": "P", "fl": "pan", "desc": d}, mk("P", "B", tabs, obj=True),
               {"op": "convert", "o": "B", "o2": "C", "f2": "F", "kind": "totic", "opt": "", "restrict": []}]
    return {"ops": sc}

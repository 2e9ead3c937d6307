"""Scenario generators: data handed to AMPL and taken back, AMPL templates, logs, progress, slices of series, row-wise application."""
from values import V, NULL, PINF, num, intv, st, boolv
from gen import desc, fields, mk, norm_key
import genobj

CELLS = [intv(0), intv(1), intv(2), num(10), num(-6), st("a"), st("b"), st(""), st("x y"), PINF, intv(77), V("num", 12, "3.0000001")]
KEYP = {"str": [st("a"), st("b"), st("c"), st("d e")], "int": [intv(0), intv(1), intv(2), intv(10)], "mix": [intv(1), num(6), st("a"), st("1")]}
NEWN = ["Alpha", "beta_2", "cost", "x y", "_", "K", "z9"]
NUMV = [intv(0), intv(0), intv(1), num(1), num(-6), intv(3), intv(100), V("num", 12, "3.0000001"), intv(-1)]
FILT = ["", "", "", "pos", "neg", "all", "zero", "none", "num"]


def ampl_rows(r, tb, pools, n, other):
    rows, seen = [], set()
    for _ in range(n):
        row = [r.choice(pools[f]) for f in tb["pk"]] + [r.choice(other) for _ in tb["df"]]
        k = tuple(norm_key(v) for v in row[:len(tb["pk"])])
        if tb["pk"] and k in seen:
            continue
        seen.add(k)
        rows.append(row)
    return rows


def to_op(r, o, tables):
    keyed = [t for t in tables if t["pk"]]
    ren, exc, names = [], [], []
    for t in tables:
        if r.random() < 0.15:
            exc.append(t["t"])
    if r.random() < 0.03:
        exc.append("no such table")
    live = [t for t in keyed if t["t"] not in exc]
    for t in live + ([r.choice(tables)] if r.random() < 0.06 else []):
        fresh = [n for n in NEWN if n not in fields(t)]
        r.shuffle(fresh)
        if r.random() < 0.15 and len(fields(t)) > 1:       # names trading places
            a, b = r.sample(fields(t), 2)
            ren += [{"t": t["t"], "f": a, "k": "str", "new": b}, {"t": t["t"], "f": b, "k": "str", "new": a}]
            continue
        for f in fields(t):
            if r.random() < 0.3:
                x = r.random()
                if (f in t["df"] and x < 0.35) or x < 0.03:
                    ren.append({"t": t["t"], "f": f, "k": r.choice(["str", "none"]), "new": ""})
                elif x > 0.98:
                    ren.append({"t": t["t"], "f": f, "k": "num", "new": ""})
                else:
                    ren.append({"t": t["t"], "f": f, "k": "str", "new": fresh.pop()})
        if r.random() < 0.03:
            ren.append({"t": t["t"], "f": "no such field", "k": "str", "new": "nn"})
    ren = list({(x["t"], x["f"]): x for x in ren}.values())
    for t in live:                                          # names stay distinct
        m = {x["f"]: x["new"] or "-" + x["f"] for x in ren if x["t"] == t["t"]}
        if len({m.get(f, f) for f in fields(t)}) < len(fields(t)):
            ren = [x for x in ren if x["t"] != t["t"]]
    for t in live:
        if r.random() < 0.4:
            names.append({"t": t["t"], "n": r.choice(["S", "SET_%s" % t["t"], "T"])})
    if r.random() < 0.05:
        names.append({"t": r.choice(tables)["t"] if r.random() < 0.6 else "no such table", "n": r.choice(["S", "#num"])})
    names = list({x["t"]: x for x in names}.values())
    fail = r.choice(live)["t"] if live and r.random() < 0.08 else ""
    return {"op": "toampl", "o": o, "ren": ren, "exc": exc, "send": r.choice(["yes", "yes", "no"]), "names": names, "fail": fail}


def from_op(r, o2, tables, pools):
    vs, keyed = [], [t for t in tables if t["pk"]]
    for t in keyed + ([r.choice(tables)] if r.random() < 0.05 else []):
        for f in [""] + t["df"] + (["no such field"] if r.random() < 0.03 else []):
            if r.random() < (0.35 if f == "" else 0.6):
                rows = [k[:len(t["pk"])] + [r.choice(NUMV)] for k in ampl_rows(r, t, pools[t["t"]], r.choice([0, 1, 3, 5]), CELLS)] if t["pk"] else []
                if r.random() < 0.1:
                    rows = [x[:-1] + [intv(0)] for x in rows]
                vs.append({"t": t["t"], "f": f, "filt": r.choice(FILT), "rows": rows})
    if r.random() < 0.03:
        vs.append({"t": "no such table", "f": "", "filt": "", "rows": []})
    vs = list({(x["t"], x["f"]): x for x in vs}.values())
    r.shuffle(vs)
    return {"op": "fromampl", "f": "F", "o2": o2, "vars": vs}


def ampl_scenario(r, fl):
    tables = genobj.rand_schema(r, fl, 0.15, 0.1 if fl == "tic" else 0)
    dd = [x for x in genobj.dvs(r, tables, fl) if x["v"]["k"] in ("num", "str")]
    keys = {(t["t"], f) for t in tables for f in t["pk"]}
    dd = [x for x in dd if (x["t"], x["f"]) not in keys or x["v"]["k"] == "num"]
    d = desc(tables, dv=dd, dups=r.choice(genobj.DUPS))
    pools = {t["t"]: {f: KEYP[r.choice(["str", "str", "int", "mix"])] for f in t["pk"]} for t in tables}
    tabs = []
    for t in tables:
        if t["kind"] == "generic":
            tabs.append({"t": t["t"], "cols": ["p", "q"], "rows": [[intv(1), st("a")], [intv(2), st("b")]]})
        else:
            tabs.append({"t": t["t"], "cols": [], "rows": ampl_rows(r, t, pools[t["t"]], r.choice([0, 1, 3, 6]), CELLS)})
            if fl == "pan" and r.random() < 0.1 and tabs[-1]["rows"]:
                tabs[-1]["rows"].append(list(r.choice(tabs[-1]["rows"])))
    sc = [{"op": "mkfac", "f": "F", "fl": fl, "desc": d}, mk("F", "A", tabs, labels=r.choice(["", "", "rev", "gap"]) if fl == "pan" else "")]
    for i in range(r.randint(1, 3)):
        sc.append(to_op(r, "A", tables) if r.random() < 0.5 else from_op(r, "B%d" % i, tables, pools))
        if sc[-1]["op"] == "fromampl" and r.random() < 0.3:
            sc.append(to_op(r, "B%d" % i, tables))
    return {"ops": sc}


LITS = ["set S;", "param d {S} >= 0;", "{i in S}", " : ", "sum{i in 1..3} x[i]", "\n", "'a' 100%", "{}", "} {", "a{0}b", "{x!r}", "%s", "param p := ", "\\", "{n}"]
ARGN = ["n", "x", "lim", "tbl_1"]


def fmt_scenario(r):
    sc = []
    for _ in range(r.randint(1, 4)):
        toks = []
        for _ in range(r.randint(0, 6)):
            if r.random() < 0.55:
                if toks and toks[-1]["k"] == "lit":      # two literals must not make double braces
                    toks.append({"k": "lit", "s": " "})
                toks.append({"k": "lit", "s": r.choice(LITS)})
            else:
                toks.append({"k": "name", "s": r.choice(ARGN)})
        ok = []
        for i, t in enumerate(toks):                     # braces next to double braces are ambiguous
            if ok and ((ok[-1]["s"][-1:] in "{}" or t["s"][:1] in "{}") and ok[-1]["k"] != t["k"]):
                ok.append({"k": "lit", "s": " "})
            ok.append(t)
        toks = ok
        names = [n for n in ARGN if r.random() < 0.75] if r.random() < 0.3 else ARGN
        args = [{"n": n, "v": r.choice([st("S"), intv(12), st("{x}"), st("{{n}}"), st(""), intv(-3), st("a b")])} for n in names]
        sc.append({"op": "amplfmt", "toks": toks, "args": args})
    return {"ops": sc}


THEMES = [st("solve"), st(""), st("a theme that is much longer than the column it is written to"), st("x" * 30), st("y" * 40)]
PNUM = [intv(0), num(1), num(-1), intv(100), num(21), intv(-50), num(19999), num(20000), num(-20000), num(20001), intv(200000), num(800001), intv(1000000),
        num(4000001), num(-800001)]


def util_scenario(r):
    seqs = []
    for i in range(r.randint(1, 3)):
        sc = []
        seqs.append(sc)
        k = r.choice(["log", "log", "progress", "callback", "sloc", "sloc", "apply"])
        if k == "log":
            lid = "L%d" % i
            null = r.random() < 0.1
            sc.append({"op": "logopen", "id": lid, "null": null})
            for _ in range(r.randint(0, 4)):
                if r.random() < 0.3:
                    sc.append({"op": "logwrite", "id": lid, "s": r.choice(["hello\n", "", "a b", "Table x:\n"])})
                    continue
                w = r.randint(1, 6)
                n = r.choice([1, 2, 3, 10, 11, 12, 13]) if r.random() < 0.9 else 0
                seq = [[r.choice([st("a"), intv(1), intv(-20), st(""), st("f%d" % j), st("a value that is wider than any column"), st("x" * 18),
                                  st("y" * 20), st("z" * 24), st("w" * 30)]) for j in range(w)] for _ in range(n)]
                if r.random() < 0.08 and len(seq) > 1:
                    j = r.randrange(len(seq))
                    seq[j] = seq[j] + [st("more")] if r.random() < 0.5 or w == 1 else seq[j][:-1]
                sc.append({"op": "logtable", "id": lid, "name": r.choice(["t", "my table"]), "seq": seq, "max": r.choice([10, 10, 1, 0, 2, 11, 100]),
                           "fmt": r.choice(["", "", "angle"]), "how": r.choice(["lists", "tuples"])})
            sc.append({"op": "logclose", "id": lid, "null": null, "how": r.choice(["with", "close"])})
        elif k == "progress":
            for _ in range(r.randint(1, 5)):
                a = r.choice(PNUM)
                b = r.choice(PNUM + [a, a, a, V("num", a["n"] - 1, ""), V("num", a["n"] + 1, "")])
                bad = r.random()
                sc.append({"op": "progress", "kind": r.choice(["num", "mip", "mip"]), "quiet": r.random() < 0.3,
                           "theme": r.choice([intv(1), NULL]) if bad < 0.06 else r.choice(THEMES),
                           "a": st("a") if 0.06 < bad < 0.1 else a, "b": NULL if 0.1 < bad < 0.14 else b})
        elif k == "callback":
            for _ in range(r.randint(1, 2)):
                via = r.choice(["gurobi", "xpress", "cplex"])
                sc.append({"op": "solvercb", "via": via, "sense": r.choice(["default", "minimize", "minimize", "maximize", "maximize", "max"]),
                           "theme": r.choice(THEMES), "obj": NULL if via == "cplex" and r.random() < 0.3 else r.choice(PNUM), "bound": r.choice(PNUM),
                           "keep": r.random() < 0.5, "where": [r.choice(["mip", "mip", "sol", "node", "poll"]) for _ in range(r.randint(1, 3))]})
        elif k == "sloc":
            w = r.choice([1, 2, 2, 3, 3])
            pools = [r.sample(p, r.randint(2, len(p))) for p in ([st("x"), st("y"), st("z")], [intv(1), intv(2), intv(3)], [st("p"), st("q"), st("r")])][:w]
            rows, seen = [], set()
            for _ in range(r.randint(1, 9)):
                row = [r.choice(p) for p in pools]
                if str(row) not in seen:
                    seen.add(str(row))
                    rows.append(row + [intv(r.randint(0, 9))])
            pats = []
            for _ in range(r.randint(1, 6)):
                base = r.choice(rows)[:-1] if r.random() < 0.6 else [r.choice([st("x"), st("y"), st("z"), st("none")] if j != 1 else [intv(1), intv(3), intv(9)])
                                                                     for j in range(w)]
                star = r.choice([0.2, 0.5, 0.8])
                pats.append([st("*") if r.random() < star else v for v in base])
            sc.append({"op": "sloc", "rows": rows, "pats": pats, "how": r.choice(["series", "frame"])})
        else:
            n = r.choice([0, 1, 3, 6])
            rows = [[r.choice([intv(0), intv(1), intv(2), num(6)]) for _ in range(2)] for _ in range(n)]
            idx = [r.choice([intv(j), st("r%d" % j), intv(5)]) for j in range(n)]
            sc.append({"op": "dfapply", "cols": r.choice([["a", "b"], ["class", "Name x"], ["0", "_1"]]), "idx": idx, "rows": rows,
                       "fn": r.choice(["sum", "first", "second", "seven"]), "trip": r.choice([NULL, intv(1), intv(2), intv(3), intv(7), intv(99)]),
                       "fn2": r.choice(["sum", "first", "second", "seven"])})
    out = []
    while any(seqs):
        out.append(r.choice([s for s in seqs if s]).pop(0))
    return {"ops": out}

"""Small programs for the optimisation wrapper."""
from values import V

PINF, MINF = V("inf", 1), V("inf", -1)


def q(x):
    return V("num", int(x * 4))


def variables(r, n):
    """[(name, type, lb, ub, cap row or None)], all with finitely many candidate values"""
    out, room = [], 900
    cont = 0
    for i in range(n):
        t = r.choice(["continuous", "integer", "integer", "binary", "binary"])
        if t == "continuous" and cont >= 2:
            t = "integer"
        if t == "binary":
            lb, ub = r.choice([(q(0), PINF), (q(0), PINF), (q(0), q(1)), (q(0), q(0)), (q(1), q(1)), (q(1), PINF)])
            size, cap = 2, None
        else:
            lo = r.choice([0, 0, 0, 1, -2, -1, 0.5 if t == "continuous" else 0, -1.5])
            w = r.choice([0, 1, 2, 3, 4, 1.5])
            size = 4 * w + 1 if t == "continuous" else w + 1
            if size > room:
                w, size = 1, 5 if t == "continuous" else 2
            lb, ub, cap = q(lo), q(lo + w), None
            if r.random() < 0.25:
                ub, cap = PINF, ("le", q(lo + w))
            elif r.random() < 0.2:
                lb, cap = MINF, ("ge", q(lo))
        room = max(4, room // max(1, int(size)))
        cont += t == "continuous"
        out.append(("x%d" % i, t, lb, ub, cap))
    return out


def row(r, vs, m, squares=False):
    """at most one continuous variable per row"""
    ints = [v for v in vs if v[1] != "continuous"]
    con = [v for v in vs if v[1] == "continuous"]
    ts = [[v[0], r.choice([1, 1, 2, 3, -1, -2])] for v in r.sample(ints, r.randint(0 if con else 1, len(ints)))] if ints else []
    if con and (not ts or r.random() < 0.5):
        ts.append([r.choice(con)[0], r.choice([1, 1, -1, 2])])
    r.shuffle(ts)
    s = r.choice(["le", "le", "ge", "eq"])
    rhs = r.choice([-2, -1, 0, 1, 2, 3, 4, 5, 6, 1.5, 3.5])
    if len(ts) == 1 and ts[0][1] == 1 and s == "eq":
        s = "le"
    x = {"terms": ts, "sense": s, "rhs": q(rhs), "how": r.choice(["sum", "gen", "dict", "plus"]), "quad": []}
    whole = [v for v in ints if v[1] == "integer"]
    if squares and whole and s == "le" and not {v[0] for v in con} & {t[0] for t in ts} and r.random() < 0.15:
        x["quad"] = [[v[0], r.choice([1, 2])] for v in r.sample(whole, r.choice([1, min(2, len(whole))]))]
    return x


def objective(r, vs, m, solver):
    ts = [[v[0], r.choice([1, 2, 3, -1, -2, 5])] for v in r.sample(vs, r.randint(1, len(vs)))]
    sense = r.choice(["maximize", "minimize"])
    quad = []
    ints = [v for v in vs if v[1] == "integer"]
    if ints and solver != "xpress" and r.random() < 0.2:      # xpress itself misreports the value of fixed squares
        quad = [[v[0], (-1 if sense == "maximize" else 1) * r.choice([1, 2])] for v in r.sample(ints, 1)]
    return {"op": "obj", "m": m, "terms": ts, "quad": quad, "const": r.choice([0, 0, 0, 7, -3]), "sense": sense,
            "how": r.choice(["sum", "gen", "dict", "plus"])}


def addvars(r, vs, m):
    ops = []
    for v, t, lb, ub, cap in vs:
        ops.append({"op": "addvar", "m": m, "v": v, "lb": lb, "ub": ub, "type": t, "name": r.choice(["", "n_" + v]), "full": r.random() < 0.5})
        if cap:
            ops.append({"op": "addcon", "m": m, "terms": [[v, 1]], "sense": cap[0], "rhs": cap[1], "how": "plus", "name": "", "quad": []})
    return ops


BAD_VARS = [dict(lb=q(2), ub=q(1), type="integer"), dict(lb=PINF, ub=PINF, type="continuous"), dict(lb=MINF, ub=MINF, type="continuous"),
            dict(lb=q(0), ub=q(2), type="binary"), dict(lb=q(-1), ub=PINF, type="binary"), dict(lb=q(0.5), ub=q(1), type="binary"),
            dict(lb=q(0), ub=q(1), type="bool"), dict(lb=V("str", 0, "0"), ub=q(1), type="integer"), dict(lb=q(0), ub=V("str", 0, "5"), type="integer"),
            dict(lb=q(1), ub=q(0), type="binary"), dict(lb=MINF, ub=q(1), type="binary"), dict(lb=V("null"), ub=q(1), type="continuous")]


def params(r, m):
    k = r.choice(["MIP_Gap", "MIP_Gap", "time_limit", "MIPGap", "threads"])
    return {"op": "param", "m": m, "k": k, "val": r.choice([0, 1000, 25000]) if k == "MIP_Gap" else r.choice([5000000, 10000000, 1050000, 2025000])}


def program(r, solver, m):
    vs = variables(r, r.randint(1, 4))
    ops = [{"op": "newmodel", "m": m, "solver": solver, "named": r.random() < 0.8}]
    ops += addvars(r, vs, m)
    if r.random() < 0.12:
        ops.append(dict({"op": "addvar", "m": m, "v": "bad", "name": "", "full": True}, **r.choice(BAD_VARS)))
    bins = [v[0] for v in vs if v[1] == "binary"]

    def more(k):
        o = []
        for _ in range(k):
            x = row(r, vs, m)
            if bins and solver != "cplex" and r.random() < 0.25:
                o.append(dict({"op": "addind", "m": m, "b": r.choice(bins), "on": r.random() < 0.5, "odd": r.random() < 0.3}, **x))
            elif bins and r.random() < 0.03:
                o.append(dict({"op": "addind", "m": m, "b": r.choice(bins), "on": r.random() < 0.5, "odd": r.random() < 0.3}, **x))
            else:
                o.append(dict({"op": "addcon", "m": m, "name": r.choice(["", "c%d" % r.randrange(3 if solver != "xpress" else 10 ** 6)])}, **(x if r.random() < 0.5 else row(r, vs, m, solver != "xpress"))))
        return o
    ops += more(r.choice([0, 1, 1, 2, 3]))
    if r.random() < 0.35:
        ops.append(params(r, m))
    if r.random() < 0.06:
        ops.append(dict(objective(r, vs, m, solver), sense="max"))
    mip = lambda: any(v[1] != "continuous" for v in vs)
    if r.random() < 0.9:
        ops.append(objective(r, vs, m, solver))
    if r.random() < 0.08:
        t = r.choice(["integer", "continuous"])
        lb, ub, c = r.choice([(q(0), PINF, 1), (MINF, q(3), -1), (MINF, PINF, 1)])
        v = ("free", t, lb, ub, None)
        ops += addvars(r, [v], m)
        sense = r.choice(["maximize", "minimize"])
        ops.append({"op": "obj", "m": m, "terms": [["free", c if sense == "maximize" else -c]], "quad": [], "const": 0, "sense": sense, "how": "plus"})
        return ops + [{"op": "opt", "m": m, "mip": False}]
    ops.append({"op": "opt", "m": m, "mip": mip()})
    for _ in range(r.choice([0, 0, 1, 2])):
        x = r.random()
        if x < 0.45:
            ops += more(1)
        elif x < 0.75:
            ops.append(objective(r, vs, m, solver))
        elif x < 0.9:
            v = variables(r, 1)[0]
            v = ("y%d" % len(vs), "binary", v[2], v[3], None) if v[1] == "binary" else ("y%d" % len(vs), "integer", q(0), q(1), None)
            vs.append(v)
            ops += addvars(r, [v], m) + more(1)
        else:
            ops.append(params(r, m))
        ops.append({"op": "opt", "m": m, "mip": mip()})
    return ops


def gap_program(r, solver, m):
    """knapsacks solved to within a wide gap: bound and objective differ"""
    vs = [("x%d" % i, "integer", q(0), q(r.choice([1, 2, 3])), None) for i in range(r.choice([4, 4, 5]))]
    mx = r.random() < 0.7
    ops = [{"op": "newmodel", "m": m, "solver": solver, "named": True}] + addvars(r, vs, m)
    for _ in range(2):
        ops.append({"op": "addcon", "m": m, "name": "", "terms": [[v[0], r.choice([2, 3, 4, 5, 7])] for v in vs],
                    "quad": [], "sense": "le" if mx else "ge", "rhs": q(r.randint(7, 16)), "how": "sum"})
    ops.append({"op": "obj", "m": m, "terms": [[v[0], r.choice([3, 4, 5, 7, 8, 9])] for v in vs], "quad": [], "const": r.choice([0, 0, 5]),
                "sense": "maximize" if mx else "minimize", "how": r.choice(["sum", "dict"])})
    ops.insert(r.randint(1, len(ops)), {"op": "param", "m": m, "k": "MIP_Gap", "val": r.choice([10000, 50000, 90000])})
    ops.append({"op": "opt", "m": m, "mip": True})
    if r.random() < 0.5:
        ops += [{"op": "param", "m": m, "k": "MIP_Gap", "val": 0}, {"op": "opt", "m": m, "mip": True}]
    return ops


def scenario(r, avail):
    s = r.choice(avail)
    a = (gap_program if r.random() < 0.2 else program)(r, s, "m1")
    if r.random() < 0.2:      # two models, interleaved
        b = program(r, r.choice(avail), "m2")
        out = []
        while a or b:
            x = a if a and (not b or r.random() < 0.5) else b
            out.append(x.pop(0))
        a = out
    if r.random() < 0.03:
        a.insert(0, {"op": "newmodel", "m": "m0", "solver": r.choice(["glpk", "Gurobi", ""]), "named": True})
    return {"ops": a, "limit": 240}

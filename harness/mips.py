"""Operations on ticdat.Model, the optimisation wrapper (spec/Mip.tla)."""
import os, subprocess, sys
from values import V, enc, dec

NATIVE = {
    "gurobi": "import gurobipy as g\nm=g.Model('p',env=g.Env())\nx=m.addVar(ub=3,vtype='I')\nm.setObjective(x,sense=-1)\nm.optimize()\nassert x.x==3",
    "cplex": "from docplex.mp.model import Model\nm=Model('p')\nx=m.integer_var(ub=3)\nm.maximize(x)\ns=m.solve()\nassert s and s.get_value(x)==3",
    "xpress": "import xpress as p\nm=p.problem()\nx=p.var(ub=3,vartype=p.integer)\nm.addVariable(x)\nm.setObjective(x,sense=p.maximize)\nm.solve()\n"
              "assert round(m.getSolution()[0])==3",
}


def solvers():
    """the solvers that work here when used directly, without ticdat"""
    ps = {k: subprocess.Popen([sys.executable, "-W", "ignore", "-c", s], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                              cwd="/tmp") for k, s in NATIVE.items()}
    ok = []
    for k, p in ps.items():
        try:
            if p.wait(timeout=60) == 0:
                ok.append(k)
        except subprocess.TimeoutExpired:
            p.kill()
    return sorted(ok)


def units(x):
    try:
        x = float(x)
    except Exception:
        return 2000000000
    if x != x or x > 20000:
        return 2000000000
    if x < -20000:
        return -2000000000
    return int(round(x * 100000))


class MipOps:
    """mixed into World; self.M: name -> (Model, {variable name: variable})"""

    def params(self, m):
        c = m.core_model
        if m.model_type == "gurobi":
            return [units(c.Params.MIPGap), units(c.Params.TimeLimit)]
        if m.model_type == "cplex":
            return [units(c.parameters.mip.tolerances.mipgap.get()), units(c.parameters.timelimit.get())]
        return [units(c.controls.miprelstop), units(c.controls.timelimit)]

    def op_newmodel(self, op):
        from ticdat import Model
        m = Model(op["solver"], op["m"]) if op.get("named", True) else Model(model_type=op["solver"])
        if m.model_type == "gurobi":
            m.core_model.Params.OutputFlag = 0
        elif m.model_type == "xpress":
            m.core_model.setOutputEnabled(False)
        self.M[op["m"]] = (m, {})
        return {"core": m.core_module.__name__.split(".")[0] == {"gurobi": "gurobipy", "cplex": "docplex", "xpress": "xpress"}[op["solver"]]
                and type(m.core_model).__module__.split(".")[0] == m.core_module.__name__.split(".")[0],
                "type": m.model_type, "params": self.params(m)}

    def op_addvar(self, op):
        m, vs = self.M[op["m"]]
        kw = {}
        if op["lb"] != V("num") or op.get("full"):
            kw["lb"] = dec(op["lb"])
        if op["ub"] != V("inf", 1) or op.get("full"):
            kw["ub"] = dec(op["ub"])
        if op["type"] != "continuous" or op.get("full"):
            kw["type"] = op["type"]
        if op.get("name"):
            kw["name"] = op["name"]
        vs[op["v"]] = m.add_var(**kw)

    def expr(self, m, vs, terms, how):
        ts = [c * vs[v] if c != 1 else vs[v] for v, c in terms]
        if how == "sum":
            return m.sum(ts)
        if how == "gen":
            return m.sum(t for t in ts)
        if how == "dict":
            return m.sum(dict(enumerate(ts)).values())
        r = ts[0]
        for t in ts[1:]:
            r = r + t
        return r

    def con(self, op):
        m, vs = self.M[op["m"]]
        x, rhs = self.expr(m, vs, op["terms"], op["how"]), dec(op["rhs"])
        for v, c in op["quad"]:
            x = x + c * vs[v] * vs[v]
        return {"le": lambda: x <= rhs, "ge": lambda: x >= rhs, "eq": lambda: x == rhs}[op["sense"]]()

    def op_addcon(self, op):
        self.M[op["m"]][0].add_constraint(self.con(op), **({"name": op["name"]} if op.get("name") else {}))

    def op_addind(self, op):
        m, vs = self.M[op["m"]]
        m.add_indicator_constraint(vs[op["b"]], ([1, "on", 2.5] if op["on"] else [0, "", None])[len(op["terms"]) % 3] if op.get("odd") else op["on"], self.con(op))

    def op_obj(self, op):
        m, vs = self.M[op["m"]]
        x = self.expr(m, vs, op["terms"], op["how"])
        for v, c in op["quad"]:
            x = x + c * vs[v] * vs[v]
        if op["const"]:
            x = x + op["const"]
        if op["sense"] == "minimize" and op["how"] == "gen":
            m.set_objective(x)
        else:
            m.set_objective(x, sense=op["sense"])

    def op_param(self, op):
        m, vs = self.M[op["m"]]
        val = op["val"] / 100000
        try:
            m.set_parameters(**{op["k"]: int(val) if val == int(val) else val})
        finally:
            self.last_params = self.params(m)
        return {"params": self.last_params}

    def blank_param(self):
        return {"params": self.last_params}

    def op_opt(self, op):
        m, vs = self.M[op["m"]]
        yes = bool(m.optimize())
        r = {"yes": yes, "vals": [], "objv": 0, "bound": 0}
        if yes:
            r["vals"] = [[k, units(m.get_solution_value(v))] for k, v in vs.items()]
            if op["mip"]:
                z = m.get_mip_results()
                r["objv"], r["bound"] = units(z.objective_value), units(z.best_bound)
        return r

    def mip_ready(self, op):
        """whether everything the operation mentions exists"""
        if op["op"] == "newmodel":
            return True
        if op["m"] not in self.M:
            return False
        vs = self.M[op["m"]][1]
        named = [v for v, _ in op.get("terms", [])] + [v for v, _ in op.get("quad", [])] + ([op["b"]] if "b" in op else [])
        return all(v in vs for v in named)

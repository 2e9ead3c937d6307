"""AMPL stand-in and the operations of spec/OpsAmpl.tla: data handed to AMPL and taken back, AMPL templates, log files,
progress, slices of series, row-wise application.

amplpy is replaced by a stand-in that records what it is given; it has the interface ticdat uses (amplpy.DataFrame with
index, setColumn, addColumn; AMPL.setData; Variable.getValues().toDict() / toPandas()).
"""
import contextlib, io, os, sys, types
import pandas as pd
from values import V, enc, dec


class DataFrame:
    def __init__(self, index, columns=()):
        self.index = [index] if isinstance(index, str) else list(index)
        self.names, self.values = [], {}
        for c in self.index:
            self._add(c, [])
        self.set = set()
        for c in ([columns] if isinstance(columns, str) else columns):
            self._add(c, [])

    def _add(self, name, values):
        if not isinstance(name, str):
            raise TypeError("column name")
        if name not in self.values:
            self.names.append(name)
        self.values[name] = list(values)

    def setColumn(self, header, column):
        if header not in self.values:
            raise KeyError(header)
        self._add(header, column)

    def addColumn(self, header, values=()):
        self._add(header, values)    # whether the real one refuses a column that is there is not known: the later values count

    def addRow(self, *row):
        row = row[0] if len(row) == 1 and isinstance(row[0], (tuple, list)) else row
        if len(row) != len(self.names):
            raise ValueError("row length")
        for c, v in zip(self.names, row):
            self.values[c].append(v)

    def getColumn(self, header):
        return list(self.values[header])

    def getHeaders(self):
        return tuple(self.names)

    def getNumRows(self):
        return max([len(v) for v in self.values.values()] or [0])

    def rows(self):
        n = {len(v) for v in self.values.values()}
        if len(n) > 1:
            raise ValueError("columns of different lengths")
        return [[enc(self.values[c][i]) for c in self.names] for i in range(n.pop() if n else 0)]


class AmplError(Exception):
    pass


class Ampl:
    def __init__(self, bad=None):
        self.bad, self.got = bad, []

    def setData(self, data, setName=""):
        if data is self.bad or not isinstance(data, DataFrame):
            raise AmplError("cannot take this")
        self.got.append((data, setName))


class Values:
    def __init__(self, n, rows):
        self.n, self.rows = n, rows

    def _keys(self):
        return [tuple(r[:-1]) if self.n > 1 else r[0] for r in self.rows]

    def toDict(self):
        return {k: r[-1] for k, r in zip(self._keys(), self.rows)}

    def toList(self):
        return [tuple(r) for r in self.rows]

    def toPandas(self):
        k = self._keys()
        ix = pd.Index(k, tupleize_cols=False) if k else pd.Index([])
        return pd.DataFrame({"Var.val": [r[-1] for r in self.rows]}, index=ix)

    def getNumRows(self):
        return len(self.rows)


class Variable:
    def __init__(self, n, rows):
        self.v = Values(n, rows)

    def getValues(self):
        return self.v

    def get_values(self):
        return self.v


def install():
    m = types.ModuleType("amplpy")
    m.DataFrame, m.AMPL, m.Variable = DataFrame, Ampl, Variable
    sys.modules["amplpy"] = m


FILTERS = {"pos": lambda x: x > 0, "neg": lambda x: x < 0, "all": lambda x: True, "zero": lambda x: x == 0, "none": lambda x: False,
           "num": lambda x: x != 0}
FNS = {"sum": lambda r, c: r[c[0]] + r[c[1]], "first": lambda r, c: r[c[0]], "second": lambda r, c: r[c[1]], "seven": lambda r, c: 7}


class UtilOps:
    # ------------------------------------------------------------------ AMPL
    def blank_toampl(self):
        return {"tabs": [], "sok": False, "sexc": "", "sent": []}

    def op_toampl(self, e):
        f, d, fl = self.fo(e)
        ren = {(r["t"], r["f"]): {"str": r["new"], "none": None, "num": 7}[r["k"]] for r in e["ren"]}
        r = f.copy_to_ampl(d, field_renamings=ren or None, excluded_tables=list(e["exc"]) or None)
        held = {}
        for t in sorted(f.all_tables):
            x = getattr(r, t, None)
            if x is not None:
                held[t] = x
        out = self.blank_toampl()
        out["tabs"] = [{"t": t, "index": [str(c) for c in x.index], "cols": [str(c) for c in x.names], "rows": x.rows()} for t, x in held.items()]
        if e["send"] != "no":
            a = Ampl(held.get(e["fail"]) if e["fail"] else None)
            names = {n["t"]: (5 if n["n"] == "#num" else n["n"]) for n in e["names"]}
            try:
                f.set_ampl_data(r, a, names or None)
                out["sok"] = True
            except Exception as x:
                out["sexc"] = type(x).__name__
            which = lambda x: next((t for t, y in held.items() if y is x), "?")
            out["sent"] = [{"t": which(x), "n": n or ""} for x, n in a.got]
        return out

    def op_fromampl(self, e):
        f = self.F[e["f"]]
        fl = "pan" if type(f).__name__ == "PanDatFactory" else "tic"
        arg = {}
        for i, x in enumerate(e["vars"]):
            n = len(f.primary_key_fields.get(x["t"], ("k",)))
            v = Variable(n, [[dec(c) for c in r] for r in x["rows"]])
            fld = x["f"] or (None if i % 2 else "")
            arg[x["t"], fld] = v if x["filt"] == "" else (v, FILTERS[x["filt"]])
        self.reg(e["o2"], e["f"], f.copy_from_ampl_variables(arg), fl)
        return {}

    def blank_amplfmt(self):
        return {"text": ""}

    def op_amplfmt(self, e):
        import ticdat
        s = "".join(t["s"] if t["k"] == "lit" else "{{" + t["s"] + "}}" for t in e["toks"])
        return {"text": ticdat.ampl_format(s, **{a["n"]: dec(a["v"]) for a in e["args"]})}

    # ------------------------------------------------------------------ logs
    def _logfile(self, e):
        return os.path.join(self.tmp(), "log_%s.txt" % e["id"])

    def op_logopen(self, e):
        import ticdat
        self.logs[e["id"]] = ticdat.LogFile(None if e["null"] else self._logfile(e))
        return {}

    def op_logwrite(self, e):
        self.logs[e["id"]].write(e["s"])
        return {}

    def op_logtable(self, e):
        seq = [[dec(v) for v in r] for r in e["seq"]]
        if e["how"] == "tuples":
            seq = tuple(tuple(r) for r in seq)
        kw = {}
        if e["fmt"] == "angle":
            kw["formatter"] = lambda x: "<%s>" % x
        if e["max"] != 10 or e["how"] == "tuples":
            kw["max_write"] = e["max"]
        self.logs[e["id"]].log_table(e["name"], seq, **kw)
        return {}

    def blank_logclose(self):
        return {"text": ""}

    def op_logclose(self, e):
        x = self.logs[e["id"]]
        if e["how"] == "with":
            with x as y:
                assert y is x
        else:
            x.close()
        p = self._logfile(e)
        if not os.path.exists(p):
            return {"text": "no file"}
        with open(p) as f:
            return {"text": f.read()}

    def blank_progress(self):
        return {"go": False, "out": ""}

    def op_progress(self, e):
        import ticdat
        p = ticdat.Progress(quiet=True) if e["quiet"] else ticdat.Progress()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = p.numerical_progress(dec(e["theme"]), dec(e["a"])) if e["kind"] == "num" else \
                p.mip_progress(dec(e["theme"]), dec(e["a"]), dec(e["b"]))
        return {"go": r is True, "out": out.getvalue()}

    def blank_solvercb(self):
        return {"calls": [], "theme": V("none", 0, ""), "stopped": False, "added": 0}

    def op_solvercb(self, e):
        """The solver's side of a progress report is a stand-in: the callback is made, called once, and asked whether it stops the solver."""
        import ticdat
        calls = []

        class P(ticdat.Progress):
            def mip_progress(self, theme, lower_bound, upper_bound):
                calls.append((theme, lower_bound, upper_bound))
                return e["keep"]
        got = {"stopped": False, "added": 0}
        bound, obj = dec(e["bound"]), dec(e["obj"])
        p = P()
        args = {} if e["sense"] == "default" else {"sense": e["sense"]}
        if e["via"] == "gurobi":
            cb = __import__("gurobipy").GRB.Callback

            class M:
                def cbGet(self, what):
                    return {cb.MIP_OBJBST: obj, cb.MIP_OBJBND: bound}[what]

                def terminate(self):
                    got["stopped"] = True
            m = M()
            f = p.gurobi_call_back_factory(dec(e["theme"]), m, **args)
            got["added"] = 1
            for w in e["where"]:
                f(m, {"mip": cb.MIP, "sol": cb.MIPSOL, "node": cb.MIPNODE, "poll": cb.POLLING}[w])
        elif e["via"] == "xpress":
            class At:
                mipobjval, bestbound = obj, bound

            class X:
                attributes = At()

                def addcbmiplog(self, callback, data, priority):
                    got["added"] += 1
                    self.cb, self.data = callback, data
            x = X()
            p.add_xpress_callback(dec(e["theme"]), x, **args)
            for w in e["where"]:
                if w == "mip":
                    got["stopped"] = x.cb(x, x.data) != 0 or got["stopped"]
        else:
            import docplex.mp.progress as cp

            class C:
                def add_progress_listener(self, lis):
                    got["added"] += 1
                    self.lis = lis
            c = C()
            p.add_cplex_listener(dec(e["theme"]), c, **args)

            def abort():
                got["stopped"] = True
            c.lis.abort = abort
            for w in e["where"]:
                if w == "mip":
                    c.lis.notify_progress(cp.ProgressData(1, obj is not None, obj, bound, 0.1, 1, 1, 1, 0.1, 0.1))
        themes = {t for t, _, _ in calls}
        return {"calls": [[enc(a), enc(b)] for _, a, b in calls], "theme": enc(themes.pop()) if len(themes) == 1 else V("none", 0, ""), **got}

    def blank_sloc(self):
        return {"added": False, "res": []}

    def op_sloc(self, e):
        import ticdat
        n = len(e["rows"][0]) - 1 if e["rows"] else 1
        keys = [tuple(dec(v) for v in r[:-1]) for r in e["rows"]]
        vals = [dec(r[-1]) for r in e["rows"]]
        ix = pd.MultiIndex.from_tuples(keys, names=["k%d" % i for i in range(n)]) if n > 1 else pd.Index([k[0] for k in keys], dtype=object)
        if e["how"] == "frame":
            df = pd.DataFrame({"v": vals, "w": [str(v) for v in vals]}, index=ix)
            got = ticdat.Sloc.add_sloc(df)
            s = df["v"]
        else:
            s = pd.Series(vals, index=ix)
            got = ticdat.Sloc.add_sloc(s)
        if got is None:
            return {"added": False, "res": []}
        res = []
        for p in e["pats"]:
            k = tuple(slice(None) if v == V("str", 0, "*") else dec(v) for v in p)
            try:
                x = s.sloc[k]
                res.append({"ok": True, "vals": [enc(v) for v in x] if isinstance(x, pd.Series) else [enc(x)]})
            except Exception:
                res.append({"ok": False, "vals": []})
        return {"added": True, "res": res}

    def blank_dfapply(self):
        return {"idx": [], "vals": [], "asked": 0}

    def op_dfapply(self, e):
        import ticdat
        df = pd.DataFrame([[dec(v) for v in r] for r in e["rows"]], columns=e["cols"], index=pd.Index([dec(v) for v in e["idx"]], dtype=object))
        asked = []

        def trip(x):
            asked.append(x)
            return (lambda r: FNS[e["fn2"]](r, e["cols"])) if enc(x) == e["trip"] else None
        r = ticdat.faster_df_apply(df, lambda r: FNS[e["fn"]](r, e["cols"]), *([trip] if e["trip"]["k"] != "null" else []))
        return {"idx": [enc(v) for v in r.index], "vals": [enc(v) for v in r], "asked": len(asked)}

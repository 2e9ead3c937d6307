"""Interpreter of abstract operations on the real ticdat library, recording traces for spec/Trace.tla.

A scenario is a list of operation records (plain JSON).  World.run executes them one by one and returns the trace:
each event is the operation itself plus
   ret  - what the call returned, projected into the specification's value domain
   objs - projections of all live data objects whose projection changed
   facs - projections of all live factories whose projection changed
The projections use the public API only, and are total: whatever the code under test does, an event results.
"""
import ast, contextlib, fractions, hashlib, io, json, os, shutil, sys, tempfile, warnings

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import pandas as pd
import numpy as np
import sqlite3, csv, openpyxl, xlrd, xlsxwriter, dateutil.parser
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, REPO)
import access, utils_ops
utils_ops.install()
access.install()
sys.pycache_prefix = "/nonexistent"      # never run stale byte code of the code under test
import ticdat
sys.pycache_prefix = None
assert os.path.realpath(ticdat.__file__).startswith(os.path.realpath(REPO) + os.sep), ticdat.__file__
from ticdat import TicDatFactory, PanDatFactory
from values import V, enc, dec
import stores
from mips import MipOps
import pgs
from pgs import PgOps

INF = float("inf")


# ------------------------------------------------------------------ factories
def ty_args(ty):
    """the set_data_type keyword arguments for an abstract type"""
    return dict(number_allowed=ty["num"], inclusive_min=ty["imin"], inclusive_max=ty["imax"], min=dec(ty["min"]),
                max=dec(ty["max"]), must_be_int=ty["int"], strings_allowed="*" if ty["any"] else list(ty["strs"]),
                nullable=ty["null"], datetime=ty["dt"])


def ty_proj(td):
    sa = td.strings_allowed
    return {"num": bool(td.number_allowed), "imin": bool(td.inclusive_min), "imax": bool(td.inclusive_max),
            "min": enc(td.min), "max": enc(td.max), "int": bool(td.must_be_int), "any": bool(sa == "*"),
            "strs": [] if sa == "*" else [str(_) for _ in sa], "null": bool(td.nullable), "dt": bool(td.datetime)}


def pname(n):
    return n if isinstance(n, str) else "#%s" % (n,)


def fk_proj(fk, card=False):
    mp = fk[2]
    m = [[mp.native_field, mp.foreign_field]] if hasattr(mp, "native_field") else \
        [[x.native_field, x.foreign_field] for x in mp]
    r = {"nt": fk[0], "ft": fk[1], "m": m}
    if card:
        r["card"] = fk[3]
    return r


def proj_fac(f):
    try:
        tables = []
        gens = set(getattr(f, "generator_tables", ()))
        for t in sorted(f.all_tables):
            if t in f.generic_tables:
                tables.append({"t": t, "pk": [], "df": [], "kind": "generic"})
            else:
                tables.append({"t": t, "pk": list(f.primary_key_fields.get(t, ())), "df": list(f.data_fields.get(t, ())),
                               "kind": "gen" if t in gens else "std"})
        key = lambda d: json.dumps(d, sort_keys=True)
        dt = sorted(({"t": t, "f": fl, "ty": ty_proj(td)} for t, d in f.data_types.items() for fl, td in d.items()), key=key)
        dv = sorted(({"t": t, "f": fl, "v": enc(v)} for t, d in f.default_values.items() for fl, v in d.items()), key=key)
        fks = sorted((fk_proj(fk) for fk in f.foreign_keys), key=key)
        for fk in fks:
            fk["m"] = [list(p) for p in fk["m"]]
        params = sorted(({"p": p, "typed": i.type_dictionary is not None,
                          "ty": ty_proj(i.type_dictionary) if i.type_dictionary is not None else NOTYPE,
                          "v": enc(i.default_value)} for p, i in f.parameters.items()), key=key)
        tips = sorted(({"t": k if isinstance(k, str) else k[0], "f": "" if isinstance(k, str) else k[1], "s": v}
                       for k, v in f.tooltips.items()), key=key)
        preds = []
        for t in sorted(f.all_tables):
            for n, rpi in f.get_row_predicates(t).items():
                ast = dict(getattr(rpi.predicate, "ast", {"e": "unknown"}))
                ast.update({"t": t, "name": pname(n), "resp": rpi.predicate_failure_response})
                ast["mk"] = [rpi.predicate_kwargs_maker.ast] if rpi.predicate_kwargs_maker else []
                preds.append(ast)
        flag = f.infinity_io_flag
        r = {"tables": tables, "dt": dt, "dv": dv, "fks": fks, "params": params, "tips": tips, "preds": preds,
             "inf": V("str", 0, "N/A") if flag == "N/A" else enc(flag),
             "trail": f.xlsx_trailing_empty_rows, "dups": f.duplicates_ticdat_init,
             "munge": bool(f.automunge_multitype_fields)}
        r["shape"] = "ok"
        return r
    except Exception as e:
        return {"tables": [], "dt": [], "dv": [], "fks": [], "params": [], "tips": [], "preds": [],
                "inf": V("str", 0, "N/A"), "trail": "", "dups": "", "munge": False,
                "shape": "unprojectable: %s" % type(e).__name__}


NOTYPE = {"num": False, "imin": True, "imax": True, "min": V("num"), "max": V("inf", 1), "int": False, "any": False,
          "strs": [], "null": False, "dt": False}


# ------------------------------------------------------------------ predicates
def isnumber(x):
    return enc(x)["k"] in ("num", "inf")


def norm(x):
    v = enc(x)
    return V("num", 4 * v["n"]) if v["k"] == "bool" else v


def ixdec(v):
    """index values may be tuples"""
    return ast.literal_eval(v["s"][6:]) if v["k"] == "other" and v["s"].startswith("tuple:") else dec(v)


class Boom(Exception):
    pass


def make_maker(mk, calls):
    def maker(dat):
        calls[mk["id"]] = calls.get(mk["id"], 0) + 1
        if mk["m"] == "raise":
            raise Boom("maker")
        if mk["m"] == "notdict":
            return 17
        tbl = getattr(dat, mk["t"])
        if mk.get("home") and isinstance(tbl, pd.DataFrame) != (mk["home"] == "pan"):
            raise Boom("not the data set the maker was written for")
        return {"lim": len(tbl)}
    maker.ast = mk
    return maker


def make_pred(p):
    e, f, g = p["e"], p.get("f"), p.get("g")
    v = p.get("v")

    def outcome(row, kw):
        if e == "true":
            return True
        if e == "false":
            return False
        if e == "raise":
            raise Boom("predicate")
        if e == "ge":
            return isnumber(row[f]) and bool(row[f] >= dec(v))
        if e == "eq":
            return norm(row[f]) == norm(dec(v))
        if e == "ne":
            return norm(row[f]) != norm(dec(v))
        if e == "le2":
            return isnumber(row[f]) and isnumber(row[g]) and bool(row[f] <= row[g])
        if e == "xeq":
            if norm(row[f]) == norm(dec(v)):
                raise Boom("predicate")
            return True
        if e == "isnull":
            return enc(row[f])["k"] == "null"
        if e == "lim":
            return isnumber(row[f]) and bool(row[f] <= kw["lim"])
        raise ValueError(e)

    def predicate(row, **kw):
        r = outcome(row, kw)
        if p["resp"] == "Boolean":
            if p["tru"] == "int":
                return 1 if r else 0
            if p["tru"] == "str":
                return "yes" if r else ""
            return r
        if r:
            return 1 if p["tru"] == "int" else True
        return p["msg"]
    predicate.ast = {k: p[k] for k in ("e", "f", "g", "v", "tru", "msg")}
    return predicate


# ------------------------------------------------------------------ data objects
def md5(x):
    return hashlib.md5(repr(x).encode("utf8", "replace")).hexdigest()[:16]


def canon(x):
    """order-insensitive rendering of an answer"""
    if isinstance(x, dict):
        return "{" + ",".join("%s:%s" % (k, canon(x[k])) for k in sorted(x) if k != "canon") + "}"
    if isinstance(x, list):
        return "[" + ",".join(sorted(map(canon, x))) + "]"
    return repr(x)


def cell_fp(x):
    return (type(x).__name__, repr(x))


def split_key(k, n):
    if n == 1:
        return (k,)
    k = tuple(k)
    if len(k) != n:
        raise ValueError("key length")
    return k


def proj_generic(df):
    cols = [str(c) for c in df.columns]
    return cols, [[enc(x) for x in row] for row in df.itertuples(index=False, name=None)]


def raw_fp(x):
    """fingerprint of a plain structure passed to a constructor"""
    if isinstance(x, pd.DataFrame):
        return ("df", [str(c) for c in x.columns], [str(t) for t in x.dtypes], list(map(cell_fp, x.index)), list(x.index.names),
                [[cell_fp(v) for v in r] for r in x.itertuples(index=False, name=None)])
    if isinstance(x, pd.Series):
        return ("series", str(x.name), list(map(cell_fp, x.index)), [cell_fp(v) for v in x])
    if isinstance(x, dict):
        return ("dict", [(cell_fp(k), raw_fp(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [raw_fp(v) for v in x])
    if callable(x):
        return ("gen", [raw_fp(v) for v in x()])
    return cell_fp(x)


def proj_obj(fac, dat, fl):
    """(tables projection, shape, fingerprint)"""
    tabs, fp, shape = [], [], "ok"
    if fl == "raw":
        return [], "ok", md5([(t, raw_fp(x)) for t, x in sorted(dat.items())])
    for t in sorted(fac.all_tables):
        rows, cols = [], []
        try:
            tbl = getattr(dat, t)
            if t in fac.generic_tables:
                cols, rows = proj_generic(tbl)
                fp.append((t, cols, [str(x) for x in tbl.dtypes], [cell_fp(i) for i in tbl.index],
                           [[cell_fp(x) for x in r] for r in tbl.itertuples(index=False, name=None)]))
            elif fl == "tic":
                pk, df = fac.primary_key_fields.get(t, ()), fac.data_fields.get(t, ())
                if pk:
                    for k in list(dict.keys(tbl) if isinstance(tbl, dict) else tbl.keys()):
                        r = dict.__getitem__(tbl, k) if isinstance(tbl, dict) else tbl[k]
                        if set(r.keys()) != set(df) or len(r) != len(df):
                            raise ValueError("row fields")
                        kk = split_key(k, len(pk))
                        rows.append([enc(x) for x in kk] + [enc(r[f]) for f in df])
                        fp.append((t, [cell_fp(x) for x in kk], [(f, cell_fp(r[f])) for f in r.keys()]))
                else:
                    it = tbl() if callable(tbl) else tbl
                    for r in it:
                        if set(r.keys()) != set(df) or len(r) != len(df):
                            raise ValueError("row fields")
                        rows.append([enc(r[f]) for f in df])
                        fp.append((t, [(f, cell_fp(r[f])) for f in r.keys()]))
            else:
                flds = list(fac.primary_key_fields.get(t, ())) + list(fac.data_fields.get(t, ()))
                cols = [str(c) for c in tbl.columns if c not in flds]
                data = [list(tbl[f]) for f in flds]
                rows = [[enc(c[i]) for c in data] for i in range(len(tbl))]
                fp.append((t, [str(c) for c in tbl.columns], [str(x) for x in tbl.dtypes], [cell_fp(i) for i in tbl.index],
                           list(tbl.index.names), [[cell_fp(x) for x in tbl[c]] for c in tbl.columns]))
        except Exception as e:
            shape = "%s: %s" % (t, type(e).__name__)
            rows = []
        tabs.append({"t": t, "rows": rows, "cols": cols})
    return tabs, shape, md5(fp)


ERR_TABS = ["duplicate_rows", "data_type_failures", "data_row_failures", "foreign_key_failures"]


def scribble(x, depth=0):
    """overwrites whatever can be changed in place"""
    def attempt(g):
        try:
            g()
        except Exception:
            pass
    if depth > 8:
        return
    if isinstance(x, pd.DataFrame):
        for i in range(x.shape[1]):
            attempt(lambda: x.iloc[:, i].values.__setitem__(slice(None), "scribbled"))
            attempt(lambda: x.iloc[:, i].values.__setitem__(slice(None), 77))
        attempt(lambda: x.iloc.__setitem__((slice(None), slice(None)), "scribbled"))
        attempt(lambda: x.__setitem__("zz", 1))
        attempt(lambda: x.drop(index=x.index, inplace=True))
    elif isinstance(x, pd.Series):
        attempt(lambda: x.values.__setitem__(slice(None), "scribbled"))
        attempt(lambda: x.drop(index=x.index, inplace=True))
    elif hasattr(x, "keys") and hasattr(x, "__setitem__"):
        for v in list(x.values()):
            scribble(v, depth + 1)
        for k in list(x):
            attempt(lambda: x.__setitem__(k, "scribbled"))
        attempt(lambda: x.clear())
    elif isinstance(x, (list, tuple)) or type(x).__name__ == "TicDatDataList":
        for v in list(x):
            scribble(v, depth + 1)
        for i in range(len(x)):
            attempt(lambda: x.__setitem__(i, "scribbled"))
        attempt(lambda: x.__delitem__(slice(None)))
    elif isinstance(x, set):
        attempt(x.clear)


def respelled(v, h):
    """the same cell, held by another Python type"""
    x = dec(v)
    if v["k"] == "num":
        if isinstance(x, int):
            return [x, float(x), np.int64(x), np.float64(x), fractions.Fraction(x), x, np.int32(x)][h % 7]
        return [x, np.float64(x)][h % 2]
    if v["k"] == "inf":
        return [x, np.float64(x)][h % 2]
    if v["k"] == "date":
        return x.to_pydatetime() if h % 2 else x
    return x


class World(MipOps, PgOps, utils_ops.UtilOps):
    def __init__(self):
        self.F, self.O, self.meta, self.calls = {}, {}, {}, {}
        self.fprev, self.oprev = {}, {}
        self.slicers, self.solved = {}, 0
        self.logs = {}
        self.S, self.sprev, self.swrote = {}, {}, {}
        self.M = {}
        self.dir = None

    # -------------------------------------------------------------- running
    def run(self, ops):
        try:
            return [e for op in ops for e in [self.step(op)] if e]
        finally:
            self.close()

    def close(self):
        for m in self.S.values():
            if m.get("pg"):
                pgs.drop_schema(m["pg"])
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    def tmp(self):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix="tdw.")
        return self.dir

    CREATES = ("mk", "build", "args")
    FCREATES = ("mkfac", "newfac")
    SCREATES = ("put", "write", "pgschema", "pgput", "mdbschema")

    def step(self, op):
        """the event of one operation, or None when it has nothing to operate on (an earlier operation was refused)"""
        if "m" in op and isinstance(op["m"], str) and op["op"] in ("newmodel", "addvar", "addcon", "addind", "obj", "param", "opt") and not self.mip_ready(op):
            return None
        if op.get("o") and op["op"] not in self.CREATES and op["o"] not in self.O:
            return None
        if op.get("src") and op["src"] not in self.O:
            return None
        if op.get("sol") and op["sol"] not in self.O:
            return None
        if op["op"] in ("slice", "sclear") and op["id"] not in self.slicers:
            return None
        if op["op"] in ("logwrite", "logtable", "logclose") and op["id"] not in self.logs:
            return None
        if (op.get("f") and op["op"] not in self.FCREATES and op["f"] not in self.F) or \
           (op.get("f2") and op["op"] not in ("import", "clone", "cloneedit") and op["f2"] not in self.F):
            return None
        if op.get("s") and op["s"] not in self.S and op["op"] not in self.SCREATES:
            return None
        smeta = dict(self.S[op["s"]]) if op.get("s") in self.S else None
        if op["op"] in self.SCREATES:
            self.store(op)
        if op["op"] == "main":
            for k, m in (("s2", "fmt2"), ("s3", "fmt3")):
                if op[k]:
                    self.store({"s": op[k], "fmt": op[m]})
        texts = set()
        e = json.loads(json.dumps(op))
        fn = getattr(self, "op_" + op["op"])
        out = io.StringIO()
        blank = getattr(self, "blank_" + op["op"], None)
        try:
            with contextlib.redirect_stdout(out), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ret = fn(op) or {}
            ret["ok"] = True
            ret["exc"] = ""
        except RecursionError as x:
            ret = {"ok": False, "exc": "RecursionError"}
        except Exception as x:
            if os.environ.get("VP_DEBUG"):
                import traceback; traceback.print_exc()
            ret = {"ok": False, "exc": type(x).__name__}
        if not ret["ok"] and smeta:
            self.S[op["s"]] = smeta
        if not ret["ok"] and blank:
            ret.update(blank())
        ret["said"] = len(out.getvalue()) > 0
        e["ret"] = ret
        e["sig"] = md5(json.dumps(op, sort_keys=True))
        ret["canon"] = md5(canon(ret))
        e["facs"], e["objs"] = [], []
        if ret["ok"]:
            for k in ("f", "f2"):
                if op["op"] in (self.FCREATES if k == "f" else ("import", "clone", "cloneedit")):
                    self.fprev.pop(op.get(k), None)
        for k in sorted(self.F):
            p = proj_fac(self.F[k])
            if self.fprev.get(k) != p:
                self.fprev[k] = p
                e["facs"].append(dict(p, id=k, fl="pan" if isinstance(self.F[k], PanDatFactory) else "tic"))
        for k in sorted(self.O):
            m = self.meta[k]
            tabs, shape, fp = proj_obj(self.F.get(m["fac"]), self.O[k], m["fl"])
            p = {"id": k, "fl": m["fl"], "fac": m["fac"], "frozen": m.get("frozen", False), "tabs": tabs, "shape": shape,
                 "fp": fp}
            if self.oprev.get(k) != p:
                self.oprev[k] = p
                e["objs"].append(p)
        e["stores"] = []
        for k in ("s", "s2", "s3"):
            if op.get(k):
                stores.store_texts(self.sprev.get(op[k], {"tabs": []}), texts)
        for k in sorted(self.S):
            pg = self.S[k].get("pg")
            if k not in self.sprev or pg or self.sprev[k]["fp"] != stores.digest(self.S[k]["path"]):
                p = pgs.project(k, self.S[k]) if pg else stores.project(k, self.S[k])
                if p != self.sprev.get(k):
                    e["stores"].append(p)
                self.sprev[k] = p
        if op["op"] in ("write", "read", "fdup", "main", "mdbschema", "pgschema", "pgwrite", "pgread", "pgdup"):
            fac = op.get("f") or self.meta[op["o"]]["fac"]
            for f in {fac, op.get("f2") or fac}:
                stores.texts_of({k: v for k, v in self.fprev[f].items() if k not in ("preds", "tips", "fks")}, texts)
                for t in list(self.F[f].all_tables) + (ERR_TABS if op["op"] == "main" else []):
                    for x in (t, stores.pretty(t)):
                        texts |= {x, x[:stores.CUT]}
            for o in {op.get("o"), op.get("o2"), op.get("sol")} & set(self.oprev):
                stores.texts_of(self.oprev[o]["tabs"], texts)
            texts.add(op.get("active") or "")
            for k in ("s", "s2", "s3"):
                if op.get(k):
                    stores.store_texts(self.sprev[op[k]], texts)
            stores.texts_of(ret.get("dups", []), texts)
            if op["op"] in ("write", "pgwrite") and ret["ok"]:
                self.swrote[op["s"]] = stores.texts_of(self.oprev[op["o"]]["tabs"], set())
            texts |= self.swrote.get(op["s"], set())
            e["lex"] = stores.lex(texts | {"", "a"})
        return e

    # -------------------------------------------------------------- factories
    def build(self, desc, cls):
        init = {}
        for t in desc["tables"]:
            init[t["t"]] = "*" if t["kind"] == "generic" else [list(t["pk"]), list(t["df"])]
        f = cls(**init)
        scribble(init)      # the caller's arguments are the caller's
        for d in desc.get("dt", ()):
            kw = ty_args(d["ty"])
            f.set_data_type(d["t"], d["f"], **kw)
            scribble(kw)
        for d in desc.get("dv", ()):
            f.set_default_value(d["t"], d["f"], dec(d["v"]))
        for d in desc.get("fks", ()):
            self.add_fk(f, d)
        for d in desc.get("params", ()):
            self.add_param(f, d)
        for d in desc.get("tips", ()):
            f.set_tooltip(d["t"], d["f"], d["s"])
        self.add_preds(f, desc.get("preds", ()))
        if desc.get("links"):
            f.enable_foreign_key_links()
        gens = [t["t"] for t in desc["tables"] if t["kind"] == "gen"]
        if gens and cls is TicDatFactory:
            f.set_generator_tables(gens)
            scribble(gens)
        if "inf" in desc:
            f.set_infinity_io_flag("N/A" if desc["inf"]["k"] == "str" else dec(desc["inf"]))
        if "trail" in desc:
            f.set_xlsx_trailing_empty_rows(desc["trail"])
        if "dups" in desc:
            f.set_duplicates_ticdat_init(desc["dups"])
        if "munge" in desc:
            f.set_automunge_multitype_fields(desc["munge"])
        return f

    def add_fk(self, f, d):
        m = [list(p) for p in d["m"]]
        f.add_foreign_key(d["nt"], d["ft"], m[0] if len(m) == 1 else m)
        scribble(m)

    def add_param(self, f, d):
        if d["typed"]:
            kw = ty_args(d["ty"])
            f.add_parameter(d["p"], dec(d["v"]), **kw)
            scribble(kw)
        else:
            f.add_parameter(d["p"], dec(d["v"]), enforce_type_rules=False)

    def add_preds(self, f, preds):
        made = {}
        for p in preds:
            mk = None
            if p["mk"]:
                k = p["mk"][0]["id"]
                if k not in made:
                    made[k] = make_maker(p["mk"][0], self.calls)
                mk = made[k]
            f.add_data_row_predicate(p["t"], make_pred(p), None if p["name"].startswith("#") else p["name"], mk, p["resp"])

    def op_mkfac(self, e):
        self.F[e["f"]] = self.build(e["desc"], PanDatFactory if e["fl"] == "pan" else TicDatFactory)

    def op_newfac(self, e):
        init = {}
        for x in e["entries"]:
            init[x["t"]] = {"*": "*", "pair": [list(x["pk"]), list(x["df"])], "flat": list(x["pk"]) + list(x["df"]) + ["z"],
                            "triple": [list(x["pk"]), list(x["df"]), []], "text": "a b", "number": 7,
                            "intfield": [[3], list(x["df"])], "one": [list(x["pk"])]}[x["form"]]
        self.F[e["f"]] = (PanDatFactory if e["fl"] == "pan" else TicDatFactory)(**init)
        scribble(init)

    def _ty_kw(self, d):
        kw = ty_args(d["ty"])
        if d["badstrs"]:
            kw["strings_allowed"] = [["a", 5], 17, "abc"][d["badstrs"] - 1] if isinstance(d["badstrs"], int) and \
                not isinstance(d["badstrs"], bool) else ["a", 5]
        return kw

    def op_decl(self, e):
        f, d = self.F[e["f"]], e["d"]
        k = d["k"]
        if k == "setdt":
            kw = self._ty_kw(d)
            f.set_data_type(d["t"], d["f"], **kw)
            scribble(kw)
        elif k == "cleardt":
            f.clear_data_type(d["t"], d["f"])
        elif k == "setdv":
            f.set_default_value(d["t"], d["f"], dec(d["v"]))
        elif k == "setdvs":
            kw = {x["t"]: ({c["f"]: dec(c["v"]) for c in x["cells"]} if x["form"] == "dict" else
                           [(c["f"], dec(c["v"])) for c in x["cells"]] or 3) for x in d["ent"]}
            f.set_default_values(**kw)
            scribble(kw)
        elif k == "addfk":
            m = [list(p) for p in d["m"]]
            arg = {"ok": lambda: m[0] if len(m) == 1 and not d.get("nest") else m, "triple": lambda: [p + ["x"] for p in m],
                   "flat3": lambda: ["a", "b", "c"], "dict": lambda: {p[0]: p[1] for p in m}, "number": lambda: 3,
                   "empty": lambda: []}[d["form"]]()
            if d.get("tup"):
                arg = tuple(map(tuple, arg)) if arg and isinstance(arg[0], list) else tuple(arg)
            f.add_foreign_key(d["nt"], d["ft"], arg)
            scribble(arg)
        elif k == "clearfk":
            f.clear_foreign_keys(*([d["t"]] if d["t"] else []))
        elif k == "implied":
            f.add_implied_foreign_keys()
        elif k == "addparam":
            if d["typed"]:
                kw = self._ty_kw(d)
                f.add_parameter(d["p"], dec(d["v"]), **kw)
                scribble(kw)
            else:
                f.add_parameter(d["p"], dec(d["v"]), enforce_type_rules=False)
        elif k == "rmparam":
            f.remove_parameter(d["p"])
        elif k == "tip":
            f.set_tooltip(d["t"], d["f"], dec(d["v"]))
        elif k == "setgens":
            ts = list(d["ts"]) if d["form"] == "list" else 5
            f.set_generator_tables(ts)
            scribble(ts)
        elif k == "inf":
            f.set_infinity_io_flag(dec(d["v"]))
        elif k == "trail":
            f.set_xlsx_trailing_empty_rows(dec(d["v"]))
        elif k == "dups":
            f.set_duplicates_ticdat_init(dec(d["v"]))
        elif k == "munge":
            f.set_automunge_multitype_fields(dec(d["v"]))
        elif k == "links":
            f.enable_foreign_key_links()
        elif k == "addpred":
            p = d["p"]
            pr = make_pred(p) if d["bad"] != "pred" else 17
            mk = make_maker(p["mk"][0], self.calls) if p["mk"] else None
            f.add_data_row_predicate(p["t"], pr, None if p["auto"] else p["name"], 17 if d["bad"] == "maker" else mk,
                                     p["resp"] if d["bad"] != "resp" else "Sometimes")
        elif k == "rmpred":
            n = d["name"]
            f.add_data_row_predicate(d["t"], None, int(n[1:]) if n.startswith("#") else n)
        else:
            raise AssertionError(k)

    def _cls(self, fl):
        return PanDatFactory if fl == "pan" else TicDatFactory

    def op_import(self, e):
        s = self.F[e["f"]].schema(include_ancillary_info=True)
        if e["json"]:
            s = json.loads(json.dumps(s))
        for k in e["cut"]:
            s.pop(k)
        if e["junk"]:
            s["what is this"] = 1
        self.F[e["f2"]] = self._cls(e["fl2"]).create_from_full_schema(s)
        scribble(s)

    def op_clone(self, e):
        f = self.F[e["f"]]
        kw = {}
        if e["restrict"]:
            kw["table_restrictions"] = list(e["restrict"])
        if e["via"] == "function":
            kw["clone_factory"] = lambda s, c=self._cls(e["fl2"]): c.create_from_full_schema(s)
        elif e["fl2"] != ("pan" if isinstance(f, PanDatFactory) else "tic") or e.get("say"):
            kw["clone_factory"] = self._cls(e["fl2"])
        if e["conv"]:
            two = self._cls("tic" if isinstance(f, TicDatFactory) else "pan")
            src = f.clone() if not e["restrict"] else f.clone(table_restrictions=list(e["restrict"]))
            if e["fl2"] == "pan":   # data given to the clone are frames; its makers expect the old flavour
                tmp = src.clone(clone_factory=PanDatFactory) if isinstance(src, TicDatFactory) else src
                kw["convert_dat"] = (lambda dat: tmp.copy_to_tic_dat(dat)) if isinstance(src, TicDatFactory) else (lambda dat: dat)
            else:
                kw["convert_dat"] = (lambda dat: src.clone(clone_factory=TicDatFactory).copy_to_pandas(dat)) \
                    if isinstance(src, PanDatFactory) else (lambda dat: dat)
        self.F[e["f2"]] = f.clone(**kw)

    def op_cloneedit(self, e):
        f = self.F[e["f"]]
        k = e["k"]
        if k == "addtable":
            r = f.clone_add_a_table(e["t"], 7 if e["bad"] == "pk" else [5] if e["bad"] == "pkint" else list(e["pk"]),
                                    [5] if e["bad"] == "df" else list(e["df"]))
        elif k == "addcol":
            kw = {} if e["pos"] == -1 else {"field_position": e["pos"]}
            r = f.clone_add_a_column(e["t"], 5 if e["bad"] else e["fld"], e["kind"], **kw)
        elif k == "rmcol":
            r = f.clone_remove_a_column(e["t"], e["fld"])
        elif k == "rename":
            r = f.clone_rename_a_column(e["t"], e["fld"], 5 if e["bad"] else e["new"])
        else:
            raise AssertionError(k)
        self.F[e["f2"]] = r

    def blank_schema(self):
        return {"tables": []}

    def op_schema(self, e):
        s = self.F[e["f"]].schema()
        return {"tables": [{"t": t, "pk": [] if v == "*" else list(v[0]), "df": [] if v == "*" else list(v[1]),
                            "kind": "generic" if v == "*" else "std"} for t, v in sorted(s.items())]}

    def blank_fklist(self):
        return {"fks": []}

    def op_fklist(self, e):
        return {"fks": [fk_proj(k, True) for k in self.F[e["f"]].foreign_keys]}

    def blank_fullparams(self):
        return {"full": []}

    def op_fullparams(self, e):
        f, d, fl = self.fo(e)
        return {"full": [{"p": enc(k), "v": enc(v)} for k, v in f.create_full_parameters_dict(d).items()]}

    # -------------------------------------------------------------- data objects
    def reg(self, o, fac, dat, fl, frozen=False):
        self.O[o] = dat
        self.meta[o] = {"fac": fac, "fl": fl, "frozen": frozen}
        self.oprev.pop(o, None)

    def _tables(self, fac, tabs, fl, e):
        init = {}
        for tb in tabs:
            t, rows = tb["t"], [[respelled(v, e["rep"] + 7 * i + 3 * j) if e.get("rep") else dec(v) for j, v in enumerate(r)]
                                for i, r in enumerate(tb["rows"])]
            pk, df = fac.primary_key_fields.get(t, ()), fac.data_fields.get(t, ())
            if t in fac.generic_tables:
                init[t] = pd.DataFrame(rows, columns=tb["cols"])
            elif fl == "pan":
                d = pd.DataFrame(rows, columns=list(pk) + list(df))
                if e.get("obj"):
                    d = d.astype(object)
                if e.get("labels"):
                    n = len(d)
                    d.index = {"rev": list(range(n, 0, -1)), "dup": [7] * n, "str": ["r%d" % i for i in range(n)],
                               "gap": [3 * i + 5 for i in range(n)]}[e["labels"]]
                if e.get("extra"):
                    d["zz extra"] = ["x%d" % i for i in range(len(d))]
                init[t] = d
            elif pk:
                n = len(pk)
                init[t] = {(r[0] if n == 1 else tuple(r[:n])): {f: v for f, v in zip(df, r[n:])} for r in rows}
            else:
                init[t] = [{f: v for f, v in zip(df, r)} for r in rows]
        return init

    def op_mk(self, e):
        f = self.F[e["f"]]
        fl = "pan" if isinstance(f, PanDatFactory) else "tic"
        init = self._tables(f, e["tabs"], fl, e)
        self.reg(e["o"], e["f"], (f.PanDat if fl == "pan" else f.TicDat)(**init), fl)

    def fo(self, e):
        m = self.meta[e["o"]]
        return self.F[e.get("f") or m["fac"]], self.O[e["o"]], m["fl"]

    # -------------------------------------------------------------- integrity
    def _mx(self, e):
        return {} if not e["max"] else {"max_failures": e["max"]}

    def _ids(self, fac, t, pks):
        n = len(fac.primary_key_fields.get(t, ()))
        return [[enc(x) for x in split_key(k, n)] if n else [enc(k)] for k in pks]

    def _pan_rows(self, fac, dat, t, val, as_table):
        """(positions, rows) of a data-frame style answer"""
        tbl = getattr(dat, t)
        flds = list(fac.primary_key_fields.get(t, ())) + list(fac.data_fields.get(t, ()))
        if not as_table:
            flags = list(val)
            if len(flags) != len(tbl):
                return [[enc(-1)]], [], False
            pos = [i for i, b in enumerate(flags) if b]
            sub = tbl[[bool(b) for b in flags]]
        else:
            sub = val
            pos = None
            if tbl.index.is_unique:
                where = {l: i for i, l in enumerate(tbl.index)}
                pos = [where.get(l, -1) for l in sub.index]
        rows = [[enc(x) for x in r] for r in zip(*[list(sub[f]) for f in flds])]
        return [[enc(p)] for p in (pos or [])], rows, pos is not None

    def blank_findfk(self):
        return {"fks": []}

    def op_findfk(self, e):
        f, d, fl = self.fo(e)
        kw = self._mx(e)
        if e["verb"]:
            kw["verbosity"] = e["verb"]
        if fl == "pan":
            kw["as_table"] = e["table"]
        res = f.find_foreign_key_failures(d, **kw)
        rtn = []
        for k, v in res.items():
            if e["verb"] == "Low":
                m = k[2]
                m = [[m[0], m[1]]] if isinstance(m[0], str) else [[x[0], x[1]] for x in m]
                r = {"nt": k[0], "ft": k[1], "m": m, "card": ""}
            else:
                r = fk_proj(k, True)
            if fl == "tic":
                vals, pks = (v[0], v[1]) if e["verb"] == "Low" else (v.native_values, v.native_pks)
                r["vals"] = [[enc(x) for x in split_key(y, len(r["m"]))] for y in vals]
                r["ids"], r["rows"], r["hasids"] = self._ids(f, r["nt"], pks), [], True
            else:
                r["vals"] = []
                r["ids"], r["rows"], r["hasids"] = self._pan_rows(f, d, r["nt"], v, e["table"])
            rtn.append(r)
        return {"fks": rtn}

    def blank_removefk(self):
        return {"same": False}

    def op_removefk(self, e):
        f, d, fl = self.fo(e)
        if e.get("rl"):     # little stack left: cascades must not need more
            depth, frame = 0, sys._getframe()
            while frame:
                depth, frame = depth + 1, frame.f_back
            old = sys.getrecursionlimit()
            sys.setrecursionlimit(depth + e["rl"])
            try:
                r = f.remove_foreign_key_failures(d)
            finally:
                sys.setrecursionlimit(old)
            return {"same": r is d}
        r = f.remove_foreign_key_failures(d) if (fl == "pan" or e["prop"] == "default") else \
            f.remove_foreign_key_failures(d, propagate=e["prop"] == "yes")
        return {"same": r is d}

    def blank_finddt(self):
        return {"fails": []}

    def op_finddt(self, e):
        f, d, fl = self.fo(e)
        kw = self._mx(e)
        if fl == "pan":
            kw["as_table"] = e["table"]
        rtn = []
        for k, v in f.find_data_type_failures(d, **kw).items():
            r = {"t": k.table, "f": k.field}
            if fl == "tic":
                r["vals"] = [enc(x) for x in v.bad_values]
                r["ids"], r["rows"], r["hasids"] = self._ids(f, k.table, v.pks), [], True
            else:
                r["vals"] = []
                r["ids"], r["rows"], r["hasids"] = self._pan_rows(f, d, k.table, v, e["table"])
            rtn.append(r)
        return {"fails": rtn}

    def blank_replacedt(self):
        return {"same": False}

    def op_replacedt(self, e):
        f, d, fl = self.fo(e)
        repl = {(r["t"], r["f"]): dec(r["v"]) for r in e["repl"]}
        r = f.replace_data_type_failures(d, repl) if repl or e["pass"] else f.replace_data_type_failures(d)
        return {"same": r is d}

    def blank_findrow(self):
        return {"fails": [], "calls": [{"id": k, "n": n} for k, n in sorted(self.calls.items())]}

    def op_findrow(self, e):
        f, d, fl = self.fo(e)
        kw = self._mx(e)
        if fl == "pan":
            kw["as_table"] = e["table"]
        self.calls.clear()
        if e["exc"]:
            kw["exception_handling"] = e["exc"]
        rtn = []
        for k, v in f.find_data_row_failures(d, **kw).items():
            r = {"t": k.table, "name": pname(k.predicate_name), "bulk": False, "msg": "", "ids": [], "msgs": [], "rows": [],
                 "hasids": True}
            if hasattr(v, "primary_key") and not isinstance(v, (pd.DataFrame, pd.Series, list)):
                r["bulk"] = v.primary_key == "*" and isinstance(v.error_message, str) and len(v.error_message) > 0
                r["msg"] = str(v.error_message)
            elif fl == "tic":
                if v and all(hasattr(x, "error_message") for x in v):
                    r["ids"] = self._ids(f, k.table, [x.primary_key for x in v])
                    r["msgs"] = [str(x.error_message) for x in v]
                else:
                    r["ids"] = self._ids(f, k.table, v)
            else:
                if e["table"]:
                    known = set(getattr(d, k.table).columns)
                    new = [c for c in v.columns if c not in known]
                    if new:
                        r["msgs"] = [str(x) for x in v[new[-1]]]
                r["ids"], r["rows"], r["hasids"] = self._pan_rows(f, d, k.table, v, e["table"])
            rtn.append(r)
        return {"fails": rtn, "calls": [{"id": k, "n": n} for k, n in sorted(self.calls.items())]}

    def blank_finddup(self):
        return {"dups": []}

    def op_finddup(self, e):
        f, d, fl = self.fo(e)
        keep = {"first": "first", "last": "last", "none": False}[e["keep"]]
        rtn = []
        for t, v in f.find_duplicates(d, keep=keep, as_table=e["table"]).items():
            r = {"t": t}
            r["ids"], r["rows"], r["hasids"] = self._pan_rows(f, d, t, v, e["table"])
            rtn.append(r)
        return {"dups": rtn}

    # -------------------------------------------------------------- elementary edits (used to build histories)
    def op_setcell(self, e):
        f, d, fl = self.fo(e)
        t, i, fld, v = e["t"], e["i"], e["fld"], dec(e["v"])
        tbl = getattr(d, t)
        if fl == "pan":
            c = list(tbl[fld])
            c[i] = v
            tbl[fld] = pd.Series(c, index=tbl.index, dtype=object) if e.get("obj") else pd.Series(c, index=tbl.index)
        elif f.primary_key_fields.get(t):
            tbl[list(tbl)[i]][fld] = v
        else:
            tbl[i][fld] = v

    # -------------------------------------------------------------- construction
    def row_in(self, r):
        if r["kind"] == "dict":
            return {c["f"]: dec(c["v"]) for c in r["cells"]}
        if r["kind"] == "list":
            v = [dec(x) for x in r["vals"]]
            return tuple(v) if r.get("tup") else v
        return dec(r["vals"][0])

    def key_in(self, k, kt):
        v = [dec(x) for x in k]
        return tuple(v) if kt else v[0]

    def table_in(self, x):
        """a table input as the Python object a user would pass"""
        form = x["form"]
        if form == "none":
            return {"none": None, "list": [], "dict": {}}[x.get("what", "none")]
        if form == "dict":
            return {self.key_in(e["k"], e["kt"]): self.row_in(e["r"]) for e in x["ent"]}
        if form in ("list", "gen"):
            rows = [self.row_in(e["r"]) for e in x["ent"]]
            return rows if form == "list" else (lambda: iter(rows))
        rows = [[dec(v) for v in r] for r in x["rows"]]
        if form == "series":
            return pd.Series([r[0] for r in rows], index=self._index(x["idx"], [r[1:] for r in rows]), dtype=object)
        n = len(x["cols"])
        if form == "df":
            d = pd.DataFrame([r[:n] for r in rows], columns=x["cols"])
            if x.get("obj"):
                d = d.astype(object)
            if x["idx"]:
                d.index = self._index(x["idx"], [r[n:] for r in rows])
            return d
        if form == "dictlist":
            return {c: [r[i] for r in rows] for i, c in enumerate(x["cols"])}
        if form == "dicts":
            return [dict(zip(x["cols"], r)) for r in rows]
        if form == "listlist":
            return rows
        raise ValueError(form)

    def _index(self, names, keys):
        if not names:
            return None
        if len(names) == 1:
            return pd.Index([k[0] for k in keys], name=names[0], dtype=object)
        return pd.MultiIndex.from_tuples([tuple(k) for k in keys], names=names) if keys else \
            pd.MultiIndex.from_arrays([[] for _ in names], names=names)

    def op_args(self, e):
        self.reg(e["o"], "", {x["t"]: self.table_in(x) for x in e["ins"]}, "raw")

    def op_rawedit(self, e):
        """overwrite something inside a structure a data set was built from"""
        x, v = self.O[e["o"]][e["t"]], dec(e["v"])
        if isinstance(x, pd.DataFrame):
            x.iloc[0, 0] = v
            if e.get("more"):
                x["zz new"] = 1
        elif isinstance(x, pd.Series):
            x.iloc[0] = v
        elif isinstance(x, dict):
            k = next(iter(x))
            if isinstance(x[k], dict) and x[k]:
                x[k][next(iter(x[k]))] = v
            elif isinstance(x[k], list) and x[k]:
                x[k][0] = v
            else:
                del x[k]
        elif isinstance(x, list):
            if isinstance(x[0], dict) and x[0]:
                x[0][next(iter(x[0]))] = v
            elif isinstance(x[0], list) and x[0]:
                x[0][0] = v
            else:
                x.append(x[0])

    def op_build(self, e):
        f = self.F[e["f"]]
        fl = "pan" if isinstance(f, PanDatFactory) else "tic"
        init = self.O[e["src"]] if e["src"] else {x["t"]: self.table_in(x) for x in e["ins"]}
        self.reg(e["o"], e["f"], (f.PanDat if fl == "pan" else f.TicDat)(**init), fl)

    # -------------------------------------------------------------- edits
    def blank_edit(self):
        return {"row": []}

    def op_edit(self, e):
        f, d, fl = self.fo(e)
        t, kind = e["t"], e["e"]
        tbl = getattr(d, t)
        key = self.key_in(e["k"], e["kt"]) if e["k"] else None
        pk, df = f.primary_key_fields.get(t, ()), f.data_fields.get(t, ())
        row = []
        if kind == "setattr":
            setattr(d, t, {})
        elif kind == "delattr":
            delattr(d, t)
        elif kind == "rowattr":
            setattr(self._some_row(tbl), "zz", 1)
        elif kind == "tabattr":
            setattr(tbl, "zz", 1)
        elif kind == "unfreeze":
            done = False
            for x in [d, tbl, self._some_row(tbl)]:
                for a in ("_dataFrozen", "_attributesFrozen", "_isFrozen"):
                    if getattr(x, a, False):
                        for g in ((lambda: delattr(x, a)), (lambda: setattr(x, a, False))):
                            try:
                                g()
                                done = True
                            except Exception:
                                pass
            if not done:
                raise Boom("every attempt was refused")
        elif kind.startswith("link"):
            self._link_edits(f, d, kind)
        elif pk:
            if kind == "get":
                r = tbl[key]
                row = [enc(r[x]) for x in df]
            elif kind == "set":
                tbl[key] = self._row_arg(e)
            elif kind == "cell":
                tbl[key][e["fld"]] = dec(e["v"])
            elif kind == "del":
                del tbl[key]
            elif kind == "pop":
                tbl.pop(key)
            elif kind == "popdefault":
                tbl.pop(key, None)
            elif kind == "clear":
                tbl.clear()
            elif kind == "popitem":
                tbl.popitem()
            elif kind == "setdefault":
                tbl.setdefault(key, self._row_arg(e))
            elif kind == "update":
                tbl.update({self.key_in(x["k"], x["kt"]): self.row_in(x["r"]) for x in e["ent"]})
            elif kind == "ior":
                tbl |= {self.key_in(x["k"], x["kt"]): self.row_in(x["r"]) for x in e["ent"]}
            else:
                raise ValueError(kind)
        else:
            if kind == "get":
                r = tbl[e["i"]]
                row = [enc(r[x]) for x in df]
            elif kind == "append":
                tbl.append(self.row_in(e["r"]))
            elif kind == "insert":
                tbl.insert(e["i"], self.row_in(e["r"]))
            elif kind == "set":
                tbl[e["i"]] = self._row_arg(e)
            elif kind == "extend":
                tbl.extend([self.row_in(x["r"]) for x in e["ent"]])
            elif kind == "cell":
                tbl[e["i"]][e["fld"]] = dec(e["v"])
            elif kind == "del":
                del tbl[e["i"]]
            elif kind == "pop":
                tbl.pop(e["i"])
            elif kind == "clear":
                tbl.clear()
            else:
                raise ValueError(kind)
        return {"row": row}

    def _row_arg(self, e):
        """the row to store: given literally, or an existing row object of another data set (e["r"] says what it holds)"""
        if e.get("from"):
            t2 = getattr(self.O[e["from"]["o"]], e["t"])
            return t2[self.key_in(e["from"]["k"], e["from"]["kt"])] if e["from"]["k"] else t2[e["from"]["i"]]
        return self.row_in(e["r"])

    def _some_row(self, tbl):
        return next(iter(tbl.values())) if isinstance(tbl, dict) else tbl[0]

    def _links(self, f, d):
        for t in sorted(f.all_tables):
            if f.primary_key_fields.get(t):
                for r in getattr(d, t).values():
                    for a, v in sorted(vars(r).items()):
                        if not a.startswith("_") and isinstance(v, dict):
                            yield v

    def _link_edits(self, f, d, kind):
        """attempts the edit on every link of the data set; raises unless at least one succeeded"""
        miss = ["no such key"] + [("no such key",) * n for n in (2, 3, 4)]
        what = {"linkset": lambda lk: [lambda k=k: lk.__setitem__(k, {}) for k in list(lk) + miss],
                "linkdel": lambda lk: [lambda k=k: lk.__delitem__(k) for k in list(lk)],
                "linkclear": lambda lk: [lk.clear],
                "linkmiss": lambda lk: [lambda k=k: lk[k] for k in miss],
                "linkpop": lambda lk: [lambda k=k: lk.pop(k) for k in list(lk)] + [lk.popitem],
                "linkupdate": lambda lk: [lambda k=k: lk.update({k: {}}) for k in list(lk) + miss],
                "linkdefault": lambda lk: [lambda k=k: lk.setdefault(k, {}) for k in miss],
                "linkattr": lambda lk: [lambda: setattr(lk, "zz", 1)],
                "linkrow": lambda lk: [lambda k=k: r.__setitem__(k, "edited") for r in list(lk.values()) if isinstance(r, dict) for k in list(r)]}
        done = False
        for lk in list(self._links(f, d)):
            for fn in what[kind](lk):
                try:
                    fn()
                    done = True
                except Exception:
                    pass
        if not done:
            raise Boom("every attempt was refused")

    def op_panedit(self, e):
        f, d, fl = self.fo(e)
        tbl = getattr(d, e["t"])
        if e["e"] == "iloc":
            tbl.iloc[e["i"], list(tbl.columns).index(e["fld"])] = dec(e["v"])
        elif e["e"] == "drop":
            keep = [i for i in range(len(tbl)) if i != e["i"]]
            setattr(d, e["t"], tbl.iloc[keep])
        elif e["e"] == "addcol":
            tbl["zz new"] = 1

    def blank_freeze(self):
        return {"same": False}

    def op_freeze(self, e):
        f, d, fl = self.fo(e)
        r = f.freeze_me(d)
        self.meta[e["o"]]["frozen"] = True
        return {"same": r is d}

    # -------------------------------------------------------------- checks, copies, conversions
    def blank_good(self):
        return {"good": False, "msgs": 0}

    def op_good(self, e):
        f = self.F[e["f"]]

        class Obj(object):
            pass
        ob, msgs = Obj(), []
        for x in e["ins"]:
            setattr(ob, x["t"], self.table_in(x))
        if isinstance(f, PanDatFactory):
            g = f.good_pan_dat_object(ob, msgs.append)
            fl, cp = "pan", f.copy_pan_dat
        else:
            kw = {} if e["mode"] == "default" else {"row_checking": e["mode"]}
            g = f.good_tic_dat_object(ob, msgs.append, **kw)
            fl, cp = "tic", f.copy_tic_dat
        n = len([m for m in msgs if isinstance(m, str) and m])
        if g:
            try:
                self.reg(e["o2"], e["f"], cp(ob), fl)
            except Exception:
                pass
        return {"good": bool(g), "msgs": n}

    def blank_links(self):
        return {"links": []}

    def op_links(self, e):
        f, d, fl = self.fo(e)
        ident = {}
        keyed = [t for t in sorted(f.all_tables) if f.primary_key_fields.get(t)]
        for t in keyed:
            for k, r in getattr(d, t).items():
                ident[id(r)] = (t, [enc(x) for x in split_key(k, len(f.primary_key_fields[t]))])
        other = ("?", [V("other", 0, "foreign row")])
        out = []
        for t in keyed:
            for k, r in getattr(d, t).items():
                for a, v in sorted(getattr(r, "__dict__", {}).items()):
                    if a.startswith("_"):
                        continue
                    rec = {"t": t, "k": [enc(x) for x in split_key(k, len(f.primary_key_fields[t]))], "name": a, "one": False,
                           "ct": "", "ent": []}
                    if id(v) in ident:
                        rec.update({"one": True, "ct": ident[id(v)][0], "ent": [{"k": [], "ck": ident[id(v)][1]}]})
                    elif isinstance(v, dict) or hasattr(v, "items"):
                        for k2, r2 in v.items():
                            ct, ck = ident.get(id(r2), other)
                            rec["ct"] = ct
                            rec["ent"].append({"k": [enc(x) for x in (k2 if isinstance(k2, tuple) else (k2,))], "ck": ck})
                    else:
                        rec["ct"] = "?"
                    out.append(rec)
        return {"links": out}

    def op_copy(self, e):
        f, d, fl = self.fo(e)
        if fl == "pan":
            r = f.copy_pan_dat(d)
        else:
            r = f.copy_tic_dat(d, freeze_it=True) if e["freeze"] else f.copy_tic_dat(d)
        self.reg(e["o2"], self.meta[e["o"]]["fac"], r, fl, frozen=bool(e["freeze"]) and fl == "tic")

    def blank_obf(self):
        return {"ren": []}

    def op_obf(self, e):
        f, d, fl = self.fo(e)
        kw = {}
        if e["pre"]:
            kw["table_prepends"] = {x["t"]: x["p"] for x in e["pre"]}
        if e["skip"]:
            kw["skip_tables"] = list(e["skip"])
        if e["freeze"]:
            kw["freeze_it"] = True
        r = f.obfusimplify(d, **kw)
        self.reg(e["o2"], self.meta[e["o"]]["fac"], r.copy, fl, frozen=bool(e["freeze"]))
        letters = lambda s: s.rstrip("0123456789") if isinstance(s, str) and s[-1:].isdigit() else "?"
        return {"ren": [{"new": enc(n), "t": k[0], "old": enc(k[1]), "p": letters(n)} for n, k in r.renamings.items()]}

    # -------------------------------------------------------------- slices
    def op_slicer(self, e):
        rows = [[ixdec(v) for v in r] for r in e["rows"]]
        how = e["how"]
        rows = [r if how == "lists" else tuple(r) for r in rows]
        if how == "gen":
            rows = (r for r in rows)
        elif how == "inner":
            rows = [iter(r) for r in rows]
        gu = getattr(ticdat.utils, "gu", None)
        try:
            if not e["opt"] and gu is not None:
                ticdat.utils.gu = None
            self.slicers[e["id"]] = ticdat.Slicer(rows)
        finally:
            if gu is not None:
                ticdat.utils.gu = gu

    def blank_slice(self):
        return {"rows": []}

    def op_slice(self, e):
        r = self.slicers[e["id"]].slice(*[ixdec(v) for v in e["pat"]])
        rows = [[enc(v) for v in x] for x in r]
        if e["spoil"]:
            r += [tuple("spoil" for _ in e["pat"])]      # what the caller does with the result is the caller's business
        return {"rows": rows}

    def op_sclear(self, e):
        s = self.slicers[e["id"]]
        s.clear() if e["how"] == "clear" else getattr(s, "_forceguout", s.clear)()

    def blank_convert(self):
        return {"good": False}

    def op_convert(self, e):
        f, d, fl = self.fo(e)
        f2 = self.F[e["f2"]]
        good, frozen = True, False
        if e["kind"] == "topan":
            kw = {"keep": {"drop_pk_columns": False}, "drop": {"drop_pk_columns": True}, "none": {},
                  "reset": {"reset_index": True}}[e["opt"]]
            if e["restrict"]:
                kw["table_restrictions"] = e["restrict"]
            fr = f.copy_to_pandas(d, **kw)
            good = bool(f2.good_pan_dat_object(fr))
            r = f2.PanDat(**{t: getattr(fr, t) for t in f.all_tables if hasattr(fr, t)})
            fl2 = "pan"
        elif e["kind"] == "totic":
            frozen = e["opt"] == "freeze"
            r = f.copy_to_tic_dat(d, freeze_it=True) if frozen else f.copy_to_tic_dat(d)
            fl2 = "tic"
        elif e["kind"] == "asdict":
            r, fl2 = f2.TicDat(**f.as_dict(d)), "tic"
        elif e["kind"] == "json":
            from ticdat.jsontd import make_json_dict
            r = f2.TicDat(**json.loads(json.dumps(make_json_dict(f, d, verbose=e["opt"] == "verbose"))))
            fl2 = "tic"
        else:
            raise ValueError(e["kind"])
        self.reg(e["o2"], e["f2"], r, fl2, frozen=frozen)
        return {"good": good}

    def op_scribble(self, e):
        """overwrite everything in what a conversion or a search of the data set returned"""
        f, d, fl = self.fo(e)
        k = e["kind"]
        if k == "pandas":
            kw = {"keep": {"drop_pk_columns": False}, "drop": {"drop_pk_columns": True}, "none": {}, "reset": {"reset_index": True}}[e["opt"]]
            x = f.copy_to_pandas(d, **kw)
            x = [getattr(x, t) for t in f.all_tables if hasattr(x, t)]
        elif k == "asdict":
            x = f.as_dict(d)
        elif k == "json":
            from ticdat.jsontd import make_json_dict
            x = make_json_dict(f, d, verbose=e["opt"] == "keep")
        elif k == "totic":
            x = f.copy_to_tic_dat(d)
            x = [getattr(x, t) for t in f.all_tables]
        else:
            x = {"finddt": f.find_data_type_failures, "findfk": f.find_foreign_key_failures, "findrow": f.find_data_row_failures,
                 "finddup": getattr(f, "find_duplicates", None)}[k](d)
        scribble(x)

    def op_schemascribble(self, e):
        f = self.F[e["f"]]
        scribble(f.schema(include_ancillary_info=True))
        scribble(f.schema())

    # -------------------------------------------------------------- stores
    def store(self, op):
        s = op["s"]
        if s not in self.S:
            self.S[s] = {"path": os.path.join(self.tmp(), s + stores.EXT[op["fmt"]])}
        if op["fmt"] == "pg":
            self.S[s].setdefault("pg", pgs.new_schema())
        self.S[s].update({"fmt": op["fmt"], "hdr": op.get("hdr", True), "schema": op.get("schema", False),
                          "dialect": op.get("dialect") or "excel", "offs": op.get("offs") or {}})

    def op_put(self, e):
        m = self.S[e["s"]]
        if os.path.isdir(m["path"]):
            shutil.rmtree(m["path"])
        elif os.path.exists(m["path"]):
            os.unlink(m["path"])
        stores.PUT[m["fmt"]](m["path"], m, e["tabs"], e)

    def op_write(self, e):
        f, d, fl = self.fo(e)
        m = self.S[e["s"]]
        p, fmt = m["path"], m["fmt"]
        if fl == "tic":
            if fmt == "csv":
                kw = {} if m["dialect"] == "excel" else {"dialect": m["dialect"]}
                f.csv.write_directory(d, p, allow_overwrite=e["ov"], write_header=m["hdr"], case_space_table_names=e["pretty"], **kw)
            elif fmt == "json":
                f.json.write_file(d, p, allow_overwrite=e["ov"], verbose=e["form"] == "dicts", to_pandas=e["form"] == "split")
            elif fmt == "sqlite":
                f.sql.write_db_data(d, p, allow_overwrite=e["ov"])
            elif fmt == "mdb":
                f.mdb.write_file(d, p, allow_overwrite=e["ov"])
            elif fmt == "sqltext":
                f.sql.write_sql_file(d, p, include_schema=m["schema"], allow_overwrite=e["ov"])
            else:
                f.xls.write_file(d, p, allow_overwrite=e["ov"], case_space_sheet_names=e["pretty"])
        else:
            if fmt == "csv":
                f.csv.write_directory(d, p, case_space_table_names=e["pretty"])
            elif fmt == "json" and e["form"] == "lists":
                f.json.write_file(d, p)
            elif fmt == "json":
                f.json.write_file_pd(d, p, case_space_table_names=e["pretty"])
            elif fmt == "sqlite":
                f.sql.write_file(d, p, if_exists=e["exists"], case_space_table_names=e["pretty"])
            else:
                f.xls.write_file(d, p, case_space_sheet_names=e["pretty"])

    def offsets(self, f, m):
        return {t: o for n, o in m["offs"].items() for t in f.all_tables if t.lower()[:stores.CUT] == n.lower().replace(" ", "_")[:stores.CUT]}

    def op_read(self, e):
        f = self.F[e["f"]]
        m = self.S[e["s"]]
        p, fmt = m["path"], m["fmt"]
        if isinstance(f, PanDatFactory):
            src = {"csv": f.csv, "json": f.json, "sqlite": f.sql, "xls": f.xls, "xlsx": f.xls}[fmt]
            kw = {"fill_missing_fields": True} if e["fill"] else {}
            self.reg(e["o2"], e["f"], src.create_pan_dat(p, **kw), "pan")
            return
        kw = {"freeze_it": True} if e["freeze"] else {}
        if fmt == "csv":
            if m["dialect"] != "excel":
                kw["dialect"] = m["dialect"]
            if not m["hdr"]:
                kw["headers_present"] = False
            r = f.csv.create_tic_dat(p, **kw)
        elif fmt == "json":
            r = f.json.create_tic_dat(p, **kw)
        elif fmt == "sqlite":
            r = f.sql.create_tic_dat(p, **kw)
        elif fmt == "mdb":
            r = f.mdb.create_tic_dat(p, **kw)
        elif fmt == "sqltext":
            r = f.sql.create_tic_dat_from_sql(p, includes_schema=m["schema"], **kw)
        else:
            if not m["hdr"]:
                kw["headers_present"] = False
            if m["offs"]:
                kw["row_offsets"] = self.offsets(f, m)
            r = f.xls.create_tic_dat(p, treat_inf_as_infinity=e["tinf"], **kw)
        self.reg(e["o2"], e["f"], r, "tic", frozen=bool(e["freeze"]))

    def blank_fdup(self):
        return {"dups": []}

    def op_fdup(self, e):
        f = self.F[e["f"]]
        m = self.S[e["s"]]
        kw = {}
        if m["fmt"] == "csv":
            r = f.csv.find_duplicates(m["path"], headers_present=m["hdr"], **({"dialect": m["dialect"]} if m["dialect"] != "excel" else {}))
        elif m["fmt"] in ("xls", "xlsx"):
            r = f.xls.find_duplicates(m["path"], row_offsets=self.offsets(f, m), headers_present=m["hdr"])
        else:
            r = {"json": f.json, "sqlite": f.sql, "mdb": f.mdb}[m["fmt"]].find_duplicates(m["path"])
        out = []
        for t, d in r.items():
            n = len(f.primary_key_fields[t])
            for k, c in d.items():
                out.append({"t": t, "k": [enc(x) for x in split_key(k, n)], "n": int(c)})
        return {"dups": out}

    def blank_mdbschema(self):
        return {"made": []}

    def op_mdbschema(self, e):
        m = self.S[e["s"]]
        kw = {}
        for t, f, ty in e["forced"]:
            kw.setdefault(t, {})[f] = ty
        self.F[e["f"]].mdb.write_schema(m["path"], **kw)
        return {"made": stores.declared(m["path"])}

    def blank_main(self):
        return {"calls": self.solved}

    def op_main(self, e):
        f, f2, self.solved = self.F[e["f"]], self.F[e["f2"]], 0
        fl = "pan" if isinstance(f, PanDatFactory) else "tic"

        def solve(dat):
            self.solved += 1
            self.reg(e["o2"], e["f"], dat, fl)
            if e["mode"] == "raise":
                raise Boom("solve")
            sln = None if "none" in e["mode"] else False if e["mode"] == "false" else self.O[e["sol"]]
            return ("done", sln) if e["mode"].startswith("msg") else sln
        here, argv = os.getcwd(), sys.argv
        path = lambda s: self.S[s]["path"]
        args = []
        opt = {"i": ("-i", "--input"), "o": ("-o", "--output"), "e": ("-e", "--errors")}
        if not (e["defi"] and e["s"] == "input"):
            args += [opt["i"][e["long"]], path(e["s"]) if e["s"] else os.path.join(self.tmp(), "nowhere" + stores.EXT[e["fmt"]])]
        if not (e["defo"] and e["s2"] == "output"):
            args += [opt["o"][e["long"]], path(e["s2"])]
        if e["s3"]:
            args += [opt["e"][e["long"]], path(e["s3"])]
        if e["help"]:
            args.insert(0, e["help"])
        try:
            os.chdir(self.tmp())
            sys.argv = ["engine.py"] + args
            try:
                ticdat.standard_main(f, f2, solve, **({"case_space_table_names": True} if e["pretty"] else {}))
            except SystemExit:
                if not e["help"]:
                    raise RuntimeError("exit")
        finally:
            os.chdir(here)
            sys.argv = argv
        return {"calls": self.solved}

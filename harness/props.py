"""Which generator, which clauses of the specification and which design models decide which property."""
import json, random, subprocess
import gen, genobj, genfac, tlc


def run_model(mc, seed):
    """exhaustive TLC run of a design model; the behaviours it prints (VPS <json>) become scenarios for the real code"""
    cfg = "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" + \
        ("CONSTANTS\n" + "\n".join("%s = %s" % (k, json.dumps(v)) for k, v in mc["consts"].items()) if mc["consts"] else "")
    s = {"module": mc["module"], "constants": mc["consts"], "states": 0, "generated": 0, "behaviours": 0, "seconds": 0}
    try:
        rc, out, secs = tlc.run_tlc(mc["module"], cfg, {"VP_KEEP": str(mc["keep"]), "VP_SEED": str(seed % 100000)}, workers=7,
                                    timeout=mc.get("timeout", 300), heap="6g", stack="256m")
    except subprocess.TimeoutExpired:
        return {"failed": False, "out": "", "states": 0, "transitions": 0, "scenarios": [], "summary": dict(s, incomplete="timed out")}
    g, d = tlc.stats(out)
    scs = [{"ops": x} for x in sorted(tlc.prints(out, "VPS"), key=lambda x: json.dumps(x, sort_keys=True))]
    if len(scs) > mc.get("pick", 400):
        scs = random.Random("%s/%d" % (mc["module"], seed)).sample(scs, mc.get("pick", 400))
    return {"failed": rc != 0, "out": out, "states": d, "transitions": g, "scenarios": scs,
            "summary": dict(s, states=d, generated=g, behaviours=len(scs), seconds=round(secs, 1))}


def M(module, keep, pick=400, timeout=300, **consts):
    return {"module": module, "keep": keep, "pick": pick, "timeout": timeout, "consts": consts}


def mixed(*parts):
    """parts: (weight, function(r) -> scenario)"""
    def f(r, n, tier):
        tot = sum(w for w, _ in parts)
        out = []
        for w, fn in parts:
            for _ in range(max(1, int(n * w / tot))):
                out.append(fn(r))
        return out
    return f


def poked(fn, kinds=("clear", "setattr", "add", "tabattr")):
    """what was read frozen is touched at once"""
    def f(r):
        sc = fn(r)
        out, d = [], {}
        for op in sc["ops"]:
            out.append(op)
            if op["op"] == "mkfac":
                d[op["f"]] = op["desc"] if op.get("fl") == "tic" else None
            elif op["op"] in ("read", "pgread") and op.get("freeze") and d[op["f"]]:
                ts = [t for t in d[op["f"]]["tables"] if t["kind"] == "std"]
                for _ in range(r.randint(1, 2) if ts else 0):
                    t = r.choice(ts)
                    k = [gen.st("new%d" % i) for i in range(len(t["pk"]))]
                    out.append(genobj.ed(op["o2"], t["t"], r.choice(kinds).replace("add", "set" if t["pk"] else "extend"), k=k, kt=len(k) > 1))
        return dict(sc, ops=out)
    return f


def both(fn):
    return lambda r: fn(r, "tic" if r.random() < 0.5 else "pan")


PROPS = {}


def bulked(gen_fn, share=0.025):
    """now and then a table is far longer than the others"""
    def f(r, n, tier):
        scs = gen_fn(r, n, tier)
        for sc in scs:
            if r.random() >= share:
                continue
            flagged = any(op["op"] == "decl" or "inf" in op.get("desc", {}) for op in sc["ops"])
            d = {op["f"]: {t["t"]: t for t in op["desc"]["tables"]} for op in sc["ops"] if op["op"] == "mkfac"}
            cand = [(op, tb) for op in sc["ops"] if op["op"] == "mk" and op["f"] in d for tb in op["tabs"]
                    if tb["rows"] and tb["t"] in d[op["f"]] and d[op["f"]][tb["t"]]["kind"] != "generic" and tb["t"] != "parameters"]
            if not cand:
                continue
            op, tb = r.choice(cand)
            pk = len(d[op["f"]][tb["t"]]["pk"])
            src = tb["rows"][:]
            for i in range(r.randint(15, 60)):
                row = list(r.choice(src))
                at = [j for j in range(pk) if row[j]["k"] == "str" or (row[j]["k"] == "num" and not flagged)]
                if pk and not at:
                    continue
                if pk:
                    j = r.choice(at)
                    row[j] = gen.st("w%d" % i) if row[j]["k"] == "str" else gen.intv(200 + i)
                tb["rows"].append(row)
        return scs
    return f


def respelt(gen_fn, share=0.12):
    """equal numbers of other Python types"""
    def f(r, n, tier):
        scs = gen_fn(r, n, tier)
        for sc in scs:
            if r.random() < share:
                for op in sc["ops"]:
                    if op["op"] == "mk":
                        op["rep"] = r.randint(1, 999)
        return scs
    return f


RESPELT = "C01 C02 C03 C04 C09 C10 C12 C13 C14 C26 C33".split()


def prop(pid, owns, gen_fn, quick, thorough, mc=None, **kw):
    PROPS[pid] = dict({"owns": owns, "gen": bulked(respelt(gen_fn) if pid in RESPELT else gen_fn), "n": {"quick": quick, "thorough": thorough}, "mc": mc or {}}, **kw)


prop("C01", ["mkfac.", "findfk."], mixed(
    (5, both(lambda r, fl: gen.fk_scenario(r, fl, ["find", "find"]))),
    (2, both(lambda r, fl: gen.fk_scenario(r, fl, ["edit", "find", "edit", "find"]))),
    (1, both(lambda r, fl: gen.fk_scenario(r, fl, ["find", "remove", "find"])))), 2700, 20000)

prop("C02", ["mkfac.", "removefk."], lambda r, n, tier: mixed(
    (4, both(lambda r, fl: gen.fk_scenario(r, fl, ["remove"]))),
    (3, both(lambda r, fl: gen.fk_scenario(r, fl, ["edit", "remove", "remove"]))),
    (1, both(lambda r, fl: gen.fk_scenario(r, fl, ["find", "remove", "find"]))))(r, n, tier) +
    [gen.chain_scenario("tic", 200), gen.chain_scenario("tic", 60, True), gen.chain_scenario("pan", 40, True)], 2700, 20000)

prop("C03", ["mkfac.", "finddt."], mixed(
    (4, both(lambda r, fl: gen.dt_scenario(r, fl, ["find"]))),
    (1, both(lambda r, fl: gen.dt_scenario(r, fl, ["find", "replace", "find"])))), 2700, 20000)

prop("C04", ["mkfac.", "replacedt."], mixed(
    (4, both(lambda r, fl: gen.dt_scenario(r, fl, ["replace", "find"]))),
    (2, both(lambda r, fl: gen.dt_scenario(r, fl, ["replace", "replace"])))), 2700, 20000)

prop("C05", ["mkfac.", "findrow."], mixed(
    (4, both(lambda r, fl: gen.row_scenario(r, fl, ["find"]))), (1, both(genfac.conv_scenario)),
    (1, both(lambda r, fl: gen.row_scenario(r, fl, ["find", "find"])))), 2700, 20000)

prop("C06", ["mkfac.", "limit."], mixed(
    (2, both(lambda r, fl: gen.fk_scenario(r, fl, ["limit", "limit", "limit"]))),
    (2, both(lambda r, fl: gen.dt_scenario(r, fl, ["limit", "limit", "limit"]))),
    (2, both(lambda r, fl: gen.row_scenario(r, fl, ["limit", "limit", "limit"])))), 900, 20000,
    ops=["findfk", "finddt", "findrow"])

prop("C07", ["finddup.", "dups.", "fdup."], mixed((3, gen.dup_scenario), (2, lambda r: genobj.dup_build_scenario(r)),
                                          (2, lambda r: genstore.fdup_scenario(r))), 3000, 12000)

prop("C08", ["frame.read", "frame.fac", "frame.store", "repeat."], mixed((2, both(genobj.read_scenario)),
     (1, both(lambda r, fl: genstore.io_scenario(r, fl)))), 2400, 12000)

prop("C09", ["frozen.", "freeze."], mixed((1, genobj.freeze_scenario)), 1500, 10000)

prop("C10", ["mkfac.", "build.", "edit."], mixed(
    (3, both(genobj.build_scenario)), (3, lambda r: genobj.edit_scenario(r, "tic")), (1, lambda r: genobj.edit_scenario(r, "pan"))), 2400, 16000)

prop("C11", ["good."], mixed((2, lambda r: genobj.good_scenario(r, "tic")), (1, lambda r: genobj.good_scenario(r, "pan"))), 1800, 12000)

prop("C12", ["links."], mixed((3, genobj.link_scenario), (1, genobj.link_clone_scenario)), 2400, 12000)

prop("C13", ["copy.", "frame.edit", "edit.", "frozen.", "freeze."], mixed((1, both(genobj.copy_scenario))), 2100, 12000)

prop("C14", ["convert."], mixed((1, both(genobj.convert_scenario))), 1800, 12000)


prop("C15", ["links.", "build.", "import.", "clone.", "frame.", "mkfac.", "findfk.", "finddt.", "findrow.", "mk."], mixed((4, both(genfac.export_scenario)), (1, both(genfac.conv_scenario)), (1, genobj.link_clone_scenario)), 2100, 10000)

prop("C16", ["links.", "build.", "cloneedit.", "restrict.", "schema.", "frame.", "findfk.", "finddt.", "mk."], mixed((5, both(genfac.edits_scenario)), (1, genobj.link_clone_scenario)), 2160, 12000)

prop("C17", ["mkfac.", "lock.", "decl.", "clone.", "import."], mixed((2, lambda r: genfac.lock_scenario(r, "tic")), (1, lambda r: genfac.lock_scenario(r, "pan"))), 1800, 12000)

prop("C18", ["mkfac.", "implied.", "fklist.", "findfk.", "removefk."], mixed((1, genfac.implied_scenario)), 2100, 14000)

prop("C19", ["newfac.", "decl.", "fklist.", "schema.", "mkfac.", "import.refuse", "clone.refuse", "cloneedit.refuse", "frame.decl"],
     mixed((9, both(genfac.illformed_scenario)), (1, genfac.gens_scenario)), 2310, 14000)


import genstore
prop("C20", ["wtic.", "rtic.", "rt.tic", "frozen."], mixed((4, poked(lambda r: genstore.rt_scenario(r, "tic"))),
                                                (1, lambda r: genstore.cross_scenario(r, "tic"))), 2400, 12000)
prop("C21", ["wpan.", "rpan.", "rt.pan", "rtic."], mixed((3, lambda r: genstore.rt_scenario(r, "pan")), (1, both(genstore.cross_scenario))), 2400, 12000)
S_ALL = ["wtic.", "rtic.", "rt.", "wpan.", "rpan.", "ov.", "fdup.", "dups."]
prop("C22", ["wtic.", "wpan.", "rtic.", "rpan.", "rt."], mixed((1, both(genstore.flag_scenario))), 1800, 12000)
prop("C23", ["ov.", "wtic.raise", "wpan.raise"], mixed((3, lambda r: genstore.ov_scenario(r, "tic")), (1, lambda r: genstore.ov_scenario(r, "pan"))), 1800, 12000)
prop("C24", ["rtic.", "rpan."], mixed((1, both(genstore.names_scenario))), 1800, 12000)
prop("C31", ["rtic.", "rpan.", "fdup."], mixed((1, both(genstore.trail_scenario))), 1500, 10000)
prop("C25", ["mkfac.", "params.", "findrow.", "decl.", "wtic.", "wpan.", "rtic.", "rpan.", "rt."], mixed(
    (2, both(genfac.params_scenario)), (1, both(lambda r, fl: genstore.rt_scenario(r, fl, params=1)))), 2400, 12000)
prop("C29", ["build.", "copy.", "convert.", "findfk.", "finddt.", "frame.", "wtic.", "wpan.", "rtic.", "rpan.", "rt."], mixed(
    (2, genobj.special_scenario), (1, both(lambda r, fl: genstore.rt_scenario(r, fl, special=1)))), 2100, 10000)
import genutil
prop("C26", ["obf.", "frame.read", "findfk."], mixed((2, genutil.obf_scenario), (1, lambda r: genutil.obf_scenario(r, "pan"))), 2700, 12000)
prop("C27", ["slicer.", "slice."], mixed((1, genutil.slicer_scenario)), 3000, 20000)
prop("C28", ["main.", "wtic.", "wpan.", "ov.", "frame."], mixed((1, both(genutil.main_scenario))), 1800, 12000)
import genmip, mips
def mip_gen(r, n, tier):
    avail = mips.solvers()
    return [genmip.scenario(r, avail) for _ in range(n)] if avail else []
prop("C32", ["mip."], mip_gen, 1500, 12000, module="Mip")
import genpg, pgs
prop("C30", ["pg.", "frame.", "frozen."], mixed((3, poked(both(genpg.write_scenario), ("clear", "add"))), (1, both(genpg.schema_scenario)), (1, both(genpg.foreign_scenario))), 1200, 8000,
     setup=pgs.Server)

import genampl
prop("C33", ["ampl.", "frame.read", "mkfac."], mixed((5, both(genampl.ampl_scenario)), (1, genampl.fmt_scenario)), 2400, 14000)
prop("C34", ["util."], mixed((1, genampl.util_scenario)), 3000, 16000)
import genmdb
prop("C35", ["mdb.", "wtic.", "rtic.", "rt.tic", "ov.", "fdup.", "dups.", "frame.", "frozen."], mixed((3, poked(genmdb.mdb_scenario)), (1, poked(genmdb.found_scenario))), 2000, 12000)


# ---- design models, checked exhaustively; (quick, thorough)
def models(pids, quick, thorough):
    for p in pids.split():
        for tier, ms in (("quick", quick), ("thorough", thorough)):
            PROPS[p]["mc"].setdefault(tier, []).extend(ms)


models("C01 C02", [M("MCRemoval", 150, Shape=2)], [M("MCRemoval", 60, 2000, 900, Shape=s) for s in (1, 2, 3)])
models("C06", [M("MCRemoval", 100, Shape=2), M("MCTypes", 15)], [M("MCRemoval", 60, 2000, 900, Shape=s) for s in (1, 2, 3)] + [M("MCTypes", 1, 2000)])
models("C18", [M("MCImplied", 6, MaxKeys=4)], [M("MCImplied", 6, 3000, 900, MaxKeys=5)])
models("C03 C04", [M("MCTypes", 5)], [M("MCTypes", 1, 3000)])
models("C17", [M("MCLock", 1500, Fl=fl) for fl in ("tic", "pan")], [M("MCLock", 60, 6000, Fl=fl) for fl in ("tic", "pan")])
models("C19", [M("MCLock", 3000, Fl=fl) for fl in ("tic", "pan")], [M("MCLock", 60, 6000, Fl=fl) for fl in ("tic", "pan")])
models("C08 C09 C10 C13", [M("MCObjects", 30, 500, Fl="tic", Depth=3), M("MCObjects", 2, 200, Fl="pan", Depth=3)],
       [M("MCObjects", 3, 6000, Fl="tic", Depth=3), M("MCObjects", 1, 2000, Fl="pan", Depth=3)])
models("C30", [M("MCPg", 60, 300, CKeys=1)], [M("MCPg", 60, 3000, 900, CKeys=2)])
models("C20 C21 C22", [M("MCStore", 10, 1000, CWide=1)], [M("MCStore", 10, 600, 3000, CWide=2), M("MCStore", 1, 6000, CWide=1)])
models("C15 C16", [M("MCSchema", 8, 400, Fl=fl, Depth=2) for fl in ("tic", "pan")], [M("MCSchema", 20, 6000, 1500, Fl=fl, Depth=3) for fl in ("tic", "pan")])
models("C25", [M("MCParams", 60, 1000)], [M("MCParams", 4, 20000)])
models("C12", [M("MCLinks", 20, Shape=s) for s in (1, 2, 3, 4)], [M("MCLinks", 1, 6000, Shape=s) for s in (1, 2, 3, 4)])
models("C24", [M("MCNames", 12, Fl=fl) for fl in ("tic", "pan")], [M("MCNames", 1, 8000, Fl=fl) for fl in ("tic", "pan")])
models("C27", [M("MCSlicer", 60, Depth=2)], [M("MCSlicer", 60, 12000, 1500, Depth=3)])
models("C26", [M("MCObf", 40, Shape=1), M("MCObf", 200, Shape=2), M("MCObf", 40, Shape=3)], [M("MCObf", 1, 6000, Shape=s) for s in (1, 2, 3)])
SHAPES = [(0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2)]
models("C11", [M("MCGood", 40, NPk=p, NDf=d) for p, d in SHAPES], [M("MCGood", 1, 6000, NPk=p, NDf=d) for p, d in SHAPES])

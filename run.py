#!/opt/venv/bin/python
"""Decides one property:  run.py --prop C01 [--replay file]      (VERIF_SEED, VERIF_TIER from the environment)

1. TLC checks the property's design models exhaustively (spec/MC*.tla) and, where they do, has them emit behaviours.
2. The behaviours and randomly generated histories are executed on the ticdat of /repo's working tree.
3. TLC checks every recorded trace, event by event, against the specification (spec/Trace.tla).
"""
import argparse, contextlib, json, os, random, subprocess, sys, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
PY = "/opt/venv/bin/python"


def load_known():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VP_SCALE", "1")))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import engine, props, tlc
    P = props.PROPS[a.prop]
    with P["setup"]() if "setup" in P else contextlib.nullcontext():
        return decide(a, P, seed, tier)


def decide(a, P, seed, tier):
    import engine, props, tlc
    t0 = time.time()
    owns = tuple(P["owns"]) + ("hang",)
    mine = lambda c: c.startswith(owns) or (c.startswith("unevaluable.") and any(
        o.split(".")[0] == c[12:] or c[12:] in P.get("ops", ()) for o in owns))

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        traces = engine.exec_all([rep["scenario"]])
        mism, _, _ = engine.judge(traces, P.get("module", "Trace"))
        bad = sorted({c for m in mism for c in m[3] if mine(c)})
        for m in mism:
            print("event %d (%s): %s" % (m[1], m[2], ", ".join(m[3])))
        if bad:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        print("replay: no violation of", a.prop)
        return 0

    # ---- 1. design models
    models, mstates, mtrans, scs = [], 0, 0, []
    for mc in [] if os.environ.get("VP_NOMC") == "1" else P["mc"].get(tier, []):
        r = props.run_model(mc, seed)
        models.append(r["summary"])
        mstates += r["states"]
        mtrans += r["transitions"]
        scs += r["scenarios"]
        if r["failed"]:
            # a design model is about the specification only: failing is a defect of this framework
            print("MACHINERY: model %s failed\n%s" % (mc["module"], r["out"][-3000:]))
            return 2
    nmodel = len(scs)
    # ---- 2. histories
    r = random.Random("%s/%d" % (a.prop, seed))
    n = max(1, int(P["n"][tier] * a.scale))
    scs += P["gen"](r, n, tier)
    t1 = time.time()
    traces = engine.exec_all(scs)
    t2 = time.time()
    # ---- 3. verdict
    mism, gen, dist = engine.judge(traces, P.get("module", "Trace"))
    t3 = time.time()
    known = load_known()
    viol, others, kf = [], {}, {}
    for i, l, op, clauses in mism:
        own = [c for c in clauses if mine(c)]
        for c in clauses:
            if not mine(c):
                others[c] = others.get(c, 0) + 1
        if not own:
            continue
        hit = None
        for k in known:
            if k["property"] == a.prop and scs[i].get("tag") == k["tag"] and set(own) <= set(k["clauses"]):
                hit = k
        if hit:
            kf[hit["tag"]] = hit
        else:
            viol.append((i, l, op, own))
    for k in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    ev_dir = os.environ.get("VP_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    events = sum(len(t) for t in traces)
    ops = {}
    for t in traces:
        for e in t:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    distinct = len({json.dumps(s["ops"], sort_keys=True) for s in scs})
    nontriv = {}
    for t in traces:
        for e in t:
            ok = e.get("ret", {}).get("ok")
            nontriv[e["op"] + (".ok" if ok else ".raised")] = nontriv.get(e["op"] + (".ok" if ok else ".raised"), 0) + 1
    sample = scs[len(scs) // 2] if scs else {}
    evidence = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": mstates + dist, "transitions": mtrans + (gen - len(traces)),
            "traces_validated_against_impl": len(traces),
            "evaluations": events, "distinct_nontrivial": distinct,
            "rule": "scenarios: histories of public API calls; each recorded event is judged by TLC against the specification's"
                    " transition; distinct = distinct call histories",
            "design_models": models, "behaviours_from_models": nmodel, "events_by_operation": ops, "outcomes": nontriv,
            "clauses_owned": list(P["owns"]), "mismatches_owned_by_other_properties": others,
            "samples": [sample] if len(json.dumps(sample)) < 20000 else [{"ops": [o["op"] for o in sample["ops"]]}]},
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "timing": {"models_s": round(t1 - t0, 2), "exec_s": round(t2 - t1, 2), "judge_s": round(t3 - t2, 2)}}
    with open(os.path.join(ev_dir, a.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if viol:
        i, l, op, own = min(viol, key=lambda v: (len(json.dumps(scs[v[0]])), v[1]))
        path = os.path.join(ev_dir, "replay", "%s.json" % a.prop)
        with open(path, "w") as f:
            json.dump({"property": a.prop, "event": l, "op": op, "clauses": own, "scenario": scs[i], "trace": traces[i]}, f)
        print("%d traces violate %s; smallest: event %d (%s) fails %s" % (len({v[0] for v in viol}), a.prop, l, op, own))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    print("OK property=%s traces=%d events=%d states=%d wall=%.1fs%s" %
          (a.prop, len(traces), events, mstates + dist, time.time() - t0, (" other=%s" % others) if others else ""))
    return 0


if __name__ == "__main__":
    if (sys.prefix != "/opt/venv" or os.environ.get("VP_REEXEC") != "1") and os.path.exists(PY):
        os.environ.update({"VP_REEXEC": "1", "PYTHONHASHSEED": str(int(os.environ.get("VERIF_SEED", "1")) % 4294967295),
                           "PYTHONDONTWRITEBYTECODE": "1"})
        os.execv(PY, [PY] + sys.argv)
    sys.exit(main())

"""Executes scenarios, has TLC judge the recorded traces, reports violations, writes evidence."""
import concurrent.futures as cf, json, multiprocessing as mp, os, random, signal, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tlc


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def exec_one(sc):
    """scenario -> trace (list of events); hangs and harness crashes become a final event"""
    from world import World
    w = World()
    limit = int(sc.get("limit", 120))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    trace = []
    try:
        for op in sc["ops"]:
            e = w.step(op)
            if e:
                trace.append(e)
    except Hang:
        trace.append({"op": "hang", "at": len(trace) + 1, "ret": {"ok": False}, "facs": [], "objs": [], "stores": []})
    finally:
        signal.alarm(0)
        try:
            w.close()
        except Exception:
            pass
    return trace


def init_worker():
    import warnings, logging
    warnings.simplefilter("ignore")
    devnull = open(os.devnull, "w")
    os.dup2(devnull.fileno(), 2)
    os.dup2(devnull.fileno(), 1)


def exec_all(scs, procs=7):
    if len(scs) <= 4:
        return [exec_one(s) for s in scs]
    with mp.get_context("fork").Pool(procs, initializer=init_worker) as pool:
        return pool.map(exec_one, scs, chunksize=max(1, min(16, len(scs) // (procs * 4))))


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def _judge_chunk(args):
    idx, traces, module, tmp, heap = args
    """returns (mismatches [(i, event no, op, clauses)], transitions, states)"""
    alive = list(zip(idx, traces))
    mism, gen, dist, lost = [], 0, 0, 0
    while alive:
        path = os.path.join(tmp, "tr%d_%d.ndjson" % (idx[0], len(alive)))
        with open(path, "w") as f:
            for _, t in alive:
                f.write(json.dumps({"ev": t}) + "\n")
        rc, out, s = tlc.run_tlc(module, CFG, {"VP_TRACES": path}, workers=2, timeout=int(os.environ.get("VP_TLC_TIMEOUT","800")), heap=heap, stack="512m")
        os.unlink(path)
        if rc == 0:
            g, d = tlc.stats(out)
            want = sum(len(t) + 1 for _, t in alive)
            if d != want:
                raise tlc.TLCError("TLC explored %s states, expected %s\n%s" % (d, want, out[-2000:]))
            gen += g
            dist += d
            for m in tlc.prints(out, "VPM"):
                mism.append((alive[m["tr"] - 1][0], m["l"], m["op"], sorted(m["bad"])))
            break
        # an event the specification cannot even evaluate: attribute it to its trace, drop it, go on
        import re
        hits = re.findall(r"/\\ tr = (\d+)", out)
        ls = re.findall(r"/\\ l = (\d+)", out)
        if (rc == 75 or "Error: Evaluating" in out or "The error occurred when TLC was evaluating" in out or
                "attempted to" in out.lower() or "The first argument" in out) and hits and "OutOfMemory" not in out:
            k = int(hits[-1]) - 1
            l = int(ls[-1]) + 1 if ls else 0
            op = alive[k][1][l - 1]["op"] if 0 < l <= len(alive[k][1]) else "?"
            mism.append((alive[k][0], l, op, ["unevaluable." + op]))
            if os.environ.get("VP_DEBUG"):
                sys.stderr.write(out[-3000:])
            alive.pop(k)
            lost += 1
            if lost >= 12:      # enough evidence; each one costs a TLC run
                break
            continue
        raise tlc.TLCError("TLC failed rc=%s\n%s" % (rc, out[:1500] + out[-2500:]))
    return mism, gen, dist


def judge(traces, module="Trace", chunks=4, heap="3g"):
    if not traces:
        return [], 0, 0
    tmp = tempfile.mkdtemp(prefix="vptr.")
    try:
        size = [sum(len(json.dumps(e)) for e in t) for t in traces]
        k = max(1, min(chunks, len(traces), 1 + sum(size) // 400000))
        order = sorted(range(len(traces)), key=lambda i: -size[i])
        bins = [[] for _ in range(k)]
        load = [0] * k
        for i in order:
            b = load.index(min(load))
            bins[b].append(i)
            load[b] += size[i] + 200
        jobs = [(b, [traces[i] for i in b], module, tmp, heap) for b in bins if b]
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            res = list(ex.map(_judge_chunk, jobs))
        mism, gen, dist = [], 0, 0
        for m, g, d in res:
            mism += m
            gen += g
            dist += d
        return sorted(mism), gen, dist
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

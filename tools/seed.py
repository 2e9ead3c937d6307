#!/usr/bin/env python3
"""Authoring aid for planted bugs.
   seed.py make FILE.py     FILE defines SEEDS = {id: {property, needs, breaks, edits: [(file, old, new)], demo: text}}
   seed.py check ID...      in a scratch copy: suite passes with the patch, demo fails with it and passes without it
   seed.py catch ID...      run the check of its property against a scratch copy with the patch applied"""
import json, os, shutil, subprocess, sys, tempfile, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\n# cwd is the repository\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" %s "$(dirname "$0")/demo.py"\n' % PY


def scratch():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    os.chmod(d, 0o755)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d


def make(fn):
    for k, s in runpy.run_path(fn)["SEEDS"].items():
        d = scratch()
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(d, "repo", f)
                x = open(p).read()
                assert x.count(old) == 1, (k, f, x.count(old), old)
                open(p, "w").write(x.replace(old, new))
            diff = subprocess.check_output(["git", "-C", d + "/repo", "diff"], text=True)
            out = os.path.join(SD, k)
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(SH)
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo.py", "w").write(s["demo"].lstrip())
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)


def check(k):
    d = scratch()
    try:
        repo, out = d + "/repo", os.path.join(SD, k)
        demo = lambda: subprocess.run(["bash", out + "/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=300)
        a = demo()
        subprocess.check_call(["git", "-C", repo, "apply", out + "/patch.diff"])
        b = demo()
        t = open("/opt/vp/test.sh").read().replace("/repo", repo).replace("ticdat_can_run", "ticdat_can_run")
        open(d + "/test.sh", "w").write(t)
        subprocess.run(["bash", d + "/test.sh", d + "/o.json"], capture_output=True, text=True, cwd=d,
                       env=dict(os.environ, TICDAT_JOBS="4"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(d + "/o.json"))
        want = set(base["stable"])
        lost = sorted(want - set(res["passed"]))
        ok = a.returncode == 0 and b.returncode != 0 and not lost
        print("%s %s demo clean=%d patched=%d lost tests=%s" % ("GOOD" if ok else "BAD ", k, a.returncode, b.returncode, lost[:4]), flush=True)
        if a.returncode:
            print(a.stdout[-800:], a.stderr[-1500:])
    finally:
        shutil.rmtree(d)


def catch(k):
    d = scratch()
    try:
        m = json.load(open(os.path.join(SD, k, "meta.json")))
        subprocess.check_call(["git", "-C", d + "/repo", "apply", os.path.join(SD, k, "patch.diff")])
        r = subprocess.run([PY, os.path.join(ROOT, "run.py"), "--prop", m["property"]], capture_output=True, text=True,
                           cwd=ROOT, env=dict(os.environ, VP_REPO=d + "/repo", VP_EVIDENCE=d + "/ev"))
        print("%s %s %s rc=%d %s" % ("CAUGHT" if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else "MISSED",
                                     k, m["property"], r.returncode, r.stdout.strip().splitlines()[-1:] if r.returncode < 2 else r.stderr[-500:]), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(args[0])
    else:
        for k in args or sorted(os.listdir(SD)):
            {"check": check, "catch": catch}[cmd](k)

"""setup_cmd: nothing is built; checks that the tools the checks need are there and that every specification parses."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import tlc
import tempfile
bad = 0
with tempfile.TemporaryDirectory() as d:
    for f in sorted(os.listdir(tlc.SPEC)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", tlc._classpath(), "tla2sany.SANY", os.path.join(tlc.SPEC, f)], cwd=tlc.SPEC,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = p.returncode == 0 and "*** Errors" not in p.stdout and "Fatal" not in p.stdout
            print(f, "ok" if ok else p.stdout[-1500:])
            bad += not ok
sys.exit(1 if bad else 0)

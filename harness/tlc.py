"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
    return ":".join(jars)


class TLCError(Exception):
    pass


def run_tlc(module, cfg_text, env=None, workers=4, extra=(), timeout=600, heap="2g", stack="64m", cwd_files=()):
    """Run TLC on spec/<module>.tla with the given configuration text.  Returns (returncode, output, seconds)."""
    work = tempfile.mkdtemp(prefix="tlcrun.")
    try:
        cfg = os.path.join(work, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-XX:ParallelGCThreads=2",
               "-cp", _classpath(), "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(work, "states"),
               "-workers", str(workers), "-noGenerateSpecTE", "-nowarning"] + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True, errors="replace")
        return p.returncode, p.stdout, time.time() - t
    finally:
        shutil.rmtree(work, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def prints(out, tag):
    """JSON payloads printed by the specification as  TAG <json>  (one per line, as TLA+ strings)."""
    rtn = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag + " "):
            s = json.loads(line)           # a TLA+ string literal is JSON-compatible here
            rtn.append(json.loads(s[len(tag) + 1:]))
    return rtn

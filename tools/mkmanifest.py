"""Writes MANIFEST.json from harness/props.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import props
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "/opt/venv/bin/python run.py --prop %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py --prop %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked with TLC; traces of the real library validated against it with TLC" +
                     (", behaviours enumerated by TLC replayed into the library" if any(m.get("replays") for ms in p["mc"].values() for m in ms) else ""),
        "level": "model_checking",
        "level_note": p.get("note", "TLC checks every recorded event of generated histories against the TLA+ transition of the same "
                      "operation (exact expected result and post state of every object and factory). Assurance is bounded by "
                      "the generated histories; trusts TLC, the projection in harness/world.py and the value encoding in harness/values.py.")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup_check.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in props.PROPS]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(m["not_applicable"]), "not claimed")

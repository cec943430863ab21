"""Writes MANIFEST.json from the harnesses that exist (run after adding one)."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOT_APPLICABLE = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "harness", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no check yet")})
        continue
    spec = importlib.util.spec_from_file_location("m", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    b = m.META["bounds"]
    q = b if isinstance(b, str) else b["quick"]
    note = ("Every path of the real functions within the bounds is explored by symbolic execution of the "
            "source in /repo; z3 decides each branch and the final assertion for all values on the path; "
            "counterexamples are replayed on the real interpreter before being reported. Bounds (quick): "
            + q + ". Outside: " + (m.META.get("outside") or "-") + ". Trusted: the executor's models of Python's "
            "containers, strings and regular expressions (cross-checked on sampled paths against the real code), z3. Stubs: "
            + (m.META.get("stubs") or "none") + ".")
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s --tier quick" % pid,
        "thorough_cmd": "./check %s --tier thorough" % pid,
        "technique": "bounded symbolic execution of the Python source with z3, counterexamples replayed on the real code",
        "level": "model_checking",
        "level_note": note,
    })
man = {
    "version": 1,
    "setup_cmd": "/opt/veriftools/pyvenv/bin/python -c 'import z3' && /opt/venv-pypy/bin/python -c 'import marshmallow'",
    "checks": checks,
    "not_applicable": na,
    "notes": "One checker for all properties (symx/), one harness per property (harness/). No hooks in /repo. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")

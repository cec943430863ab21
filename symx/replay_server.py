"""Runs in the real interpreter (PyPy): executes harness bodies with concrete
inputs against the uninstrumented code.  One JSON request per line."""
import importlib.util
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(HERE, "symx"))
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
import world  # noqa: E402

_mods = {}


def harness(name):
    if name not in _mods:
        p = os.path.join(HERE, "harness", name + ".py")
        spec = importlib.util.spec_from_file_location("h_" + name, p)
        m = importlib.util.module_from_spec(spec)
        sys.path.insert(0, os.path.join(HERE, "harness"))
        spec.loader.exec_module(m)
        _mods[name] = m
    return _mods[name]


def run(req):
    m = harness(req["harness"])
    w = world.ConcreteW(req["inputs"])
    out = {"fails": [], "exc": None, "skip": False}
    try:
        m.body(w, req["params"])
    except world.Skip:
        out["skip"] = True
    except BaseException as e:
        out["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        out["tb"] = traceback.format_exc()[-1500:]
    finally:
        w.close()
    out["fails"] = w.fails
    out["obs"] = w.obs
    return out


def main():
    if len(sys.argv) > 1:
        # human use: replay one recorded counterexample
        req = json.load(open(sys.argv[1]))
        r = run(req)
        print(json.dumps(r, indent=1, ensure_ascii=True))
        sys.exit(1 if (r["fails"] or r["exc"]) and not r["skip"] else 0)
    real = os.dup(1)
    os.dup2(2, 1)
    outf = os.fdopen(real, "w")
    for line in sys.stdin:
        req = json.loads(line)
        outf.write(json.dumps(run(req)) + "\n")
        outf.flush()


main()

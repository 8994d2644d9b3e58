"""Worker: runs scenarios on plain floats against the real, unpatched modules.

Reads one JSON request per line: {prop, scenario, values, seed, tier}; answers one
JSON line with the outcome of every assertion of the scenario.
"""
import importlib
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
SRC = os.environ.get("VERIF_SRC", "/repo/src")
sys.path.insert(0, SRC)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from symx.harness import ConcHarness, Discard  # noqa: E402


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def fresh():
    for k in [k for k in sys.modules if k == "openspace" or k.startswith("openspace.")]:
        del sys.modules[k]


def run(req):
    mod = importlib.import_module("props." + req["prop"].lower())
    sc = mod.SCENARIOS.by_name[req["scenario"]]
    import random

    saved = (random.gauss, random.uniform, random.normalvariate, random.random)
    random.seed(req.get("seed", 0))
    fresh()
    h = ConcHarness(req.get("values"), req.get("seed", 0), req.get("tier", "quick"))
    h.limits = req.get("limits") or {}
    h.tight = req.get("tight", False)
    if req.get("jitter"):
        from symx.jitter import make

        h.wrap = make(random.Random(req.get("jseed", 0)), req["jitter"])
    out = {"discard": False, "exc": None, "hang": False}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, req.get("limit", 20))
    try:
        sc.fn(h)
    except Discard:
        out["discard"] = True
    except Hang:
        out["hang"] = True
    except Exception as ex:
        out["exc"] = [type(ex).__name__, str(ex), traceback.format_exc()[-1500:]]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            h.unstub()
        except Exception:
            pass
        random.gauss, random.uniform, random.normalvariate, random.random = saved
    if any(n == 0 for n in h.calls.values()) and not out["exc"] and not out["hang"]:
        out["discard"] = True  # the code no longer goes through a function this scenario replaces
    out["partial"] = getattr(h, "partial", False)
    out["used"] = h.used
    out["results"] = h.results
    return out


def main():
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        out = run(json.loads(line))
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    if len(sys.argv) > 1:  # replay a recorded violation: python -m symx.concrete replay.json
        req = json.load(open(sys.argv[1]))
        out = run(req)
        bad = [r for r in out["results"] if not r[1]]
        print(json.dumps({"exc": out["exc"], "hang": out["hang"], "failed": bad}, indent=1))
        sys.exit(1 if bad or out["exc"] or out["hang"] else 0)
    main()

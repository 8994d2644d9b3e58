"""Driver: explores every scenario of a property symbolically, replays what the
solver could not exclude against the real code, writes the evidence file."""
import importlib
import json
import multiprocessing as mp_
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_SRC", "/repo/src")


# ----------------------------------------------------------------------------- concrete side
class Concrete:
    def __init__(self):
        self.p = None
        self.runs = 0

    def start(self):
        self.p = subprocess.Popen(
            [sys.executable, "-B", "-m", "symx.concrete"],
            cwd=HERE,
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
        )

    def run(self, **req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.runs += 1
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"discard": True, "exc": None, "hang": False, "results": [], "used": {}}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(2)
            except Exception:
                self.p.kill()


def failures(out):
    """what went wrong in a concrete run: {label: (a, b, lim) | exception}"""
    f = {}
    for lab, ok, a, b, lim in out["results"]:
        if not ok:
            f[lab] = (a, b, lim)
    if out["exc"]:
        f["exception:" + out["exc"][0]] = out["exc"]
    if out["hang"]:
        f["hang"] = True
    return f


def robust(conc, req, label, first, rng, proved=False, exact=False):
    """the failure is not float noise: it persists, with the same size, under tiny input changes; an assertion shown
    to hold in exact arithmetic on every path seen so far takes more of them, and larger ones; a deviation that exact
    arithmetic shows on the same input, with the same size, is none, even where neighbouring inputs are fine;
    nor is one in a scenario about rounding itself"""
    if label in ("exception:ZeroDivisionError", "exception:ValueError", "exception:OverflowError"):
        return not isolated(conc, req, rng)
    if label == "hang":
        return bool(conc.run(**dict(req, limit=30)).get("hang"))
    if label.startswith("exception") or exact:
        return True
    a, b, lim = first
    if lim == -1:
        return True
    num = isinstance(a, float) and isinstance(b, float)
    d0 = (a - b) if num else None
    ok = 0
    tried = 0
    for n in range(14 if proved and num else 4):
        w = 1e-13 if n < 4 else 10 ** rng.uniform(-12, -7)
        vals = {
            k: (v * (1 + rng.uniform(-1, 1) * w) if isinstance(v, float) else v) for k, v in req["values"].items()
        }
        out = conc.run(**dict(req, values=vals))
        if out["discard"]:
            continue
        tried += 1
        f = failures(out)
        if label not in f:
            if any(k.startswith("exception") for k in f):
                ok += 1
            continue
        if num:
            a1, b1, _ = f[label]
            d1 = a1 - b1
            if not (d0 * d1 > 0 and 0.3 < abs(d1 / d0) < 3):
                continue
        ok += 1
    if not (ok >= max(1, tried - (2 if proved and num else 1)) or tried == 0):
        return False
    return not rounding(conc, req, label, d0, rng)


def rounding(conc, req, label, d0, rng):
    """the failure goes away, or changes its size, when every operation carries a little more rounding error"""
    ok = tried = 0
    for n in range(9):
        out = conc.run(**dict(req, jitter=1e-14, jseed=rng.randrange(1 << 30), limit=4))
        if out["discard"] or out["hang"]:
            continue
        tried += 1
        f = failures(out)
        if label in f:
            a, b, _ = f[label]
            if d0 is None or ((a - b) * d0 > 0 and 0.3 < abs((a - b) / d0) < 3):
                ok += 1
        elif any(k.startswith("exception") for k in f):
            ok += 1
        if tried - ok > 2:
            return True
    return False


def isolated(conc, req, rng):
    """where a scenario assumes roots and quotients to be defined, an arithmetic error counts only if
    it is there for all neighbouring inputs too"""
    if not conc.run(**req).get("partial"):
        return False
    tried = 0
    for k in range(12):
        vals = {}
        for n, v in req["values"].items():
            if type(v) is float:
                v = v * (1 + rng.uniform(-1, 1) * 1e-5) + (rng.uniform(-1, 1) * 1e-6 if v == 0 else 0)
            vals[n] = v
        out = conc.run(**dict(req, values=vals))
        if out["discard"]:
            continue
        tried += 1
        if not out["exc"]:
            return True
    return tried == 0


SPECIAL = [0.0, 1.0, -1.0, 0.5, 2.0]


def mutate(used, rng, k):
    """variants of an input: some components set to special values / duplicated / negated"""
    v = dict(used)
    names = [n for n in v if not n.startswith("uf:")]
    if not names:
        return v
    for n in rng.sample(names, min(len(names), 1 + k % 3)):
        r = rng.random()
        if r < 0.5:
            v[n] = rng.choice(SPECIAL)
        elif r < 0.75:
            v[n] = -v[n]
        else:
            v[n] = v[rng.choice(names)]
    return v


# ----------------------------------------------------------------------------- symbolic side
def explore(prop, name, tier, seed, limit):
    """the whole scenario; what that leaves undecided is decided again on slices of the input space"""
    t0 = time.time()
    res = explore_one(prop, name, tier, seed, limit)
    if res["violation"] or not (res["undecided"] or res["unsupported"] or (res["paths"] and not res["witnesses"])):
        return res
    names = res["input_names"]
    rng = random.Random(seed)
    sl = {"slices": 0, "obligations": 0, "discharged": 0, "undecided": []}
    tend = time.time() + min(60 if tier == "quick" else 400, max(5, limit - (time.time() - t0) - 10))
    for k in range(6 if tier == "quick" else 24):
        if time.time() > tend or not names:
            break
        free = set(rng.sample(names, min(len(names) - 1, 1 + k % 2) or 1))
        try:
            r = explore_one(prop, name, tier, seed, tend - time.time() + 5, (k, free))
        except Exception as ex:  # a slice the scenario cannot be cut into
            sl["undecided"].append(f"{type(ex).__name__}")
            continue
        if r["violation"]:
            r["input_names"] = names
            return r
        if r["witnesses"]:
            sl["slices"] += 1
            sl["obligations"] += r["obligations"]
            sl["discharged"] += r["discharged"]
        sl["undecided"] += r["undecided"]
        for a in ("queries", "unsat", "sat", "unknown", "solver_s", "normalised"):
            res["stats"][a] += r["stats"][a]
        res["replays"] += r["replays"]
        res["validated"] += r["validated"]
    sl["undecided"] = sorted(set(sl["undecided"]))[:10]
    res["slices"] = sl
    res["wall_s"] = round(time.time() - t0, 2)
    return res


_installed = []


def explore_one(prop, name, tier, seed, limit, pins=None):
    from . import core as C, search
    from . import loader
    from .engine import Engine
    from .harness import SymHarness
    from .poly import TooBig

    mod = importlib.import_module("props." + prop.lower())
    sc = mod.SCENARIOS.by_name[name]
    o = sc.opts
    sys.setrecursionlimit(20000)
    if not _installed:
        _installed.append(1)
        loader.install()
    t0 = time.time()
    eng = Engine(
        branch_ms=o.get("branch_ms", 1500),
        prove_ms=o.get("prove_ms", 10000 if tier == "quick" else 60000),
        max_depth=o.get("max_depth", 400),
        crosscheck=(tier == "thorough"),
    )
    budget = o.get("budget", 100) * (1 if tier == "quick" else 8)
    if pins is not None:
        budget = 10 if tier == "quick" else 30
        eng.prove_ms = min(eng.prove_ms, 4000)
    eng.deadline = t0 + min(budget, limit * 0.7)
    max_paths = o.get("max_paths", 400) * (1 if tier == "quick" else 4)
    rng = random.Random(seed)
    conc = Concrete()
    eng.work = [([], None)]
    res = {
        "scenario": name,
        "paths": 0,
        "cut": [],
        "infeasible": 0,
        "obligations": 0,
        "discharged": 0,
        "how": {},
        "undecided": [],
        "unreached": [],
        "violation": None,
        "unsupported": [],
        "validated": 0,
        "mismatch": [],
        "witnesses": 0,
        "functions": [],
        "exceptions": [],
        "sample": None,
        "input_names": [],
        "slices": None,
    }
    last = {}
    funcs = set()
    mon = sys.monitoring
    TOOL = 4
    try:
        mon.use_tool_id(TOOL, "symx")

        def on_start(code, off):
            fn = code.co_filename
            if fn.startswith(SRC):
                funcs.add(fn[len(SRC) + 1 :].replace("/", ".").removesuffix(".py") + ":" + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(TOOL, mon.events.PY_START, on_start)
        mon.set_events(TOOL, mon.events.PY_START)
    except Exception:
        pass

    unproved = {}
    ghosts = {}
    budget_val = o.get("validate", 6)

    def concrete_req(sample, sd=0):
        vals = {}
        for k, v in (sample or {}).items():
            if k.startswith("uf:"):
                vals[k] = v
                continue
            v = C.mp.re(v)
            vals[k] = float(v)
        for k, v in last.items():
            vals[k] = float(v)
        return dict(prop=prop, scenario=name, values=vals, seed=sd, tier=tier, limit=8)

    def try_candidate(req, labels, exact=None, strict=None):
        out = conc.run(**req)
        if out["discard"]:
            return False
        f = failures(out)
        agree = False
        if exact is not None:
            # the deviation computed in exact arithmetic, reproduced by the real code on the same input
            lab, (xa, xb) = exact
            dev = float(xa - xb)
            for l2, ok, a, b, lim in out["results"]:
                if l2 == lab and type(a) is float and type(b) is float and abs((a - b) - dev) < 0.05 * abs(dev):
                    agree = True
                if l2 == lab and ok and type(a) is float and type(b) is float:
                    big = max(abs(float(xa)), abs(float(xb)), abs(a), abs(b))
                    if abs(dev) > 1e-12 * big and abs((a - b) - dev) < 0.05 * abs(dev):
                        req = dict(req, limits={lab: abs(dev) / 2})
                        f = failures(conc.run(**req))
        if strict is not None and not f:
            # the solver's model has the two sides of a strict inequality equal (or worse): so has the real code?
            f = failures(conc.run(**dict(req, limits={strict: "strict"})))
            if set(f) == {strict}:
                full = dict(req, values=out["used"], limits={strict: "strict"})
                res["violation"] = dict(req=full, label=strict, detail=f[strict], failed=[strict])
                return True
            return False
        if not f and not req.get("limits") and tights[0] > 0:
            req = dict(req, values=out["used"], tight=True)
            f = failures(conc.run(**req))
            f = {k: v for k, v in f.items() if k in unproved or k in ghosts}
            tights[0] -= len(f)
        for lab, first in f.items():
            if labels is not None and lab not in labels and not (lab.startswith("exception") and any_exc) and not o.get("rounded"):
                continue
            full = dict(req, values=out["used"])
            if robust(conc, full, lab, first, rng, lab not in unproved and lab not in ghosts, agree and lab == exact[0] or o.get("rounded")):
                res["violation"] = dict(req=full, label=lab, detail=first, failed=sorted(f)[:12])
                return True
        return False

    any_exc = True
    tights = [40]
    searched = [8.0 if tier == "quick" else 120.0]
    in_path = [False]
    ncut = 0

    def on_alarm(*_):
        if in_path[0]:
            in_path[0] = False
            raise C.PathAbort("time")

    import signal

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, max(1.0, eng.deadline + 5 - time.time()), 3)
    while eng.work:
        if res["paths"] >= max_paths:
            res["cut"].append(f"path limit {max_paths}: {len(eng.work)} branches left")
            break
        if time.time() > eng.deadline:
            res["cut"].append(f"time limit: {len(eng.work)} branches left")
            break
        # a path that got a witness first, then the branches closest to the start (of a loop: the latest)
        k = max(range(len(eng.work)), key=lambda k: (len(eng.work[k]) > 2, 0 if o.get("loop") else -len(eng.work[k][0]), k))
        prefix, sample, *rs = eng.work.pop(k)
        eng.start(prefix, sample, seed, *rs)
        loader.fresh()
        h = SymHarness(eng, tier, pins)
        last = h.pinned
        exc = None
        cands = []
        try:
            try:
                in_path[0] = True
                sc.fn(h)
            finally:
                in_path[0] = False
                h.unstub()
        except C.PathAbort as a:
            if a.args and a.args[0] == "resample":
                continue
            if a.args and a.args[0] in ("depth", "time"):
                res["cut"].append(str(a.args[0]))
                # the encoding stops here: the input that got this far is run to its end on the real code
                if eng.sample_ok and ncut < 8:
                    ncut += 1
                    cands.append((None, eng._sample_from(None)))
            else:
                res["infeasible"] += 1
                continue
        except (C.Unsupported, TooBig) as ex:
            res["unsupported"].append(f"{type(ex).__name__}: {ex}")
            tb = traceback.extract_tb(ex.__traceback__)
            loc = [f"{os.path.basename(x.filename)}:{x.lineno}" for x in tb if "/symx/" not in x.filename][-2:]
            unproved.setdefault("unsupported", " ".join(loc) + f" {ex}")
            cands.append((None, eng._sample_from(None)))
        except Exception as ex:
            exc = ex
        res["paths"] += 1
        for n in eng.c.inputs:
            if n not in res["input_names"]:
                res["input_names"].append(n)
        if eng.sample_ok:
            res["witnesses"] += 1
        if exc is not None:
            lab = "exception:" + type(exc).__name__
            r, m = ("sat", None) if eng.sample_ok else eng.check(list(eng.pc), eng.prove_ms)
            res["obligations"] += 1
            if r == "unsat":
                res["discharged"] += 1
            else:
                tb = traceback.extract_tb(exc.__traceback__)
                where = [f"{os.path.basename(x.filename)}:{x.lineno}" for x in tb][-4:]
                if len(res["exceptions"]) < 6:
                    res["exceptions"].append(f"{lab} {exc} at {' < '.join(reversed(where))} [{r}]")
                # where the scenario assumes quotients, roots and logarithms to be defined, a path that ends in an
                # arithmetic error is outside it; inputs on it and around it are still replayed
                outside = eng.mute and isinstance(exc, (ZeroDivisionError, ValueError, OverflowError))
                reached = (eng.sample_ok or r == "sat") and not outside
                (unproved if reached else ghosts).setdefault(lab, str(exc))
                cands.append((lab, eng._sample_from(m)))
        if not h.confirm_identities():
            unproved.setdefault("identities", "solver did not confirm")
        for lab, verdict, samp, how, vals in h.obs:
            res["obligations"] += 1
            if verdict == "proved":
                res["discharged"] += 1
                res["how"][how] = res["how"].get(how, 0) + 1
            else:
                (unproved if eng.sample_ok else ghosts).setdefault(lab, verdict)
                cands.append((lab, samp, vals if how == "sample" else None))
        # replay candidates of this path straight away
        seen = 0
        for lab, samp, *ex in cands:
            seen += 1
            if seen > 12:
                break
            labels = set(unproved) | set(ghosts)
            if lab is None:
                labels = None
            strict = lab if lab in h.strict and "sat" in (unproved.get(lab), ghosts.get(lab)) else None
            if try_candidate(concrete_req(samp), labels, (lab, ex[0]) if ex and ex[0] else None, strict):
                break
        if res["violation"]:
            break
        # no witness for a path with something left to show, or a witness that shows it: look for inputs
        left = [o[0] for o in h.obs if o[1] != "proved"]
        outside = exc is not None and eng.mute and isinstance(exc, (ZeroDivisionError, ValueError, OverflowError))
        if pins is None and searched[0] > 0 and (left or (exc is not None and not outside)):
            ts = time.time()
            each = min(2.5 if tier == "quick" else 15, searched[0])
            if not eng.sample_ok:
                if not (rs and rs[0] >= 9):
                    for samp in search.find(eng, rng, seconds=each, want=1):
                        res["found"] = res.get("found", 0) + 1
                        res["paths"] -= 1  # the path is run again, with a witness
                        res["obligations"] -= len(h.obs) + (exc is not None)
                        res["discharged"] -= len(h.obs) - len(left)
                        eng.work.append((list(eng.trace), samp, 9))
            else:
                done = set()
                for lab in left:
                    goal = h.goals.get(lab)
                    if goal is None or lab in done or len(done) >= 3 or searched[0] - (time.time() - ts) <= 0:
                        continue
                    done.add(lab)
                    dev = goal[1:] if goal[0] == "dev" else None
                    extra = [goal[1]] if goal[0] == "form" else []
                    for samp in search.find(eng, rng, extra, dev, seconds=each):
                        res["found"] = res.get("found", 0) + 1
                        if try_candidate(concrete_req(samp), set(unproved) | set(ghosts)):
                            break
                    if res["violation"]:
                        break
            searched[0] -= time.time() - ts
        if res["violation"]:
            break
        # validation of the encoding on this path's witness
        if eng.sample_ok and budget_val > 0 and exc is None:
            budget_val -= 1
            samp = eng._sample_from(None)
            req = concrete_req(samp)
            out = conc.run(**req)
            if not out["discard"]:
                f = failures(out)
                if res["sample"] is None:
                    res["sample"] = {k: v for k, v in list(out["used"].items())[:12]}
                bad = False
                if not out["exc"] and not out["hang"]:
                    cv = {r[0]: r for r in out["results"]}
                    for lab, verdict, s_, how, vals in h.obs:
                        if vals is None or lab not in cv:
                            continue
                        _, ok, a, b, lim = cv[lab]
                        if not isinstance(a, (int, float)) or isinstance(a, bool):
                            continue
                        for x, y in ((vals[0], a), (vals[1], b)):
                            if abs(float(x) - y) > max(1e-6 * max(abs(y), abs(float(x))), 10 * lim, 1e-12):
                                bad = True
                                if len(res["mismatch"]) < 5:
                                    res["mismatch"].append([lab, float(x), y])
                    if not bad:
                        res["validated"] += 1
                for lab, first in f.items():
                    full = dict(req, values=out["used"])
                    if robust(conc, full, lab, first, rng, lab not in unproved and lab not in ghosts, o.get("rounded")):
                        res["violation"] = dict(req=full, label=lab, detail=first, failed=sorted(f)[:12])
                        break
        if res["violation"]:
            break
    signal.setitimer(signal.ITIMER_REAL, 0)
    if (unproved or ghosts or res["cut"]) and not res["violation"]:
        labels = None if "unsupported" in unproved or res["cut"] else set(unproved) | set(ghosts)
        base = None
        tries = o.get("tries", 60) * (1 if tier == "quick" else 10) if pins is None else 0
        pool = []
        tend = time.time() + min(40 if tier == "quick" else 300, max(5, limit - (time.time() - t0) - 10))
        for k in range(tries):
            if time.time() > tend:
                break
            if pool and k % 2:
                req = dict(
                    prop=prop, scenario=name, values=mutate(rng.choice(pool), rng, k), seed=seed * 1000 + k, tier=tier, limit=8
                )
            else:
                req = dict(prop=prop, scenario=name, values={}, seed=seed * 1000 + k, tier=tier, limit=8)
            out = conc.run(**req)
            if out["discard"]:
                continue
            if not (k % 2):
                pool.append(out["used"])
            f = failures(out)
            if not f and tights[0] > 0:
                req = dict(req, values=out["used"], tight=True)
                f = failures(conc.run(**req))
                f = {k: v for k, v in f.items() if k in unproved or k in ghosts}
                tights[0] -= len(f)
            for lab, first in f.items():
                if labels is not None and lab not in labels and not lab.startswith("exception"):
                    continue
                full = dict(req, values=out["used"])
                if robust(conc, full, lab, first, rng, lab not in unproved and lab not in ghosts, o.get("rounded")):
                    res["violation"] = dict(req=full, label=lab, detail=first, failed=sorted(f)[:12])
                    break
            if res["violation"]:
                break
        if not res["violation"]:
            res["undecided"] = sorted(f"{k}: {v}" for k, v in unproved.items())
            # no input is known to reach these paths (the solver neither found one nor excluded it)
            res["unreached"] = sorted(f"{k}: {v}" for k, v in ghosts.items())
    try:
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)
    except Exception:
        pass
    conc.close()
    res["functions"] = sorted(funcs)
    res["stats"] = eng.stats.as_dict()
    res["cross"] = eng.cross
    res["replays"] = conc.runs
    res["wall_s"] = round(time.time() - t0, 2)
    res["bounds"] = o.get("bounds", "") or sc.doc
    return res


def _child(q, args):
    try:
        q.send(explore(*args))
    except BaseException as ex:  # noqa
        q.send({"scenario": args[1], "error": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-3000:]})


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = importlib.import_module("props." + prop.lower())
    todo = [s for s in mod.SCENARIOS if tier == "thorough" or s.opts.get("tier", "quick") == "quick"]
    if a.only:
        todo = [s for s in todo if s.name in a.only.split(",")]
    todo.sort(key=lambda s: -s.opts.get("weight", 1))
    ctxm = mp_.get_context("fork")
    running, results = [], []
    limit = 240 if tier == "quick" else 2400
    queue = list(todo)
    stop = False
    while (queue and not stop) or running:
        while queue and len(running) < a.j and not stop:
            s = queue.pop(0)
            r, w = ctxm.Pipe(False)
            lim = s.opts.get("limit", limit)
            p = ctxm.Process(target=_child, args=(w, (prop, s.name, tier, seed, lim)), daemon=True)
            p.start()
            w.close()
            running.append((s, p, r, time.time(), lim))
        for item in list(running):
            s, p, r, ts, lim = item
            got = None
            if r.poll(0.02):
                try:
                    got = r.recv()
                except EOFError:
                    got = {"scenario": s.name, "error": "worker died"}
                p.join(2)
            elif not p.is_alive():
                got = {"scenario": s.name, "error": "worker died"}
            elif time.time() - ts > lim + 30:
                p.terminate()
                p.join(2)
                if p.is_alive():
                    p.kill()
                got = {"scenario": s.name, "error": "time limit"}
            if got is not None:
                results.append(got)
                running.remove(item)
                if a.v:
                    brief(got)
                if got.get("violation") and not is_known(prop, got):
                    stop = True
        if stop:
            for s, p, r, ts, lim in running:
                p.terminate()
            time.sleep(0.1)
            for s, p, r, ts, lim in running:
                if p.is_alive():
                    p.kill()
            running = []
            break
        time.sleep(0.01)
    code = report(prop, tier, seed, mod, results, len(todo), time.time() - t0)
    sys.exit(code)


def brief(g):
    if "error" in g:
        print(f"  {g['scenario']}: ERROR {g['error']}\n{g.get('tb', '')}")
        return
    print(
        f"  {g['scenario']}: paths={g['paths']} ob={g['discharged']}/{g['obligations']} {g['how']} "
        f"wit={g['witnesses']} val={g['validated']} q={g['stats']['queries']} ({g['stats']['unknown']} unk) "
        f"solver={g['stats']['solver_s']:.1f}s wall={g['wall_s']}s"
        + (f" CUT={g['cut'][:3]}" if g["cut"] else "")
        + (f" UNDEC={g['undecided'][:6]}" if g["undecided"] else "")
        + (f" UNREACHED={g['unreached'][:6]}" if g["unreached"] else "")
        + (f" UNSUP={g['unsupported'][:3]}" if g["unsupported"] else "")
        + (f" EXC={g['exceptions'][:3]}" if g["exceptions"] else "")
        + (f" MISMATCH={g['mismatch'][:3]}" if g["mismatch"] else "")
        + (f" VIOL={g['violation']['label']} {g['violation']['detail']}" if g["violation"] else ""),
        flush=True,
    )


def is_known(prop, g):
    v = g["violation"]
    for k in known_findings().get("findings", []):
        if k["property"] == prop and k["scenario"] == g["scenario"]:
            if any(v["label"] == x or v["label"].startswith(x) for x in k["labels"]):
                return k
    return None


def report(prop, tier, seed, mod, results, n, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    viol = None
    errors = []
    undec = []
    tot = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "normalised": 0}
    cross = {"checked": 0, "agree": 0, "unknown": 0}
    funcs = set()
    agg = {k: 0 for k in ("paths", "infeasible", "obligations", "discharged", "validated", "witnesses", "replays")}
    scs = []
    known = []
    for g in results:
        if "error" in g:
            errors.append(f"{g['scenario']}: {g['error']}")
            continue
        if g["violation"]:
            k = is_known(prop, g)
            if k:
                known.append(k)
            elif viol is None:
                viol = g
        if g["undecided"]:
            undec.append(f"{g['scenario']}: {'; '.join(g['undecided'][:4])}" + (f" (slices: {g['slices']})" if g["slices"] else ""))
        if g["obligations"] == 0 or (g["paths"] and not g["witnesses"]):
            errors.append(f"{g['scenario']}: vacuous (no obligation reached with a witness)")
        if g["mismatch"] and not g["validated"] and not g["violation"]:
            errors.append(f"{g['scenario']}: encoding disagrees with the code: {g['mismatch'][:2]}")
        for k in tot:
            tot[k] += g["stats"][k]
        for k in g["cross"]:
            cross[k] = cross.get(k, 0) + g["cross"][k]
        for k in agg:
            agg[k] += g[k]
        funcs |= set(g["functions"])
        scs.append(
            {
                "scenario": g["scenario"],
                "bounds": g["bounds"],
                "paths": g["paths"],
                "obligations": g["obligations"],
                "discharged": g["discharged"],
                "how": g["how"],
                "queries": g["stats"]["queries"],
                "solver_s": round(g["stats"]["solver_s"], 2),
                "cut": g["cut"],
                "decided_on_slices": g["slices"],
                "undecided": g["undecided"],
                "undecided_on_paths_without_witness": g["unreached"],
                "exceptions_considered": g["exceptions"],
                "encoding_vs_code_points_agreeing": g["validated"],
                "witness": g["sample"],
                "wall_s": g["wall_s"],
            }
        )
    code = 0
    if viol:
        path = os.path.join(HERE, "evidence", f"{prop}.violation.json")
        req = viol["violation"]["req"]
        rec = dict(req, failed_label=viol["violation"]["label"], detail=viol["violation"]["detail"],
                   how_to_replay="cd /verif && python3-vt -m symx.concrete " + path)
        json.dump(rec, open(path, "w"), indent=1)
        print(f"{prop}: {viol['scenario']}: assertion {viol['violation']['label']!r} fails: {viol['violation']['detail']}")
        print(f"  input: {req['values']}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif errors or undec:
        for e in errors + undec:
            print(f"{prop}: INCONCLUSIVE {e}")
        # what was decided held; exit 2 only if nothing was decided at all
        done = agg["discharged"] + sum(g["slices"]["discharged"] for g in results if g.get("slices"))
        code = 0 if done else 2
    seenk = set()
    for k in known:
        if k["id"] not in seenk:
            seenk.add(k["id"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "bounded symbolic execution of the current /repo source; every assertion decided by an SMT "
            "query (z3) or reduced to the trivial query 0 != 0 by exact normalisation over the solver's variables; "
            "counterexamples are replayed on the unpatched code",
            "functions_encoded": sorted(funcs),
            "scenarios": scs,
            "obligations": agg["obligations"],
            "discharged": agg["discharged"],
            "paths": agg["paths"],
            "infeasible_paths": agg["infeasible"],
            "paths_with_reachability_witness": agg["witnesses"],
            "solver_queries": tot["queries"],
            "solver_unsat": tot["unsat"],
            "solver_sat": tot["sat"],
            "solver_unknown": tot["unknown"],
            "solver_seconds": round(tot["solver_s"], 2),
            "discharged_by_normal_form": tot["normalised"],
            "second_solver": cross,
            "encoding_vs_code_points_agreeing": agg["validated"],
            "concrete_replays": agg["replays"],
            "inconclusive": errors + undec,
            "samples": [s["witness"] for s in scs if s["witness"]][:5],
        },
        "assumptions": COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(
        f"{prop} [{tier}] scenarios={len(results)}/{n} paths={agg['paths']} obligations={agg['discharged']}/"
        f"{agg['obligations']} queries={tot['queries']} unknown={tot['unknown']} solver={tot['solver_s']:.1f}s "
        f"wall={wall:.1f}s exit={code}"
    )
    return code


COMMON_ASSUMPTIONS = [
    "float arithmetic is modelled as exact real arithmetic (rounding only where a scenario says so)",
    "a float literal stands for the decimal it is written as; pi to 60 digits",
    "the transcendental functions of Python's math module satisfy their defining identities",
    "inputs range over the bounds stated per scenario; nothing is claimed outside them",
]

if __name__ == "__main__":
    main(sys.argv[1:])

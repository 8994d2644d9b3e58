"""Path exploration (depth first, by re-execution) and the solver queries."""
import os
import random
import time
from fractions import Fraction

import z3

from . import core as C
from . import poly as P
from .core import Ctx, PathAbort, Sym, SymBool, Unsupported, ZTrans, form_gens


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.normalised = 0

    def as_dict(self):
        return dict(self.__dict__)


def form_eval(f):
    """truth value at the sample point; None if too close to call"""
    if isinstance(f, bool):
        return f
    if f.kind == "rel":
        v = C.num_eval(f.b)
        if C.mp.im(v) != 0:
            return None
        v = C.mp.re(v)
        sc = C.num_scale(f.b)
        if abs(v) <= C.mp.mpf(10) ** -50 * sc:
            return {"<": False, "<=": True, "==": True, "!=": False}[f.a]
        if abs(v) <= C.mp.mpf(10) ** -22 * sc:
            return None
        return {"<": v < 0, "<=": v < 0, "==": False, "!=": True}[f.a]
    if f.kind == "not":
        r = form_eval(f.a)
        return None if r is None else not r
    rs = [form_eval(x) for x in f.a]
    if f.kind == "and":
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True
    if any(r is True for r in rs):
        return True
    return None if any(r is None for r in rs) else False


class Path:
    __slots__ = ("trace", "pc", "sample_ok", "obligations", "exc", "cut", "inputs", "events")


class Engine:
    def __init__(self, branch_ms=1500, prove_ms=8000, quick_ms=400, max_depth=400, crosscheck=False):
        self.branch_ms = branch_ms
        self.prove_ms = prove_ms
        self.quick_ms = quick_ms
        self.max_depth = max_depth
        self.concretise_floor = True
        self.mute = 0
        self.stats = Stats()
        self.crosscheck = crosscheck
        self.work = []
        self.deadline = None
        self.cross = {"checked": 0, "agree": 0, "unknown": 0}

    # ------------------------------------------------------------------ one path
    def start(self, prefix, sample, seed, resamples=0):
        c = Ctx(random.Random(seed + 7919 * resamples))
        self.resamples = resamples
        c.engine = self
        c.sample = dict(sample or {})
        c.inputs = {}
        Ctx.cur = c
        self.c = c
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.sample_ok = True
        self.mute = 0
        return c

    def _replay(self):
        i = len(self.trace)
        if i < len(self.prefix):
            e = self.prefix[i]
            self.trace.append(e)
            return e
        if len(self.trace) > self.max_depth:
            raise PathAbort("depth")
        if self.deadline and time.time() > self.deadline:
            raise PathAbort("time")
        return None

    def _push_pc(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathAbort("infeasible")
            return
        self.pc.append(f)
        self._tighten(f)
        if self.sample_ok and form_eval(f) is not True:
            self.sample_ok = False

    def _tighten(self, f):
        """a bound on a single generator goes straight into its interval"""
        if f.kind == "and":
            for x in f.a:
                if not isinstance(x, bool):
                    self._tighten(x)
            return
        if f.kind != "rel" or f.a not in ("<", "<=", "==") or len(f.b) > 2:
            return
        gs = P.gens(f.b)
        if len(gs) != 1:
            return
        gi = next(iter(gs))
        m = ((gi, 1),)
        k = f.b.get(m)
        if k is None or (len(f.b) == 2 and P.ONE not in f.b):
            return
        v = -Fraction(f.b.get(P.ONE, 0)) / Fraction(k)
        g = self.c.gens[gi]
        if f.a == "==" or k > 0:
            if g.hi is None or v < g.hi:
                g.hi, g.hi_open = v, f.a == "<"
        if f.a == "==" or k < 0:
            if g.lo is None or v > g.lo:
                g.lo, g.lo_open = v, f.a == "<"

    def assume(self, f):
        """a precondition of the scenario"""
        if f is True:
            return
        if f is False:
            raise PathAbort("infeasible")
        if self.sample_ok and self.resamples < 8 and form_eval(f) is not True:
            # look for a witness and start this path again from it
            r, m = self.check([f], self.branch_ms) if self.resamples == 0 else (None, None)
            if r == "unsat":
                raise PathAbort("infeasible")
            samp = self._sample_from(m) if m else None
            self.work.append((list(self.prefix), samp, self.resamples + 1))
            raise PathAbort("resample")
        self._push_pc(f)

    def resample(self):
        """the sample lies on a pole: take a neighbour of it"""
        if self.resamples >= 8:
            return
        rnd = self.c.rng.uniform
        samp = {}
        for k, v in self._sample_from(None).items():
            if k.startswith("uf:"):
                samp[k] = v
                continue
            v = C.mp.re(v)
            g = self.c.gens[self.c.inputs[k][1]]
            if self.c.inputs[k][0] == "int":
                samp[k] = v
                continue
            samp[k] = v * (1 + C.mp.mpf(rnd(-1, 1)) / 10**4) + (C.mp.mpf(rnd(-1, 1)) / 10**4 if v == 0 else 0)
            for b, bad in ((g.lo, lambda x, y: x < y), (g.hi, lambda x, y: x > y)):
                if b is not None and bad(samp[k], C.mp.mpf(b.numerator) / b.denominator):
                    samp[k] = v
        self.work.append((list(self.trace), samp, self.resamples + 1))
        raise PathAbort("resample")

    follow = False

    def decide(self, f, rare=False):
        if isinstance(f, bool):
            return f
        e = self._replay()
        if e is not None:
            _, val, forced = e
            if not forced:
                self._push_pc(f if val else C.Not(f))
            return val
        nf = C.Not(f)
        t = form_eval(f) if self.sample_ok else None
        if self.follow and t is not None:
            # an earlier use: one path of it is enough
            self.trace.append(("d", t, False))
            self._push_pc(f if t else nf)
            return t
        r_t = "sat" if t is True else None
        r_f = "sat" if t is False else None
        model_t = model_f = None
        if r_t is None:
            r_t, model_t = self.check([f], self.branch_ms)
        if r_t == "unsat":
            self.trace.append(("d", False, True))
            return False
        if r_f is None:
            r_f, model_f = self.check([nf], self.branch_ms)
        if r_f == "unsat":
            self.trace.append(("d", True, True))
            return True
        first = False if rare else (t if t is not None else True)
        other_model = model_f if first else model_t
        if not self.follow:
            self.work.append((self.trace + [("d", not first, False)], self._sample_from(other_model)))
        self.trace.append(("d", first, False))
        self._push_pc(f if first else nf)
        return first

    def decide_value(self, s):
        """concretise an integer-valued expression, one path per value"""
        lo, hi = C.sym_interval(s)
        if lo is None or hi is None or hi - lo > 400:
            k = self._recorded(lambda: int(C.mp.nint(C.mp.re(C.sym_eval(s)))))
            if self.decide(C.compare(s, k, "<=")):
                for k in range(k, k - 200, -1):
                    if not self.decide(C.compare(s, k - 1, "<=")):
                        return k
            else:
                for k in range(k + 1, k + 200):
                    if self.decide(C.compare(s, k, "<=")):
                        return k
            raise Unsupported("unbounded integer")
        e = self._replay()
        if e is not None:
            _, val, forced = e
            if not forced:
                self._push_pc(C.compare(s, val, "=="))
            else:
                pass
            return val
        import math

        lo, hi = math.ceil(lo), math.floor(hi)
        cands = list(range(lo, hi + 1))
        if self.sample_ok:
            v = C.sym_eval(s)
            k = int(C.mp.nint(C.mp.re(v)))
            if k in cands:
                cands.remove(k)
                cands.insert(0, k)
        feas = []
        for k in cands:
            f = C.compare(s, k, "==")
            if f is False:
                continue
            if f is True:
                feas = [(k, None)]
                break
            r, m = self.check([f], self.branch_ms)
            if r != "unsat":
                feas.append((k, m))
        if not feas:
            raise PathAbort("infeasible")
        for k, m in feas[1:] if not self.follow else ():
            self.work.append((self.trace + [("v", k, False)], self._sample_from(m)))
        k = feas[0][0]
        self.trace.append(("v", k, False))
        self._push_pc(C.compare(s, k, "=="))
        return k

    def domain(self, bad, exc):
        """the operation raises exc where `bad` holds"""
        if self.mute or bad is False:
            return
        if bad is True:
            raise exc
        if self.decide(bad, rare=True):
            raise exc

    def _recorded(self, fn):
        e = self._replay()
        if e is not None:
            return e[1]
        r = fn()
        self.trace.append(("q", r, True))
        return r

    def prove_quick(self, f):
        if isinstance(f, bool):
            return f
        return self._recorded(lambda: self._pq(f))

    def _pq(self, f):
        if self.sample_ok and form_eval(f) is False:
            return False
        return self.check([C.Not(f)], self.quick_ms)[0] == "unsat"

    def refined_sign(self, p):
        def fn():
            if self.sample_ok:
                t = form_eval(SymBool.rel("<", P.neg(p)))
                if t is False:
                    return "?"
            if self.check([SymBool.rel("<=", p)], self.quick_ms)[0] == "unsat":
                return "+"
            return "0+"

        return self._recorded(fn)

    # ------------------------------------------------------------------ solver
    def closure(self, gs):
        """generators a set depends on, through definitions and facts"""
        c = self.c
        gs = set(gs)
        todo = list(gs)
        while todo:
            g = c.gens[todo.pop()]
            new = set(g.deps)
            for f in g.cons:
                form_gens(f, new)
            for j in new:
                if j not in gs:
                    gs.add(j)
                    todo.append(j)
        return gs

    def cone(self, forms, wide=False):
        gs = set()
        for f in forms:
            form_gens(f, gs)
        gs = self.closure(gs)
        pcs = [(f, form_gens(f)) for f in self.pc]
        if wide:
            pcs = [(f, self.closure(fg)) for f, fg in pcs]
        used = [False] * len(pcs)
        grew = True
        while grew:
            grew = False
            for k, (f, fg) in enumerate(pcs):
                if not used[k] and fg & gs:
                    used[k] = True
                    gs |= self.closure(fg)
                    grew = True
        return gs, [f for k, (f, _) in enumerate(pcs) if used[k]]

    def bounds(self, i):
        g = self.c.gens[i]
        z = self.c.zreal(i)
        out = []
        if g.lo is not None:
            out.append(z > C.zq(g.lo) if g.lo_open else z >= C.zq(g.lo))
        if g.hi is not None:
            out.append(z < C.zq(g.hi) if g.hi_open else z <= C.zq(g.hi))
        return out

    def check(self, forms, ms, want_model=True):
        """satisfiability of forms together with the path condition's cone"""
        for f in forms:
            if f is False:
                return "unsat", None
        forms = [f for f in forms if f is not True]
        if not forms:
            return "sat", None
        t0 = time.time()
        self.stats.queries += 1
        res, model = "unknown", None
        gs, pcs = self.cone(forms)
        gw, pw = self.cone(forms, True)
        stages = [(gs, pcs)] if len(pcs) == len(pw) else [(gs, pcs), (gw, pw)]
        for n, (g, p) in enumerate(stages):
            res, model = self._solve(forms, g, p, ms if n == len(stages) - 1 else max(200, ms // 3), want_model)
            if res == "unsat":
                break
        self.stats.solver_s += time.time() - t0
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        return res, model

    def _solve(self, forms, gs, pcs, ms, want_model):
        allf = list(forms) + pcs
        cons = []
        size = 0
        for i in sorted(gs):
            cons.extend(self.c.gens[i].cons)
        isint = any(self.c.gens[i].kind == "int" for i in gs)
        res, model = "unknown", None
        try:
            # 1. linear abstraction
            tr = ZTrans(abstract=True)
            s = z3.Solver()
            s.set("timeout", max(200, min(2000, ms)))
            for f in allf + cons:
                if _size(f) < 4000:
                    s.add(tr.form(f))
            for i in gs:
                s.add(*self.bounds(i))
            s.add(*tr.side)
            if str(s.check()) == "unsat":
                if self.crosscheck:
                    self._cross(s)
                return "unsat", None
            # 2. full nonlinear arithmetic
            tr = ZTrans()
            s = z3.Solver() if isint else z3.SolverFor("QF_NRA")
            s.set("timeout", ms)
            for f in allf + cons:
                size += _size(f)
            if size < 6000:
                for f in allf + cons:
                    s.add(tr.form(f))
                for i in gs:
                    s.add(*self.bounds(i))
                res = str(s.check())
                if res == "sat" and want_model:
                    model = self._model(s.model(), gs)
                if res == "unsat" and self.crosscheck:
                    self._cross(s)
        except z3.Z3Exception:
            res = "unknown"
        return res, model

    def _cross(self, s):
        """second opinion from cvc5 on an unsat answer"""
        try:
            import subprocess

            txt = "(set-logic ALL)\n" + s.to_smt2()
            r = subprocess.run(
                ["cvc5", "--tlimit=4000", "--nl-cov", "-"], input=txt, capture_output=True, text=True, timeout=20
            )
            out = r.stdout.split()
            self.cross["checked"] += 1
            if out and out[0] == "unsat":
                self.cross["agree"] += 1
            elif out and out[0] == "sat":
                self.cross.setdefault("disagree", 0)
                self.cross["disagree"] += 1
            else:
                self.cross["unknown"] += 1
        except Exception:
            self.cross["unknown"] += 1

    def _model(self, m, gs):
        out = {}
        for i in gs:
            g = self.c.gens[i]
            v = m.eval(g.z, model_completion=False)
            out[i] = zval(v)
        return out

    def _sample_from(self, model):
        """input values for a sample point agreeing with the model"""
        base = {n: v for n, v in self.c.inputs.items()}
        samp = {}
        for n, (kind, gi) in base.items():
            g = self.c.gens[gi]
            samp[n] = g.val
        for n, v in self.c.sample.items():
            if n.startswith("uf:"):
                samp[n] = v
        if not model:
            return samp
        for n, (kind, gi) in base.items():
            g = self.c.gens[gi]
            v = model.get(gi)
            if kind == "angle" and g.trig is not None:
                try:
                    ci = next(iter(P.gens(g.trig[0].num)))
                    si = next(iter(P.gens(g.trig[1].num)))
                    cv, sv = model.get(ci), model.get(si)
                    if cv is not None and sv is not None:
                        a = C.mp.atan2(sv, cv)
                        lo = g.lo if g.lo is not None else -C.PI
                        twopi = 2 * C.mp.pi
                        lof = C.mp.mpf(lo.numerator) / lo.denominator
                        while a < lof - C.mp.mpf(10) ** -20:
                            a += twopi
                        if v is not None and g.hi is not None:
                            while a + twopi <= v + 1:
                                a += twopi
                        v = a
                except StopIteration:
                    pass
            if v is not None:
                samp[n] = v
        if any(model.get(g.i) is not None for g in self.c.ufs.values()):
            try:
                samp.update(self._tables(samp, model))
            except (OverflowError, ZeroDivisionError, ValueError, TypeError):
                pass
        return samp

    def _tables(self, samp, model):
        """the model's values of uninterpreted functions, at the arguments they have in the sample"""
        import numpy as np

        from .search import Eval

        ev = Eval(self.c)
        v = [None] * len(self.c.gens)
        for i in ev.free:
            x = samp.get(ev.names[i][0]) if i in ev.names else model.get(i)
            v[i] = np.float64(float(C.mp.re(x if x is not None else self.c.gens[i].val)))
        with np.errstate(all="ignore"):
            ev.fill(v)
            out = {}
            for g in self.c.ufs.values():
                args = [float(ev.sym(Sym.of(a), v)) for a in g.meta]
                if any(a != a for a in args):
                    continue
                out.setdefault("uf:" + g.name, []).append([args, float(v[g.i])])
        return out


def _size(f):
    if isinstance(f, bool):
        return 1
    if f.kind == "rel":
        return sum(1 + sum(e for _, e in m) for m in f.b)
    if f.kind == "not":
        return _size(f.a)
    return sum(_size(x) for x in f.a)


def zval(v):
    try:
        if z3.is_int_value(v):
            return C.mp.mpf(v.as_long())
        if z3.is_rational_value(v):
            return C.mp.mpf(v.numerator_as_long()) / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            r = v.approx(40)
            return C.mp.mpf(r.numerator_as_long()) / r.denominator_as_long()
    except Exception:
        pass
    return None

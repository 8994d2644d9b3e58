"""Inputs for a path the solver left without a witness.

The path condition (and the negation of an assertion) is evaluated in floats on
whole populations of inputs; what satisfies it is handed back to the engine as
the path's sample, or replayed on the real code.  Nothing is decided here: a
path without a witness stays undecided, a candidate counts only once replayed.
"""
import time

import numpy as np

from . import core as C
from . import poly as P


class Eval:
    """the current path's generators, as functions of its inputs"""

    def __init__(self, c):
        self.c = c
        self.free = []
        names = {gi: (n, k) for n, (k, gi) in c.inputs.items()}
        for g in c.gens:
            if g.calc is None:
                self.free.append(g.i)
        self.names = names
        self.spheres = [g.meta for g in c.gens if isinstance(g.meta, tuple) and g.meta and g.meta[0] == "sphere"]
        self.norms = [g for g in c.gens if g.name.endswith(".norm") and g.calc]
        self.memo = {}

    def poly(self, p, v, scale=False):
        t = 0.0
        s = 0.0
        for m, k in p.items():
            x = float(k)
            for g, e in m:
                x = x * (v[g] if e == 1 else v[g] ** e)
            t = t + x
            if scale:
                s = s + np.abs(x)
        return (t, s) if scale else t

    def sym(self, s, v):
        r = self.poly(s.num, v)
        for f, e in s.den:
            r = r / self.poly(C.factor_poly(f), v) ** e
        return r

    def fill(self, v, upto=None):
        """all derived generators"""
        for _, x, y, z, r in self.spheres:
            n = np.sqrt(v[x] ** 2 + v[y] ** 2 + v[z] ** 2)
            for i in (x, y, z):
                v[i] = v[i] * (r / n)
        for g in self.c.gens:
            k = g.calc
            if k is None:
                continue
            op = k[0]
            if op == "value":
                r = self.sym(k[1], v)
            elif op == "atan2":
                r = np.arctan2(self.sym(k[1], v), self.sym(k[2], v))
            elif op == "slope":
                b = self.sym(k[1], v)
                r = ((np.cos, np.sin)[k[4]](b) - self.sym(k[2], v)) / self.sym(k[3], v)
            else:
                r = OPS[op](self.sym(k[1], v))
            v[g.i] = r
        return v

    def bad(self, f, v, neg=False):
        """how far the form is from holding (0: holds)"""
        if isinstance(f, bool):
            return 0.0 if f != neg else 10.0
        if f.kind == "not":
            return self.bad(f.a, v, not neg)
        if f.kind in ("and", "or"):
            rs = [self.bad(x, v, neg) for x in f.a]
            if (f.kind == "and") != neg:
                return sum(rs)
            r = rs[0]
            for x in rs[1:]:
                r = np.minimum(r, x)
            return r
        t, s = self.poly(f.b, v, True)
        op = f.a
        if neg:
            op, t = {"<": ("<=", -t), "<=": ("<", -t), "==": ("!=", t), "!=": ("==", t)}[op]
        d = t / (s + 1e-300)
        if op in ("<", "<="):
            return np.where(d < -1e-9, 0.0, 0.01 + np.minimum(np.abs(d) ** 0.5, 1))
        if op == "==":
            return np.where(np.abs(d) < 1e-13, 0.0, 0.01 + np.minimum(np.abs(d) ** 0.25, 1))
        return np.where(np.abs(d) > 1e-9, 0.0, 0.01)


OPS = {"sqrt": np.sqrt, "cbrt": np.cbrt, "exp": np.exp, "log": np.log, "floor": np.floor, "cos": np.cos, "sin": np.sin,
       "asin": np.arcsin, "acos": np.arccos}


def find(eng, rng, extra=(), dev=None, seconds=2.5, want=2):
    """samples satisfying the path condition, extra forms, and (dev) a deviation |a - b| above a limit"""
    c = eng.c
    ev = Eval(c)
    free = ev.free
    if not free or sum(len(f.b) if getattr(f, "kind", "") == "rel" else 5 for f in eng.pc) > 20000:
        return []
    lo, hi, cur = [], [], []
    for i in free:
        g = c.gens[i]
        l = float(g.lo) if g.lo is not None else -2.0
        h = float(g.hi) if g.hi is not None else 2.0
        lo.append(l)
        hi.append(max(l, h))
        x = float(C.mp.re(g.val)) if g.val is not None else 0.0
        cur.append(min(max(x, l), max(l, h)))
    lo, hi, cur = np.array(lo), np.array(hi), np.array(cur)
    ints = np.array([c.gens[i].kind == "int" for i in free])
    R = np.random.default_rng(rng.randrange(1 << 30))
    nf = len(free)
    forms = [f for f in eng.pc if not isinstance(f, bool)] + list(extra)

    def score(X):
        v = [None] * len(c.gens)
        for k, i in enumerate(free):
            v[i] = X[:, k]
        with np.errstate(all="ignore"):
            ev.fill(v)
            t = np.zeros(len(X))
            for f in forms:
                t = t + np.nan_to_num(ev.bad(f, v), nan=5.0)
            for g in ev.norms:
                for b, sg in ((g.lo, 1), (g.hi, -1)):
                    if b is not None:
                        d = (float(b) - v[g.i]) * sg / (abs(float(b)) + 1)
                        t = t + np.where(d <= 0, 0.0, 0.01 + np.minimum(np.abs(d), 1))
            if dev is not None:
                a, b, lim = dev
                x, y = ev.sym(a, v), ev.sym(b, v)
                r = np.abs(x - y) / lim(np.abs(x), np.abs(y))
                r = np.nan_to_num(r, nan=0.0)
                t = t + np.where(r > 2, 0.0, 0.01 + np.minimum(np.log10(2 / np.maximum(r, 1e-30)) / 30, 1))
        return t

    def clip(X):
        X = np.clip(X, lo, hi)
        X[:, ints] = np.rint(X[:, ints])
        return X

    def spread(n):
        X = lo + (hi - lo) * R.random((n, nf))
        k = 10 ** R.uniform(-8, 0, (n, nf))
        sel = R.random((n, nf))
        X = np.where(sel < 0.1, lo + (hi - lo) * k, X)
        X = np.where((sel >= 0.1) & (sel < 0.2), hi - (hi - lo) * k, X)
        z = (lo < 0) & (hi > 0)
        X = np.where(z & (sel >= 0.2) & (sel < 0.35), X * k, X)
        return X

    t0 = time.time()
    N = 400
    try:
        X = clip(np.vstack([spread(N), np.where(R.random((N // 2, nf)) < 0.7, cur, spread(N // 2)), cur[None, :]]))
        S = score(X)
        out = []
        while time.time() - t0 < seconds:
            o = np.argsort(S, kind="stable")[:60]
            X, S = X[o], S[o]
            good = X[S == 0]
            if len(good):
                out = list(good[:want])
                break
            p = X[R.integers(0, len(X), N)]
            a, b = X[R.integers(0, len(X), N)], X[R.integers(0, len(X), N)]
            step = (10 ** R.uniform(-7, 0, (N, 1))) * R.standard_normal((N, nf)) * np.where(R.random((N, nf)) < 0.5, hi - lo, np.abs(p))
            mask = R.random((N, nf)) < R.choice([1.5 / nf, 0.3, 1.0], (N, 1))
            Y = np.where(mask, p + step, p)
            de = R.random(N) < 0.35
            Y[de] = np.where(R.random((N, nf)) < 0.6, p + 0.7 * (a - b), p)[de]
            fresh = R.random(N) < 0.1
            Y[fresh] = np.where(R.random((N, nf)) < 0.5, p, spread(N))[fresh]
            Y = clip(Y)
            T = score(Y)
            X, S = np.vstack([X, Y]), np.concatenate([S, T])
    except (OverflowError, MemoryError, ValueError, ZeroDivisionError, TypeError):
        return []
    return [sample(ev, free, x) for x in out]


def sample(ev, free, x):
    c = ev.c
    v = [None] * len(c.gens)
    for k, i in enumerate(free):
        v[i] = np.float64(x[k])
    with np.errstate(all="ignore"):
        ev.fill(v)
    samp = {}
    for i in free:
        if i in ev.names:
            samp[ev.names[i][0]] = C.mp.mpf(float(v[i]))
    for key, g in c.ufs.items():
        args = [float(ev.sym(C.Sym.of(a), v)) for a in g.meta]
        samp.setdefault("uf:" + g.name, []).append([args, float(v[g.i])])
    return samp


def nearest(table, args):
    best = None
    for xs, y in table:
        d = sum(abs(a - b) / (1 + abs(a)) for a, b in zip(xs, args))
        if best is None or d < best[0]:
            best = (d, y)
    return best[1]

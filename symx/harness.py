"""One scenario function, two interpreters.

A scenario is a Python function scenario(h).  With SymHarness its inputs are
symbolic and every h.eq / h.true / h.le becomes a solver obligation; with
ConcHarness (in a separate, unpatched process) the same function runs on plain
floats against the real modules: that is how counterexamples are replayed.
"""
import hashlib
import math
import random
from fractions import Fraction

from . import loader


class Discard(BaseException):
    """the concrete input violates an assumption of the scenario"""


def _nearest(table, args):
    """a function given by a few of its values"""
    return min(table, key=lambda e: sum(abs(a - b) / (1 + abs(a)) for a, b in zip(e[0], args)))[1]


def _lim(tol, scale, ctol):
    """the deviation the concrete run tolerates, as a function of the two magnitudes"""

    def lim(a, b):
        s = float(scale) if scale is not None else 1.0
        m = s if scale is not None else a * 0 + 1.0
        if scale is None:
            import numpy as np

            m = np.maximum(1.0, np.maximum(a, b))
        return float(ctol) if ctol is not None else m * 1e-7 + 10 * float(tol)

    return lim


#: classes whose objects are used again, with other values, after an earlier use (see Kept)
KEPT = ("Vector3D Vector6D Matrix3D Matrix3by6 Matrix6by3 Matrix6D Epoch SphericalPosition LLA ITRF HCW GCRF IJK ClassicalElements "
        "RK4 Hill Camera OpticalConstraints GroundSite Spacecraft SpaceObservation GroundObservation").split()

#: attributes a spacecraft only has after it was told to do something
LATER = ("slew_stop", "tracked_target", "filter")


def ours(x):
    return type(x).__module__.startswith("openspace") and not isinstance(x, type)


def become(old, new, seen=None):
    """give an object the values of a newly built one by assignment, in place all the way down; whatever else
    it has (something remembered from its earlier use) stays"""
    seen = {} if seen is None else seen
    seen[id(old)] = (old, new)
    names = list(getattr(new, "__dict__", ()))
    for c in type(new).__mro__:
        sl = c.__dict__.get("__slots__", ())
        names += [n for n in ([sl] if isinstance(sl, str) else sl) if hasattr(new, n)]
        names += [n for n, p in c.__dict__.items() if isinstance(p, property) and p.fset]
    for n in LATER:
        if n not in names and n in getattr(old, "__dict__", ()):
            delattr(old, n)
    for n in sorted(dict.fromkeys(names), key=lambda n: not n.startswith("_")):
        v = getattr(new, n)
        o = getattr(old, n, None)
        if o is not v and id(o) not in seen and ours(v) and type(o) is type(v) and (hasattr(v, "__dict__") or hasattr(v, "__slots__")):
            become(o, v, seen)
        else:
            setattr(old, n, v)


class Kept:
    """a class of the code under test whose instances outlive the earlier use of a history scenario: the main
    run gets them back with the values it asks for"""

    def __init__(self, cls, pool, again):
        self.__dict__.update(_cls=cls, _pool=pool, _again=again)

    def _keep(self, new):
        if type(new) is not self._cls:
            return new
        if not self._again:
            self._pool.append(new)
            return new
        while self._pool:
            old = self._pool.pop(0)
            if type(old) is not type(new):
                continue
            try:
                become(old, new)
            except (AttributeError, TypeError):  # values that cannot be changed
                return new
            return old
        return new

    def __call__(self, *a, **k):
        return self._keep(self._cls(*a, **k))

    def __getattr__(self, n):
        v = getattr(self._cls, n)
        if getattr(v, "__self__", None) is self._cls:
            return lambda *a, **k: self._keep(v(*a, **k))
        return v

    def __setattr__(self, n, v):
        setattr(self._cls, n, v)

    def __instancecheck__(self, x):
        return isinstance(x, self._cls)


class Common:
    pools = None
    symbolic = False
    calls = None
    pre = ""  # prefix of input names: what happened before has inputs of its own
    silent = False  # nothing is asserted about what happened before

    def before(self, fn, keep=True):
        """run a scenario on inputs of its own, asserting nothing: an arbitrary earlier use of the same code, and
        (keep) of the same objects"""
        self.pre, self.silent = "earlier ", True
        self.pools = {n: [] for n in KEPT} if keep else None
        self.history(True)
        try:
            fn(self)
        except Exception:
            self.failed_before()
        finally:
            self.pre, self.silent = "", False
            self.history(False)
            self.unstub()

    def __getattr__(self, n):
        if n in loader.WHERE:
            v = loader.get(n)
            if self.pools and n in self.pools and isinstance(v, type):
                return Kept(v, self.pools[n], not self.silent)
            return v
        raise AttributeError(n)

    def eqv(self, label, a, b, **k):
        """vector equality, component by component"""
        for n in ("x", "y", "z", "vx", "vy", "vz"):
            if hasattr(b, n):
                self.eq(f"{label}.{n}", getattr(a, n), getattr(b, n), **k)

    def eqm(self, label, a, b, **k):
        for n in ("row1", "row2", "row3", "row4", "row5", "row6"):
            if hasattr(b, n):
                self.eqv(f"{label}.{n}", getattr(a, n), getattr(b, n), **k)

    def eql(self, label, xs, ys, **k):
        xs, ys = list(xs), list(ys)
        self.true(label + ".len", len(xs) == len(ys))
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.eq(f"{label}[{i}]", x, y, **k)

    def lst(self, v):
        return [getattr(v, n) for n in ("x", "y", "z", "vx", "vy", "vz") if hasattr(v, n)]

    def mat(self, m):
        return [self.lst(getattr(m, n)) for n in ("row1", "row2", "row3", "row4", "row5", "row6") if hasattr(m, n)]

    def V(self, x, y, z):
        return self.Vector3D(x, y, z)

    def flag(self, name):
        """a truth value that is only decided where the code asks for it"""
        return self.real(name, 0, 1) > self.q(1, 2)

    def laden(self, state, tag=""):
        """the state with whatever settings the scenario does not depend on"""
        state.thrust = self.free(tag + "any thrust", -1, 1)
        state.srp_scalar = self.real(tag + "any coefficient", 0, 100)
        state.use_perturbations = self.flag(tag + "any perturbations")
        return state

    def flown(self, state, tag="", own=()):
        """a spacecraft in that state which was created elsewhere and earlier, with whatever properties (but for
        those in own) the scenario does not depend on"""
        sc = self.Spacecraft(self.GCRF(self.Epoch(state.epoch.value - 3), self.V(7000, 100, 50), self.V(1, 7, 2)))
        sc.propagator.state = state.copy()
        for n, lo, hi in (("albedo", 0.01, 1), ("body_radius", 0.0001, 1), ("dry_mass", 1, 10000), ("propellant_mass", 1, 10000),
                          ("m_dot", 0.0001, 10), ("isp", 10, 5000), ("slew_scalar", 0.00001, 0.01), ("pointing_accuracy", 0, 0.1)):
            if n not in own:
                setattr(sc, n, self.real(tag + "any " + n, lo, hi))
        if "step_size" not in own:
            sc.propagator.step_size = self.real(tag + "any step size", 1, 300)
        sc.propagator.state.use_perturbations = self.flag(tag + "any perturbations")
        sc.update_attitude()
        return sc

    def fact(self, label, c):
        """an assertion without numbers (which object, how many calls): no rounding error can break it"""
        if not c and not self.symbolic and not self.silent:
            self.results.append((self.label(label), False, False, True, -1))
        else:
            self.true(label, bool(c))

    def label(self, s):
        n = self._labels.get(s, 0)
        self._labels[s] = n + 1
        return s if n == 0 else f"{s}#{n}"

    def mod(self, name):
        import importlib

        return importlib.import_module(name)

    def stub(self, owner, name, fn, needed=False):
        """replace owner.name for the rest of this run (both interpreters); needed: what the scenario
        asserts is about code that calls it (a run that never does says nothing)"""
        if isinstance(owner, Kept):
            owner = owner._cls
        old = owner.__dict__.get(name)
        if callable(fn) and not isinstance(fn, type):
            import inspect

            raw = getattr(old, "__func__", old)
            inner, key = fn, f"{owner.__name__}.{name}"
            if needed:
                self.calls.setdefault(key, 0)

            def fn(*a, **kw):
                if needed:
                    self.calls[key] += 1
                if kw:
                    b = inspect.signature(raw).bind(*a, **kw)
                    a, kw = b.args, b.kwargs
                return inner(*a, **kw)

        if isinstance(owner, type) and isinstance(old, staticmethod):
            fn = staticmethod(fn)
        elif isinstance(owner, type) and isinstance(old, classmethod):
            fn = classmethod(fn)
        self._stubs.append((owner, name, old, name in owner.__dict__))
        setattr(owner, name, fn)

    def _random(self, fns):
        """replace functions of the random module (before the code under test is imported)"""
        import random as rnd

        loader.fresh()
        for k, f in fns.items():
            self._stubs.append((rnd, k, getattr(rnd, k), True))
            setattr(rnd, k, f)

    def cauchy_schwarz(self, label, a, b):
        """|a.b| <= |a||b|, from Lagrange's identity (checked), for later use by the solver"""
        m = a.magnitude() * b.magnitude()
        d = a.dot(b)
        c = a.cross(b)
        self.eq(label + " (Lagrange identity)", m * m - d * d, c.dot(c), scale=1e30)
        self.lemma(self.And(d <= m, -m <= d))

    def unstub(self):
        for o, n, v, had in reversed(self._stubs):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)
        self._stubs = []


def _h(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:12], 16) / 16**12


# ----------------------------------------------------------------------------- concrete
class ConcHarness(Common):
    def __init__(self, values=None, seed=0, tier="quick"):
        self.values = dict(values or {})
        self.limits = {}
        self.rng = random.Random(seed)
        self.used = {}
        self.results = []
        self._labels = {}
        self._stubs = []
        self.calls = {}
        self.tier = tier
        self.thorough = tier == "thorough"
        self.m = math
        self.wrap = float

    tight = False  # hardly any rounding error allowed for: what fails is then tested for being rounding error

    def history(self, on):
        pass

    def failed_before(self):
        raise Discard()

    def _pick(self, name, gen):
        v = self.values.get(name)
        if v is None:
            v = self.values[name] = gen()  # the same name means the same input
        self.used[name] = v
        return v

    def real(self, name, lo=-10, hi=10, lo_open=False, hi_open=False):
        lo, hi = float(lo), float(hi)

        def gen():
            v = self.rng.uniform(lo, hi)
            if self.rng.random() < 0.3:  # close to a limit, or of another magnitude
                k = 10 ** self.rng.uniform(-7, 0)
                ends = [lo + (hi - lo) * k / 2, hi - (hi - lo) * k / 2]
                if lo < 0 < hi:
                    ends += [v * k] * 3
                v = self.rng.choice(ends)
            return v

        v = float(self._pick(self.pre + name, gen))
        return self.wrap(min(max(v, lo), hi))

    def angle(self, name, lo=0, hi=2 * math.pi, lo_open=False, hi_open=False):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        v = int(round(self._pick(self.pre + name, lambda: self.rng.randint(int(lo), int(hi)))))
        return min(max(v, int(lo)), int(hi))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def vec(self, name, rmin=0.1, rmax=10.0):
        rmin, rmax = float(rmin), float(rmax)
        name = self.pre + name
        if any(name + k not in self.values for k in ".x .y .z".split()):
            while True:
                u = [self.rng.gauss(0, 1) for _ in range(3)]
                n = math.sqrt(sum(t * t for t in u))
                if n > 1e-3:
                    break
            r = self.rng.uniform(rmin, rmax)
            gen = [t / n * r for t in u]
        else:
            gen = [0, 0, 0]
        c = [float(self._pick(f"{name}{k}", lambda i=i: gen[i])) for i, k in enumerate((".x", ".y", ".z"))]
        n = math.sqrt(sum(t * t for t in c))
        if n < rmin * (1 - 1e-9) or n > rmax * (1 + 1e-9):
            raise Discard()
        return self.Vector3D(*[self.wrap(x) for x in c])

    def direction(self, name):
        v = self.vec(name, 1, 1)
        return v

    def free(self, name, lo=-10, hi=10):
        return self.Vector3D(*[self.real(f"{name}.{k}", lo, hi) for k in "xyz"])

    def ufunc(self, name, *args, lo=None, hi=None):
        t = 6.0 * _h(name)
        for i, a in enumerate(args):
            t += (0.4 + _h(f"{name}{i}")) * math.asinh(float(a))
        v = math.sin(t)
        tbl = self.values.get("uf:" + name)
        if tbl:
            self.used["uf:" + name] = tbl
            return _nearest(tbl, [float(a) for a in args])
        if lo is not None and hi is not None:
            return float(lo) + (float(hi) - float(lo)) * (v + 1) / 2
        return v

    def assume(self, c):
        if not c:
            raise Discard()

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or b

    def eq(self, label, a, b, tol=0, scale=None, ctol=None, angle=False):
        if self.silent:
            return
        label = self.label(label)
        if isinstance(a, (bool, str, type(None))) or isinstance(b, (bool, str, type(None))):
            self.results.append((label, bool(a == b), repr(a), repr(b), 0))
            return
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            self.results.append((label, False, repr(a), repr(b), 0))
            return
        s = float(scale) if scale is not None else max(1.0, abs(fa), abs(fb))
        lim = float(ctol) if ctol is not None else max(10 * float(tol), 1e-7 * s)
        if self.tight and ctol is None and not tol:
            lim = min(lim, 1e-9 * max(abs(fa), abs(fb)))
        lim = self.limits.get(label, lim)
        d = abs(fa - fb)
        if angle:
            d = abs((fa - fb + math.pi) % (2 * math.pi) - math.pi)
        self.results.append((label, d <= lim, fa, fb, lim))

    def true(self, label, c):
        if self.silent:
            return
        label = self.label(label)
        self.results.append((label, bool(c), bool(c), True, 0))

    def le(self, label, a, b, slack=0, scale=None):
        if self.silent:
            return
        label = self.label(label)
        fa, fb = float(a), float(b)
        s = float(scale) if scale is not None else max(1.0, abs(fa), abs(fb))
        self.results.append((label, fa <= fb + max(1e-9 * s, float(slack)), fa, fb, 1e-9 * s))

    def lt(self, label, a, b, scale=None):
        if self.silent:
            return
        name = self.label(label)
        fa, fb = float(a), float(b)
        s = float(scale) if scale is not None else max(1.0, abs(fa), abs(fb))
        if self.limits.get(name) == "strict":  # the solver claims equality or worse at exactly this input
            self.results.append((name, fa < fb, fa, fb, 0))
        else:
            self.results.append((name, fa <= fb + 1e-9 * s, fa, fb, 1e-9 * s))

    def boundary(self, label, c):
        """a fact at exactly a limit: in floats it counts only where the solver refutes it in exact arithmetic"""
        if self.silent:
            return
        label = self.label(label)
        ok = bool(c) or self.limits.get(label) != "strict"
        self.results.append((label, ok, bool(c), True, 0))

    def lemma(self, c):
        pass

    def nonneg(self, x):
        pass

    def rounding(self, eps):
        pass

    def iterative(self):
        pass

    def split_angles(self):
        pass

    def deriv(self, fn, x, step=None):
        """d fn / dx at x (central difference, Richardson)"""
        s = float(step) if step is not None else max(1e-3, abs(x) * 1e-4)
        d1 = (fn(x + s) - fn(x - s)) / (2 * s)
        d2 = (fn(x + s / 2) - fn(x - s / 2)) / s
        return (4 * d2 - d1) / 3

    def no_domain_errors(self):
        self.partial = True

    def slopes(self):
        pass

    def patch_random(self, **fns):
        self._random(fns)

    @property
    def pi(self):
        return math.pi

    def sqrt(self, x):
        return math.sqrt(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def q(self, a, b=1):
        return a / b

    def floor(self, x):
        return math.floor(x)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def dec(self, s):
        return float(s)


# ----------------------------------------------------------------------------- symbolic
class SymHarness(Common):
    symbolic = True

    def __init__(self, engine, tier="quick", pins=None):
        from . import core as C

        self.pins = pins  # (seed, names left free): every other input gets a fixed rational value
        self.pinned = {}

        self.C = C
        self.e = engine
        self.tier = tier
        self.thorough = tier == "thorough"
        self.obs = []
        self.strict = set()
        self.goals = {}
        self.calls = {}
        self._labels = {}
        self._stubs = []
        self.m = math
        self.idents = []

    def history(self, on):
        self.e.follow = on

    def failed_before(self):
        raise self.C.PathAbort("infeasible")

    # ---- inputs
    def _val(self, name, gen):
        c = self.C.ctx()
        v = c.sample.get(name)
        if v is None:
            v = self.C.mp.mpf(gen())
        return v

    @staticmethod
    def _fr(x):
        if x is None or isinstance(x, Fraction):
            return x
        if isinstance(x, int):
            return Fraction(x)
        if isinstance(x, float):
            from .core import lift_float

            return lift_float(x)
        if hasattr(x, "const") and x.is_const():
            return x.const()
        return Fraction(x)

    def _pin(self, name, lo, hi):
        if self.pins is None or name in self.pins[1]:
            return None
        v = self.pinned.get(name)
        if v is None:
            v = lo + (hi - lo) * Fraction(1 + int(62 * _h(f"{name} {self.pins[0]}")), 64)
            self.pinned[name] = v
        return v

    def real(self, name, lo=-10, hi=10, lo_open=False, hi_open=False, _kind="var"):
        C = self.C
        c = C.ctx()
        name = self.pre + name
        lo, hi = self._fr(lo), self._fr(hi)
        v = self._pin(name, lo, hi)
        if v is not None:
            return C.Sym.of(v)
        if name in c.inputs:
            return C.gen_sym(c.gens[c.inputs[name][1]])
        g = c.new_gen(name, _kind, self._val(name, lambda: c.rng.uniform(float(lo), float(hi))))
        g.lo, g.hi, g.lo_open, g.hi_open = lo, hi, lo_open, hi_open
        c.inputs[name] = ("angle" if _kind == "angle" else "real", g.i)
        if lo >= 0:
            c.nonneg.append(C.gen_sym(g))
        return C.gen_sym(g)

    def angle(self, name, lo=0, hi=None, lo_open=False, hi_open=False):
        C = self.C
        hi = 2 * C.PI if hi is None else hi
        a = self.real(name, lo, hi, lo_open, hi_open, _kind="angle")
        name = self.pre + name
        if name in self.pinned:
            return a
        g = C.ctx().gens[C.ctx().inputs[name][1]]
        if g not in C.ctx().angle_gens:
            C.ctx().angle_gens.append(g)
        C.angle_trig(g)
        return a

    def int(self, name, lo, hi):
        C = self.C
        c = C.ctx()
        name = self.pre + name
        if name in c.inputs:
            return C.gen_sym(c.gens[c.inputs[name][1]])
        v = self._pin(name, Fraction(lo), Fraction(hi))
        if v is not None:
            self.pinned[name] = v = Fraction(round(v))
            return C.Sym.of(v)
        g = c.new_gen(name, "int", C.mp.nint(self._val(name, lambda: c.rng.randint(int(lo), int(hi)))))
        g.lo, g.hi = self._fr(lo), self._fr(hi)
        c.inputs[name] = ("int", g.i)
        return C.gen_sym(g)

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        k = self.int(name, 0, len(options) - 1)
        k = int(k.const()) if k.is_const() else self.e.decide_value(k)
        return options[k]

    def vec(self, name, rmin=0.1, rmax=10.0):
        C = self.C
        P = C.P
        c = C.ctx()
        rmin, rmax = self._fr(rmin), self._fr(rmax)
        name = self.pre + name
        if self.pins is not None and not any(f"{name}.{k}" in self.pins[1] for k in "xyz"):
            a, b = (Fraction(int(40 * _h(f"{name}{k}{self.pins[0]}")) - 20, 16) for k in "ab")
            n = (rmin + (rmax - rmin) * Fraction(1 + int(62 * _h(f"{name}{self.pins[0]}")), 64)) / (1 + a * a + b * b)
            v = [2 * a * n, 2 * b * n, (1 - a * a - b * b) * n]
            for i, k in enumerate("xyz"):
                self.pinned[f"{name}.{k}"] = v[i]
            return self.Vector3D(*[C.Sym.of(x) for x in v])
        rng = c.rng
        u = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(t * t for t in u)) or 1.0
        r = rng.uniform(float(rmin), float(rmax))
        comps = []
        for i, k in enumerate("xyz"):
            nm = f"{name}.{k}"
            g = c.new_gen(nm, "var", self._val(nm, lambda: u[i] / n * r))
            g.lo, g.hi = -rmax, rmax
            c.inputs[nm] = ("real", g.i)
            comps.append(g)
        gx, gy, gz = comps
        n2 = P.add(P.add(P.gen(gx.i, 2), P.gen(gy.i, 2)), P.gen(gz.i, 2))
        if rmin == rmax:
            c.ring.set_rule(gz.i, 2, P.sub(P.const(rmin * rmin), P.add(P.gen(gx.i, 2), P.gen(gy.i, 2))))
            rel = C.SymBool.rel("==", P.sub(n2, P.const(rmin * rmin)))
            gz.cons.append(rel)
            gz.deps |= {gx.i, gy.i}
            gx.deps.add(gz.i)
            gy.deps.add(gz.i)
            # the sample has to be on the sphere
            vx, vy, vz = gx.val, gy.val, gz.val
            s = C.mp.sqrt(vx * vx + vy * vy + vz * vz)
            f = C.mp.mpf(rmin.numerator) / rmin.denominator / s
            gx.val, gy.val, gz.val = vx * f, vy * f, vz * f
            gx.meta = ("sphere", gx.i, gy.i, gz.i, float(rmin))
        else:
            gm = c.new_gen(name + ".norm", "sqrt", C.mp.sqrt(C.num_eval(n2)))
            gm.calc = ("sqrt", C.Sym(n2))
            gm.lo, gm.hi = rmin, rmax
            gm.deps = {gx.i, gy.i, gz.i}
            gm.cons.append(C.SymBool.rel("==", P.sub(P.gen(gm.i, 2), n2)))
            for g in comps:
                g.deps.add(gm.i)
            c.ring.set_rule(gz.i, 2, P.sub(P.gen(gm.i, 2), P.add(P.gen(gx.i, 2), P.gen(gy.i, 2))))
            c.nonneg.append(C.gen_sym(gm))
        return self.Vector3D(*[C.gen_sym(g) for g in comps])

    def direction(self, name):
        return self.vec(name, 1, 1)

    def free(self, name, lo=-10, hi=10):
        return self.Vector3D(*[self.real(f"{name}.{k}", lo, hi) for k in "xyz"])

    def ufunc(self, name, *args, lo=None, hi=None):
        C = self.C
        r = C.uf(name, *args, lo=self._fr(lo), hi=self._fr(hi))
        g = C.ctx().gens[next(iter(C.P.gens(r.num)))]
        t = C.mp.mpf(6.0 * _h(name))
        for i, a in enumerate(args):
            t += (0.4 + _h(f"{name}{i}")) * C.mp.asinh(C.mp.re(C.sym_eval(C.Sym.of(a))))
        v = C.mp.sin(t)
        if lo is not None and hi is not None:
            v = C.mp.mpf(float(lo)) + (float(hi) - float(lo)) * (v + 1) / 2
        tbl = C.ctx().sample.get("uf:" + name)
        if tbl:
            v = C.mp.mpf(_nearest(tbl, [float(C.mp.re(C.sym_eval(C.Sym.of(a)))) for a in args]))
        g.val = v
        return r

    def assume(self, c):
        self.e.assume(c)

    def And(self, *xs):
        return self.C.And(*xs)

    def Or(self, *xs):
        return self.C.Or(*xs)

    def Not(self, x):
        return self.C.Not(x)

    def Implies(self, a, b):
        return self.C.Implies(a, b)

    # ---- obligations
    def _rec(self, label, verdict, model=None, how="", a=None, b=None, goal=None):
        e = self.e
        if verdict != "proved" and goal is not None:
            self.goals[label] = goal
        samp = e._sample_from(model) if verdict != "proved" else None
        vals = None
        if e.sample_ok and a is not None:
            C = self.C
            try:
                vals = (C.mp.re(C.sym_eval(C.Sym.of(a))), C.mp.re(C.sym_eval(C.Sym.of(b))))
            except Exception:
                vals = None
        self.obs.append((label, verdict, samp, how, vals))

    def eq(self, label, a, b, tol=0, scale=None, ctol=None, angle=False):
        if self.silent:
            return
        C, P, e = self.C, self.C.P, self.e
        label = self.label(label)
        sa, sb = C.Sym.of(a), C.Sym.of(b)
        if isinstance(a, bool) or isinstance(b, bool) or sa is None or sb is None:
            same = a == b
            if not isinstance(same, bool):
                same = bool(same)
            self._rec(label, "proved" if same else "sat", None, "concrete")
            return
        if angle:
            # equal modulo a full turn: compare directions
            ca, s_a = C.strig(sa)
            cb, s_b = C.strig(sb)
            lim = _lim(tol, scale, ctol)
            self._eq0(label, ca - cb, max(self._fr(tol), Fraction(1, 10**12)), ca, cb, False, lim)
            self._eq0(label, s_a - s_b, max(self._fr(tol), Fraction(1, 10**12)), s_a, s_b, False, lim)
            return
        self._eq0(label, sa - sb, self._fr(tol), sa, sb, True, _lim(tol, scale, ctol))

    def _eq0(self, label, d, tol, a, b, vals=True, lim=None):
        C, P, e = self.C, self.C.P, self.e
        oa, ob = (a, b) if vals else (None, None)
        if not d.num:
            e.stats.normalised += 1
            self.idents.append((a, b))
            self._rec(label, "proved", None, "normal form", oa, ob)
            return
        if tol < 0:
            tol = Fraction(0)
        # quick numeric refutation at the sample point
        if e.sample_ok:
            v = C.sym_eval(d)
            if C.mp.im(v) == 0 and abs(v) > 2 * C.mp.mpf(float(tol)) + C.mp.mpf(10) ** -20 * (
                abs(C.sym_eval(a)) + abs(C.sym_eval(b))
            ):
                self._rec(label, "sat", None, "sample", oa, ob, ("dev", a, b, lim))
                return
        verdict, model, how = self._bounded(d, tol)
        self._rec(label, verdict, model, how, oa, ob, ("dev", a, b, lim))

    def _bounded(self, d, tol):
        """|d| <= tol"""
        C, P, e = self.C, self.C.P, self.e
        lo, hi = C.sym_interval(d)
        if tol > 0 and lo is not None and hi is not None and -tol <= lo and hi <= tol:
            # discharged by the linear abstraction below as well: ask the solver
            pass
        if tol > 0 and d.den:
            # the smallest the denominator can be, from interval bounds
            dm = Fraction(1)
            for f, ex in d.den:
                if f >= 0:
                    l, h = C.ctx().gens[f].lo, C.ctx().gens[f].hi
                else:
                    l, h = C.interval(C.ctx().factors[-f - 1])
                if l is not None and l > 0:
                    dm *= l**ex
                elif h is not None and h < 0:
                    dm *= (-h) ** ex
                else:
                    dm = None
                    break
            if dm is not None:
                f1 = C.rel_sym("<", C.Sym.of(tol * dm) - C.Sym(d.num))
                f2 = C.rel_sym("<", C.Sym(d.num) + tol * dm)
                r, m = e.check([C.Or(f1, f2)], min(e.prove_ms, 3000))
                if r == "unsat":
                    return "proved", None, "solver (bounded)"
        if tol > 0:
            f = C.Or(C.rel_sym("<", tol - d), C.rel_sym("<", d + tol))
        else:
            f = C.rel_sym("!=", d)
        if f is False:
            # settled by interval arithmetic; the solver gets the unsimplified query all the same
            if not d.den:
                raw = [C.SymBool.rel("<", P.sub(P.const(tol), d.num)), C.SymBool.rel("<", P.add(d.num, P.const(tol)))]
                if e.check([C.SymBool("or", raw)], 1500)[0] == "unsat":
                    return "proved", None, "solver"
            return "proved", None, "interval"
        r, m = e.check([f], e.prove_ms)
        return {"unsat": "proved", "sat": "sat", "unknown": "unknown"}[r], m, "solver"

    def confirm_identities(self):
        """the solver's verdict on everything the normal form settled on this path"""
        C, e = self.C, self.e
        if not self.idents:
            return True
        import time

        import z3

        t0 = time.time()
        tr = C.ZTrans()
        ors = []
        for a, b in self.idents:
            na, nb, _ = C.common(a, b)
            if len(na) + len(nb) <= 3000:
                ors.append(tr.poly(na) != tr.poly(nb))
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Or(ors))
        r = str(s.check())
        e.stats.queries += 1
        e.stats.solver_s += time.time() - t0
        setattr(e.stats, r, getattr(e.stats, r) + 1)
        if r == "unsat" and e.crosscheck:
            e._cross(s)
        return r == "unsat"

    def true(self, label, c):
        if self.silent:
            return
        C, e = self.C, self.e
        label = self.label(label)
        if not isinstance(c, C.SymBool):
            c = bool(c)
        if c is True:
            e.stats.normalised += 1
            self._rec(label, "proved", None, "normal form")
            return
        if c is False:
            self._rec(label, "sat", None, "normal form")
            return
        from .engine import form_eval

        if e.sample_ok and form_eval(c) is False:
            self._rec(label, "sat", None, "sample", goal=("form", C.Not(c)))
            return
        r, m = e.check([C.Not(c)], e.prove_ms)
        self._rec(label, {"unsat": "proved", "sat": "sat", "unknown": "unknown"}[r], m, "solver", goal=("form", C.Not(c)))

    def le(self, label, a, b, slack=0, scale=None):
        if self.silent:
            return
        self.true(label, self.C.compare(a, self.C.Sym.of(b) + self._fr(slack), "<="))

    def lt(self, label, a, b, scale=None):
        if self.silent:
            return
        n = len(self.obs)
        self.true(label, self.C.compare(a, b, "<"))
        self.strict |= {o[0] for o in self.obs[n:]}

    def boundary(self, label, c):
        if self.silent:
            return
        n = len(self.obs)
        self.true(label, c)
        self.strict |= {o[0] for o in self.obs[n:]}

    def lemma(self, c):
        """a fact that holds for every input (justified where it is used); helps the solver"""
        if c is not True:
            self.e.pc.append(c)

    def nonneg(self, x):
        """x >= 0 (shown here): lets square roots of its powers simplify"""
        C = self.C
        x = C.Sym.of(x)
        f = C.compare(x, 0, "<")
        if f is False or self.e.check([f], self.e.prove_ms)[0] == "unsat":
            C.ctx().nonneg.append(x)

    def no_domain_errors(self):
        """from here on roots and quotients are assumed to be defined (a stated bound of the scenario)"""
        self.e.mute += 1

    def split_angles(self):
        """sines and cosines of sums are expanded term by term from here on"""
        self.C.ctx().split_all = True

    def deriv(self, fn, x, step=None):
        """d fn / dx at the input x, exactly"""
        C = self.C
        x = C.Sym.of(x)
        gi = next(iter(C.P.gens(x.num)))
        assert x.num == C.P.gen(gi) and not x.den
        return C.diff(fn(x), gi)

    def iterative(self):
        """for iterations: every quotient gets its own solver variable"""
        self.C.ctx().name_quotients = True

    def slopes(self):
        """sin/cos of nearby arguments are related by a slope in [-1, 1] from here on"""
        self.C.ctx().lipschitz = True

    def rounding(self, eps):
        """from here on every quotient may be off by a relative error of at most eps"""
        C = self.C
        c = C.ctx()
        eps = self._fr(eps)

        def f(r):
            c.nround += 1
            g = c.new_gen(f"round{c.nround}", "var", C.mp.mpf(0))
            g.lo, g.hi = -eps, eps
            return r * (C.gen_sym(g) + 1)

        c.rounding = f

    def patch_random(self, **fns):
        self._random(fns)

    @property
    def pi(self):
        return self.C.Sym.of(self.C.PI)

    def sqrt(self, x):
        return self.C.ssqrt(x)

    def sin(self, x):
        return self.C.ssin(x)

    def cos(self, x):
        return self.C.scos(x)

    def floor(self, x):
        return self.C.sfloor(x)

    def exp(self, x):
        return self.C.sexp(x)

    def log(self, x):
        return self.C.slog(x)

    def q(self, a, b=1):
        return self.C.Sym.of(Fraction(a, b))

    def dec(self, s):
        """the exact decimal written in s"""
        return self.C.Sym.of(Fraction(s))

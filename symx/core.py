"""Symbolic real numbers that the repository's own Python code computes with.

A Sym is an exact rational function over "generators": the input variables and
the algebraic / transcendental atoms (sqrt, roots, sin/cos pairs, atan2, ...)
met while the code runs.  Comparisons give SymBool; using one as a Python bool
forks the execution (see engine.py).  Everything an SMT query needs (bounds and
defining constraints of every generator) is attached to the generators.
"""
import builtins
import math as _m
from fractions import Fraction

import mpmath
import z3

from . import poly as P

mp = mpmath.mp.clone()
mp.dps = 60

PI = Fraction("3.14159265358979323846264338327950288419716939937510582097494459")
TOL_COEF = Fraction(1, 10**12)

_orig = {k: getattr(_m, k) for k in dir(_m) if not k.startswith("_")}


# --------------------------------------------------------------------------- constants
def lift_float(f):
    """the rational a float constant stands for (within half an ulp of it)"""
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant")
    if f == int(f) and abs(f) < 2**53:
        return Fraction(int(f))
    if len(repr(f).lower().split("e")[0].replace("-", "").replace(".", "").strip("0")) <= 14:
        return Fraction(repr(f))
    q = f / _m.pi
    r = Fraction(q).limit_denominator(360)
    if r != 0 and abs(r.numerator) <= 3600 and abs(float(r) * _m.pi - f) <= 1e-15 * abs(f):
        return r * PI
    r = Fraction(f).limit_denominator(20000)
    if r != 0 and float(r) == f:
        return r
    # a value in degrees turned into radians
    return Fraction(repr(f))


class Unsupported(Exception):
    """the engine cannot encode this operation: the check is inconclusive"""


class PathAbort(BaseException):
    """the current path is infeasible / cut"""


# --------------------------------------------------------------------------- generators
class Gen:
    __slots__ = ("i", "name", "kind", "lo", "hi", "lo_open", "hi_open", "trig", "val", "cons", "deps", "z", "meta", "calc")

    def __init__(self, i, name, kind):
        self.i = i
        self.name = name
        self.kind = kind
        self.lo = self.hi = None
        self.lo_open = self.hi_open = False
        self.trig = None
        self.val = None
        self.cons = []
        self.deps = set()
        self.z = None
        self.meta = None
        self.calc = None  # how the value follows from other generators (search.py)


class Ctx:
    """all state of one symbolic path"""

    cur = None

    def __init__(self, rng=None):
        self.gens = []
        self.ring = P.Ring()
        self.factors = []
        self.factor_ix = {}
        self.sqrts = {}
        self.roots = {}
        self.nonneg = []
        self.angle_gens = []
        self.bases = []
        self.floors = {}
        self.ufs = {}
        self.misc = {}
        self.engine = None
        self.rounding = None
        self.name_quotients = False
        self.lipschitz = False
        self.split_all = False
        self.nround = 0
        import random

        self.rng = rng or random.Random(1)
        self.assumed = []

    def new_gen(self, name, kind="var", val=None):
        g = Gen(len(self.gens), name, kind)
        self.gens.append(g)
        nm = f"{name}!{g.i}"
        g.z = z3.Int(nm) if kind == "int" else z3.Real(nm)
        g.val = val
        return g

    def zreal(self, i):
        g = self.gens[i]
        return z3.ToReal(g.z) if g.kind == "int" else g.z


def ctx():
    return Ctx.cur


# --------------------------------------------------------------------------- Sym
class Sym:
    __slots__ = ("num", "den")
    __array_priority__ = 1000

    def __init__(self, num, den=()):
        self.num = num
        self.den = den

    # ---- construction
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        t = type(x)
        if t is int or t is bool:
            return Sym(P.const(int(x)))
        if t is float:
            return Sym(P.const(lift_float(x)))
        if t is Fraction:
            return Sym(P.const(x))
        if isinstance(x, builtins.int):
            return Sym(P.const(int(x)))
        if isinstance(x, builtins.float):
            return Sym(P.const(lift_float(float(x))))
        return None

    def is_const(self):
        return not self.den and P.is_const(self.num)

    def const(self):
        return Fraction(P.const_val(self.num))

    def key(self):
        return (frozenset(self.num.items()), self.den)

    def __hash__(self):
        # a dictionary of the code under test compares its keys by value: equal values may be written differently
        return hash(float(self.const())) if self.is_const() else 1000003

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "Sym(" + show(self) + ")"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.const()), spec)
        return repr(self)

    # ---- arithmetic
    def __add__(self, o):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        if self.den == o.den:
            return mk(P.add(self.num, o.num), self.den)
        a, b, den = common(self, o)
        return mk(P.add(a, b), den)

    __radd__ = __add__

    def __sub__(self, o):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        if self.den == o.den:
            return mk(P.sub(self.num, o.num), self.den)
        a, b, den = common(self, o)
        return mk(P.sub(a, b), den)

    def __rsub__(self, o):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        if not o.den and P.is_const(o.num):
            return Sym(P.scale(self.num, P.const_val(o.num)), self.den if o.num else ())
        if not self.den and P.is_const(self.num):
            return Sym(P.scale(o.num, P.const_val(self.num)), o.den if self.num else ())
        if not self.den and not o.den:
            return Sym(ctx().ring.mul(self.num, o.num))
        # cancel crosswise first: keeps the products small
        n1, d2 = cancel(self.num, o.den)
        n2, d1 = cancel(o.num, self.den)
        return mk(ctx().ring.mul(n1, n2), den_mul(d1, d2))

    __rmul__ = __mul__

    def __neg__(self):
        return Sym(P.neg(self.num), self.den)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        return sfloor(divide(self, o))

    def __rfloordiv__(self, o):
        return Sym.of(o) // self

    def __mod__(self, o):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        return self - o * Sym.of(sfloor(divide(self, o)))

    def __rmod__(self, o):
        return Sym.of(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - Sym.of(o) * q

    def __rdivmod__(self, o):
        return divmod(Sym.of(o), self)

    def __pow__(self, o, mod=None):
        o = Sym.of(o)
        if o is None:
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        o2 = o
        if type(o) is float and o == _m.e:
            return sexp(self)
        o = Sym.of(o2)
        if o is None:
            return NotImplemented
        if self.is_const():
            return spow(o, self)
        return spow(o, self)

    def __abs__(self):
        return sabs(self)

    # ---- comparison
    def __lt__(self, o):
        return compare(self, o, "<")

    def __le__(self, o):
        return compare(self, o, "<=")

    def __gt__(self, o):
        return compare(o, self, "<")

    def __ge__(self, o):
        return compare(o, self, "<=")

    def __eq__(self, o):
        if Sym.of(o) is None:
            return NotImplemented
        return compare(self, o, "==")

    def __ne__(self, o):
        if Sym.of(o) is None:
            return NotImplemented
        return compare(self, o, "!=")

    def __bool__(self):
        return bool(compare(self, 0, "!="))

    # ---- conversions
    def __index__(self):
        if self.is_const():
            c = self.const()
            if c.denominator == 1:
                return int(c)
            raise TypeError("non-integer used as index")
        return ctx().engine.decide_value(self)

    def __int__(self):
        t = strunc(self)
        return t if isinstance(t, int) else t.__index__()

    def __trunc__(self):
        return strunc(self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return sceil(self)

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            return sfloor(self + Fraction(1, 2))
        sc = Fraction(10) ** nd
        return Sym.of(sfloor(self * sc + Fraction(1, 2))) / sc

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic value outside the openspace modules")

    def is_integer(self):
        return self == sfloor(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self


def show(s, n=6):
    c = ctx()

    def mono(m):
        return "*".join(f"{c.gens[g].name}" + (f"^{e}" if e > 1 else "") for g, e in m) or "1"

    items = list(s.num.items())
    t = " + ".join(f"{float(v):.6g}*{mono(m)}" for m, v in items[:n]) or "0"
    if len(items) > n:
        t += f" + ...({len(items)} terms)"
    if s.den:
        t = "(" + t + ")/(" + "*".join(
            (c.gens[f].name if f >= 0 else f"poly{-f}[{len(c.factors[-f - 1])}]") + (f"^{e}" if e > 1 else "")
            for f, e in s.den
        ) + ")"
    return t


# --------------------------------------------------------------------------- denominators
def factor_poly(f):
    return P.gen(f) if f >= 0 else ctx().factors[-f - 1]


def intern_factor(p):
    c = ctx()
    k = frozenset(p.items())
    f = c.factor_ix.get(k)
    if f is None:
        c.factors.append(p)
        f = -len(c.factors)
        c.factor_ix[k] = f
    return f


def den_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for f, e in b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(d.items()))


def common(a, b):
    da, db = dict(a.den), dict(b.den)
    na, nb = a.num, b.num
    den = dict(da)
    ring = ctx().ring
    for f, e in db.items():
        if e > den.get(f, 0):
            den[f] = e
    for f, e in den.items():
        ka = e - da.get(f, 0)
        if ka:
            na = ring.mul(na, ring.pow(factor_poly(f), ka))
        kb = e - db.get(f, 0)
        if kb:
            nb = ring.mul(nb, ring.pow(factor_poly(f), kb))
    return na, nb, tuple(sorted(den.items()))


def cancel(num, den):
    if not num:
        return num, ()
    if not den:
        return num, den
    ring = ctx().ring
    out = {}
    for f, e in den:
        if f >= 0:
            k = min(e, P.min_exp(num, f))
            if k:
                num = P.strip(num, f, k)
                e -= k
            rule = ring.rules.get(f)
            while rule and e >= rule[0] and len(num) >= len(rule[1]) and len(num) < 3000:
                q = P.exact_div(num, rule[1])
                if q is None:
                    break
                num = q
                e -= rule[0]
        else:
            fp = ctx().factors[-f - 1]
            while e and len(num) >= len(fp) and len(num) < 3000:
                q = P.exact_div(num, fp)
                if q is None:
                    break
                num = q
                e -= 1
        if e:
            out[f] = e
    return num, tuple(sorted(out.items()))


def mk(num, den):
    num, den = cancel(num, den)
    return Sym(num, den)


def den_poly(den):
    ring = ctx().ring
    r = P.const(1)
    for f, e in den:
        r = ring.mul(r, ring.pow(factor_poly(f), e))
    return r


def split_factors(p):
    """p = coef * prod(gens) * prod(poly factors) -> (coef, den tuple)"""
    c = ctx()
    coef = Fraction(P.content(p))
    den = {}
    for g in P.gens(p):
        k = P.min_exp(p, g)
        if k:
            den[g] = k
            p = P.strip(p, g, k)
    if P.is_const(p):
        return Fraction(P.const_val(p)), tuple(sorted(den.items()))
    p = P.scale(p, 1 / coef)
    if p[P._lexlead(p)] < 0:
        p = P.neg(p)
        coef = -coef
    # known square of a square-root atom?
    for fs in range(6):
        hit = False
        for gi, (k, rhs) in c.ring.rules.items():
            g = c.gens[gi]
            if k == 2 and g.kind == "sqrt" and len(rhs) > 1 and len(rhs) <= len(p):
                q = P.exact_div(p, rhs)
                if q is not None:
                    den[gi] = den.get(gi, 0) + 2
                    p = q
                    hit = True
                    break
        if P.is_const(p):
            return coef * Fraction(P.const_val(p)), tuple(sorted(den.items()))
        if hit:
            continue
        for j, fp in enumerate(c.factors):
            if len(fp) <= len(p):
                q = P.exact_div(p, fp)
                if q is not None:
                    den[-j - 1] = den.get(-j - 1, 0) + 1
                    p = q
                    hit = True
                    break
        if P.is_const(p):
            return coef * Fraction(P.const_val(p)), tuple(sorted(den.items()))
        if not hit:
            break
    k2 = Fraction(P.content(p))
    p = P.scale(p, 1 / k2)
    coef *= k2
    if p[P._lexlead(p)] < 0:
        p = P.neg(p)
        coef = -coef
    f = intern_factor(p)
    den[f] = den.get(f, 0) + 1
    return coef, tuple(sorted(den.items()))


def divide(a, b):
    c = ctx()
    if not b.num:
        raise ZeroDivisionError("float division by zero")
    if not (not b.den and P.is_const(b.num)):
        if sign_of(b.num) not in ("+", "-"):
            c.engine.domain(SymBool.rel("==", b.num), ZeroDivisionError("float division by zero"))
    coef, bf = split_factors(b.num)
    num = a.num
    # multiply by b.den (after cancelling with a.den)
    ad = dict(a.den)
    extra = P.const(1)
    for f, e in b.den:
        k = min(e, ad.get(f, 0))
        if k:
            ad[f] -= k
            if not ad[f]:
                del ad[f]
        if e - k:
            extra = c.ring.mul(extra, c.ring.pow(factor_poly(f), e - k))
    aden = tuple(sorted(ad.items()))
    num, bf = cancel(num, bf)
    extra, bf = cancel(extra, bf)
    num = P.scale(c.ring.mul(num, extra), 1 / Fraction(coef))
    r = mk(num, den_mul(aden, bf))
    if c.rounding is not None and not (a.is_const() and b.is_const()):
        r = c.rounding(r)
    if c.name_quotients and r.den:
        return name_it(r)
    return r


def name_it(r):
    """a fresh generator standing for the quotient r"""
    c = ctx()
    key = ("quot", r.key())
    g = c.misc.get(key)
    if g is None:
        g = c.new_gen("quot", "quot", sym_eval(r))
        g.calc = ("value", r)
        g.lo, g.hi = sym_interval(r)
        d = P.sub(c.ring.mul(P.gen(g.i), den_poly(r.den)), r.num)
        g.deps |= P.gens(d) - {g.i}
        g.cons.append(SymBool.rel("==", d))
        c.misc[key] = g
    return gen_sym(g)


# --------------------------------------------------------------------------- intervals and signs
def gen_sign(g):
    if g.lo is not None:
        if g.lo > 0 or (g.lo == 0 and g.lo_open):
            return "+"
        if g.lo == 0:
            return "0+"
    if g.hi is not None:
        if g.hi < 0 or (g.hi == 0 and g.hi_open):
            return "-"
        if g.hi == 0:
            return "0-"
    return "?"


def mono_sign(m, c):
    strict = True
    s = 1 if c > 0 else -1
    for g, e in m:
        k = gen_sign(ctx().gens[g])
        if e % 2 == 0:
            if k not in ("+", "-"):
                strict = False
            continue
        if k == "?":
            return "?"
        if k in ("-", "0-"):
            s = -s
        if k in ("0+", "0-"):
            strict = False
    return ("+" if s > 0 else "-") if strict else ("0+" if s > 0 else "0-")


def sign_of(p):
    """sign of a polynomial from generator bounds only: + - 0+ 0- 0 ?"""
    if not p:
        return "0"
    pos = neg = unk = False
    spos = sneg = False
    for m, c in p.items():
        s = mono_sign(m, c)
        if s == "?":
            unk = True
            break
        if s == "+":
            spos = pos = True
        elif s == "0+":
            pos = True
        elif s == "-":
            sneg = neg = True
        else:
            neg = True
    if not unk:
        if pos and not neg:
            return "+" if spos else "0+"
        if neg and not pos:
            return "-" if sneg else "0-"
    if len(p) <= 2000:
        lo, hi = interval(p)
        if lo is not None:
            if lo > 0:
                return "+"
            if lo == 0:
                return "0+"
        if hi is not None:
            if hi < 0:
                return "-"
            if hi == 0:
                return "0-"
    return "?"


def _ipow(lo, hi, e):
    if e == 1:
        return lo, hi
    if e % 2:
        return (None if lo is None else lo**e), (None if hi is None else hi**e)
    if lo is not None and lo >= 0:
        return lo**e, (None if hi is None else hi**e)
    if hi is not None and hi <= 0:
        return hi**e, (None if lo is None else lo**e)
    top = None if lo is None or hi is None else max(abs(lo), abs(hi)) ** e
    return Fraction(0), top


def _imul(a, b, c, d):
    if None not in (a, b, c, d):
        v = (a * c, a * d, b * c, b * d)
        return min(v), max(v)
    # handle half-infinite non-negative intervals, otherwise give up
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, (None if b is None or d is None else b * d)
    return None, None


def mono_interval(m):
    lo, hi = Fraction(1), Fraction(1)
    for g, e in m:
        gg = ctx().gens[g]
        l2, h2 = _ipow(gg.lo, gg.hi, e)
        lo, hi = _imul(lo, hi, l2, h2)
        if lo is None and hi is None:
            return None, None
    return lo, hi


def interval(p):
    lo = hi = Fraction(0)
    for m, c in p.items():
        a, b = mono_interval(m)
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + a * c
        hi = None if hi is None or b is None else hi + b * c
        if lo is None and hi is None:
            break
    return lo, hi


def factor_sign(f):
    return gen_sign(ctx().gens[f]) if f >= 0 else sign_of(ctx().factors[-f - 1])


def sym_interval(s):
    lo, hi = interval(s.num)
    for f, e in s.den:
        if f >= 0:
            a, b = ctx().gens[f].lo, ctx().gens[f].hi
        else:
            a, b = interval(ctx().factors[-f - 1])
        a, b = _ipow(a, b, e)
        if a is not None and a > 0:
            ra, rb = (None if b is None else 1 / b), 1 / a
            if ra is None:
                ra = Fraction(0)
        elif b is not None and b < 0:
            ra, rb = 1 / b, (Fraction(0) if a is None else 1 / a)
        else:
            return None, None
        lo, hi = _imul(lo, hi, ra, rb)
    return lo, hi


# --------------------------------------------------------------------------- booleans
class SymBool:
    """kind: 'rel' (op, poly)  |  'and' [..] | 'or' [..] | 'not' x | 'const' b"""

    __slots__ = ("kind", "a", "b")

    def __init__(self, kind, a, b=None):
        self.kind = kind
        self.a = a
        self.b = b

    @staticmethod
    def rel(op, p):
        return SymBool("rel", op, p)

    def __bool__(self):
        return ctx().engine.decide(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    # booleans used as numbers
    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __repr__(self):
        if self.kind == "rel":
            return f"[{show(Sym(self.b))} {self.a} 0]"
        return f"{self.kind}({self.a})"


def compare(a, b, op):
    a = Sym.of(a)
    b = Sym.of(b)
    if a is None or b is None:
        return NotImplemented
    d = a - b
    return rel_sym(op, d)


def rel_sym(op, d):
    if d.is_const():
        c = d.const()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    num = d.num
    if op in ("<", "<=") and d.den:
        ring = ctx().ring
        sgn = 1
        for f, e in d.den:
            if e % 2:
                s = factor_sign(f)
                if s in ("+", "0+"):
                    continue
                if s in ("-", "0-"):
                    sgn = -sgn
                else:
                    num = ring.mul(num, factor_poly(f))
        if sgn < 0:
            num = P.neg(num)
    s = sign_of(num)
    if op == "<":
        if s == "-":
            return True
        if s in ("+", "0+", "0"):
            return False
    elif op == "<=":
        if s in ("-", "0-", "0"):
            return True
        if s == "+":
            return False
    elif op == "==":
        if s in ("+", "-"):
            return False
        if s == "0":
            return True
    else:
        if s in ("+", "-"):
            return True
        if s == "0":
            return False
    # normalise the magnitude of the coefficients
    k = P.content(num)
    num = P.scale(num, Fraction(1) / k)
    return SymBool.rel(op, num)


def _fl(x):
    """Python bool or SymBool -> SymBool/bool"""
    return x if isinstance(x, (bool, SymBool)) else bool(x)


def And(*xs):
    out = []
    for x in xs:
        x = _fl(x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", out)


def Or(*xs):
    out = []
    for x in xs:
        x = _fl(x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", out)


def Not(x):
    x = _fl(x)
    if isinstance(x, bool):
        return not x
    if x.kind == "not":
        return x.a
    if x.kind == "rel":
        op, p = x.a, x.b
        if op == "==":
            return SymBool.rel("!=", p)
        if op == "!=":
            return SymBool.rel("==", p)
        return SymBool.rel("<=" if op == "<" else "<", P.neg(p))
    return SymBool("not", x)


def Implies(a, b):
    return Or(Not(a), b)


# --------------------------------------------------------------------------- z3
class ZTrans:
    """polynomial formulas -> z3; abstract=True replaces every nonlinear monomial by a bounded fresh variable"""

    def __init__(self, abstract=False):
        self.abstract = abstract
        self.monos = {}
        self.side = []

    def mono(self, m):
        z = self.monos.get(m)
        if z is None:
            c = ctx()
            if self.abstract and (len(m) > 1 or m[0][1] > 1):
                z = z3.Real(f"m!{len(self.monos)}")
                lo, hi = mono_interval(m)
                if lo is not None:
                    self.side.append(z >= zq(lo))
                if hi is not None:
                    self.side.append(z <= zq(hi))
            else:
                fs = []
                for g, e in m:
                    fs.extend([c.zreal(g)] * e)
                z = z3.Product(fs) if len(fs) > 1 else fs[0]
            self.monos[m] = z
        return z

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, v in p.items():
            if not m:
                ts.append(zq(v))
            elif v == 1:
                ts.append(self.mono(m))
            else:
                ts.append(zq(v) * self.mono(m))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def form(self, f):
        if isinstance(f, bool):
            return z3.BoolVal(f)
        if f.kind == "rel":
            e = self.poly(f.b)
            if f.a == "<":
                return e < 0
            if f.a == "<=":
                return e <= 0
            return e == 0 if f.a == "==" else e != 0
        if f.kind == "and":
            return z3.And([self.form(x) for x in f.a])
        if f.kind == "or":
            return z3.Or([self.form(x) for x in f.a])
        return z3.Not(self.form(f.a))


def zq(v):
    return z3.Q(v.numerator, v.denominator) if isinstance(v, Fraction) else z3.RealVal(v)


def form_gens(f, out=None):
    out = set() if out is None else out
    if isinstance(f, bool):
        return out
    if f.kind == "rel":
        out |= P.gens(f.b)
    elif f.kind == "not":
        form_gens(f.a, out)
    else:
        for x in f.a:
            form_gens(x, out)
    return out


# --------------------------------------------------------------------------- numeric evaluation at the sample point
def num_eval(p, vals=None):
    c = ctx()
    t = mp.mpf(0)
    for m, v in p.items():
        k = mp.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mp.mpf(v)
        for g, e in m:
            k *= c.gens[g].val ** e
        t += k
    return t


def num_scale(p):
    c = ctx()
    t = mp.mpf(0)
    for m, v in p.items():
        k = abs(mp.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mp.mpf(v))
        for g, e in m:
            k *= abs(c.gens[g].val) ** e
        t += k
    return t


def sym_eval(s):
    v = num_eval(s.num)
    for f, e in s.den:
        d = num_eval(factor_poly(f))
        if d == 0:
            ctx().engine.resample()
        v /= d**e
    return v


def approx_zero(p):
    if not p:
        return True
    return abs(num_eval(p)) <= mp.mpf(10) ** -30 * (num_scale(p) + mp.mpf(10) ** -300)


def is_zero(s):
    return not s.num


# --------------------------------------------------------------------------- powers and roots
def isqrt_frac(q):
    n, d = q.numerator, q.denominator
    a, b = _m.isqrt(n), _m.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def icbrt_frac(q):
    def r(n):
        x = round(n ** (1 / 3)) if n < 10**15 else int(mpmath.nint(mpmath.cbrt(n)))
        for y in (x - 1, x, x + 1):
            if y**3 == n:
                return y
        return None

    a, b = r(q.numerator), r(q.denominator)
    return None if a is None or b is None else Fraction(a, b)


def poly_sqrt(p):
    """s with s*s == p as free polynomials, else None"""
    if len(p) > 400:
        return None
    l = P._lexlead(p)
    if any(e % 2 for _, e in l):
        return None
    c = isqrt_frac(Fraction(p[l])) if p[l] > 0 else None
    if c is None:
        return None
    lm = tuple((g, e // 2) for g, e in l)
    s = {lm: P.norm_coef(c)}
    rem = P.sub(p, P.mul_raw(s, s))
    n = 0
    while rem:
        n += 1
        if n > 60:
            return None
        k = P._lexlead(rem)
        q = P.mono_div(k, lm)
        if q is None:
            return None
        t = {q: P.norm_coef(Fraction(rem[k]) / (2 * c))}
        rem = P.sub(rem, P.add(P.scale(P.mul_raw(s, t), 2), P.mul_raw(t, t)))
        s = P.add(s, t)
    return s


def square_part(n):
    """n = k*k*m, returns (k, m) with small square factors removed"""
    k = 1
    r = _m.isqrt(n)
    if r * r == n:
        return r, 1
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        while n % (q * q) == 0:
            n //= q * q
            k *= q
    r = _m.isqrt(n)
    if r * r == n:
        return k * r, 1
    return k, n


def sabs(x):
    x = Sym.of(x)
    if x.is_const():
        return Sym.of(abs(x.const()))
    return x if (x >= 0) else -x


def gen_sym(g):
    return Sym(P.gen(g.i))


def sabs_gen(i):
    g = ctx().gens[i]
    s = gen_sign(g)
    if s in ("+", "0+"):
        return Sym(P.gen(i))
    if s in ("-", "0-"):
        return Sym(P.scale(P.gen(i), -1))
    return sabs(Sym(P.gen(i)))


def ssqrt(x):
    x = Sym.of(x)
    c = ctx()
    if x.is_const():
        v = x.const()
        if v < 0:
            raise ValueError("math domain error")
        r = isqrt_frac(v)
        if r is not None:
            return Sym.of(r)
    # recognised square of a known non-negative expression?
    hit = match_power(x, 2)
    if hit is not None:
        return hit
    out = Sym.of(1)
    num = x.num
    for f, e in x.den:
        if e % 2:
            num = c.ring.mul(num, factor_poly(f))
            e += 1
        h = e // 2
        if h % 2 == 0:
            out = out * raw_inverse(f, h)
        else:
            s = factor_sign(f)
            if s in ("+", "0+"):
                out = out * raw_inverse(f, h)
            elif s in ("-", "0-"):
                out = -(out * raw_inverse(f, h))
            else:
                inv = raw_inverse(f, h)
                out = out * (inv if (Sym(factor_poly(f)) > 0) else -inv)
    if not num:
        return Sym.of(0)
    coef = Fraction(P.content(num))
    if num[P._lexlead(num)] < 0 and len(num) == 1:
        pass
    num = P.scale(num, 1 / coef)
    for g in sorted(P.gens(num)):
        k = P.min_exp(num, g)
        if k >= 2:
            h = k // 2
            num = P.strip(num, g, 2 * h)
            base = Sym(P.gen(g)) if h % 2 == 0 else sabs_gen(g)
            out = out * spow_int(base if h % 2 else base, h)
    k, m = square_part(coef.numerator * coef.denominator)
    out = out * Fraction(k, coef.denominator)
    num = P.scale(num, m)
    # num is what remains under the root
    if P.is_const(num) and P.const_val(num) == 1:
        return out
    ps = poly_sqrt(num)
    if ps is not None:
        return out * sabs(Sym(ps))
    # a known atom?
    key = frozenset(num.items())
    g = c.sqrts.get(key)
    if g is None:
        hit = match_power(Sym(num), 2)
        if hit is not None:
            return out * hit
        if P.is_const(num) and P.const_val(num) < 0:
            raise ValueError("math domain error")
        s = sign_of(num)
        if s == "-":
            raise ValueError("math domain error")
        if s not in ("+", "0+"):
            c.engine.domain(SymBool.rel("<", num), ValueError("math domain error"))
        if s == "?":
            s = c.engine.refined_sign(num)
        g = c.new_gen("sqrt", "sqrt", mp.sqrt(num_eval(num)))
        g.calc = ("sqrt", Sym(num))
        g.deps = P.gens(num)
        lo, hi = interval(num)
        g.lo = frac_sqrt(lo, False) if lo is not None and lo > 0 else Fraction(0)
        g.lo_open = s == "+"
        g.hi = frac_sqrt(hi, True) if hi is not None and hi >= 0 else None
        c.ring.set_rule(g.i, 2, num)
        g.cons.append(SymBool.rel("==", P.sub(P.gen(g.i, 2), num)))
        c.sqrts[key] = g
        c.nonneg.append(gen_sym(g))
    return out * gen_sym(g)


def raw_inverse(f, e):
    return Sym(P.const(1), ((f, e),))


def frac_sqrt(q, up):
    r = isqrt_frac(q)
    if r is not None:
        return r
    v = mpmath.mp.mpf(q.numerator) / q.denominator
    s = Fraction(float(mpmath.sqrt(v))) if q < 10**300 else None
    if s is None:
        return None
    d = Fraction(1, 10**13)
    return s * (1 + d) if up else s * (1 - d)


def match_power(x, k):
    """g with g >= 0 known and g**k == x"""
    c = ctx()
    xv = None
    for g in c.nonneg:
        if xv is None:
            xv = sym_eval(x)
            if mp.im(xv) != 0:
                return None
        gv = sym_eval(g) ** k
        if abs(gv - xv) <= mp.mpf(10) ** -25 * (abs(xv) + abs(gv)):
            d = x - spow_int(g, k)
            if is_zero(d):
                return g
    return None


def spow_int(x, n):
    c = ctx()
    if n == 0:
        return Sym.of(1)
    if n < 0:
        return divide(Sym.of(1), spow_int(x, -n))
    if not x.den:
        return Sym(c.ring.pow(x.num, n))
    r = Sym.of(1)
    b = x
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


def spow(x, e):
    if not e.is_const():
        if x.is_const():
            if float(x.const()) == _m.e:
                return sexp(e)
            return sexp(e * slog(x))
        n = e
        raise Unsupported("symbolic exponent of a symbolic base")
    q = e.const()
    if q.denominator == 1:
        return spow_int(x, q.numerator)
    if q.denominator == 2:
        return spow_int(ssqrt(x), q.numerator)
    if q.denominator == 4:
        return spow_int(ssqrt(ssqrt(x)), q.numerator)
    if q.denominator == 3:
        return spow_int(scbrt(x, neg_ok=False), q.numerator)
    if q.denominator == 6:
        return spow_int(scbrt(ssqrt(x), neg_ok=False), q.numerator)
    raise Unsupported(f"exponent {q}")


def scbrt(x, neg_ok=True):
    x = Sym.of(x)
    c = ctx()
    if x.is_const():
        v = x.const()
        if v == 0:
            return Sym.of(0)
        if v < 0:
            if not neg_ok:
                raise Unsupported("fractional power of a negative number")
            return -scbrt(Sym.of(-v))
        r = icbrt_frac(v)
        if r is not None:
            return Sym.of(r)
    if not (x >= 0):
        if not neg_ok:
            raise Unsupported("fractional power of a negative number (complex in Python)")
        return -scbrt(-x)
    hit = match_power(x, 3)
    if hit is not None:
        return hit
    out = Sym.of(1)
    num = x.num
    for f, e in x.den:
        while e % 3:
            num = c.ring.mul(num, factor_poly(f))
            e += 1
        out = out * raw_inverse(f, e // 3)
    coef = Fraction(P.content(num))
    num = P.scale(num, 1 / coef)
    for g in sorted(P.gens(num)):
        k = P.min_exp(num, g) // 3
        if k:
            num = P.strip(num, g, 3 * k)
            out = out * Sym(P.gen(g, k))
    r = icbrt_frac(coef)
    if r is not None:
        out = out * r
    else:
        d = coef.denominator
        num = P.scale(num, coef.numerator * d * d)
        out = out / d
    if P.is_const(num) and P.const_val(num) == 1:
        return out
    key = frozenset(num.items())
    g = c.roots.get(key)
    if g is None:
        g = c.new_gen("cbrt", "root", mp.cbrt(num_eval(num)))
        g.calc = ("cbrt", Sym(num))
        g.deps = P.gens(num)
        lo, hi = interval(num)
        g.lo = Fraction(0)
        s = sign_of(num)
        g.lo_open = s == "+"
        if lo is not None and lo > 0:
            g.lo = Fraction(float(mpmath.cbrt(mpmath.mpf(lo.numerator) / lo.denominator))) * (1 - Fraction(1, 10**13))
        if hi is not None:
            g.hi = Fraction(float(mpmath.cbrt(mpmath.mpf(hi.numerator) / hi.denominator))) * (1 + Fraction(1, 10**13))
        c.ring.set_rule(g.i, 3, num)
        g.cons.append(SymBool.rel("==", P.sub(P.gen(g.i, 3), num)))
        c.roots[key] = g
        c.nonneg.append(gen_sym(g))
    return out * gen_sym(g)


# --------------------------------------------------------------------------- exp / log
def sexp(x):
    x = Sym.of(x)
    c = ctx()
    if x.is_const() and x.const() == 0:
        return Sym.of(1)
    if x.num and P.is_const(x.num) is False or x.den:
        # exp(log(y)*k)
        if not x.den and len(x.num) == 1:
            (m, k), = x.num.items()
            if len(m) == 1 and m[0][1] == 1 and c.gens[m[0][0]].kind == "log" and Fraction(k).denominator == 1:
                return spow_int(c.gens[m[0][0]].meta, int(k))
    neg = False
    lead = x.num[P._lexlead(x.num)]
    if lead < 0:
        neg = True
        x = -x
    key = ("exp", x.key())
    g = c.misc.get(key)
    if g is None:
        g = c.new_gen("exp", "exp", mp.exp(sym_eval(x)))
        g.calc = ("exp", x)
        g.meta = x
        g.lo, g.lo_open = Fraction(0), True
        lo, hi = sym_interval(x)
        if lo is not None and abs(lo) < 600:
            g.lo = Fraction(float(mpmath.exp(float(lo)))) * (1 - Fraction(1, 10**12))
        if hi is not None and abs(hi) < 600:
            g.hi = Fraction(float(mpmath.exp(float(hi)))) * (1 + Fraction(1, 10**12))
        pos, neg0 = compare(x, 0, "<"), compare(0, x, "<")
        gs = gen_sym(g)
        add_fact(g, Implies(pos, compare(gs, 1, "<")))
        add_fact(g, Implies(neg0, compare(1, gs, "<")))
        add_fact(g, compare(x + 1, gs, "<="))
        c.misc[key] = g
    r = gen_sym(g)
    return divide(Sym.of(1), r) if neg else r


def add_fact(g, f):
    """a formula that is always true and mentions g"""
    if f is True:
        return
    g.deps |= form_gens(f)
    g.cons.append(f)


def slog(x, base=None):
    x = Sym.of(x)
    if base is not None:
        return slog(x) / slog(base)
    c = ctx()
    if x.is_const() and x.const() == 1:
        return Sym.of(0)
    if not x.is_const() or x.const() <= 0:
        bad = compare(x, 0, "<=")
        if bad is True:
            raise ValueError("math domain error")
        if bad is not False:
            c.engine.domain(bad, ValueError("math domain error"))
    if not x.den and len(x.num) == 1:
        (m, k), = x.num.items()
        if k == 1 and len(m) == 1 and c.gens[m[0][0]].kind == "exp":
            return c.gens[m[0][0]].meta * m[0][1]
    key = ("log", x.key())
    g = c.misc.get(key)
    if g is None:
        g = c.new_gen("log", "log", mp.log(sym_eval(x)))
        g.calc = ("log", x)
        g.meta = x
        lo, hi = sym_interval(x)
        if lo is not None and lo > 0:
            g.lo = Fraction(float(mpmath.log(float(lo)))) - Fraction(1, 10**12)
        if hi is not None and hi > 0:
            g.hi = Fraction(float(mpmath.log(float(hi)))) + Fraction(1, 10**12)
        gs = gen_sym(g)
        add_fact(g, Implies(compare(1, x, "<"), compare(0, gs, "<")))
        add_fact(g, Implies(compare(x, 1, "<"), compare(gs, 0, "<")))
        add_fact(g, Implies(compare(x, 1, "=="), compare(gs, 0, "==")))
        add_fact(g, compare(gs, x - 1, "<="))
        c.misc[key] = g
    return gen_sym(g)


# --------------------------------------------------------------------------- floor and friends
def sfloor(x):
    if isinstance(x, int):
        return x
    x = Sym.of(x)
    c = ctx()
    if x.is_const():
        return _m.floor(x.const())
    # pull integer-valued parts out
    if not x.den:
        ints = {}
        rest = {}
        for m, v in x.num.items():
            if Fraction(v).denominator == 1 and all(c.gens[g].kind == "int" for g, _ in m):
                ints[m] = v
            else:
                rest[m] = v
        if not rest:
            return x
        if P.ONE in rest and _m.floor(rest[P.ONE]):
            k = _m.floor(rest[P.ONE])
            ints[P.ONE] = k
            rest[P.ONE] = P.norm_coef(Fraction(rest[P.ONE]) - k)
        if ints:
            return Sym(ints) + Sym.of(sfloor(Sym(rest)))
    key = ("floor", x.key())
    g = c.floors.get(key)
    if g is None:
        lo, hi = sym_interval(x)
        g = c.new_gen("floor", "int", mp.floor(mp.re(sym_eval(x))))
        g.calc = ("floor", x)
        gs = gen_sym(g)
        if lo is not None:
            g.lo = Fraction(_m.floor(lo))
        if hi is not None:
            g.hi = Fraction(_m.floor(hi))
        c.floors[key] = g
        add_fact(g, And(compare(gs, x, "<="), compare(x, gs + 1, "<")))
        if lo is not None and hi is not None and g.hi - g.lo <= 40 and c.engine.concretise_floor:
            v = c.engine.decide_value(gs)
            g.meta = v
            return v
    if g.meta is not None:
        return g.meta
    return gen_sym(g)


def sceil(x):
    if isinstance(x, int):
        return x
    r = sfloor(-Sym.of(x))
    return -r


def strunc(x):
    x = Sym.of(x)
    return sfloor(x) if (x >= 0) else sceil(x)


# --------------------------------------------------------------------------- trigonometry
def cos_interval(lo, hi):
    """outward interval of cos over [lo, hi] (Fractions) or [-1, 1]"""
    if lo is None or hi is None or hi - lo >= 2 * PI:
        return Fraction(-1), Fraction(1)
    # cos is monotone between multiples of pi
    k0 = _m.ceil(lo / PI)
    k1 = _m.floor(hi / PI)
    e = Fraction(1, 10**14)

    def f(q):
        r = q / PI
        if r.denominator == 2:
            return Fraction(0), Fraction(0)
        v = Fraction(float(mp.cos(mp.mpf(q.numerator) / q.denominator)))
        return v - e, v + e

    a, b = f(lo), f(hi)
    l, h = min(a[0], b[0]), max(a[1], b[1])
    for k in range(k0, k1 + 1):
        if k % 2 == 0:
            h = Fraction(1)
        else:
            l = Fraction(-1)
    return max(l, Fraction(-1)), min(h, Fraction(1))


def new_trig_pair(name, lo, hi, base, lo_open=False, hi_open=False):
    c = ctx()
    val = sym_eval(base)
    gc = c.new_gen("cos_" + name, "cos", mp.cos(val))
    gs = c.new_gen("sin_" + name, "sin", mp.sin(val))
    gc.calc, gs.calc = ("cos", base), ("sin", base)
    gc.lo, gc.hi = cos_interval(lo, hi)
    gs.lo, gs.hi = cos_interval(None if lo is None else lo - PI / 2, None if hi is None else hi - PI / 2)
    h = PI / 2
    if lo is not None and hi is not None:
        if gc.lo == 0:
            gc.lo_open = (lo > -h or lo_open) and (hi < h or hi_open)
        if gs.lo == 0:
            gs.lo_open = (lo > 0 or lo_open) and (hi < PI or hi_open)
    c.ring.set_rule(gs.i, 2, P.sub(P.const(1), P.gen(gc.i, 2)))
    gs.cons.append(SymBool.rel("==", P.add(P.add(P.gen(gc.i, 2), P.gen(gs.i, 2)), P.const(-1))))
    gs.deps.add(gc.i)
    gc.deps.add(gs.i)
    for g in (gc, gs):
        if g.lo >= 0:
            c.nonneg.append(gen_sym(g))
    return gen_sym(gc), gen_sym(gs)


def angle_trig(g):
    if g.trig is None:
        g.trig = new_trig_pair(g.name, g.lo, g.hi, gen_sym(g), g.lo_open, g.hi_open)
        cg, sg = g.trig
        for t in (cg, sg):
            i = next(iter(P.gens(t.num)))
            ctx().gens[i].deps.add(g.i)
        # sign links between the angle's value and its sine / cosine
        link_angle(g)
    return g.trig


def link_angle(g):
    if g.lo is None or g.hi is None or g.lo < -2 * PI - 1 or g.hi > 4 * PI + 1:
        return
    c = ctx()
    a = gen_sym(g)
    cg = c.gens[next(iter(P.gens(g.trig[0].num)))]
    k = _m.floor(g.lo / (PI / 2)) - 1
    k1 = _m.ceil(g.hi / (PI / 2)) + 1
    for q in range(k, k1):
        l, h = q * PI / 2, (q + 1) * PI / 2
        if h < g.lo or l > g.hi:
            continue
        cs = {0: (1, 1), 1: (-1, 1), 2: (-1, -1), 3: (1, -1)}[q % 4]
        inside = And(compare(l, a, "<"), compare(a, h, "<"))
        add_fact(cg, Implies(inside, And(compare(0, g.trig[0] * cs[0], "<"), compare(0, g.trig[1] * cs[1], "<"))))
        if l >= g.lo:
            ex = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}[q % 4]
            at = compare(a, l, "==")
            add_fact(cg, Implies(at, And(compare(g.trig[0], ex[0], "=="), compare(g.trig[1], ex[1], "=="))))
    # |sin| <= |angle|
    add_fact(cg, Implies(compare(0, a, "<="), compare(g.trig[1], a, "<=")))
    add_fact(cg, Implies(compare(a, 0, "<="), compare(a, g.trig[1], "<=")))


def cpow(cs, k):
    """(cos, sin) of k times the angle"""
    if k < 0:
        a, b = cpow(cs, -k)
        return a, -b
    if k == 0:
        return Sym.of(1), Sym.of(0)
    a, b = cs
    rc, rs = None, None
    n = k
    pc, ps = a, b
    while n:
        if n & 1:
            if rc is None:
                rc, rs = pc, ps
            else:
                rc, rs = rc * pc - rs * ps, rs * pc + rc * ps
        n >>= 1
        if n:
            pc, ps = pc * pc - ps * ps, pc * ps * 2
    return rc, rs


def rot(a, b):
    if a is None:
        return b
    return a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1]


def strig(x):
    """(cos x, sin x)"""
    x = Sym.of(x)
    c = ctx()
    if not x.num:
        return Sym.of(1), Sym.of(0)
    res = None
    rest = {}
    for m, v in x.num.items():
        if not x.den and len(m) == 1 and m[0][1] == 1:
            g = c.gens[m[0][0]]
            fv = Fraction(v)
            if g.kind == "angle" and fv.denominator == 1 and abs(fv) <= 24:
                res = rot(res, cpow(angle_trig(g), int(fv)))
                continue
        if not x.den and m != P.ONE and all(c.gens[g].kind == "int" for g, _ in m):
            q = Fraction(v) / (2 * PI)
            if q.denominator == 1:
                continue
        rest[m] = v
    q = Fraction(0)
    if P.ONE in rest and not x.den:
        q = Fraction(rest[P.ONE]) / (PI / 2)
        k = round(q)
        if abs(q - k) <= TOL_COEF * 4 or len(rest) == 1 and q == k:
            del rest[P.ONE]
            ex = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}[k % 4]
            res = rot(res, (Sym.of(ex[0]), Sym.of(ex[1])))
    if rest:
        for part in [mk(rest, x.den)] if c.name_quotients else split_angle(rest, x.den):
            res = rot(res, opaque_trig(part))
    return res


def split_angle(rest, den):
    """terms with small integer coefficients are expanded one by one, the others stay together"""
    parts = []
    big = {}
    for m, v in rest.items():
        f = Fraction(v)
        if m != P.ONE and (f.denominator == 1 and abs(f) <= 8 or ctx().split_all):
            parts.append(Sym({m: v}, den))
        else:
            big[m] = v
    if big:
        parts.append(mk(big, den))
    return parts


QUARTERS = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}


def ratio(a, b):
    """(k, q) with a == k*b + q*pi/2, k and q integers, up to TOL_COEF on coefficients"""
    if a.den != b.den:
        return None
    k = None
    n = 0
    for m, v in a.num.items():
        if m == P.ONE and not a.den:
            continue
        w = b.num.get(m)
        if w is None:
            return None
        n += 1
        r = Fraction(v) / w
        if k is None:
            k = round(r)
            if k == 0 or abs(k) > 12:
                return None
        if abs(r - k) > TOL_COEF:
            return None
    one_b = P.ONE in b.num and not b.den
    if k is None:
        if not one_b:
            return None
        r = Fraction(a.num[P.ONE]) / b.num[P.ONE]
        k = round(r)
        return (k, 0) if k and abs(k) <= 12 and abs(r - k) <= TOL_COEF and len(b.num) == 1 else None
    if n != len(b.num) - one_b:
        return None
    if a.den:
        return (k, 0)
    d = Fraction(a.num.get(P.ONE, 0)) - k * Fraction(b.num.get(P.ONE, 0))
    q = d / (PI / 2)
    j = round(q)
    if abs(q - j) > TOL_COEF * max(1, abs(Fraction(a.num.get(P.ONE, 0)))):
        return None
    return (k, j)


def opaque_trig(x):
    c = ctx()
    for b, cs in c.bases:
        k = ratio(x, b)
        if k is not None:
            r = cpow(cs, k[0])
            if k[1] % 4:
                u, w = QUARTERS[k[1] % 4]
                r = rot(r, (Sym.of(u), Sym.of(w)))
            return r
    # an angle whose integer fraction is known: prefer the half / third as base is not attempted
    lead = x.num[P._lexlead(x.num)]
    neg = lead < 0
    base = -x if neg else x
    if c.lipschitz:
        for b, cs in reversed(c.bases):
            d = base - b
            if not d.den and len(d.num) <= 2:
                out = []
                for t, v in zip(cs, (mp.cos(sym_eval(base)), mp.sin(sym_eval(base)))):
                    dv = sym_eval(d)
                    g = c.new_gen("slope", "var", (v - sym_eval(t)) / dv if dv else mp.mpf(0))
                    g.calc = ("slope", base, t, d, len(out))
                    g.lo, g.hi = Fraction(-1), Fraction(1)
                    out.append(t + gen_sym(g) * d)
                for t in out:
                    gi = max(P.gens(t.num))
                    add_fact(c.gens[gi], And(compare(-1, t, "<="), compare(t, 1, "<=")))
                cs = tuple(out)
                c.bases.append((base, cs))
                return (cs[0], -cs[1]) if neg else cs
    lo, hi = sym_interval(base)
    cs = new_trig_pair(f"t{len(c.bases)}", lo, hi, base)
    for t in cs:
        c.gens[next(iter(P.gens(t.num)))].meta = base
    c.bases.append((base, cs))
    return (cs[0], -cs[1]) if neg else cs


def scos(x):
    return strig(x)[0]


def ssin(x):
    return strig(x)[1]


def stan(x):
    a, b = strig(x)
    return divide(b, a)


def satan(x):
    return satan2(x, Sym.of(1))


def angle_candidates(lo, hi):
    for g in ctx().angle_gens:
        if g.lo is not None and g.hi is not None and g.lo >= lo and g.hi <= hi:
            yield g


def close0(s):
    return approx_zero(s.num)


def satan2(y, x):
    y, x = Sym.of(y), Sym.of(x)
    c = ctx()
    if not y.num and x.is_const():
        if x.const() >= 0:
            return Sym.of(0)
        return Sym.of(PI)
    if not x.num and y.is_const():
        return Sym.of(PI / 2 if y.const() > 0 else -PI / 2)
    if x.den or y.den:
        yn, xn, den = common(y, x)
        sgn = 1
        ok = True
        odd = []
        for f, e in den:
            if e % 2:
                s = factor_sign(f)
                if s in ("+", "0+"):
                    pass
                elif s in ("-", "0-"):
                    sgn = -sgn
                else:
                    odd.append(f)
        y, x = Sym(P.scale(yn, sgn)), Sym(P.scale(xn, sgn))
        for f in odd:
            if not (Sym(factor_poly(f)) > 0):
                y, x = -y, -x
    # common positive monomial
    gs = (P.gens(y.num) & P.gens(x.num)) if y.num and x.num else P.gens(y.num or x.num)
    for g in gs:
        if gen_sign(c.gens[g]) in ("+", "0+"):
            k = min(P.min_exp(y.num, g) if y.num else 99, P.min_exp(x.num, g) if x.num else 99)
            if k:
                y, x = Sym(P.strip(y.num, g, k)), Sym(P.strip(x.num, g, k))
    k = P.content(P.add(y.num, {})) if not x.num else (P.content(x.num) if not y.num else None)
    if k is not None:
        y, x = y * (Fraction(1) / k), x * (Fraction(1) / k)
    key = ("atan2", y.key(), x.key())
    hit = c.misc.get(key)
    if hit is not None:
        return gen_sym(hit)
    if not y.num:
        return Sym.of(0) if (x >= 0) else Sym.of(PI)
    # origin
    n2 = x * x + y * y
    s2 = sign_of(n2.num)
    if s2 not in ("+",):
        both0 = And(compare(x, 0, "=="), compare(y, 0, "=="))
        if both0 is not False and c.engine.decide(both0, rare=True):
            return Sym.of(0)
    # a known angle with the same direction?
    for g in c.angle_gens:
        if g.lo is None or g.hi is None or g.lo < -PI or g.hi > 2 * PI:
            continue
        cg, sg = angle_trig(g)
        cr = x * sg - y * cg
        if not cr.num or (approx_zero(cr.num) and is_zero(cr)):
            al = x * cg + y * sg
            pos = compare(0, al, "<")
            if pos is True or (pos is not False and c.engine.prove_quick(pos)):
                a = gen_sym(g)
                if g.hi <= PI:
                    return a
                return a if (a <= PI) else a - 2 * PI
    h = ssqrt(n2)
    g = c.new_gen("atan2", "angle", mp.atan2(mp.re(sym_eval(y)), mp.re(sym_eval(x))))
    g.calc = ("atan2", y, x)
    g.lo, g.hi, g.lo_open = -PI, PI, True
    sx, sy = sign_of(x.num), sign_of(y.num)
    if sy in ("+", "0+"):
        g.lo, g.lo_open = Fraction(0), sy == "+"
    if sy in ("-",):
        g.hi, g.hi_open = Fraction(0), True
    if sx in ("+", "0+"):
        if g.lo < -PI / 2:
            g.lo, g.lo_open = -PI / 2, sx == "+"
        if g.hi > PI / 2:
            g.hi, g.hi_open = PI / 2, sx == "+"
    g.trig = (divide(x, h), divide(y, h))
    g.deps |= P.gens(x.num) | P.gens(y.num)
    a = gen_sym(g)
    H = PI / 2
    yp, ym, y0 = compare(0, y, "<"), compare(y, 0, "<"), compare(y, 0, "==")
    xp, xm, x0 = compare(0, x, "<"), compare(x, 0, "<"), compare(x, 0, "==")
    add_fact(g, Implies(yp, And(compare(0, a, "<"), compare(a, PI, "<"))))
    add_fact(g, Implies(ym, And(compare(-PI, a, "<"), compare(a, 0, "<"))))
    add_fact(g, Implies(And(y0, xp), compare(a, 0, "==")))
    add_fact(g, Implies(And(y0, xm), compare(a, PI, "==")))
    add_fact(g, Implies(xp, And(compare(-H, a, "<"), compare(a, H, "<"))))
    add_fact(g, Implies(xm, Or(compare(a, -H, "<"), compare(H, a, "<"))))
    add_fact(g, Implies(x0, Or(compare(a, -H, "=="), compare(a, H, "=="))))
    c.misc[key] = g
    c.angle_gens.append(g)
    return a


def sasin(v):
    v = Sym.of(v)
    c = ctx()
    if v.is_const():
        k = v.const()
        if abs(k) > 1:
            raise ValueError("math domain error")
        if k in (0, 1, -1):
            return Sym.of(k * PI / 2)
    key = ("asin", v.key())
    hit = c.misc.get(key)
    if hit is not None:
        return gen_sym(hit)
    for g in angle_candidates(-PI / 2, PI / 2):
        d = v - angle_trig(g)[1]
        if not d.num or (approx_zero(d.num) and is_zero(d)):
            return gen_sym(g)
    for lim in (compare(1, v, "<"), compare(v, -1, "<")):
        if lim is True:
            raise ValueError("math domain error")
        if lim is not False:
            c.engine.domain(lim, ValueError("math domain error"))
    g = c.new_gen("asin", "angle", mp.asin(sym_eval(v)))
    g.calc = ("asin", v)
    g.lo, g.hi = -PI / 2, PI / 2
    g.trig = (root_of_unit(v), v)
    g.deps |= P.gens(v.num)
    a = gen_sym(g)
    add_fact(g, Implies(compare(0, v, "<"), compare(0, a, "<")))
    add_fact(g, Implies(compare(v, 0, "<"), compare(a, 0, "<")))
    add_fact(g, Implies(compare(v, 0, "=="), compare(a, 0, "==")))
    c.misc[key] = g
    c.angle_gens.append(g)
    return a


def root_of_unit(v):
    """sqrt(1 - v^2) with the domain already established"""
    c = ctx()
    c.engine.mute += 1
    try:
        return ssqrt(1 - v * v)
    finally:
        c.engine.mute -= 1


def sacos(v):
    v = Sym.of(v)
    c = ctx()
    if v.is_const():
        k = v.const()
        if abs(k) > 1:
            raise ValueError("math domain error")
        if k in (0, 1, -1):
            return Sym.of({0: PI / 2, 1: Fraction(0), -1: PI}[int(k)])
    key = ("acos", v.key())
    hit = c.misc.get(key)
    if hit is not None:
        return gen_sym(hit)
    for g in angle_candidates(Fraction(0), PI):
        d = v - angle_trig(g)[0]
        if not d.num or (approx_zero(d.num) and is_zero(d)):
            return gen_sym(g)
    for lim in (compare(1, v, "<"), compare(v, -1, "<")):
        if lim is True:
            raise ValueError("math domain error")
        if lim is not False:
            c.engine.domain(lim, ValueError("math domain error"))
    g = c.new_gen("acos", "angle", mp.acos(sym_eval(v)))
    g.calc = ("acos", v)
    g.lo, g.hi = Fraction(0), PI
    g.trig = (v, root_of_unit(v))
    g.deps |= P.gens(v.num)
    a = gen_sym(g)
    H = PI / 2
    add_fact(g, Implies(compare(0, v, "<"), compare(a, H, "<")))
    add_fact(g, Implies(compare(v, 0, "<"), compare(H, a, "<")))
    add_fact(g, Implies(compare(v, 0, "=="), compare(a, H, "==")))
    add_fact(g, Implies(compare(v, 1, "=="), compare(a, 0, "==")))
    add_fact(g, Implies(compare(v, -1, "=="), compare(a, PI, "==")))
    add_fact(g, Implies(compare(a, 0, "=="), compare(v, 1, "==")))
    c.misc[key] = g
    c.angle_gens.append(g)
    return a


# --------------------------------------------------------------------------- derivatives
def pdiff_gen(p, i):
    """partial derivative of a polynomial by one generator"""
    out = {}
    for m, v in p.items():
        for k, (g, e) in enumerate(m):
            if g == i:
                m2 = m[:k] + (((g, e - 1),) if e > 1 else ()) + m[k + 1 :]
                out[m2] = P.norm_coef(Fraction(out.get(m2, 0)) + Fraction(v) * e)
                if not out[m2]:
                    del out[m2]
    return out


def diff(s, gi, memo=None):
    """d s / d(generator gi), following sin, cos, roots, exp and log"""
    memo = {} if memo is None else memo
    s = Sym.of(s)
    num = Sym.of(0)
    for g in P.gens(s.num):
        d = gen_diff(g, gi, memo)
        if d.num:
            num = num + Sym(ctx().ring.reduce(pdiff_gen(s.num, g)) if hasattr(ctx().ring, "reduce") else pdiff_gen(s.num, g)) * d
    out = num * Sym(P.const(1), s.den) if s.den else num
    for f, e in s.den:
        fp = Sym(factor_poly(f))
        d = diff(fp, gi, memo)
        if d.num:
            out = out - s * d * e * raw_inverse(f, 1)
    return out


def gen_diff(i, gi, memo):
    if i == gi:
        return Sym.of(1)
    if i in memo:
        return memo[i]
    c = ctx()
    g = c.gens[i]
    memo[i] = Sym.of(0)
    r = Sym.of(0)
    if g.kind in ("cos", "sin"):
        base = g.meta
        pair = None
        if base is not None:
            for b, cs in c.bases:
                if any(i in P.gens(t.num) for t in cs):
                    pair = cs
                    break
            d = diff(base, gi, memo)
        else:
            for a in c.angle_gens:
                if a.trig is not None and any(t.num == P.gen(i) for t in a.trig):
                    pair = a.trig
                    d = gen_diff(a.i, gi, memo)
                    break
        if pair is not None:
            r = -pair[1] * d if g.kind == "cos" else pair[0] * d
    elif i in c.ring.rules and g.kind in ("sqrt", "root"):
        k, rhs = c.ring.rules[i]
        d = diff(Sym(rhs), gi, memo)
        if d.num:
            r = d * Sym(P.const(Fraction(1, k)), ((i, k - 1),))
    elif g.kind == "exp":
        r = gen_sym(g) * diff(g.meta, gi, memo)
    elif g.kind == "log":
        r = divide(diff(g.meta, gi, memo), g.meta)
    memo[i] = r
    return r


# --------------------------------------------------------------------------- uninterpreted functions
def uf(name, *args, lo=None, hi=None):
    c = ctx()
    key = (name,) + tuple(Sym.of(a).key() if Sym.of(a) is not None else a for a in args)
    g = c.ufs.get(key)
    if g is None:
        g = c.new_gen(name, "uf", mp.mpf(c.rng.uniform(-2, 2)))
        g.lo, g.hi = lo, hi
        if lo is not None and hi is not None:
            g.val = mp.mpf(float(lo)) + mp.mpf(c.rng.random()) * (float(hi) - float(lo))
        g.meta = args
        c.ufs[key] = g
    return gen_sym(g)


# --------------------------------------------------------------------------- the math module
def _sym(*xs):
    return any(isinstance(x, Sym) for x in xs)


def _w1(name, f):
    o = _orig[name]

    def w(x, /):
        return f(x) if isinstance(x, Sym) else o(x)

    w.__name__ = name
    return w


def _hypot(*xs):
    if _sym(*xs):
        t = Sym.of(0)
        for x in xs:
            t = t + Sym.of(x) * Sym.of(x)
        return ssqrt(t)
    return _orig["hypot"](*xs)


def _fsum(xs):
    xs = list(xs)
    if _sym(*xs):
        t = Sym.of(0)
        for x in xs:
            t = t + x
        return t
    return _orig["fsum"](xs)


def _prod(xs, *, start=1):
    xs = list(xs)
    if _sym(start, *xs):
        t = Sym.of(start)
        for x in xs:
            t = t * x
        return t
    return _orig["prod"](xs, start=start)


def _sumprod(p, q):
    p, q = list(p), list(q)
    if _sym(*p) or _sym(*q):
        if len(p) != len(q):
            raise ValueError("Inputs are not the same length")
        return _fsum(a * b for a, b in zip(p, q))
    return _orig["sumprod"](p, q)


def _dist(p, q):
    p, q = list(p), list(q)
    if _sym(*p) or _sym(*q):
        return _hypot(*[a - b for a, b in zip(p, q)])
    return _orig["dist"](p, q)


def _atan2(y, x, /):
    return satan2(y, x) if _sym(y, x) else _orig["atan2"](y, x)


def _pow(x, y, /):
    return spow(Sym.of(x), Sym.of(y)) if _sym(x, y) else _orig["pow"](x, y)


def _log(x, *b):
    return slog(x, *b) if _sym(x, *b) else _orig["log"](x, *b)


def _copysign(x, y, /):
    if _sym(x, y):
        a = sabs(x)
        return a if (Sym.of(y) >= 0) else -a
    return _orig["copysign"](x, y)


def _fmod(x, y, /):
    if _sym(x, y):
        q = strunc(Sym.of(x) / y)
        return Sym.of(x) - Sym.of(y) * q
    return _orig["fmod"](x, y)


def _remainder(x, y, /):
    if _sym(x, y):
        q = sfloor(Sym.of(x) / y + Fraction(1, 2))
        return Sym.of(x) - Sym.of(y) * q
    return _orig["remainder"](x, y)


def _modf(x, /):
    if _sym(x):
        t = strunc(x)
        return x - t, t
    return _orig["modf"](x)


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if _sym(a, b):
        d = sabs(Sym.of(a) - b)
        return d <= max(rel_tol * max(sabs(a), sabs(b)), abs_tol)
    return _orig["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)


PATCHES = {
    "sin": _w1("sin", ssin),
    "cos": _w1("cos", scos),
    "tan": _w1("tan", stan),
    "asin": _w1("asin", sasin),
    "acos": _w1("acos", sacos),
    "atan": _w1("atan", satan),
    "sqrt": _w1("sqrt", ssqrt),
    "cbrt": _w1("cbrt", scbrt),
    "exp": _w1("exp", sexp),
    "log10": _w1("log10", lambda x: slog(x) / slog(Sym.of(10))),
    "log2": _w1("log2", lambda x: slog(x) / slog(Sym.of(2))),
    "log1p": _w1("log1p", lambda x: slog(x + 1)),
    "expm1": _w1("expm1", lambda x: sexp(x) - 1),
    "fabs": _w1("fabs", sabs),
    "floor": _w1("floor", sfloor),
    "ceil": _w1("ceil", sceil),
    "trunc": _w1("trunc", strunc),
    "radians": _w1("radians", lambda x: x * (PI / 180)),
    "degrees": _w1("degrees", lambda x: x * (180 / PI)),
    "isnan": _w1("isnan", lambda x: False),
    "isinf": _w1("isinf", lambda x: False),
    "isfinite": _w1("isfinite", lambda x: True),
    "hypot": _hypot,
    "fsum": _fsum,
    "prod": _prod,
    "dist": _dist,
    "atan2": _atan2,
    "pow": _pow,
    "log": _log,
    "copysign": _copysign,
    "fmod": _fmod,
    "remainder": _remainder,
    "modf": _modf,
    "isclose": _isclose,
}
if "sumprod" in _orig:
    PATCHES["sumprod"] = _sumprod


class patched_math:
    """while active, `math` functions accept Sym arguments (plain numbers are unaffected)"""

    def __enter__(self):
        for k, f in PATCHES.items():
            setattr(_m, k, f)

    def __exit__(self, *a):
        for k in PATCHES:
            setattr(_m, k, _orig[k])
        return False


# --------------------------------------------------------------------------- builtins seen by the openspace modules
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, Sym))

    def __call__(cls, x=0.0):
        return x if isinstance(x, Sym) else builtins.float(x)


class FloatShim(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        return strunc(x) if isinstance(x, Sym) else builtins.int(x, *a)


class IntShim(metaclass=_IntMeta):
    pass


def _extreme(orig, larger):
    def f(*a, **kw):
        if kw or len(a) != 2 or not any(isinstance(x, Sym) for x in a) or any(Sym.of(x) is None for x in a):
            return orig(*a, **kw)
        x, y = a
        lo, hi = (x, y) if larger else (y, x)
        # equal values: either will do
        for u, v, r in ((lo, hi, y), (hi, lo, x)):
            w = compare(v, u, "<")
            if w is False or (w is not True and ctx().engine.prove_quick(Not(w))):
                return r
        return y if compare(lo, hi, "<") else x

    return f


min_shim = _extreme(min, False)
max_shim = _extreme(max, True)

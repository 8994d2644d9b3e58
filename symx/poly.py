"""Sparse multivariate polynomials over Q with reduction rules  g^k -> rhs.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of
(generator index, exponent>0); a coefficient is an int or a Fraction (never 0).
"""
from fractions import Fraction

ONE = ()


def norm_coef(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = norm_coef(c)
    return {ONE: c} if c != 0 else {}


def gen(i, e=1):
    return {((i, e),): 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_val(p):
    return p.get(ONE, 0)


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = norm_coef(v)
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v == 0:
                del r[m]
            else:
                r[m] = norm_coef(v)
    return r


def scale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: norm_coef(v * c) for m, v in p.items()}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, ea = a[i]
        gb, eb = b[j]
        if ga == gb:
            out.append((ga, ea + eb))
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_div(a, b):
    """a / b or None if not divisible"""
    d = dict(a)
    for g, e in b:
        v = d.get(g, 0) - e
        if v < 0:
            return None
        if v == 0:
            d.pop(g, None)
        else:
            d[g] = v
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


LIMIT = 60000


def mul_raw(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if m == ONE:
            return scale(q, c)
        return {mono_mul(m, n): norm_coef(c * d) for n, d in q.items()}
    if len(p) * len(q) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = r.get(k)
            r[k] = c * d if v is None else v + c * d
    r = {m: norm_coef(c) for m, c in r.items() if c != 0}
    if len(r) > LIMIT:
        raise TooBig()
    return r


def gens(p):
    s = set()
    for m in p:
        for g, _ in m:
            s.add(g)
    return s


def max_exp(p, g):
    return max((e for m in p for (h, e) in m if h == g), default=0)


def min_exp(p, g):
    lo = None
    for m in p:
        e = 0
        for h, x in m:
            if h == g:
                e = x
                break
        if lo is None or e < lo:
            lo = e
            if lo == 0:
                return 0
    return lo or 0


def strip(p, g, e):
    if e == 0:
        return p
    d = ((g, e),)
    return {mono_div(m, d): c for m, c in p.items()}


class Ring:
    """holds the reduction rules"""

    def __init__(self):
        self.rules = {}  # gen -> (k, rhs poly)
        self._pow = {}

    def set_rule(self, g, k, rhs):
        self.rules[g] = (k, rhs)

    def reduce(self, p):
        if not self.rules:
            return p
        guard = 0
        while True:
            # highest ranked reducible generator first
            target = -1
            for m in p:
                for g, e in m:
                    if g > target:
                        r = self.rules.get(g)
                        if r is not None and e >= r[0]:
                            target = g
            if target < 0:
                return p
            guard += 1
            if guard > 400:
                raise TooBig()
            k, rhs = self.rules[target]
            keep = {}
            groups = {}
            for m, c in p.items():
                ex = 0
                for g, e in m:
                    if g == target:
                        ex = e
                        break
                if ex < k:
                    keep[m] = c
                else:
                    q, rem = divmod(ex, k)
                    base = tuple((g, e) for g, e in m if g != target)
                    if rem:
                        base = mono_mul(base, ((target, rem),))
                    grp = groups.setdefault(q, {})
                    v = grp.get(base, 0) + c
                    if v == 0:
                        grp.pop(base, None)
                    else:
                        grp[base] = v
            for q, grp in groups.items():
                keep = add(keep, mul_raw(grp, self.power_raw(target, q)))
            p = keep

    def power_raw(self, g, q):
        key = (g, q)
        r = self._pow.get(key)
        if r is None:
            rhs = self.rules[g][1]
            r = rhs
            for _ in range(q - 1):
                r = mul_raw(r, rhs)
            self._pow[key] = r
        return r

    def mul(self, p, q):
        return self.reduce(mul_raw(p, q))

    def pow(self, p, n):
        r = const(1)
        b = p
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r


def lead(p):
    """leading monomial in graded lex order"""
    return max(p, key=mono_key)


def mono_key(m):
    return (sum(e for _, e in m), tuple((-g, e) for g, e in m))


def content(p):
    """positive rational c such that p/c has coprime integer coefficients"""
    from math import gcd

    num = 0
    den = 1
    for c in p.values():
        if type(c) is Fraction:
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        else:
            num = gcd(num, c)
    if num == 0:
        return Fraction(1)
    return norm_coef(Fraction(num, den)) if True else None


def exact_div(p, q, limit=4000):
    """p / q if exact (as free polynomials), else None"""
    if not p:
        return {}
    if len(q) == 1:
        (m, c), = q.items()
        out = {}
        for n, d in p.items():
            k = mono_div(n, m)
            if k is None:
                return None
            out[k] = norm_coef(Fraction(d) / c)
        return out
    lq = _lexlead(q)
    cq = q[lq]
    r = dict(p)
    out = {}
    steps = 0
    import heapq

    heap = [_negkey(m) for m in r]
    heapq.heapify(heap)
    while r:
        steps += 1
        if steps > limit:
            return None
        while True:
            if not heap:
                return None
            m = heapq.heappop(heap)[1]
            if m in r:
                break
        k = mono_div(m, lq)
        if k is None:
            return None
        c = norm_coef(Fraction(r[m]) / cq)
        out[k] = c
        for n, d in q.items():
            t = mono_mul(k, n)
            v = r.get(t)
            if v is None:
                r[t] = -c * d
                heapq.heappush(heap, _negkey(t))
            else:
                v = v - c * d
                if v == 0:
                    del r[t]
                else:
                    r[t] = norm_coef(v)
    return out


class _Rev:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return self.k > o.k


def _lexkey(m):
    # graded order that is a monomial order: total degree, then lex on generators (low index first)
    return (sum(e for _, e in m), tuple((-g, e) for g, e in m))


def _negkey(m):
    return (_Rev(_ordkey(m)), m)


def _ordkey(m):
    # pure lex with smaller generator index more significant
    deg = sum(e for _, e in m)
    return (deg, _Lex(m))


class _Lex:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __lt__(self, o):
        a, b = self.m, o.m
        i = 0
        while i < len(a) and i < len(b):
            if a[i] == b[i]:
                i += 1
                continue
            (ga, ea), (gb, eb) = a[i], b[i]
            if ga == gb:
                return ea < eb
            # the one having the smaller generator index is larger
            return ga > gb
        return len(a) < len(b)

    def __gt__(self, o):
        return o < self

    def __eq__(self, o):
        return self.m == o.m


def _lexlead(p):
    best = None
    bk = None
    for m in p:
        k = _ordkey(m)
        if best is None or bk < k:
            best, bk = m, k
    return best

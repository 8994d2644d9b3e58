"""Floats whose operations carry extra rounding error: a deviation that is rounding noise changes with it."""
import math


def make(rng, amp):
    class Jit(float):
        __slots__ = ()

    def wrap(r, exact):
        if type(r) is not float and not isinstance(r, float):
            return r
        if exact or r == 0 or r != r or math.isinf(r):
            return Jit(r)
        return Jit(r * (1 + rng.uniform(-amp, amp)))

    TRIVIAL = (0, 1, -1, 2, -2, 0.5, -0.5)

    def whole(x):
        return abs(x) < 2**53 and x == math.floor(x)

    def binary(name, addlike):
        f = getattr(float, name)

        def op(self, other):
            if isinstance(other, bool) or not isinstance(other, (int, float)):
                return NotImplemented
            try:
                r = f(float(self), float(other))
            except OverflowError:
                raise
            if r is NotImplemented or isinstance(r, complex):
                return r
            x = float(other)
            if addlike:
                exact = x == 0 or float(self) == 0 or (whole(x) and whole(float(self)))
            else:
                exact = x in TRIVIAL or float(self) in TRIVIAL or (whole(x) and whole(float(self)) and whole(r))
            return wrap(r, exact)

        return op

    for n in ("__add__", "__radd__", "__sub__", "__rsub__"):
        setattr(Jit, n, binary(n, True))
    for n in ("__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__", "__rpow__"):
        setattr(Jit, n, binary(n, False))
    Jit.__neg__ = lambda s: Jit(-float(s))
    Jit.__pos__ = lambda s: s
    Jit.__abs__ = lambda s: Jit(abs(float(s)))
    Jit.__mod__ = lambda s, o: Jit(float(s) % float(o)) if isinstance(o, (int, float)) else NotImplemented
    Jit.__floordiv__ = lambda s, o: Jit(float(s) // float(o)) if isinstance(o, (int, float)) else NotImplemented
    return Jit

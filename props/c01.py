"""C01 vector algebra"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
B = 10**12


def v6(h, n):
    return h.Vector6D(*[h.real(f"{n}.{k}", -B, B) for k in ("x", "y", "z", "vx", "vy", "vz")])


@SCENARIOS.add()
def sums_and_products_3d(h):
    """components in [-1e12, 1e12], scalar in [-1e12, 1e12]"""
    a, b = h.free("a", -B, B), h.free("b", -B, B)
    k = h.real("k", -B, B)
    A, Bv = h.lst(a), h.lst(b)
    h.eql("plus", h.lst(a.plus(b)), [x + y for x, y in zip(A, Bv)])
    h.eql("minus", h.lst(a.minus(b)), [x - y for x, y in zip(A, Bv)])
    h.eq("dot", a.dot(b), sum(x * y for x, y in zip(A, Bv)), scale=1e24)
    h.eql("scaled", h.lst(a.scaled(k)), [x * k for x in A], scale=1e24)
    c = a.cross(b)
    h.eql(
        "cross",
        h.lst(c),
        [A[1] * Bv[2] - A[2] * Bv[1], A[2] * Bv[0] - A[0] * Bv[2], A[0] * Bv[1] - A[1] * Bv[0]],
        scale=1e24,
    )
    h.eql("copy", h.lst(a.copy()), A)
    # operands are left alone and results are new objects
    h.eql("a unchanged", h.lst(a), A)
    h.eql("b unchanged", h.lst(b), Bv)
    for n, r in (("plus", a.plus(b)), ("minus", a.minus(b)), ("scaled", a.scaled(k)), ("copy", a.copy()), ("cross", c)):
        h.fact(f"{n} is a new vector", r is not a and r is not b)


@SCENARIOS.add()
def magnitude_3d(h):
    """components in [-1e12, 1e12], the zero vector included"""
    a = h.free("a", -B, B)
    m = a.magnitude()
    h.le("non-negative", 0, m)
    h.eq("square", m * m, a.dot(a), scale=1e24)


@SCENARIOS.add()
def normalized_3d(h):
    """nonzero vectors of norm in [1e-15, 1e15]"""
    a = h.vec("a", h.q(1, 10**15), 10**15)
    u = a.normalized()
    n = a.magnitude()
    h.eq("unit", u.dot(u), 1)
    h.eq("unit magnitude", u.magnitude(), 1)
    h.eqv("direction", u.scaled(n), a)
    h.lt("same sense", 0, u.dot(a))
    h.eql("a unchanged", [a.x, a.y, a.z], h.lst(a))


@SCENARIOS.add()
def normalizing_zero_raises(h):
    """the zero vector has no direction"""
    try:
        h.V(0, 0, 0).normalized()
        h.true("raises", False)
    except ZeroDivisionError:
        h.true("raises", True)


@SCENARIOS.add()
def vectors_6d(h):
    """components in [-1e12, 1e12]"""
    a, b = v6(h, "a"), v6(h, "b")
    A, Bv = h.lst(a), h.lst(b)
    h.eql("plus", h.lst(a.plus(b)), [x + y for x, y in zip(A, Bv)])
    h.eql("minus", h.lst(a.minus(b)), [x - y for x, y in zip(A, Bv)])
    h.eq("dot", a.dot(b), sum(x * y for x, y in zip(A, Bv)), scale=1e24)
    h.eql("copy", h.lst(a.copy()), A)
    h.fact("copy is new", a.copy() is not a)
    h.eql("a unchanged", h.lst(a), A)
    h.eql("b unchanged", h.lst(b), Bv)
    r, v = h.free("r", -B, B), h.free("v", -B, B)
    h.eql("from r, v", h.lst(h.Vector6D.from_position_and_velocity(r, v)), h.lst(r) + h.lst(v))


@SCENARIOS.add()
def cross_geometry(h):
    """nonzero vectors of norm in [1e-12, 1e12]"""
    a, b = h.vec("a", h.q(1, B), B), h.vec("b", h.q(1, B), B)
    c = a.cross(b)
    h.eq("perpendicular to a", c.dot(a), 0, scale=1e36)
    h.eq("perpendicular to b", c.dot(b), 0, scale=1e36)
    h.eq("Lagrange", c.dot(c) + a.dot(b) * a.dot(b), a.dot(a) * b.dot(b), scale=1e48)
    h.eqv("anticommutes", b.cross(a), c.scaled(-1), scale=1e24)


SCENARIOS.again()

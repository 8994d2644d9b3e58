"""C04 angle between two vectors"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793


@SCENARIOS.add()
def angle_is_correct(h):
    """nonzero vectors of norm in [1e-9, 1e12]"""
    a, b = h.vec("a", h.dec("1e-9"), 10**12), h.vec("b", h.dec("1e-9"), 10**12)
    a0, b0 = h.lst(a), h.lst(b)
    h.cauchy_schwarz("cs", a, b)
    t = a.angle(b)
    h.le("at least 0", 0, t)
    h.le("at most pi", t, h.pi)
    h.eq("cosine", h.cos(t) * a.magnitude() * b.magnitude(), a.dot(b), scale=1e24)
    h.eql("a unchanged", h.lst(a), a0)
    h.eql("b unchanged", h.lst(b), b0)


@SCENARIOS.add()
def angle_is_symmetric_and_scale_free(h):
    """nonzero vectors of norm in [1e-9, 1e12]; scale factor in [1e-6, 1e6]"""
    a, b = h.vec("a", h.dec("1e-9"), 10**12), h.vec("b", h.dec("1e-9"), 10**12)
    k = h.real("k", h.dec("1e-6"), 10**6)
    h.cauchy_schwarz("cs", a, b)
    t = a.angle(b)
    h.eq("symmetric", b.angle(a), t, ctol=1e-6)
    h.eq("scale free", a.scaled(k).angle(b), t, ctol=1e-6)


@SCENARIOS.add()
def known_angles(h):
    """a vector at a given angle from another one (angle in [0, pi])"""
    u = h.direction("u")
    t = h.angle("t", 0, PI)
    ra, rb = h.real("ra", h.dec("1e-6"), 10**9), h.real("rb", h.dec("1e-6"), 10**9)
    w = h.free("w", -1, 1)
    p = u.cross(w)
    n = p.magnitude()
    h.assume(n >= 0.01)
    e = p.scaled(1 / n)
    b = u.scaled(h.cos(t) * rb).plus(e.scaled(h.sin(t) * rb))
    h.eq("measured", u.scaled(ra).angle(b), t, ctol=1e-6)


@SCENARIOS.add(tries=400, rounded=True)
def never_raises_for_aligned_vectors(h):
    """b = k a, |k| in [1e-6, 1e6], quotients rounded (relative error up to 4e-16)"""
    a = h.vec("a", h.dec("1e-9"), 10**12)
    k = h.real("k", h.dec("1e-6"), 10**6)
    s = h.choice("sense", (1, -1))
    b = a.scaled(k * s)
    h.rounding("4e-16")
    t = a.angle(b)
    h.le("at least 0", 0, t)
    h.le("at most pi", t, h.pi)
    h.le("along the line", 1 - h.dec("1e-12"), h.cos(t) * s)


@SCENARIOS.add()
def exactly_aligned(h):
    """b = k a: angle 0 for k > 0, pi for k < 0"""
    a = h.vec("a", h.dec("1e-9"), 10**12)
    k = h.real("k", h.dec("1e-6"), 10**6)
    h.eq("parallel", a.angle(a.scaled(k)), 0, ctol=1e-6)
    h.eq("opposite", a.angle(a.scaled(-k)), h.pi, ctol=1e-6)


@SCENARIOS.add()
def perpendicular(h):
    """b perpendicular to a"""
    a, w = h.vec("a", 0.1, 100), h.vec("w", 0.1, 100)
    b = a.cross(w)
    h.assume(b.dot(b) >= h.dec("0.0001"))
    h.eq("right angle", a.angle(b), h.pi / 2, ctol=1e-6)


SCENARIOS.again()

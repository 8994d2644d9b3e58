"""C27 Gauss two-position orbit determination"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
TWO_PI = 2 * PI
ASSUMPTIONS = [
    "positions less than 180 degrees apart, not collinear; the orbit through them is an ellipse",
    "the elements are decided for an arbitrary sector-triangle ratio handed in by the ratio solver; the solver is decided separately on arbitrary "
    "functions whose difference quotients lie in [-4, -1/4], within the stated number of secant steps",
]


def observation(h, t, r):
    Base = h.mod("openspace.estimation.obs").Observation

    class Seen(Base):
        def __init__(self):
            super().__init__()

        def epoch(self):
            return h.Epoch(t)

        def ijk_position(self):
            return h.V(*h.lst(r))

    return Seen()


def axes(h, i, o):
    n = h.V(h.cos(o), h.sin(o), 0)
    m = h.V(-h.sin(o) * h.cos(i), h.cos(o) * h.cos(i), h.sin(i))
    return n, m


def plane(h, equator=None):
    if equator is None:
        i = h.angle("inc", 0.0001, 3.1414)
        o = h.angle("raan", 0, TWO_PI, hi_open=True)
    u = h.angle("u", 0, TWO_PI, hi_open=True)
    d = h.angle("separation", 0.001, 3.14)
    if equator is None:
        n, m = axes(h, i, o)
        h.nonneg(h.sin(i))
    else:
        i, o, n, m = h.pi * (1 - equator) / 2, None, h.V(1, 0, 0), h.V(0, equator, 0)
    h.nonneg(h.sin(d))
    rad = n.scaled(h.cos(u)).plus(m.scaled(h.sin(u)))
    tan = n.scaled(-h.sin(u)).plus(m.scaled(h.cos(u)))
    return i, o, u, d, rad, tan


def elements(h, equator=None, level=False):
    """any plane (also exactly equatorial), radii, separation, time and sector-triangle ratio: the orbit in that plane, with that semi-parameter, through both positions, at the first epoch; also with the first position 90 degrees from perigee"""
    i, o, u, d, rad, tan = plane(h, equator)
    ra, rb = h.real("ra", 1000, 1000000), h.real("rb", 1000, 1000000)
    pa = rad.scaled(ra)
    pb = rad.scaled(rb * h.cos(d)).plus(tan.scaled(rb * h.sin(d)))
    t, dt = h.real("mjd", 0, 100000), h.real("dt", 0.0001, 100)
    if level:
        t, dt = h.q(50000), h.q(1, 8)
    mu = h.Earth.MU
    tau = h.sqrt(mu) * dt * 86400
    p = ra if level else h.real("p", 100, 1000000)
    ratio = h.sqrt(p) * tau / (ra * rb * h.sin(d))
    calls = []

    def solve(m, l, *guess):
        calls.append(1)
        # 2 (ra rb + ra.rb) = base
        base = 2 * ra * rb * (1 + h.cos(d))
        sq = h.sqrt(base)
        h.eq("m", m * base * sq / (tau * tau), 1, ctol=1e-6)
        h.eq("l", l * 2 * sq, ra + rb - sq, scale=1e5)
        return ratio

    h.stub(h.Gauss, "solve_nu", solve, needed=True)
    h.no_domain_errors()
    # eccentricity vector in the directions of the first position and 90 degrees ahead
    ec = p / ra - 1
    es = (ec * h.cos(d) - (p / rb - 1)) / h.sin(d)
    h.assume(ec * ec + es * es < h.dec("0.98"))
    h.assume(ec * ec + es * es > h.dec("0.000000001"))
    el = h.Gauss.coes_from_positions(observation(h, t, pa), observation(h, t + dt, pb))
    e, w = el.eccentricity, el.argument_of_perigee
    h.true("ratio solved once", len(calls) == 1)
    h.eq("epoch", el.epoch.value, t)
    h.eq("inclination", el.inclination, i, ctol=1e-6)
    if equator is None:
        h.eq("node", el.raan, o, angle=True, ctol=1e-6)
    else:
        # u is counted from the x axis, the argument of perigee from whatever node is reported
        u = u - equator * el.raan
    h.le("node at least 0", 0, el.raan)
    h.eq("eccentricity", e * e, ec * ec + es * es, ctol=1e-6)
    h.eq("semi-major axis", el.semimajor_axis * (1 - ec * ec - es * es), p, scale=1e5, ctol=1e-2)
    h.eq("perigee (cos)", e * h.cos(u - w), ec, ctol=1e-6)
    h.eq("perigee (sin)", e * h.sin(u - w), es, ctol=1e-6)
    k = 1 - ec * ec - es * es
    ee = h.sqrt(ec * ec + es * es)
    E = h.m.atan2(h.sqrt(k) * es / ee, ec / ee + ee)
    h.eq("mean anomaly", el.mean_anomaly, E - ee * h.sin(E), angle=True, ctol=1e-6)


SCENARIOS.many(elements, [("elements", ()), ("elements_equatorial", (1,)), ("elements_retrograde", (-1,))], weight=4)
SCENARIOS.many(elements, [("elements_at_right_angles", (None, True))], weight=4, rounded=True)


@SCENARIOS.add()
def ratio_equation(h):
    """f(n) = 1 - n + (m/n^2) W(m/n^2 - l) with W(sin^2(g/2)) = (2g - sin 2g) / sin^3 g, for any m, l, n"""
    g2 = h.angle("half g", 0.001, 1.57)
    n, l = h.real("n", 0.1, 30), h.real("l", 0, 20)
    s = h.sin(g2)
    g = 2 * g2
    W = (2 * g - h.sin(2 * g)) / (h.sin(g) * h.sin(g) * h.sin(g))
    h.nonneg(s)
    h.eq("W", h.Gauss.w_of_omega(s * s), W, ctol=1e-4 * (1 if h.symbolic else abs(W)))
    m = (s * s + l) * n * n
    h.eq("f", h.Gauss.f_of_nu(n, m, l), 1 - n + m / (n * n) * W, ctol=1e-4 * (1 if h.symbolic else abs(W)))


@SCENARIOS.add(weight=3)
def kepler_orbits_solve_it(h):
    """any ellipse and two points on it less than 180 degrees apart: the true sector-triangle ratio is a root of f"""
    a = h.real("a", 1000, 1000000)
    e = h.real("e", 0, 0.95)
    G = h.angle("mean E", 0, TWO_PI, hi_open=True)
    q = h.angle("quarter difference", 0.05, 0.7)
    h.split_angles()
    g = 2 * q
    E1, E2 = G - g, G + g
    r1, r2 = a * (1 - e * h.cos(E1)), a * (1 - e * h.cos(E2))
    eta = h.sqrt(1 - e * e)
    half = a * (h.cos(g) - e * h.cos(G))
    h.assume(h.cos(g) - e * h.cos(G) > h.dec("0.01"))
    # sqrt(r1 r2) cos(half the angle in between)
    dot = a * a * ((h.cos(E1) - e) * (h.cos(E2) - e) + eta * eta * h.sin(E1) * h.sin(E2))
    h.eq("half-angle identity", 2 * (r1 * r2 + dot), 4 * half * half, scale=1e10)
    cross = a * a * eta * ((h.cos(E1) - e) * h.sin(E2) - (h.cos(E2) - e) * h.sin(E1))
    tau = a * h.sqrt(a) * (2 * g - e * (h.sin(E2) - h.sin(E1)))
    n = h.sqrt(a) * eta * tau / cross
    m = tau * tau / (8 * half * half * half)
    l = (r1 + r2) / (4 * half) - h.q(1, 2)
    h.nonneg(h.sin(q))
    h.nonneg(h.sin(g))
    h.no_domain_errors()
    if h.symbolic:
        h.eq("omega", m / (n * n) - l, h.sin(q) * h.sin(q))
    f = h.Gauss.f_of_nu(n, m, l)
    h.eq("root", f, 0, ctol=1e-5 * (1 if h.symbolic else 1 + abs(n)))


def secant(h, x0, x1):
    """start values any, function arbitrary with difference quotients in [-4, -1/4]: what is returned is a root to within tolerance"""
    s0 = h.real("f0", -1, 1)
    pts = []

    def f(n, m, l):
        h.eq("m passed on", m, M)
        h.eq("l passed on", l, L)
        for a, v in pts:
            if same(a, n):
                return v
        k = len(pts)
        # after K arbitrary slopes the function continues as a straight line
        slope = h.real(f"slope{min(k, 6 if h.thorough else 4)}", -4, -0.25)
        v = s0 if not pts else pts[-1][1] + slope * (n - pts[-1][0])
        if not h.symbolic:  # the encoding bounds consecutive quotients only, a larger family
            for a, w in pts:
                h.assume(-4.1 * abs(n - a) <= (v - w) * (1 if n > a else -1) <= -0.24 * abs(n - a) + 1e-15)
        pts.append((n, v))
        return v

    def same(a, b):
        if not h.symbolic:
            return a == b
        z = h.C.Sym.of(a) - h.C.Sym.of(b)
        return not z.num

    M, L = h.real("m", 0.1, 10), h.real("l", 0.1, 2)
    h.stub(h.Gauss, "f_of_nu", f, needed=True)
    h.iterative()
    h.no_domain_errors()
    a, b = h.real("start 0", 0.5, 3), h.real("start 1", 0.5, 3)
    h.assume(a - b > h.q(1, 100))
    n = h.Gauss.solve_nu(M, L, a, b)
    v = f(n, M, L)
    t = h.q(1, 10**11)
    h.true("root", h.And(v <= t, -t <= v)) if h.symbolic else h.eq("root", v, 0, ctol=1e-9)


SCENARIOS.many(secant, [("secant", (0, 0))], loop=True, branch_ms=200, budget=25, max_depth=14, bounds="four (thorough: six) arbitrary slopes, then straight")


SCENARIOS.again(skip=("secant", "elements_equatorial", "elements_retrograde"))

"""C07 anomalies and orbit angles"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793


def in_turn(h, label, x):
    h.le(label + " at least 0", 0, x)
    h.lt(label + " below 2 pi", x, 2 * h.pi)


@SCENARIOS.add()
def true_anomaly(h):
    """e in [0, 0.999999], E in [0, 2pi)"""
    Q = h.EquationsOfMotion
    e, E = h.real("e", 0, 0.999999), h.angle("E", 0, 2 * PI, hi_open=True)
    nu = Q.NU.from_e_ea(e, E)
    in_turn(h, "nu", nu)
    k = 1 - e * h.cos(E)
    h.eq("cos nu", h.cos(nu) * k, h.cos(E) - e)
    h.eq("sin nu", h.sin(nu) * k, h.sqrt(1 - e * e) * h.sin(E))


@SCENARIOS.add()
def mean_anomaly(h):
    """e in [0, 0.999999], E in [0, 2pi)"""
    Q = h.EquationsOfMotion
    e, E = h.real("e", 0, 0.999999), h.angle("E", 0, 2 * PI, hi_open=True)
    M = Q.MA.from_ea_e(E, e)
    h.eq("Kepler's equation", M, E - e * h.sin(E))
    h.le("M at least 0", 0, M)


@SCENARIOS.add()
def mean_anomaly_negative(h):
    """e in [0, 0.999999], E in (-pi, 0): the result is the equivalent positive angle"""
    Q = h.EquationsOfMotion
    e, E = h.real("e", 0, 0.999999), h.angle("E", -PI, 0, lo_open=True, hi_open=True)
    M = Q.MA.from_ea_e(E, e)
    h.eq("Kepler's equation", M, E - e * h.sin(E) + 2 * h.pi)


@SCENARIOS.add()
def eccentric_anomaly_from_state(h):
    """a in [1, 1e9], e in [1e-5, 0.99999], E in [0, 2pi), mean motion in [1e-9, 1]"""
    Q = h.EquationsOfMotion
    a, e, E = h.real("a", 1, 100000), h.real("e", 0.001, 0.999999), h.angle("E", 0, 2 * PI, hi_open=True)
    n = h.real("n", h.dec("1e-9"), 1)
    r = a * (1 - e * h.cos(E))
    rdv = a * a * n * e * h.sin(E)
    got = Q.EA.from_rdv_r_a_n(rdv, r, a, n)
    in_turn(h, "E", got)
    h.eq("E", got, E, angle=True, ctol=1e-6)


@SCENARIOS.add()
def argument_of_perigee(h):
    """u, nu in [0, 2pi)"""
    Q = h.EquationsOfMotion
    u, nu = h.angle("u", 0, 2 * PI, hi_open=True), h.angle("nu", 0, 2 * PI, hi_open=True)
    w = Q.W.from_u_nu(u, nu)
    in_turn(h, "w", w)
    h.true("difference", h.Or(*[(w - (u - nu) - 2 * k * h.pi) * (w - (u - nu) - 2 * k * h.pi) <= h.dec("1e-18") for k in (0, 1)]))


@SCENARIOS.add()
def plane_angles(h):
    """node in [0, 2pi), inclination in (0, pi), argument of latitude in [0, 2pi)"""
    Q = h.EquationsOfMotion
    o = h.angle("raan", 0, 2 * PI, hi_open=True)
    i = h.angle("inc", 0, PI, lo_open=True, hi_open=True)
    u = h.angle("u", 0, 2 * PI, hi_open=True)
    r = h.real("r", 1, 10**9)
    so, co, si, ci, su, cu = h.sin(o), h.cos(o), h.sin(i), h.cos(i), h.sin(u), h.cos(u)
    w = h.V(si * so, -si * co, ci)
    pos = h.V(co * cu - so * ci * su, so * cu + co * ci * su, si * su).scaled(r)
    gi, go, gu = Q.I.from_w(w), Q.RAAN.from_w(w), Q.U.from_r_w(pos, w)
    h.le("i at least 0", 0, gi)
    h.le("i at most pi", gi, h.pi)
    in_turn(h, "raan", go)
    in_turn(h, "u", gu)
    h.eq("i", gi, i, ctol=1e-6)
    h.eq("raan", go, o, angle=True, ctol=1e-6)
    h.eq("u", gu, u, angle=True, ctol=1e-6)


def kepler(h, lo, hi, emax):
    """Newton's iteration for Kepler's equation"""
    Q = h.EquationsOfMotion
    e = h.real("e", 0, emax)
    M = h.real("M", lo, hi)
    h.iterative()
    E = Q.EA.from_ma_e(M, e)
    h.slopes()
    r = E - e * h.sin(E) - M
    t = h.dec("1e-11")
    if not h.symbolic:
        t = 1e-9
    h.true(
        "Kepler's equation",
        h.Or(*[h.And(r - 2 * k * h.pi <= t, -t <= r - 2 * k * h.pi) for k in (-1, 0, 1)]),
    )
    h.le("E at least 0", 0, E)


SCENARIOS.many(
    kepler,
    [("kepler_low_e_first_half", (0, PI, 0.3)), ("kepler_low_e_second_half", (PI, 2 * PI, 0.3)),
     ("kepler_high_e", (0, 2 * PI, 0.99)), ("kepler_negative", (-PI, 0, 0.5))],
    loop=True, max_depth=12, budget=30, branch_ms=100, bounds="up to about 6 Newton iterations",
)


SCENARIOS.again(skip=("kepler_low_e_second_half", "kepler_high_e",))

"""C06 conic and orbit relations"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793


@SCENARIOS.add()
def ellipse_geometry(h):
    """a in [1e-3, 1e10], e in [0, 0.999999]"""
    Q = h.EquationsOfMotion
    a, e = h.real("a", h.dec("0.001"), 10**10), h.real("e", 0, 0.999999)
    b, p = Q.B.from_a_e(a, e), Q.P.from_a_e(a, e)
    h.le("b not negative", 0, b)
    h.eq("b", b * b / (a * a), 1 - e * e)
    h.eq("p", p / a, 1 - e * e)
    h.eq("p from a, b", Q.P.from_a_b(a, b) / a, p / a)
    h.eq("e from a, b", Q.E.from_a_b(a, b), e, ctol=1e-6)
    h.eq("e from a, p", Q.E.from_a_p(a, p), e, ctol=1e-6)
    h.eq("e from a, c", Q.E.from_a_c(a, a * e), e)
    h.eq("flattening", Q.F.from_a_b(a, b), 1 - b / a)


@SCENARIOS.add()
def eccentricity_domain(h):
    """e computed from any elliptic a, p (p <= a) is a number in [0, 1]"""
    Q = h.EquationsOfMotion
    a = h.real("a", h.dec("0.001"), 10**10)
    k = h.real("k", 0, 1)
    e = Q.E.from_a_p(a, a * k)
    h.le("at least 0", 0, e)
    h.le("at most 1", e, 1)


@SCENARIOS.add(tries=400)
def circular_orbit_never_raises(h):
    """p = a up to rounding of the quotient (relative error up to 4e-16)"""
    Q = h.EquationsOfMotion
    a = h.real("a", 100, 10**6)
    mu = h.real("mu", 1000, 10**7)
    v = h.sqrt(mu / a)
    sma = Q.A.from_mu_r_v(mu, a, v)
    p = Q.P.from_mu_h(mu, a * v)
    h.rounding("4e-16")
    e = Q.E.from_a_p(sma, p)
    h.le("about 0", e, h.dec("0.000001"))


@SCENARIOS.add()
def vis_viva(h):
    """mu in [1e-3, 1e12], r in [1e-3, 1e10], elliptic speeds"""
    Q = h.EquationsOfMotion
    mu, r, v = h.real("mu", h.dec("0.001"), 10**12), h.real("r", h.dec("0.001"), 10**10), h.real("v", h.dec("1e-6"), 10**4)
    h.assume(v * v * r <= h.dec("1.99") * mu)
    a = Q.A.from_mu_r_v(mu, r, v)
    h.eq("vis-viva", v * v * r / mu, 2 - r / a)
    h.lt("a positive", 0, a)
    xi = Q.XI.from_mu_r_v(mu, r, v)
    h.eq("energy", xi * r / mu, v * v * r / (2 * mu) - 1)
    h.eq("energy from a", Q.XI.from_mu_a(mu, a) * r / mu, xi * r / mu)
    va, vx = Q.V.from_a_mu_r(a, mu, r), Q.V.from_mu_r_xi(mu, r, xi)
    h.eq("speed from a", va * va * r / mu, v * v * r / mu)
    h.le("not negative", 0, va)
    h.eq("speed from energy", vx * vx * r / mu, v * v * r / mu)
    h.le("nor this", 0, vx)


@SCENARIOS.add()
def periods(h):
    """mu in [1e-3, 1e12], a in [1e-3, 1e10]"""
    Q = h.EquationsOfMotion
    mu, a = h.real("mu", h.dec("0.001"), 10**12), h.real("a", h.dec("0.001"), 10**10)
    n, tau = Q.N.from_a_mu(a, mu), Q.TAU.from_a_mu(a, mu)
    h.lt("n positive", 0, n, scale=1e-12)
    h.eq("Kepler's third law", n * n * a * a * a / mu, 1)
    h.eq("n tau", n * tau, 2 * h.pi)
    h.eq("n from tau", Q.N.from_tau(tau) * tau, n * tau)
    h.eq("a from n", Q.A.from_mu_n(mu, n) / a, 1)
    h.eq("a from tau", Q.A.from_mu_tau(mu, tau) / a, 1)


@SCENARIOS.add()
def momentum(h):
    """mu in [1e-3, 1e12], p in [1e-3, 1e10]; vectors of norm up to 1e9"""
    Q = h.EquationsOfMotion
    mu, p = h.real("mu", h.dec("0.001"), 10**12), h.real("p", h.dec("0.001"), 10**10)
    hm = Q.H.from_mu_p(mu, p)
    h.le("h not negative", 0, hm)
    h.eq("h", hm * hm / (mu * p), 1)
    h.eq("p from h", Q.P.from_mu_h(mu, hm) / p, 1)
    r, v = h.free("r", -(10**9), 10**9), h.free("v", -1000, 1000)
    h.eqv("h vector", Q.H.from_r_v(r, v), r.cross(v), scale=1e12)
    rm, vm, phi = h.real("rm", 0, 10**9), h.real("vm", 0, 1000), h.angle("phi", -PI, PI)
    h.eq("h from flight path angle", Q.H.from_r_v_phi(rm, vm, phi), rm * vm * h.cos(phi), scale=1e12)


@SCENARIOS.add()
def conic_radius_and_speed(h):
    """e in [0, 0.999], nu anywhere, p in [1e-3, 1e10], mu in [1e-3, 1e12]"""
    Q = h.EquationsOfMotion
    mu, p, e = h.real("mu", h.dec("0.001"), 10**12), h.real("p", h.dec("0.001"), 10**10), h.real("e", 0, 0.999)
    nu = h.angle("nu", -PI, 2 * PI)
    R = h.mod("openspace.math.functions").Radius
    r = R.from_p_e_nu(p, e, nu)
    h.eq("conic", r * (1 + e * h.cos(nu)) / p, 1)
    h.lt("r positive", 0, r)
    a = p / (1 - e * e)
    v = Q.V.from_mu_r_e_nu(mu, r, e, nu)
    h.le("v not negative", 0, v)
    h.eq("speed", v * v * r / mu, 2 - r / a)
    w = Q.V.from_a_mu_r(a, mu, r)
    h.eq("speed agrees with vis-viva", v * v * r / mu, w * w * r / mu)


@SCENARIOS.add()
def geostationary_radius(h):
    """one orbit at the geostationary radius takes one sidereal day"""
    Q = h.EquationsOfMotion
    r = h.Earth.geo_radius()
    day = h.mod("openspace.math.constants").SECONDS_IN_SIDEREAL_DAY
    h.eq("period", Q.TAU.from_a_mu(r, h.Earth.MU), day, tol="0.000001", ctol=1e-4)
    h.eq("radius", r, h.dec("42164.17"), tol="0.05")


SCENARIOS.again(skip=("vis_viva",))

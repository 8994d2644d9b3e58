"""C12 geodetic coordinates"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
ASSUMPTIONS = [
    "the closed-form inverse (Vallado/Montenbruck 2.77) is decided by refinement against an independent "
    "transcription of the published formula, not by re-deriving its accuracy",
]


def ellipsoid(h):
    a = h.Earth.RADIUS
    f = h.Earth.FLATTENING
    return a, f, f * (2 - f)


@SCENARIOS.add()
def forward(h):
    """every latitude and longitude, altitude -6000 to 1e6 km: the point lies alt along the ellipsoid normal"""
    lat, lon = h.angle("lat", -PI / 2, PI / 2), h.angle("lon", -PI, 2 * PI)
    alt = h.real("alt", -6000, 10**6)
    a, f, e2 = ellipsoid(h)
    g = h.PositionConvert.lla.to_itrf(h.LLA(lat, lon, alt))
    n = h.V(h.cos(lat) * h.cos(lon), h.cos(lat) * h.sin(lon), h.sin(lat))
    s = g.minus(n.scaled(alt))
    b2 = a * a * (1 - e2)
    h.eq("surface point on the ellipsoid", (s.x * s.x + s.y * s.y) * b2 + s.z * s.z * a * a, a * a * b2, scale=1e16)
    # the gradient of the ellipsoid is parallel to the normal and points outwards
    grad = h.V(s.x * (1 - e2), s.y * (1 - e2), s.z)
    h.eqv("normal to the ellipsoid", grad.cross(n), h.V(0, 0, 0), scale=1e5)
    h.lt("outwards", 0, grad.dot(n))


@SCENARIOS.add()
def earth_figure(h):
    """WGS84 semi-major axis and flattening"""
    h.eq("equatorial radius", h.Earth.RADIUS, h.dec("6378.137"), ctol=1e-9)
    h.eq("flattening", 1 / h.Earth.FLATTENING, h.dec("298.2572235"), tol="0.0000001", ctol=1e-6)


def published(h, x, y, z):
    """equations 2.77a-g, from the book: geodetic latitude (sine) and altitude"""
    a, f, e2 = ellipsoid(h)
    b = a * (1 - f)
    eps2 = a * a / (b * b) - 1
    rho = h.sqrt(x * x + y * y)
    south = bool(z < 0)
    p = (-z if south else z) / eps2
    s = rho * rho / (e2 * eps2)
    q = p * p - b * b + s
    rq = h.sqrt(q)
    u = p / rq
    v = b * b * u * u / q
    cp = 27 * v * s / q
    cq = (h.sqrt(cp + 1) + h.sqrt(cp)) ** h.q(2, 3)
    t = (1 + cq + 1 / cq) / 6
    c = h.sqrt(u * u - 1 + 2 * t)
    w = (c - u) / 2
    k = h.sqrt(t * t + v) - u * w - t / 2 - h.q(1, 4)
    d = rq * (w + (h.sqrt(k) if k >= 0 else 0))
    n = a * h.sqrt(1 + eps2 * d * d / (b * b))
    sl = (eps2 + 1) * d / n
    if sl > 1:
        sl = 1
    cl = h.sqrt(1 - sl * sl)
    return (-sl if south else sl), rho * cl + (-z if south else z) * sl - a * a / n


def inverse(h, xl, xh, zl, zh):
    """points 6300 to 500000 km from the centre, near the equatorial plane, near the polar axis and in between (at least 10 m from
    both); arguments of roots assumed non-negative"""
    hemi = h.choice("south", [1, -1])
    x, y = h.real("x", xl, xh), h.real("y", -xh, xh)
    z = h.real("z", zl, zh)
    h.assume(x * x + y * y + z * z >= 6300 * 6300)
    h.no_domain_errors()
    g = h.PositionConvert.itrf.to_lla(h.V(x, y, z * hemi))
    sl, alt = published(h, x, y, z * hemi)
    h.eq("latitude", h.sin(g.latitude), sl, ctol=1e-4)
    h.eq("altitude", g.altitude, alt, ctol=1)
    h.le("latitude at most 90 degrees", g.latitude, h.pi / 2)
    h.le("latitude at least -90 degrees", -h.pi / 2, g.latitude)
    rho = h.sqrt(x * x + y * y)
    h.eq("longitude (cos)", h.cos(g.longitude) * rho, x, scale=1e4)
    h.eq("longitude (sin)", h.sin(g.longitude) * rho, y, scale=1e4)
    h.le("longitude at least 0", 0, g.longitude)
    h.lt("longitude below a turn", g.longitude, 2 * h.pi)


SCENARIOS.many(inverse, [("inverse", (1, 56000, 1, 56000)), ("inverse_far", (1, 500000, 1, 500000)),
                         ("inverse_near_equator", (1, 60000, 0.01, 100)), ("inverse_near_pole", (0.01, 100, 6300, 60000))],
               weight=8, branch_ms=100, prove_ms=1000, budget=60)


@SCENARIOS.add(weight=5)
def inverse_at_surface_axes(h):
    """points on the equator, any longitude, altitude 1 to 490000 km"""
    lon = h.angle("lon", 0, 2 * PI, hi_open=True)
    r = h.real("r", 6379, 500000)
    h.nonneg(r)
    g = h.PositionConvert.itrf.to_lla(h.V(r * h.cos(lon), r * h.sin(lon), 0 * r))
    h.eq("latitude", g.latitude, 0, ctol=1e-6)
    h.eq("longitude", g.longitude, lon, angle=True, ctol=1e-6)
    h.le("longitude at least 0", 0, g.longitude)
    h.lt("longitude below a turn", g.longitude, 2 * h.pi)
    h.eq("altitude", g.altitude, r - h.Earth.RADIUS, scale=1e4)


@SCENARIOS.add(weight=5)
def inverse_at_poles(h):
    """points on the polar axis, altitude 1 to 490000 km"""
    z = h.real("z", 6360, 500000)
    s = h.choice("south", [1, -1])
    g = h.PositionConvert.itrf.to_lla(h.V(0, 0, z * s))
    a, f, e2 = ellipsoid(h)
    h.eq("latitude", g.latitude, h.pi / 2 * s, ctol=1e-6)
    h.eq("altitude", g.altitude, z - a * (1 - f), scale=1e4)


SCENARIOS.again(skip=("inverse_near_equator", "inverse_far", "inverse_near_pole",))

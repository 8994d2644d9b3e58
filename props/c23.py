"""C23 detection"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
ASSUMPTIONS = [
    "Sun and Moon positions are arbitrary functions of the epoch",
    "observer, target, Sun and Moon are at different places (angles are defined); magnitudes where the target is not exactly towards the Sun",
]


def sky(h):
    h.stub(h.Sun, "get_position", lambda e: h.V(*[h.ufunc(f"sun{c}", e.value, lo=-150000000, hi=150000000) for c in "xyz"]))
    h.stub(h.Moon, "get_position", lambda e: h.V(*[h.ufunc(f"moon{c}", e.value, lo=-600000, hi=600000) for c in "xyz"]))


def pair(h):
    sky(h)
    e = h.Epoch(h.real("mjd", 0, 100000))
    r = h.vec("r", 6400, 1000000)
    d = h.vec("d", 0.001, 1000000)
    a = h.flown(h.GCRF(e, r, h.free("v", -10, 10)))
    b = h.flown(h.GCRF(e, h.V(r.x + d.x, r.y + d.y, r.z + d.z), h.free("w", -10, 10)), "target ")
    h.no_domain_errors()
    for n, p in (("sun", h.Sun.get_position(e)), ("moon", h.Moon.get_position(e)), ("earth", h.V(0, 0, 0))):
        h.cauchy_schwarz(n, h.V(p.x - r.x, p.y - r.y, p.z - r.z), h.V(d.x, d.y, d.z))
    return e, r, d, a, b


@SCENARIOS.add()
def angles(h):
    """range and the angles of the target from Sun, Moon and Earth, seen from the observer"""
    e, r, d, a, b = pair(h)
    h.eqv("target vector", a.target_vector(b), d, scale=1e4)
    h.eq("range", a.range(b), d.magnitude(), scale=1e4)
    s, m = h.Sun.get_position(e), h.Moon.get_position(e)
    for n, ang, p in (("sun", a.sun_angle(b), s), ("moon", a.moon_angle(b), m), ("earth", a.earth_angle(b), h.V(0, 0, 0))):
        u = h.V(p.x - r.x, p.y - r.y, p.z - r.z)
        h.eq(n, ang, u.angle(h.V(d.x, d.y, d.z)), ctol=1e-5)
    h.eqv("vector to earth", a.earth_vector(), h.V(-r.x, -r.y, -r.z), scale=1e4)


@SCENARIOS.add()
def magnitude(h):
    """any target size, albedo, distance and phase"""
    e, r, d, a, b = pair(h)
    a.body_radius, a.albedo = h.real("own size", 0.00001, 1), h.real("own albedo", 0.001, 1)
    size, alb = h.real("size", 0.00001, 1), h.real("albedo", 0.001, 1)
    b.body_radius, b.albedo = size, alb
    phi = h.pi - a.sun_angle(b)
    dist = d.magnitude()
    if not h.symbolic:
        h.assume(phi < 3.14)
    flux = h.q(2, 3) * alb * size * size / (h.pi * dist * dist) * (h.sin(phi) + (h.pi - phi) * h.cos(phi))
    h.eq("magnitude", a.visual_magnitude(b), -h.dec("26.74") - h.dec("2.5") * h.log(flux) / h.log(10), ctol=1e-5)


def limits(h, cam):
    cam.limits.sun_soft = h.real("sun limit", 0, 3.2)
    cam.limits.earth = h.real("earth limit", 0, 3.2)
    cam.limits.moon = h.real("moon limit", 0, 3.2)
    cam.limits.vismag = h.real("magnitude limit", -30, 60)
    cam.limits.bore = h.real("bore limit", 0, 3.2)


@SCENARIOS.add(weight=3, max_paths=200)
def detect(h):
    """any geometry, pointing and limits: detected exactly when all five constraints hold"""
    e, r, d, a, b = pair(h)
    limits(h, a.wfov)
    z = h.vec("bore", 0.5, 2)
    a.body_z = z
    a.slewing = h.choice("slewing", (False, True))
    h.cauchy_schwarz("bore", z, h.V(d.x, d.y, d.z))
    if not h.symbolic:
        h.assume(h.pi - a.sun_angle(b) < 3.14)
    got = a.detect(b)
    l = a.wfov.limits
    ok = (
        bool(a.sun_angle(b) >= l.sun_soft)
        and bool(a.earth_angle(b) >= l.earth)
        and bool(a.moon_angle(b) >= l.moon)
        and bool(a.visual_magnitude(b) <= l.vismag)
        and bool(z.angle(a.target_vector(b)) <= l.bore)
    )
    h.eq("detected", bool(got), ok)
    h.true("a flag", got is True or got is False or (h.symbolic and isinstance(got, h.C.SymBool)))


@SCENARIOS.add()
def detect_at_the_limits(h):
    """every constraint exactly at its limit still counts as holding"""
    e, r, d, a, b = pair(h)
    z = h.vec("bore", 0.5, 2)
    a.body_z = z
    h.cauchy_schwarz("bore", z, h.V(d.x, d.y, d.z))
    if not h.symbolic:
        h.assume(h.pi - a.sun_angle(b) < 3.14)
    l = a.wfov.limits
    l.sun_soft, l.earth, l.moon = a.sun_angle(b), a.earth_angle(b), a.moon_angle(b)
    l.vismag, l.bore = a.visual_magnitude(b), z.angle(a.target_vector(b))
    h.boundary("detected", a.detect(b))


@SCENARIOS.add()
def detection_reads_only(h):
    """detecting changes neither spacecraft"""
    e, r, d, a, b = pair(h)
    limits(h, a.wfov)
    if not h.symbolic:
        h.assume(h.pi - a.sun_angle(b) < 3.14)
    z0 = h.lst(a.body_z)
    zb = h.lst(b.body_z)
    a.detect(b)
    h.eqv("observer position", a.position(), r, scale=1e4)
    h.eqv("target position", b.position(), h.V(r.x + d.x, r.y + d.y, r.z + d.z), scale=1e4)
    h.eql("observer pointing", h.lst(a.body_z), z0, scale=1e4)
    h.eql("target pointing", h.lst(b.body_z), zb, scale=1e4)
    h.eq("bore limit", a.wfov.limits.bore, h.real("bore limit", 0, 3.2))


SCENARIOS.again()

"""C05 spherical and cartesian coordinates"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793


@SCENARIOS.add()
def cartesian_round_trip(h):
    """components in [-1e12, 1e12], axes and origin included"""
    v = h.free("v", -(10**12), 10**12)
    v0 = h.lst(v)
    s = h.SphericalPosition.from_cartesian(v)
    h.eq("radius", s.radius * s.radius, v.dot(v), scale=1e24)
    h.le("radius not negative", 0, s.radius)
    h.le("ra at least 0", 0, s.right_ascension)
    h.lt("ra below 2 pi", s.right_ascension, 2 * h.pi)
    h.le("dec at least -pi/2", -h.pi / 2, s.declination)
    h.le("dec at most pi/2", s.declination, h.pi / 2)
    h.eqv("round trip", s.to_cartesian(), v, scale=1e12)
    h.eql("v unchanged", h.lst(v), v0)


@SCENARIOS.add()
def spherical_round_trip(h):
    """r in [1e-6, 1e12], ra in [0, 2pi), dec in (-pi/2, pi/2)"""
    r = h.real("r", h.dec("1e-6"), 10**12)
    ra = h.angle("ra", 0, 2 * PI, hi_open=True)
    dec = h.angle("dec", -PI / 2, PI / 2, lo_open=True, hi_open=True)
    v = h.SphericalPosition(r, ra, dec).to_cartesian()
    cd = h.cos(dec)
    h.eqv("definition", v, h.V(r * cd * h.cos(ra), r * cd * h.sin(ra), r * h.sin(dec)), scale=1e12)
    s = h.SphericalPosition.from_cartesian(v)
    h.eq("r", s.radius, r, scale=1e12)
    h.eq("ra", s.right_ascension, ra, ctol=1e-6, angle=True)
    h.eq("dec", s.declination, dec, ctol=1e-6)


SCENARIOS.again()

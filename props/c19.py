"""C19 Sun and Moon"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
ASSUMPTIONS = ["epochs between MJD 0 and 100000"]


def arcsec(h, s):
    return h.dec(s) * h.pi / 180 / 3600


def deg(h, s):
    return h.dec(s) * h.pi / 180


def epoch(h, name="mjd"):
    v = h.real(name, 0, 100000)
    return h.Epoch(v), (v - h.dec("51544.5")) / h.q(36525)


def sun_is(h, p, t, label=""):
    M = deg(h, "357.5256") + deg(h, "35999.049") * t
    lam = deg(h, "282.94") + M + arcsec(h, "6892") * h.sin(M) + arcsec(h, "72") * h.sin(2 * M)
    r = (h.dec("149.619") - h.dec("2.499") * h.cos(M) - h.dec("0.021") * h.cos(2 * M)) * 1000000
    eps = deg(h, "23.43929111")
    h.eq(label + "x", p.x, r * h.cos(lam), ctol=1)
    h.eq(label + "y", p.y, r * h.sin(lam) * h.cos(eps), tol="0.001", ctol=1)
    h.eq(label + "z", p.z, r * h.sin(lam) * h.sin(eps), tol="0.001", ctol=1)


@SCENARIOS.add()
def sun(h):
    """equations 3.43 to 3.45: longitude and distance of the Sun, obliquity of J2000"""
    e, t = epoch(h)
    sun_is(h, h.Sun.get_position(e), t)
    h.eq("astronomical unit", h.Sun.AU, h.dec("149597870.691"), ctol=1e-3)


@SCENARIOS.add()
def sun_again(h):
    """any two epochs one after the other, the first answer changed by the caller in between"""
    e, t = epoch(h)
    e2, t2 = epoch(h, "mjd2")
    p = h.Sun.get_position(e)
    p.x, p.y, p.z = p.y, p.z, p.x
    sun_is(h, h.Sun.get_position(e2), t2)
    sun_is(h, h.Sun.get_position(e), t, "first again ")


@SCENARIOS.add()
def sun_range(h):
    """distance between 147.0 and 152.2 million km and the ecliptic plane"""
    e, t = epoch(h)
    p = h.Sun.get_position(e)
    d2 = p.x * p.x + p.y * p.y + p.z * p.z
    lo, hi = 147000000, 152200000
    h.le("at least", lo * lo, d2, slack=10**9)
    h.le("at most", d2, hi * hi, slack=10**9)
    eps = deg(h, "23.43929111")
    h.eq("in the ecliptic", p.z * h.cos(eps) - p.y * h.sin(eps), 0, tol="0.001", ctol=1)
    h.eq("gravitational parameter", h.Sun.MU, h.dec("132712440041.9"), scale=1e7)
    h.eq("pressure", h.Sun.P, h.dec("0.00000456"), ctol=1e-12)


def moon_series(h, t):
    l0 = deg(h, "218.31617") + deg(h, "481267.88088") * t - deg(h, "1.3972") * t
    l = deg(h, "134.96292") + deg(h, "477198.86753") * t
    lp = deg(h, "357.52543") + deg(h, "35999.04944") * t
    f = deg(h, "93.27283") + deg(h, "483202.01873") * t
    d = deg(h, "297.85027") + deg(h, "445267.11135") * t
    s = h.sin
    a = lambda x: arcsec(h, x)
    dl = (
        a("22640") * s(l) + a("769") * s(2 * l) - a("4586") * s(l - 2 * d) + a("2370") * s(2 * d) - a("668") * s(lp)
        - a("412") * s(2 * f) - a("212") * s(2 * l - 2 * d) - a("206") * s(l + lp - 2 * d) + a("192") * s(l + 2 * d)
        - a("165") * s(lp - 2 * d) + a("148") * s(l - lp) - a("125") * s(d) - a("110") * s(l + lp) - a("55") * s(2 * f - 2 * d)
    )
    lam = l0 + dl
    beta = (
        a("18520") * s(f + dl + a("412") * s(2 * f) + a("541") * s(lp)) - a("526") * s(f - 2 * d) + a("44") * s(l + f - 2 * d)
        - a("31") * s(-l + f - 2 * d) - a("25") * s(-2 * l + f) - a("23") * s(lp + f - 2 * d) + a("21") * s(-l + f)
        + a("11") * s(-lp + f - 2 * d)
    )
    c = h.cos
    r = (
        385000 - 20905 * c(l) - 3699 * c(2 * d - l) - 2956 * c(2 * d) - 570 * c(2 * l) + 246 * c(2 * l - 2 * d)
        - 205 * c(lp - 2 * d) - 171 * c(l + 2 * d) - 152 * c(l + lp - 2 * d)
    )
    return lam, beta, r


def moon_is(h, p, t, label=""):
    lam, beta, r = moon_series(h, t)
    eps = deg(h, "23.43929111")
    x, y, z = r * h.cos(lam) * h.cos(beta), r * h.sin(lam) * h.cos(beta), r * h.sin(beta)
    h.eq(label + "x", p.x, x, tol="0.001", ctol=0.05)
    h.eq(label + "y", p.y, y * h.cos(eps) - z * h.sin(eps), tol="0.001", ctol=0.05)
    h.eq(label + "z", p.z, y * h.sin(eps) + z * h.cos(eps), tol="0.001", ctol=0.05)


@SCENARIOS.add()
def moon(h):
    """equations 3.47 to 3.51 with the longitude referred to J2000"""
    e, t = epoch(h)
    moon_is(h, h.Moon.get_position(e), t)
    h.eq("radius", h.Moon.RADIUS, h.dec("1737.4"), ctol=1e-9)


@SCENARIOS.add()
def moon_again(h):
    """any two epochs one after the other, the first answer changed by the caller in between"""
    e, t = epoch(h)
    e2, t2 = epoch(h, "mjd2")
    p = h.Moon.get_position(e)
    p.x, p.y, p.z = p.y, p.z, p.x
    moon_is(h, h.Moon.get_position(e2), t2)
    moon_is(h, h.Moon.get_position(e), t, "first again ")


@SCENARIOS.add()
def moon_range(h):
    """distance between 356 000 and 414 000 km, ecliptic latitude below 5.4 degrees"""
    e, t = epoch(h)
    p = h.Moon.get_position(e)
    d2 = p.x * p.x + p.y * p.y + p.z * p.z
    lo, hi = 356000, 414000
    h.le("at least", lo * lo, d2, slack=1000)
    h.le("at most", d2, hi * hi, slack=1000)
    eps = deg(h, "23.43929111")
    z = p.z * h.cos(eps) - p.y * h.sin(eps)
    k = h.dec("0.0942") * 414000  # sin 5.4 degrees
    h.le("latitude up", z, k, slack=1)
    h.le("latitude down", -k, z, slack=1)
    h.eq("gravitational parameter", h.Moon.MU, h.dec("4902.800305555"), scale=1)


SCENARIOS.again()

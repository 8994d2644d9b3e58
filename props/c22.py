"""C22 camera"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793


def deg(h, s):
    return h.dec(s) * h.pi / 180


def cam(h):
    px, fov = h.real("pixels", 1, 1000000), h.angle("fov", 0.00001, 1.57)
    return px, fov, h.Camera(px, fov)


@SCENARIOS.add()
def geometry(h):
    """pixel counts 1..1e6, half-angles 1e-5..1.57 rad, ranges up to 1e9 km, objects 1e-7..1000 km"""
    px, fov, c = cam(h)
    r, d = h.real("r", 0, 1000000000), h.real("d", 0.0000001, 1000)
    s, k = h.sin(fov), h.cos(fov)
    res = c.resolution(r)
    h.eq("resolution", res * 2 * px * k, r * s, scale=1e6)
    h.eq("range error", c.range_error(r, d) * d, res * r, scale=1e10)
    h.eq("tracking minimum", c.tracking_minimum(d) * s, d * k, scale=10)
    h.eq("pixels kept", c.pixels, px, scale=1e5)
    h.eq("field of view kept", c.fov, fov)


@SCENARIOS.add()
def limits(h):
    """bore limit is the half-angle; the characterisation range is where the resolution reaches 1 cm"""
    px, fov, c = cam(h)
    l = c.limits
    h.eq("bore", l.bore, fov)
    h.eq("characterisation", c.resolution(l.characterization), h.dec("0.00001"), ctol=1e-12)
    h.lt("characterisation positive", 0, l.characterization)
    h.eq("sun hard", l.sun_hard, deg(h, "60"))
    h.eq("sun soft", l.sun_soft, deg(h, "90"))
    h.eq("moon", l.moon, deg(h, "10"))
    h.eq("earth", l.earth, deg(h, "20"))
    h.eq("magnitude", l.vismag, 15)


@SCENARIOS.add()
def defaults(h):
    """the wide and narrow cameras"""
    w, n = h.Camera.wfov(), h.Camera.nfov()
    h.eq("wide pixels", w.pixels, 3072)
    h.eq("narrow pixels", n.pixels, 3072)
    h.eq("wide", w.fov, deg(h, "5"))
    h.eq("narrow", n.fov, deg(h, "0.125"))
    h.eq("wide bore", w.limits.bore, deg(h, "5"))
    h.eq("narrow bore", n.limits.bore, deg(h, "0.125"))
    r = h.real("r", 0.001, 1000000000)
    h.lt("narrow resolves better", n.resolution(r), w.resolution(r))
    h.lt("narrow characterises farther", w.limits.characterization, n.limits.characterization)
    sc = h.Spacecraft(h.GCRF(h.Epoch(h.real("mjd", 0, 100000)), h.V(r + 6500, 0, 0), h.V(0, 7, 0)))
    for lab, mine, ref in (("wide", sc.wfov, w), ("narrow", sc.nfov, n)):
        h.eq(f"spacecraft's {lab} camera pixels", mine.pixels, ref.pixels)
        h.eq(f"spacecraft's {lab} camera field of view", mine.fov, ref.fov)
        h.eq(f"spacecraft's {lab} camera bore limit", mine.limits.bore, ref.limits.bore)
        h.eq(f"spacecraft's {lab} camera resolution", mine.resolution(r), ref.resolution(r))


@SCENARIOS.add()
def independent(h):
    """changing one camera's limits or pixels leaves every other camera alone, old or new"""
    px, fov, c = cam(h)
    px2, fov2 = h.real("pixels2", 1, 1000000), h.angle("fov2", 0.00001, 1.57)
    other = h.Camera(px2, fov2)
    x = [h.real(f"n{i}", -10, 10) for i in range(7)]
    char = other.limits.characterization
    res = other.resolution(1000)
    l = c.limits
    l.sun_hard, l.sun_soft, l.moon, l.earth, l.vismag, l.bore, l.characterization = x
    c.fov, c.pixels = fov2, px2
    for lab, o, f in (("old", other, fov2), ("new", h.Camera(px2, fov2), fov2)):
        h.eq(lab + " sun hard", o.limits.sun_hard, deg(h, "60"))
        h.eq(lab + " sun soft", o.limits.sun_soft, deg(h, "90"))
        h.eq(lab + " moon", o.limits.moon, deg(h, "10"))
        h.eq(lab + " earth", o.limits.earth, deg(h, "20"))
        h.eq(lab + " magnitude", o.limits.vismag, 15)
        h.eq(lab + " bore", o.limits.bore, f)
        h.eq(lab + " characterisation", o.limits.characterization, char, scale=1)
        h.eq(lab + " resolution", o.resolution(1000), res, scale=1)
    h.eq("own limits", c.limits.moon, x[2])


SCENARIOS.again()

"""C10 time scales and Greenwich hour angle"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793


def reference(h, v):
    """equations 2.6 to 2.8: TDT is 69.184 s ahead of UTC"""
    utc = v - h.dec("69.184") / 86400
    day = h.floor(utc)
    f = utc - day
    j = (day + h.dec("2400000.5") - 2451545) / h.q(36525)
    deg = h.dec("100.4606184") + h.dec("36000.77004") * j + h.dec("0.000387933") * j * j + h.dec("360.98564724") * f
    return deg * h.pi / 180


@SCENARIOS.add()
def hour_angle(h):
    """epochs between MJD 0 and 100000"""
    v = h.real("mjd", 0, 100000)
    g = h.Epoch(v).greenwich_hour_angle()
    h.le("at least 0", 0, g)
    h.lt("below a turn", g, 2 * h.pi)
    h.eq("mean sidereal time", g, reference(h, v), angle=True, ctol=1e-6)


@SCENARIOS.add()
def two_epochs(h):
    """any two epochs between MJD 0 and 100000, one after the other: the second answer is its own"""
    v, w = h.real("mjd", 0, 100000), h.real("mjd2", 0, 100000)
    a, b = h.Epoch(v), h.Epoch(w)
    h.eq("the first", a.greenwich_hour_angle(), reference(h, v), angle=True, ctol=1e-6)
    h.eq("the second", b.greenwich_hour_angle(), reference(h, w), angle=True, ctol=1e-6)
    a.value = w + v - v
    h.eq("the first, moved", a.greenwich_hour_angle(), reference(h, w), angle=True, ctol=1e-6)


@SCENARIOS.add()
def rotation_rate(h):
    """two instants of the same UTC day: the angle grows by 360.98564724 degrees per day"""
    day = h.int("day", 10000, 90000)
    f1, f2 = h.real("f1", 0.01, 0.98), h.real("f2", 0.01, 0.98)
    off = h.dec("69.184") / 86400
    a = h.Epoch(day + f1 + off).greenwich_hour_angle()
    b = h.Epoch(day + f2 + off).greenwich_hour_angle()
    turn = 2 * h.pi * h.dec("360.98564724") / 360
    h.eq("rate", b, a + turn * (f2 - f1), angle=True, ctol=1e-6)


@SCENARIOS.add()
def next_day(h):
    """one day later the angle has grown by 1.0027379 turns"""
    v = h.real("mjd", 0, 100000)
    a = h.Epoch(v).greenwich_hour_angle()
    b = h.Epoch(v + 1).greenwich_hour_angle()
    turns = (b - a) / (2 * h.pi) - h.dec("1.0027379")
    k = h.floor(turns + h.dec("0.5")) if h.symbolic else round(turns)
    h.eq("growth", turns, k, tol="0.00000001", scale=1, ctol=1e-7)


@SCENARIOS.add()
def epochs(h):
    """values and day steps up to 1e5"""
    v, t, u = h.real("mjd", -100000, 100000), h.real("t", -100000, 100000), h.real("u", -100000, 100000)
    e = h.Epoch(v)
    h.eq("julian date", e.julian_value(), v + h.dec("2400000.5"), scale=1e6, ctol=1e-6)
    h.eq("centuries", e.julian_centuries_past_j2000() * 36525, v - h.dec("51544.5"), scale=1e6, ctol=1e-5)
    p = e.plus_days(t)
    h.eq("plus days", p.value, v + t, scale=1e5)
    h.eq("original kept", e.value, v, scale=1e5)
    h.eq("additive", p.plus_days(u).value, e.plus_days(t + u).value, scale=1e5)
    c = e.copy()
    h.fact("a new object", c is not e)
    h.eq("copied value", c.value, v, scale=1e5)
    c.value = u
    h.eq("copy independent", e.value, v, scale=1e5)


@SCENARIOS.add()
def unit_conversions(h):
    """degrees/hours up to 1000, minutes and seconds up to 10000, of either sign"""
    d, m, s = h.real("d", -1000, 1000), h.real("m", -10000, 10000), h.real("s", -10000, 10000)
    h.eq("dms", h.Conversions.dms_to_radians(d, m, s) * 180 * 3600, (d * 3600 + m * 60 + s) * h.pi, scale=1e6)
    h.eq("hms", h.Conversions.hms_to_decimal_day(d, m, s) * 86400, d * 3600 + m * 60 + s, scale=1e6)
    K = h.mod("openspace.math.constants")
    for n, k in (("SECONDS_IN_DAY", "86400"), ("HOURS_IN_DAY", "24"), ("MINUTES_IN_DAY", "1440"), ("MINUTES_IN_HOUR", "60"),
                 ("SECONDS_IN_HOUR", "3600"), ("SECONDS_IN_MINUTE", "60"), ("DEGREES_IN_HOUR", "15"), ("BASE_IN_KILO", "1000"),
                 ("SECONDS_IN_SIDEREAL_DAY", "86164.090518")):
        h.eq(n, getattr(K, n), h.dec(k), scale=1)
    x = h.real("x", -1000, 1000)
    h.true("sign", h.sign(x) * x >= 0)
    if x > 0:
        h.eq("positive", h.sign(x), 1)
    elif x < 0:
        h.eq("negative", h.sign(x), -1)
    else:
        h.eq("zero", h.sign(x), 0)


SCENARIOS.again()

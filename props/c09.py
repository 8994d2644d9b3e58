"""C09 calendar dates"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()


def month_length(h, y, m):
    if m != 2:
        return 30 if m in (4, 6, 9, 11) else 31
    leap = (y % 4 == 0) and ((y % 100 != 0) or (y % 400 == 0))
    return 29 if leap else 28


def next_month(h, m):
    """the first day of the month after month m comes one day after the last day of m, years 1583-3000"""
    y = h.int("year", 1583, 3000)
    n = month_length(h, y, m)
    last = h.Epoch.from_gregorian(y, m, n, 0, 0, 0)
    y2, m2 = (y, m + 1) if m < 12 else (y + 1, 1)
    first = h.Epoch.from_gregorian(y2, m2, 1, 0, 0, 0)
    h.eq("one day later", first.value - last.value, 1)


SCENARIOS.many(next_month, [(f"month_end_{m:02d}", (m,)) for m in range(1, 13)])


def within_month(h, m):
    """day d of a month is d - 1 days after the first, and the time of day adds its fraction, years 1583-3000"""
    y = h.int("year", 1583, 3000)
    d = h.int("day", 1, 31)
    hr, mi = h.int("hour", 0, 23), h.int("minute", 0, 59)
    s = h.real("second", 0, 60)
    a = h.Epoch.from_gregorian(y, m, 1, 0, 0, 0)
    b = h.Epoch.from_gregorian(y, m, d, hr, mi, s)
    h.eq("offset", b.value - a.value, (d - 1) + hr / h.q(24) + mi / h.q(1440) + s / h.q(86400), ctol=1e-9)


SCENARIOS.many(within_month, [(f"within_month_{m:02d}", (m,)) for m in range(1, 13)])


@SCENARIOS.add()
def anchors(h):
    """modified julian dates start on 1858-11-17; the J2000 epoch is 2000-01-01 12:00"""
    h.eq("zero", h.Epoch.from_gregorian(1858, 11, 17, 0, 0, 0).value, 0)
    s = h.real("second", 0, 60)
    e = h.Epoch.from_gregorian(2000, 1, 1, 12, 0, s)
    h.eq("J2000", e.julian_value() - s / h.q(86400), 2451545, scale=1, ctol=1e-8)
    h.eq("1600", h.Epoch.from_gregorian(1600, 1, 1, 0, 0, 0).value, -94553)


@SCENARIOS.add()
def later_dates_are_later(h):
    """two instants of the same day"""
    h1, m1, s1 = h.int("h1", 0, 23), h.int("m1", 0, 59), h.real("s1", 0, 60, hi_open=True)
    h2, m2, s2 = h.int("h2", 0, 23), h.int("m2", 0, 59), h.real("s2", 0, 60, hi_open=True)
    h.assume((h1 * 60 + m1) * 60 + s1 + h.dec("0.01") < (h2 * 60 + m2) * 60 + s2)
    a = h.Epoch.from_gregorian(2020, 7, 9, h1, m1, s1)
    b = h.Epoch.from_gregorian(2020, 7, 9, h2, m2, s2)
    h.lt("order", a.value, b.value, scale=1e-3)


SCENARIOS.again()

"""C08 classical elements <-> inertial state"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
TWO_PI = 2 * PI


def orbit(h, emin):
    """shape and plane of an orbit, position given by argument of latitude u and eccentric anomaly E"""
    a, e = h.real("a", 6000, 10**6), h.real("e", emin, 0.99)
    i = h.angle("inc", 0, PI, lo_open=True, hi_open=True)
    o = h.angle("raan", 0, TWO_PI, hi_open=True)
    return a, e, i, o


def axes(h, i, o):
    n = h.V(h.cos(o), h.sin(o), 0)
    m = h.V(-h.sin(o) * h.cos(i), h.cos(o) * h.cos(i), h.sin(i))
    return n, m


@SCENARIOS.add(weight=3)
def state_from_elements(h):
    """a in [6000, 1e6] km, e in [0, 0.99], any inclination, node, perigee and eccentric anomaly"""
    a, e, i, o = orbit(h, 0)
    w = h.angle("argp", 0, TWO_PI, hi_open=True)
    E = h.angle("E", 0, TWO_PI, hi_open=True)
    M = E - e * h.sin(E)
    ep = h.Epoch(h.real("mjd", 0, 100000))
    el = h.ClassicalElements(ep, a, e, i, o, w, M)
    if h.symbolic:
        seen = []

        def kepler(ma, ecc):
            h.eq("Kepler's equation is solved for the mean anomaly", ma, M)
            h.eq("Kepler's equation is solved for the eccentricity", ecc, e)
            return E

        h.stub(h.EquationsOfMotion.EA, "from_ma_e", kepler, needed=True)
    s = el.to_ijk()
    mu = h.Earth.MU
    n, m = axes(h, i, o)
    cw, sw = h.cos(w), h.sin(w)
    p = n.scaled(cw).plus(m.scaled(sw))
    q = n.scaled(-sw).plus(m.scaled(cw))
    eta = h.sqrt(1 - e * e)
    k = h.sqrt(mu / a)
    r = a * (1 - e * h.cos(E))
    h.eq("epoch", s.epoch.value, ep.value, scale=1e6)
    pos = p.scaled(a * (h.cos(E) - e)).plus(q.scaled(a * eta * h.sin(E)))
    vel = p.scaled(-h.sin(E)).plus(q.scaled(eta * h.cos(E))).scaled(a * k / r)
    h.eqv("position", s.position, pos, scale=1e6)
    h.eqv("velocity", s.velocity, vel, scale=10)
    h.eq("radius", s.position.dot(s.position), r * r, scale=1e12)
    h.eq("vis-viva", s.velocity.dot(s.velocity) * a * r, mu * (2 * a - r), scale=1e12)
    h.eqv("perigee vector", el.perigee_vector(), p)
    h.eqv("semi-latus rectum vector", el.semilatus_rectum_vector(), q)


@SCENARIOS.add(weight=3)
def momentum_and_eccentricity_vectors(h):
    """e in [0, 0.99]; orientation fixed to an arbitrary inclination, node 0, perigee 0"""
    a, e = h.real("a", 6000, 10**6), h.real("e", 0, 0.99)
    i = h.angle("inc", 0, PI, lo_open=True, hi_open=True)
    E = h.angle("E", 0, TWO_PI, hi_open=True)
    el = h.ClassicalElements(h.Epoch(55000), a, e, i, h.pi * 0, h.pi * 0, E - e * h.sin(E))
    if h.symbolic:
        h.stub(h.EquationsOfMotion.EA, "from_ma_e", lambda ma, ecc: E, needed=True)
    s = el.to_ijk()
    mu = h.Earth.MU
    hv = s.position.cross(s.velocity)
    w = h.V(0, -h.sin(i), h.cos(i))
    h.eqv("momentum", hv, w.scaled(h.sqrt(mu * a * (1 - e * e))), scale=1e7)
    ev = s.velocity.cross(hv).scaled(1 / mu).minus(s.position.scaled(1 / (a * (1 - e * h.cos(E)))))
    h.eqv("eccentricity vector", ev, h.V(e, 0, 0))


@SCENARIOS.add(weight=4)
def elements_from_state(h):
    """a in [6000, 1e6] km, e in [1e-5, 0.99], inclination in (0, pi), every position on the orbit"""
    a, e, i, o = orbit(h, h.dec("0.00001"))
    u = h.angle("u", 0, TWO_PI, hi_open=True)
    E = h.angle("E", 0, TWO_PI, hi_open=True)
    mu = h.Earth.MU
    n, m = axes(h, i, o)
    r = a * (1 - e * h.cos(E))
    eta = h.sqrt(1 - e * e)
    k = h.sqrt(mu * a)
    rad = n.scaled(h.cos(u)).plus(m.scaled(h.sin(u)))
    tan = n.scaled(-h.sin(u)).plus(m.scaled(h.cos(u)))
    h.nonneg(r)
    h.nonneg(k * eta)
    h.nonneg(h.sin(i))
    pos = rad.scaled(r)
    vel = rad.scaled(k * e * h.sin(E) / r).plus(tan.scaled(k * eta / r))
    el = h.ClassicalElements.from_ijk(h.IJK(h.Epoch(55000), pos, vel))
    h.eq("semi-major axis", el.semimajor_axis, a, scale=1e6)
    h.eq("eccentricity", el.eccentricity, e, ctol=1e-6)
    h.eq("inclination", el.inclination, i, ctol=1e-6)
    h.eq("node", el.raan, o, angle=True, ctol=1e-6)
    h.le("node at least 0", 0, el.raan)
    h.lt("node below a turn", el.raan, 2 * h.pi)
    h.eq("mean anomaly", el.mean_anomaly, E - e * h.sin(E), ctol=1e-5, angle=True)
    d = 1 - e * h.cos(E)
    cn, sn = (h.cos(E) - e) / d, eta * h.sin(E) / d
    cw, sw = h.cos(u) * cn + h.sin(u) * sn, h.sin(u) * cn - h.cos(u) * sn
    h.eq("perigee (cos)", h.cos(el.argument_of_perigee), cw, ctol=1e-5)
    h.eq("perigee (sin)", h.sin(el.argument_of_perigee), sw, ctol=1e-5)
    h.le("perigee at least 0", 0, el.argument_of_perigee)
    h.lt("perigee below a turn", el.argument_of_perigee, 2 * h.pi)
    h.eq("epoch", el.epoch.value, 55000)


@SCENARIOS.add()
def circular_state_gives_elements(h):
    """circular orbits (e = 0), inclination in [0.001, 3.14], every position on the orbit"""
    a = h.real("a", 6000, 10**6)
    i = h.angle("inc", 0.001, 3.14)
    o = h.angle("raan", 0, TWO_PI, hi_open=True)
    u = h.angle("u", 0, TWO_PI, hi_open=True)
    mu = h.Earth.MU
    k = h.sqrt(mu / a)
    n, m = axes(h, i, o)
    h.nonneg(h.sin(i))
    rad = n.scaled(h.cos(u)).plus(m.scaled(h.sin(u)))
    tan = n.scaled(-h.sin(u)).plus(m.scaled(h.cos(u)))
    el = h.ClassicalElements.from_ijk(h.IJK(h.Epoch(55000), rad.scaled(a), tan.scaled(k)))
    h.eq("semi-major axis", el.semimajor_axis, a, scale=1e6)
    h.eq("eccentricity", el.eccentricity, 0, ctol=1e-5)
    h.eq("inclination", el.inclination, i, ctol=1e-6)
    h.eq("node", el.raan, o, angle=True, ctol=1e-6)
    t = el.argument_of_perigee + el.mean_anomaly
    h.eq("argument of latitude (cos)", h.cos(t), h.cos(u), ctol=1e-5)
    h.eq("argument of latitude (sin)", h.sin(t), h.sin(u), ctol=1e-5)


def equatorial(h, s):
    """orbits in the equatorial plane (inclination exactly 0 or pi), e in [1e-5, 0.99], every position on the orbit"""
    a, e = h.real("a", 6000, 10**6), h.real("e", 0.00001, 0.99)
    E = h.angle("E", 0, TWO_PI, hi_open=True)
    L = h.angle("L", 0, TWO_PI, hi_open=True)
    mu = h.Earth.MU
    r = a * (1 - e * h.cos(E))
    eta = h.sqrt(1 - e * e)
    k = h.sqrt(mu * a)
    h.nonneg(r)
    h.nonneg(k * eta)
    rad, tan = h.V(h.cos(L), h.sin(L), 0), h.V(-s * h.sin(L), s * h.cos(L), 0)
    el = h.ClassicalElements.from_ijk(
        h.IJK(h.Epoch(55000), rad.scaled(r), rad.scaled(k * e * h.sin(E) / r).plus(tan.scaled(k * eta / r))))
    h.eq("semi-major axis", el.semimajor_axis, a, scale=1e6)
    h.eq("eccentricity", el.eccentricity, e, ctol=1e-6)
    h.eq("inclination", el.inclination, 0 if s > 0 else h.pi, ctol=1e-9)
    h.eq("mean anomaly", el.mean_anomaly, E - e * h.sin(E), ctol=1e-5, angle=True)
    # perigee lies at longitude L minus the true anomaly, whatever the node is
    d = 1 - e * h.cos(E)
    cn, sn = (h.cos(E) - e) / d, s * eta * h.sin(E) / d
    p = el.raan + s * el.argument_of_perigee
    h.eq("perigee (cos)", h.cos(p), h.cos(L) * cn + h.sin(L) * sn, ctol=1e-5)
    h.eq("perigee (sin)", h.sin(p), h.sin(L) * cn - h.cos(L) * sn, ctol=1e-5)


SCENARIOS.many(equatorial, [("equatorial_prograde", (1,)), ("equatorial_retrograde", (-1,))])


@SCENARIOS.add()
def changed_elements(h):
    """elements changed after they were used describe the new orbit"""
    now = []
    E = [h.angle("E", 0, TWO_PI, hi_open=True), h.angle("E new", 0, TWO_PI, hi_open=True)]
    if h.symbolic:
        h.stub(h.EquationsOfMotion.EA, "from_ma_e", lambda ma, ecc: E[len(now)], needed=True)
    e = [h.real("e", 0, 0.99), h.real("e new", 0, 0.99)]
    a = [h.real("a", 6000, 10**6), h.real("a new", 6000, 10**6)]
    el = h.ClassicalElements(h.Epoch(55000), a[0], e[0], 1, 2, 3, E[0] - e[0] * h.sin(E[0]))
    el.to_ijk(), el.perigee_vector(), el.semilatus_rectum_vector(), el.eccentric_anomaly()
    now.append(1)
    i, o, w = h.angle("inc", 0, PI), h.angle("raan", 0, TWO_PI), h.angle("argp", 0, TWO_PI)
    M = E[1] - e[1] * h.sin(E[1])
    d = h.real("mjd", 0, 100000)
    el.epoch.value = d
    el.semimajor_axis, el.eccentricity, el.inclination, el.raan, el.argument_of_perigee, el.mean_anomaly = a[1], e[1], i, o, w, M
    ref = h.ClassicalElements(h.Epoch(d), a[1], e[1], i, o, w, M)
    s, t = el.to_ijk(), ref.to_ijk()
    h.eq("epoch", s.epoch.value, d)
    h.eqv("position", s.position, t.position, scale=1e6)
    h.eqv("velocity", s.velocity, t.velocity, scale=10)
    h.eqv("perigee vector", el.perigee_vector(), ref.perigee_vector())
    h.eqv("semi-latus rectum vector", el.semilatus_rectum_vector(), ref.semilatus_rectum_vector())
    h.eq("eccentric anomaly", el.eccentric_anomaly(), ref.eccentric_anomaly(), ctol=1e-6)


SCENARIOS.again()

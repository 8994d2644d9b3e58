"""C20 maneuvers"""
from symx.scen import Scenarios

from props.c14 import lin, origin

SCENARIOS = Scenarios()
ASSUMPTIONS = [
    "during a burn the satellite moves under arbitrary other accelerations (uninterpreted function of the epoch)",
    "in the spacecraft scenarios the motion during the burn is frozen (it does not enter mass, duration or thrust direction)",
    "burns of at most three integration steps (900 s), one of nine; at burn-out mass for 10 ms of thrust is left",
]
DAY = 86400
G = "0.00981"


def dynamics(h, log, still=False):
    def derivative(self):
        log.append((self.epoch.value, h.lst(self.thrust)))
        if still:
            return [h.V(0, 0, 0), h.V(0, 0, 0)]
        return [h.V(*h.lst(self.velocity)),
                h.V(*[getattr(self.thrust, k) + h.ufunc(f"acc{k}", self.epoch.value, lo=-0.001, hi=0.001) for k in "xyz"])]

    h.stub(h.GCRF, "derivative", derivative)


@SCENARIOS.add()
def thrust_law(h):
    """mass 0.1..1e6 kg, flow 1e-6..100 kg/s, Isp 1..1e5 s, up to 99 % of the mass burnt, any direction"""
    p = h.RK4(h.laden(h.GCRF(h.Epoch(h.real("mjd", 0, 100000)), h.V(7000, 0, 0), h.V(0, 7, 0))))
    h.eqv("off by default", p.thrust_vector(h.real("t0", 0, 1000)), h.V(0, 0, 0))
    m0, isp = h.real("m0", 0.1, 10**6), h.real("isp", 1, 10**5)
    mdot = h.real("mdot", 0.000001, 100)
    d = h.vec("dir", 0.000001, 100)
    t = h.real("burnt", 0, 0.99) * m0 / mdot
    p.m0, p.m_dot, p.isp, p.thrust_direction = m0, mdot, isp, d
    a = p.thrust_vector(t)
    k = mdot * isp * h.dec(G)
    u = d.magnitude()
    for n in "xyz":
        h.eq("thrust over mass " + n, getattr(a, n) * (m0 - mdot * t) * u, k * getattr(d, n), scale=1e6)
    a = p.thrust_vector(0)
    for n in "xyz":
        h.eq("at ignition " + n, getattr(a, n) * m0 * u, k * getattr(d, n), scale=1e6)


def left(h, rest, mdot):
    """at burn-out mass for 10 ms of thrust is left (day numbers resolve microseconds)"""
    h.assume(rest > mdot * h.dec("0.01"))


def noise(h, m0, mdot, t, k, u):
    """what the resolution of a day number (microseconds) makes of thrust times mass"""
    return 1e-4 if h.symbolic else 1e-10 + k * u * (1e-7 + 5e-6 * mdot / max(m0 - mdot * t, 1e-30))


def check_burn(h, log, e0, m0, mdot, isp, d, T):
    """every evaluation of the force model during the burn sees thrust over the mass left at that time"""
    k = mdot * isp * h.dec(G)
    u = h.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
    h.true("burns", len(log) >= 4)
    for n, (ep, th) in enumerate(log):
        t = (ep - e0) * DAY
        for j in range(3):
            h.eq(f"thrust {n}{'xyz'[j]}", th[j] * (m0 - mdot * t) * u, k * d[j], ctol=noise(h, m0, mdot, t, k, u))
    h.eq("last evaluation at burn-out", (log[-1][0] - e0) * DAY, T, ctol=1e-4)


@SCENARIOS.add(weight=2)
def burn(h):
    """velocity change 1e-6..10 km/s, mass 1..20000 kg, flow 0.001..100 kg/s, Isp 50..5000 s, burns up to 900 s"""
    log = []
    dynamics(h, log)
    e0 = h.real("mjd", 0, 100000)
    p = h.RK4(h.laden(h.GCRF(h.Epoch(e0), h.free("r", -(10**6), 10**6), h.free("v", -50, 50))))
    d = h.vec("dv", 0.000001, 10)
    m0, mdot, isp = h.real("m0", 1, 20000), h.real("mdot", 0.001, 100), h.real("isp", 50, 5000)
    spent = m0 * (1 - h.exp(-d.magnitude() / (isp * h.dec(G))))
    T = spent / mdot
    h.assume(h.And(T < 900, T > h.dec("0.001")))
    left(h, m0 - spent, mdot)
    size = h.real("size", 10, 300)
    p.step_size = size
    h.no_domain_errors()
    p.maneuver(d, mdot, m0, isp)
    h.eq("duration", (p.state.epoch.value - e0) * DAY, T, ctol=1e-4)
    check_burn(h, log, e0, m0, mdot, isp, h.lst(d), T)
    n = len(log)
    h.eqv("state without thrust", p.state.thrust, h.V(0, 0, 0))
    h.eq("step size kept", p.step_size, size)
    p.step()
    for k, (ep, th) in enumerate(log[n:]):
        h.eql(f"off afterwards {k}", th, [0, 0, 0])
    h.eqv("off", p.thrust_vector(h.real("t", 0, 1000)), h.V(0, 0, 0))


def steer(h, sc, o, mode):
    """the spacecraft points at the Sun or tracks another one (which follows it in time) while it burns"""
    if mode == "solar":
        h.stub(h.Sun, "get_position", lambda e: h.V(o.position.x + 150000000, o.position.y + 1000000, o.position.z + 2000000))
        sc.track_sun()
        sc.slewing = False  # the slew is over
    if mode == "target":
        t = h.Spacecraft(h.GCRF(o.epoch, h.V(o.position.x + 10, o.position.y - 20, o.position.z + 35), h.V(1, 2, 3)))

        def follow(epoch):
            t.propagator.state.epoch = epoch.copy()

        t.step_to_epoch = follow
        sc.track_state(t)


def finite(h, mode=None):
    """a spacecraft burns along its own radial, in-track and cross-track axes and pays with propellant, wherever it points"""
    log = []
    dynamics(h, log, still=True)
    r, i, w, ro, vr, vt, o = origin(h)
    sc = h.flown(o, own=("m_dot", "isp", "dry_mass", "propellant_mass"))
    h.eq("default flow", sc.m_dot, h.dec("0.003"))
    h.eq("default isp", sc.isp, 350)
    h.eq("default dry mass", sc.dry_mass, 600)
    h.eq("default propellant", sc.propellant_mass, 200)
    dry, prop = h.real("dry", 1, 10000), h.real("prop", 1, 10000)
    mdot, isp = h.real("mdot", 0.001, 100), h.real("isp", 50, 5000)
    sc.dry_mass, sc.propellant_mass, sc.m_dot, sc.isp = dry, prop, mdot, isp
    b = h.vec("burn", 0.000001, 10)
    m0 = dry + prop
    spent = m0 * (1 - h.exp(-b.magnitude() / (isp * h.dec(G))))
    T = spent / mdot
    h.assume(h.And(T < 600, T > h.dec("0.001")))
    left(h, m0 - spent, mdot)
    h.no_domain_errors()
    steer(h, sc, o, mode)
    e0 = o.epoch.value
    sc.finite_maneuver(b)
    h.eq("duration", (sc.current_epoch().value - e0) * DAY, T, ctol=1e-4)
    h.eq("propellant", sc.propellant_mass, prop - spent, scale=1e4)
    h.eq("dry mass", sc.dry_mass, dry)
    h.eqv("state without thrust", sc.propagator.state.thrust, h.V(0, 0, 0))
    d = [b.x * getattr(r, n) + b.y * getattr(i, n) + b.z * getattr(w, n) for n in "xyz"]
    k = mdot * isp * h.dec(G)
    u = b.magnitude()
    h.true("burns", len(log) >= 4)
    for n, (ep, th) in enumerate(log):
        t = (ep - e0) * DAY
        for j in range(3):
            h.eq(f"thrust {n}{'xyz'[j]}", th[j] * (m0 - mdot * t) * u, k * d[j], ctol=noise(h, m0, mdot, t, k, u))


SCENARIOS.many(finite, [("finite", ())], weight=3)
SCENARIOS.many(finite, [("finite_sun", ("solar",)), ("finite_tracking", ("target",))], weight=2)


@SCENARIOS.add()
def any_duration(h):
    """burns of up to 1e7 s (propagation replaced): the engine runs as long and uses as much as the rocket equation demands"""
    seen = []

    def go(self, epoch):
        seen.append((self.state.epoch.value, epoch.value, h.lst(self.thrust_vector(0))))
        self.state = h.GCRF(epoch, self.state.position, self.state.velocity)

    h.stub(h.RK4, "step_to_epoch", go, needed=True)
    e0 = h.real("mjd", 0, 100000)
    sc = h.flown(h.GCRF(h.Epoch(e0), h.V(h.real("r", 6500, 50000), 0, 0), h.V(0, h.real("v", 1, 10), 0)))
    dry, prop = h.real("dry", 1, 10000), h.real("prop", 1, 10000)
    mdot, isp = h.real("mdot", 0.0001, 100), h.real("isp", 50, 5000)
    sc.dry_mass, sc.propellant_mass, sc.m_dot, sc.isp = dry, prop, mdot, isp
    b = h.vec("burn", 0.000001, 10)
    m0 = dry + prop
    spent = m0 * (1 - h.exp(-b.magnitude() / (isp * h.dec(G))))
    T = spent / mdot
    h.assume(h.And(T < 10**7, T > h.dec("0.001")))
    left(h, m0 - spent, mdot)
    h.no_domain_errors()
    sc.finite_maneuver(b)
    h.eq("duration", (sc.current_epoch().value - e0) * DAY, T, ctol=1e-4)
    h.eq("propellant", sc.propellant_mass, prop - spent, scale=1e4)
    h.eq("dry mass", sc.dry_mass, dry)
    for j, c in enumerate("xyz"):
        h.eq("thrust at ignition " + c, seen[0][2][j] * m0 * b.magnitude(), mdot * isp * h.dec(G) * getattr(b, c), scale=1e6)
    h.eqv("off", sc.propagator.thrust_vector(h.real("t", 0, 1000)), h.V(0, 0, 0))


@SCENARIOS.add(weight=2)
def long_burn(h):
    """a burn of nine integration steps: the thrust law holds to the end"""
    log = []
    dynamics(h, log, still=True)
    e0 = h.real("mjd", 0, 100000)
    p = h.RK4(h.laden(h.GCRF(h.Epoch(e0), h.V(7000, 0, 0), h.V(0, 7, 0))))
    mdot, isp = h.real("mdot", 0.001, 100), h.real("isp", 50, 5000)
    d, T = h.real("dv", 0.000001, 10), h.real("T", 2401, 2699)
    m0 = T * mdot / (1 - h.exp(-d / (isp * h.dec(G))))
    left(h, m0 - T * mdot, mdot)
    h.no_domain_errors()
    p.maneuver(h.V(0, 0, -d), mdot, m0, isp)
    h.eq("duration", (p.state.epoch.value - e0) * DAY, T, ctol=1e-4)
    check_burn(h, log, e0, m0, mdot, isp, [0, 0, -d], T)


@SCENARIOS.add()
def zero_burn(h):
    """a burn of zero size takes no time and no propellant and leaves the engine off"""
    log = []
    dynamics(h, log)
    r, i, w, ro, vr, vt, o = origin(h)
    sc = h.flown(o)
    prop = h.real("prop", 1, 10000)
    sc.propellant_mass = prop
    h.no_domain_errors()
    sc.finite_maneuver(h.V(0, 0, 0))
    h.eq("epoch", sc.current_epoch().value, o.epoch.value)
    h.eq("propellant", sc.propellant_mass, prop)
    h.eqv("position", sc.position(), o.position, scale=1e6)
    h.eqv("velocity", sc.velocity(), o.velocity, scale=100)
    h.eqv("off", sc.propagator.thrust_vector(h.real("t", 0, 1000)), h.V(0, 0, 0))
    n = len(log)
    sc.step()
    for k, (ep, th) in enumerate(log[n:]):
        h.eql(f"off afterwards {k}", th, [0, 0, 0])


@SCENARIOS.add()
def two_burns(h):
    """the second burn starts with the mass the first one left"""
    log = []
    dynamics(h, log, still=True)
    sc = h.flown(h.GCRF(h.Epoch(55000), h.V(7000, 0, 0), h.V(0, 0, 7)), own=("isp",))
    dry, prop = h.real("dry", 1, 10000), h.real("prop", 1, 10000)
    sc.dry_mass, sc.propellant_mass, sc.m_dot = dry, prop, 1
    b1, b2 = h.real("b1", 0.00001, 3), h.real("b2", 0.00001, 3)
    ve = 350 * h.dec(G)
    m1 = (dry + prop) * h.exp(-b1 / ve)
    m2 = m1 * h.exp(-b2 / ve)
    h.assume(h.And(dry + prop - m1 < 300, m1 - m2 < 300))
    h.no_domain_errors()
    sc.finite_maneuver(h.V(b1, 0, 0))
    h.eq("after one", sc.total_mass(), m1, scale=1e4)
    first = len(log)
    sc.finite_maneuver(h.V(0, b2, 0))
    h.eq("after two", sc.total_mass(), m2, scale=1e4)
    m = h.HCW.frame_matrix(h.GCRF(h.Epoch(55000), h.V(7000, 0, 0), h.V(0, 0, 7)))
    for k, (ep, th) in enumerate(log):
        t = (ep - 55000) * DAY
        ax = m.row1 if k < first else m.row2
        for j, n in enumerate("xyz"):
            h.eq(f"thrust {k}{n}", th[j] * (dry + prop - t), ve * getattr(ax, n), ctol=1e-4)
    h.eq("time", (sc.current_epoch().value - 55000) * DAY, dry + prop - m2, ctol=1e-4)


def impulsive(h, mode=None):
    """any orbit, any burn up to 100 km/s, wherever it points: velocity changes along the satellite's axes, nothing else changes"""
    r, i, w, ro, vr, vt, o = origin(h)
    sc = h.flown(o)
    start = h.lst(sc.initial_state.velocity)
    b = h.free("burn", -100, 100)
    prop = h.real("prop", 0, 10000)
    sc.propellant_mass = prop
    h.no_domain_errors()
    steer(h, sc, o, mode)
    sc.impulsive_maneuver(b)
    h.eqv("position", sc.position(), o.position, scale=1e6)
    h.eq("epoch", sc.current_epoch().value, o.epoch.value)
    h.eqv("velocity", sc.velocity(), lin(h, (vr + b.x, r), (vt + b.y, i), (b.z, w)), scale=100)
    h.eq("propellant", sc.propellant_mass, prop)
    h.eql("initial state", h.lst(sc.initial_state.velocity), start, scale=100)


SCENARIOS.many(impulsive, [("impulsive", ()), ("impulsive_sun", ("solar",)), ("impulsive_tracking", ("target",))])


@SCENARIOS.add()
def semi_major_axis(h):
    """a spacecraft's semi-major axis satisfies vis-viva for its current state, bound orbits"""
    r, i, w, ro, vr, vt, o = origin(h)
    v2 = vr * vr + vt * vt
    k = 2 * h.Earth.MU / ro - v2
    h.assume(k > 1)
    sc = h.flown(o)
    h.eq("energy", sc.sma() * k, h.Earth.MU, scale=1e6)


SCENARIOS.again(skip=("semi_major_axis", "two_burns",))

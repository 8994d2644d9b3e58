"""C17 force model"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
ASSUMPTIONS = [
    "Sun and Moon positions are arbitrary functions of the epoch (their series are C19's subject); in the sum of all terms the Earth-fixed frame coincides with the inertial one",
    "positions away from the centres of Earth, Sun and Moon",
]


def bodies(h):
    def sun(ep):
        return h.V(*[h.ufunc(f"sun{k}", ep.value, lo=-150000000, hi=150000000) for k in "xyz"])

    def moon(ep):
        return h.V(*[h.ufunc(f"moon{k}", ep.value, lo=-600000, hi=600000) for k in "xyz"])

    h.stub(h.Sun, "get_position", sun)
    h.stub(h.Moon, "get_position", moon)
    return sun, moon


def state(h, rmax=10**6):
    e = h.Epoch(h.real("mjd", 0, 100000))
    return h.GCRF(e, h.vec("r", 1000, rmax), h.free("v", -50, 50))


def laden(h):
    return h.laden(state(h))


@SCENARIOS.add()
def point_mass(h):
    """any position at 1000..1e6 km"""
    s = laden(h)
    a = s.acceleration_from_earth()
    r = s.position.magnitude()
    mu = h.dec("398600.4418")
    h.eq("gravitational parameter", h.Earth.MU, mu)
    h.eqv("acceleration", a.scaled(r * r * r), s.position.scaled(-mu), scale=1e13)


def third_body(h, which):
    """any position and any body position: direct minus indirect term"""
    sun, moon = bodies(h)
    s = laden(h)
    h.no_domain_errors()
    b = (sun if which == "sun" else moon)(s.epoch)
    mu = h.dec("132712440041.9") if which == "sun" else h.dec("4902.800305555")
    a = s.acceleration_from_sun() if which == "sun" else s.acceleration_from_moon()
    d = h.V(b.x - s.position.x, b.y - s.position.y, b.z - s.position.z)
    dm, bm = d.magnitude(), b.magnitude()
    k1, k2 = mu / (dm * dm * dm), mu / (bm * bm * bm)
    tol = 1e-16 if which == "sun" else 1e-13
    for n in "xyz":
        h.eq(n, getattr(a, n), k1 * getattr(d, n) - k2 * getattr(b, n), ctol=tol)
    v = s.sun_vector() if which == "sun" else s.moon_vector()
    h.eqv("vector to the body", v, d, scale=1e5)
    sc = h.Spacecraft(s)
    v = sc.sun_vector() if which == "sun" else sc.moon_vector()
    h.eqv("vector from the spacecraft", v, d, scale=1e5)


SCENARIOS.many(third_body, [("sun", ("sun",)), ("moon", ("moon",))])


@SCENARIOS.add()
def radiation_pressure(h):
    """any position, Sun position and coefficient 0..100 m^2/kg: pressure times coefficient, away from the Sun"""
    sun, _ = bodies(h)
    s = laden(h)
    h.no_domain_errors()
    k = h.real("srp", 0, 100)
    s.srp_scalar = k
    a = s.acceleration_from_srp()
    b = sun(s.epoch)
    d = h.V(b.x - s.position.x, b.y - s.position.y, b.z - s.position.z)
    m = d.magnitude()
    for n in "xyz":
        h.eq(n, getattr(a, n), -h.dec("0.00000456") * k / 1000 * getattr(d, n) / m, ctol=1e-15)


def total(h, pert):
    """acceleration and velocity of any state, any thrust, any coefficient"""
    bodies(h)
    one = h.Matrix3D(h.V(1, 0, 0), h.V(0, 1, 0), h.V(0, 0, 1))
    for n in ("precession", "nutation", "rotation"):
        h.stub(h.Earth, n, lambda ep: one)
    r, phi, lam = h.real("r", 1000, 10**6), h.angle("phi", -1.5707, 1.5707), h.angle("lam", 0, 6.28)
    pos = h.V(r * h.cos(phi) * h.cos(lam), r * h.cos(phi) * h.sin(lam), r * h.sin(phi))
    s = h.GCRF(h.Epoch(h.real("mjd", 0, 100000)), pos, h.free("v", -50, 50))
    h.no_domain_errors()
    s.use_perturbations = pert
    s.thrust = h.free("thrust", -1, 1)
    s.srp_scalar = h.real("srp", 0, 100)
    v, a = s.derivative()
    h.eqv("velocity", v, s.velocity)
    parts = [s.thrust, s.acceleration_from_earth()]
    h.eqv("thrust", s.acceleration_from_thrust(), s.thrust, ctol=1e-15)
    if pert:
        parts += [s.acceleration_from_moon(), s.acceleration_from_sun(), s.acceleration_from_srp(), s.acceleration_from_gravity()]
    for n in "xyz":
        h.eq("acceleration " + n, getattr(a, n), sum(getattr(x, n) for x in parts), ctol=1e-13)


SCENARIOS.many(total, [("total_perturbed", (True,)), ("total_two_body", (False,))])


@SCENARIOS.add()
def default_setting(h):
    """a new state is perturbed and without thrust; both settings survive copying, propagators and spacecraft"""
    s = state(h)
    h.eq("default", s.use_perturbations, True)
    h.eqv("no thrust", s.thrust, h.V(0, 0, 0))
    h.eq("no radiation coefficient", s.srp_scalar, 0)
    on = h.choice("setting", [True, False])
    s.use_perturbations = on
    c = s.copy()
    h.eq("copy", c.use_perturbations, on)
    c.use_perturbations = not on
    h.eq("original after changing the copy", s.use_perturbations, on)
    h.eq("propagator", h.RK4(s).state.use_perturbations, on)
    sc = h.Spacecraft(s)
    h.eq("spacecraft", sc.current_state().use_perturbations, on)
    h.eq("spacecraft propagator", sc.propagator.state.use_perturbations, on)
    h.eq("spacecraft initial state", sc.initial_state.use_perturbations, on)


def kept(h, what):
    """after a step, a propagation or a maneuver the setting and the step size are what they were"""
    seen = []

    def derivative(self):
        seen.append(self.use_perturbations)
        return [h.V(*h.lst(self.velocity)), h.V(*[h.ufunc(f"acc{k}", self.epoch.value, lo=-0.001, hi=0.001) for k in range(3)])]

    h.stub(h.GCRF, "derivative", derivative)
    s = state(h)
    w = s.position.cross(s.velocity)
    h.assume(w.dot(w) > 1000)
    h.no_domain_errors()
    on = h.choice("setting", [True, False])
    s.use_perturbations = on
    sc = h.Spacecraft(s)
    size = h.real("size", 10, 300)
    sc.propagator.step_size = size
    if what == "step":
        sc.step()
        sc.step()
    elif what == "epoch":
        sc.step_to_epoch(sc.current_epoch().plus_days(h.real("days", 0, 0.005)))
    elif what == "impulse":
        sc.impulsive_maneuver(h.free("burn", -1, 1))
        sc.step()
    else:
        b = h.real("burn", 0.0001, 0.0015)
        sc.finite_maneuver(h.V(b, 2 * b, -2 * b))
        sc.step()
    h.eq("setting", sc.current_state().use_perturbations, on)
    h.eq("step size", sc.propagator.step_size, size)
    for k, x in enumerate(seen):
        h.eq(f"evaluation {k}", x, on)


SCENARIOS.many(kept, [("kept_by_step", ("step",)), ("kept_by_propagation", ("epoch",)), ("kept_by_impulse", ("impulse",)),
                      ("kept_by_burn", ("burn",))])


@SCENARIOS.add()
def coefficient(h):
    """radiation coefficient of a spacecraft: (1 + albedo) area / mass in m^2/kg, area of the circular cross-section"""
    sc = h.flown(state(h))
    alb, rad = h.real("albedo", 0, 1), h.real("radius", 0.00001, 10)
    dry, prop = h.real("dry", 0.01, 10**6), h.real("prop", 0, 10**6)
    sc.albedo, sc.body_radius, sc.dry_mass, sc.propellant_mass = alb, rad, dry, prop
    h.eq("mass", sc.total_mass(), dry + prop, scale=1e6)
    h.eq("area", sc.area(), h.pi * rad * rad, ctol=1e-9)
    h.eq("coefficient", sc.srp_scalar() * (dry + prop), (1 + alb) * h.pi * rad * rad * 1000000, scale=1e8)


@SCENARIOS.add()
def coefficient_reaches_propagation(h):
    """the radiation coefficient set on a state survives copying and propagation"""
    s = state(h)
    k = h.real("srp", 0.001, 1)
    s.srp_scalar = k
    h.eq("copy keeps the radiation coefficient", s.copy().srp_scalar, k)
    sc = h.Spacecraft(s)
    h.eq("spacecraft propagates with its radiation coefficient", sc.propagator.state.srp_scalar, sc.srp_scalar(), ctol=1e-12)


SCENARIOS.again(skip=("coefficient_reaches_propagation",))

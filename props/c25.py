"""C25 value isolation"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
ASSUMPTIONS = [
    "isolation is decided on every number reachable through instance attributes: all of one object's are changed by arbitrary nonzero amounts, the other's must stay equal",
    "the motion of propagated states is an arbitrary function of the epoch",
    "not covered by design: Observation.epoch() and State.vector_list() are live views, a filter shares the propagator it is given, a tracked target is kept by reference",
]


def ours(x):
    return type(x).__module__.startswith("openspace") and not isinstance(x, type) and (hasattr(x, "__dict__") or hasattr(x, "__slots__"))


def attributes(obj):
    d = dict(getattr(obj, "__dict__", {}))
    for c in type(obj).__mro__:
        names = c.__dict__.get("__slots__", ())
        for n in (names,) if isinstance(names, str) else names:
            if hasattr(obj, n) and n != "__dict__":
                d[n] = getattr(obj, n)
    return sorted(d.items())


def leaves(obj, path="", seen=None, out=None):
    """(holder dict, key, path) of every number or flag reachable from the object"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if id(obj) in seen:
        return out
    seen.add(id(obj))
    if isinstance(obj, (list, tuple)):
        for i, x in enumerate(obj):
            if ours(x):
                leaves(x, f"{path}[{i}]", seen, out)
        return out
    for k, v in attributes(obj):
        p = f"{path}.{k}" if path else k
        if isinstance(v, (list, tuple)) or ours(v):
            leaves(v, p, seen, out)
        elif isinstance(v, bool) or isinstance(v, (int, float)) or type(v).__name__ == "Sym":
            out.append((obj, k, p))
    return out


def snap(obj):
    return {p: getattr(o, k) for o, k, p in leaves(obj)}


def spoil(h, obj, only=None):
    d = h.real("change", 1, 10)
    for o, k, p in leaves(obj):
        v = getattr(o, k)
        try:
            setattr(o, k, (not v) if isinstance(v, bool) else v + d)
        except AttributeError:  # read-only
            pass


def same(h, label, obj, before, skip=()):
    now = snap(obj)
    for p, v in before.items():
        if p in now and not p.startswith(tuple(skip) or ("\0",)):
            h.eq(f"{label} {p}", now[p], v, scale=1e4)


def isolated(h, label, a, b):
    """changing a leaves b alone and the other way round"""
    h.fact(label + " are two objects", a is not b)
    sb = snap(b)
    h.true(label + " has values", len(sb) > 0)
    spoil(h, a)
    same(h, label, b, sb)
    sa = snap(a)
    spoil(h, b)
    same(h, label + " (reverse)", a, sa)


def equal(h, label, a, b):
    same(h, label + " equals", a, snap(b))


def epoch(h):
    return h.Epoch(h.real("mjd", 0, 100000))


def still(h):
    h.stub(h.Sun, "get_position", lambda e: h.V(*[h.ufunc(f"sun{c}", e.value, lo=-150000000, hi=150000000) for c in "xyz"]))
    h.stub(h.GCRF, "derivative", lambda self: [h.V(*[h.ufunc(f"vel{c}", self.epoch.value) for c in "xyz"]),
                                               h.V(*[h.ufunc(f"acc{c}", self.epoch.value, lo=-0.001, hi=0.001) for c in "xyz"])])


def rv(h):
    return h.free("r", -1000000, 1000000), h.free("v", -15, 15)


@SCENARIOS.add()
def value_types(h):
    """copies of vectors, epochs, positions and 6-vectors; epoch arithmetic"""
    r, v = rv(h)
    equal(h, "vector copy", r.copy(), r)
    isolated(h, "vector copy", r.copy(), r)
    r, v = rv(h)
    isolated(h, "vector times one", r.scaled(1), r)
    isolated(h, "vector plus zero", v.plus(h.V(0, 0, 0)), v)
    r, v = rv(h)
    isolated(h, "vector minus zero", v.minus(h.V(0, 0, 0)), v)
    isolated(h, "zero plus vector", h.V(0, 0, 0).plus(r), r)
    isolated(h, "zero rotation", r.rotation_about_axis(h.V(0, 0, 1), 0), r)
    r, v = rv(h)
    w = h.Vector6D.from_position_and_velocity(r, v)
    isolated(h, "state vector / position", w, r)
    isolated(h, "state vector / velocity", w, v)
    equal(h, "state vector copy", w.copy(), w)
    isolated(h, "state vector copy", w.copy(), w)
    e = epoch(h)
    equal(h, "epoch copy", e.copy(), e)
    isolated(h, "epoch copy", e.copy(), e)
    isolated(h, "epoch plus nothing", e.plus_days(0), e)
    l = h.LLA(h.real("lat", -1, 1), h.real("lon", 0, 6), h.real("alt", 0, 1))
    equal(h, "position copy", l.copy(), l)
    isolated(h, "position copy", l.copy(), l)


def states(h, cls):
    """a state against its arguments and its copies"""
    C = getattr(h, cls)
    e, (r, v) = epoch(h), rv(h)
    given = [snap(o) for o in (e, r, v)]
    s = C(e, r, v)
    for o, k in zip((e, r, v), given):
        same(h, "argument", o, k)
    for n, o in (("epoch", e), ("position", r), ("velocity", v)):
        isolated(h, f"state / given {n}", s, o)
    e, (r, v) = epoch(h), rv(h)
    s = C(e, r, v)
    if hasattr(s, "use_perturbations"):
        s.use_perturbations = h.choice("perturbations", [True, False])
    c = s.copy()
    h.fact("same type", type(c) is C)
    h.eqv("copied position", c.position, r, scale=1e4)
    h.eqv("copied velocity", c.velocity, v, scale=1e4)
    h.eq("copied epoch", c.epoch.value, e.value)
    h.eql("copied vector", h.lst(c.vector), h.lst(r) + h.lst(v), scale=1e4)
    if hasattr(s, "use_perturbations"):
        h.eq("copied setting", c.use_perturbations, s.use_perturbations)
    isolated(h, "copy", c, s)
    s = C(e, r, v)
    isolated(h, "vector / position", s.vector, s.position)


SCENARIOS.many(states, [(f"state_{c}", (c,)) for c in ("GCRF", "HCW", "ITRF", "IJK")])


@SCENARIOS.add()
def fixed_positions(h):
    """ground sites, fixed states and element sets keep what they were given"""
    e, r = epoch(h), h.free("r", -7000, 7000)
    s = h.ITRF.from_fixed(e, r)
    isolated(h, "fixed state / epoch", s, e)
    isolated(h, "fixed state / position", s, r)
    l = h.LLA(h.angle("lat", -1.5, 1.5), h.angle("lon"), h.real("alt", 0, 1))
    g = h.GroundSite(l)
    isolated(h, "site / coordinates", g, l)
    e = epoch(h)
    c = h.ClassicalElements(e, 7000, h.q(1, 10), 1, 1, 1, 1)
    isolated(h, "elements / epoch", c, e)
    w = h.Vector6D(*[h.real(f"w{i}", -10, 10) for i in range(6)])
    isolated(h, "relative state / vector", h.HCW.from_state_vector(w), w)


def propagators(h, back):
    """propagating never touches the state it started from, nor states handed out earlier"""
    still(h)
    e, (r, v) = epoch(h), rv(h)
    s = h.GCRF(e, r, v)
    s0 = snap(s)
    p, q = h.RK4(s), h.RK4(s)
    same(h, "state given to the propagator", s, s0)
    q0 = snap(q)
    early = p.state.copy()
    early0 = snap(early)
    p.step()
    p.step_to_epoch(h.Epoch(e.value + (-1 if back else 1) * h.q(1, 100)))
    same(h, "start state", s, s0)
    same(h, "other propagator", q, q0)
    same(h, "earlier state", early, early0)
    p0 = snap(p)
    spoil(h, s)
    same(h, "propagator", p, p0)
    same(h, "other propagator", q, q0)
    isolated(h, "two propagators", p, q)


SCENARIOS.many(propagators, [("rk4_forward", (False,)), ("rk4_backward", (True,))])


@SCENARIOS.add()
def burn_argument(h):
    """a burn keeps its own copy of the direction"""
    still(h)
    e, (r, v) = epoch(h), rv(h)
    p = h.RK4(h.GCRF(e, r, v))
    d = h.free("d", 1, 2)
    d0 = snap(d)
    p.maneuver(d, 1, 100, 300)
    same(h, "direction", d, d0)
    isolated(h, "propagator / direction", p, d)


@SCENARIOS.add()
def hill(h):
    """the relative propagator"""
    s = h.HCW(epoch(h), h.free("p", -100, 100), h.free("v", -1, 1))
    a = h.real("a", 6500, 50000)
    s0 = snap(s)
    p, q = h.Hill(s, a), h.Hill(s, a)
    q0 = snap(q)
    p.step_by_seconds(h.real("t", -1000, 1000))
    same(h, "start state", s, s0)
    same(h, "other propagator", q, q0)
    p, q = h.Hill(s, a), h.Hill(s, a)
    isolated(h, "two propagators", p, q)
    p = h.Hill(s, a)
    isolated(h, "propagator / state", p, s)


def spacecraft(h, how):
    """two spacecraft from one state: neither moving, maneuvering nor reconfiguring one affects the other, the state, or what was handed out"""
    still(h)
    e = epoch(h)
    r, v = h.V(h.real("r", 6500, 50000), 0, 0), h.V(h.real("vr", -1, 1), h.real("vt", 1, 10), 0)
    h.no_domain_errors()
    s = h.GCRF(e, r, v)
    s.use_perturbations = how not in ("epoch", "impulse")
    s0 = snap(s)
    a, b = h.Spacecraft(s), h.Spacecraft(s)
    b0, a0 = snap(b), snap(a.initial_state)
    out = [a.position(), a.velocity(), a.current_state(), a.current_epoch(), a.earth_vector()]
    out0 = [snap(o) for o in out]
    if how == "step":
        a.step()
    elif how == "epoch":
        a.step_to_epoch(h.Epoch(e.value + h.q(1, 400)))
    elif how == "impulse":
        b_ = h.V(0, h.real("dv", -1, 1), 0)
        k = snap(b_)
        a.impulsive_maneuver(b_)
        same(h, "burn vector", b_, k)
    elif how == "burn":
        b_ = h.V(0, 0, h.real("dv", 0.5, 1))
        k = snap(b_)
        a.m_dot = 1
        a.finite_maneuver(b_)
        same(h, "burn vector", b_, k)
    elif how == "modes":
        a.track_sun()
        a.track_lvlh()
    else:
        a.wfov.limits.sun_soft = 2
        a.nfov.limits.vismag = 3
        a.nfov.pixels = 100
        a.albedo = 1
        a.dry_mass = 1
    same(h, "given state", s, s0)
    same(h, "other spacecraft", b, b0)
    same(h, "initial state", a.initial_state, a0)
    for o, k, n in zip(out, out0, ("position", "velocity", "state", "epoch", "earth vector")):
        same(h, f"{n} handed out", o, k)
    a0 = snap(a)
    for o in (a.position(), a.velocity(), a.current_state(), a.current_epoch(), a.earth_vector()):
        spoil(h, o)
    same(h, "spacecraft after changing what it returned", a, a0)
    if how == "configure":
        isolated(h, "spacecraft / state", a, s)
        isolated(h, "two spacecraft", a, b)
        c, d = h.Spacecraft(h.GCRF(e, r, v)), h.Spacecraft(h.GCRF(e, r, v))
        isolated(h, "cameras", c.wfov, d.wfov)
        isolated(h, "narrow cameras", c.nfov, d.nfov)
        isolated(h, "camera pair", c.wfov, c.nfov)


SCENARIOS.many(spacecraft, [(f"spacecraft_{m}", (m,)) for m in ("step", "epoch", "impulse", "burn", "modes", "configure")])


@SCENARIOS.add()
def observations(h):
    """observations keep copies of observer and line of sight"""
    e, (r, v) = epoch(h), rv(h)
    d = h.vec("d", 0.1, 1000)
    s = h.GCRF(e, r, v)
    o = h.SpaceObservation(s, d, h.real("re", 0, 1), h.real("ae", 0, 1))
    isolated(h, "space observation / observer", o, s)
    isolated(h, "space observation / direction", o, d)
    e, d = epoch(h), h.vec("g", 0.1, 1000)
    s = h.ITRF.from_fixed(e, h.free("q", -7000, 7000))
    o = h.GroundObservation(s, d, h.real("re", 0, 1), h.real("ae", 0, 1))
    isolated(h, "ground observation / observer", o, s)
    isolated(h, "ground observation / direction", o, d)
    s = h.ITRF.from_fixed(e, h.free("q", -7000, 7000))
    o = h.GroundObservation.from_angles_and_range(s, h.angle("az"), h.angle("el", -1.5, 1.5), 100, 0, 0)
    isolated(h, "ground observation from angles / observer", o, s)


def asked(h, label, owner, calls):
    """asking changes nothing; what is returned can be changed freely; a second answer is the same"""
    before = snap(owner)
    for n, f in calls:
        got = f()
        same(h, f"{label} after asking for {n}", owner, before)
        first = [snap(x) for x in got] if isinstance(got, (list, tuple)) else snap(got) if ours(got) else got
        for x in got if isinstance(got, (list, tuple)) else [got]:
            if ours(x):
                spoil(h, x)
        same(h, f"{label} after changing the {n}", owner, before)
        for word in ("again", "a third time"):
            more = f()
            for x, k in zip(more, first) if isinstance(more, (list, tuple)) else [(more, first)]:
                if ours(x):
                    same(h, f"{n} asked {word}", x, k)
                    spoil(h, x)
                else:
                    h.eq(f"{n} asked {word}", x, k, scale=1e4)
        same(h, f"{label} after changing the {n} again", owner, before)


@SCENARIOS.add()
def forces(h):
    """reading accelerations, derivative and ephemerides changes neither the state nor later answers; thrust and drag set by hand stay"""
    h.stub(h.Sun, "get_position", lambda e: h.V(*[h.ufunc(f"sun{c}", e.value, lo=-150000000, hi=150000000) for c in "xyz"]))
    h.stub(h.Moon, "get_position", lambda e: h.V(*[h.ufunc(f"moon{c}", e.value, lo=-600000, hi=600000) for c in "xyz"]))
    h.stub(h.GCRF, "acceleration_from_gravity", lambda self: h.V(*[h.ufunc(f"g{c}", self.epoch.value, *h.lst(self.position)) for c in "xyz"]))
    e, (r, v) = epoch(h), rv(h)
    h.no_domain_errors()
    s = h.GCRF(e, r, v)
    s.use_perturbations = h.choice("perturbations", [True, False])
    s.srp_scalar = h.real("srp", 0, 1)
    if hasattr(s, "thrust"):
        s.thrust = h.free("thrust", -1, 1)
    names = ["acceleration_from_thrust", "acceleration_from_gravity", "acceleration_from_moon", "acceleration_from_sun",
             "acceleration_from_srp", "sun_vector", "moon_vector", "derivative"]
    asked(h, "state", s, [(n, getattr(s, n)) for n in names if hasattr(s, n)])


@SCENARIOS.add()
def conversions(h):
    """converting leaves the arguments alone and what is returned is the caller's"""
    h.no_domain_errors()
    e = epoch(h)
    o = h.GCRF(e, h.V(h.real("r", 6500, 50000), 0, 0), h.V(h.real("vr", -1, 1), h.real("vt", 1, 10), 0))
    s = h.HCW(e, h.free("p", -100, 100), h.free("w", -1, 1))
    o0, s0 = snap(o), snap(s)
    g = h.StateConvert.hcw.to_gcrf(s, o)
    same(h, "origin after to_gcrf", o, o0)
    same(h, "relative state after to_gcrf", s, s0)
    g0 = snap(g)
    k = h.StateConvert.gcrf.to_hcw(o, g)
    same(h, "origin after to_hcw", o, o0)
    same(h, "state after to_hcw", g, g0)
    m = h.HCW.frame_matrix(o)
    for x in (g, k, m):
        spoil(h, x)
    same(h, "origin after changing what was returned", o, o0)
    same(h, "relative state after changing what was returned", s, s0)


@SCENARIOS.add()
def products(h):
    """vector and matrix operations return new values and leave their operands alone"""
    r, v = rv(h)
    M = h.mod("openspace.math.linalg").Matrix3D
    a, b = (M(*[h.free(f"{n}{i}", -10, 10) for i in range(3)]) for n in "ab")
    nil = h.V(0, 0, 0)
    one = M(h.V(1, 0, 0), h.V(0, 1, 0), h.V(0, 0, 1))
    none = M(nil, nil, nil)
    ops = [("vector", r, [("cross", lambda: r.cross(v)), ("plus", lambda: r.plus(v)), ("minus", lambda: r.minus(v)), ("scaled", lambda: r.scaled(2)),
                          ("scaled by one", lambda: r.scaled(1)), ("plus nothing", lambda: r.plus(nil)), ("minus nothing", lambda: r.minus(nil)),
                          ("unturned", lambda: r.rotation_about_axis(h.V(0, 0, 1), 0)), ("dot", lambda: r.dot(v))]),
           ("vector argument", v, [("cross", lambda: r.cross(v)), ("plus", lambda: r.plus(v)), ("minus", lambda: r.minus(v)),
                                   ("matrix product", lambda: a.multiply_vector(v)), ("plus to nothing", lambda: nil.plus(v)),
                                   ("unit matrix", lambda: one.multiply_vector(v))]),
           ("matrix", a, [("transpose", a.transpose), ("plus", lambda: a.plus(b)), ("image", lambda: a.multiply_vector(v)),
                          ("scaled", lambda: a.scaled(2)), ("scaled by one", lambda: a.scaled(1)), ("plus nothing", lambda: a.plus(none))]),
           ("matrix argument", b, [("plus", lambda: a.plus(b))])]
    for n, x, calls in ops:
        asked(h, n, x, calls)
    w = h.Vector6D.from_position_and_velocity(r, v)
    u = h.Vector6D(*[h.real(f"u{i}", -10, 10) for i in range(6)])
    asked(h, "6-vector", w, [("plus", lambda: w.plus(u)), ("minus", lambda: w.minus(u))])
    asked(h, "6-vector argument", u, [("plus", lambda: w.plus(u)), ("minus", lambda: w.minus(u))])


@SCENARIOS.add()
def observing(h):
    """observing, ranging and detecting geometry change neither spacecraft nor observation"""
    still(h)
    e, (r, v) = epoch(h), rv(h)
    a = h.Spacecraft(h.GCRF(e, r, v))
    b = h.Spacecraft(h.GCRF(e, h.free("q", -1000000, 1000000), h.free("w", -10, 10)))
    h.no_domain_errors()
    a0, b0 = snap(a), snap(b)
    d = a.target_vector(b)
    a.range(b)
    a.sun_vector()
    isolated(h, "line of sight", d, a)
    same(h, "target", b, b0)


@SCENARIOS.add()
def filters(h):
    """processing an observation in one filter or changing its matrices changes neither the observation, nor another filter, nor the defaults of new ones"""
    h.stub(h.StateConvert.gcrf, "to_hcw", lambda origin, s: h.HCW(
        origin.epoch, h.V(*[h.ufunc(f"c{c}", *h.lst(s.position)) for c in "xyz"]), h.V(0, 0, 0)))

    def system(self, t):
        g = h.ufunc("g", t)
        rows = [[(1 if i == j else g if j == i + 3 else 0) for j in range(6)] for i in range(6)]
        return h.Matrix6D(*[h.Vector6D(*r) for r in rows])

    h.stub(h.Hill, "system_matrix", system)
    h.no_domain_errors()
    e = epoch(h)
    st = h.HCW(e, h.free("p", -100, 100), h.free("v", -1, 1))
    k1, k2 = h.RelativeKalman(e, h.Hill(st, 7000)), h.RelativeKalman(e, h.Hill(st, 7000))
    k20, st0 = snap(k2), snap(st)
    ob = h.SpaceObservation(h.GCRF(e, h.V(7000, 0, 0), h.V(0, 7, 0)), h.V(h.real("d", 1, 100), 0, 0), h.real("re", 0.01, 1), h.q(1, 1000))
    ob0 = snap(ob)
    k1.process(ob)
    same(h, "other filter", k2, k20)
    same(h, "start state", st, st0)
    same(h, "observation", ob, ob0)
    k3 = snap(h.RelativeKalman(e, h.Hill(st, 7000)))
    for p, v in k20.items():
        if p in k3:
            h.eq(f"new filter {p}", k3[p], v, scale=1e4)
    k4 = h.RelativeKalman(e, h.Hill(st, 7000))
    spoil(h, k4.p00)
    spoil(h, k4.q)
    same(h, "other filter, own matrices changed", k2, k20)
    k3 = snap(h.RelativeKalman(e, h.Hill(st, 7000)))
    for p, v in k20.items():
        if p in k3:
            h.eq(f"new filter after the matrices of another changed {p}", k3[p], v, scale=1e4)
    x = k1.epoch.value
    spoil(h, ob)
    h.eq("filter epoch", k1.epoch.value, x)
    e2 = epoch(h)
    k = h.RelativeKalman(e2, h.Hill(st, 7000))
    x = k.epoch.value
    e2.value = e2.value + 1
    h.eq("filter epoch at start", k.epoch.value, x)
    isolated(h, "filter state / propagated state", k.x00, k.propagator.state.vector)


SCENARIOS.again(keep=False)

"""C24 attitude and steering"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
ASSUMPTIONS = [
    "the Sun's position is an arbitrary function of the epoch; the motion between steps is an arbitrary function of the epoch",
    "sequences of up to two mode changes; propagation of at most one integration step in between",
]
MODES = ["lvlh", "solar", "target"]


R = 1000000


def sky(h):
    h.stub(h.Sun, "get_position", lambda e: h.V(*[h.ufunc(f"sun{c}", e.value, lo=-150000000, hi=150000000) for c in "xyz"]))
    h.stub(h.Moon, "get_position", lambda e: h.V(*[h.ufunc(f"moon{c}", e.value, lo=-600000, hi=600000) for c in "xyz"]))


def moving(h):
    sky(h)
    h.stub(h.GCRF, "derivative", lambda self: [h.V(*[h.ufunc(f"vel{c}", self.epoch.value) for c in "xyz"]),
                                               h.V(*[h.ufunc(f"acc{c}", self.epoch.value, lo=-0.001, hi=0.001) for c in "xyz"])])


def far(h):
    r, v = h.free("r", -R, R), h.free("v", -15, 15)
    h.assume(r.dot(r) > 40000000)
    return r, v


def world(h, moving=True):
    sky(h)

    def derivative(self):
        return [h.V(0, 0, 0), h.V(0, 0, 0)]

    h.stub(h.GCRF, "derivative", derivative)
    e = h.real("mjd", 0, 100000)
    r, v = far(h)
    q = h.free("q", -R, R)
    apart(h, r, q)
    me = h.flown(h.GCRF(h.Epoch(e), r, v), own=("slew_scalar",))
    tgt = h.flown(h.GCRF(h.Epoch(e), q, h.free("w", -15, 15)), "target ")
    h.no_domain_errors()
    pairs(h, me, tgt)
    return e, r, v, me, tgt


def apart(h, r, q):
    if not h.symbolic:
        h.assume(abs(r.x - q.x) + abs(r.y - q.y) + abs(r.z - q.z) > 1e-3)


def pairs(h, me, tgt):
    ax = [payload_axis(h, me, tgt, m) for m in MODES]
    for i, j in ((0, 1), (0, 2), (1, 2)):
        h.cauchy_schwarz(MODES[i] + " " + MODES[j], ax[i], ax[j])


def payload_axis(h, me, tgt, mode):
    if mode == "lvlh":
        p = me.position()
        return h.V(-p.x, -p.y, -p.z)
    if mode == "solar":
        s, p = h.Sun.get_position(me.current_epoch()), me.position()
        return h.V(p.x - s.x, p.y - s.y, p.z - s.z)
    p, q = me.position(), tgt.position()
    return h.V(q.x - p.x, q.y - p.y, q.z - p.z)


def axes(h, label, me, tgt, mode):
    h.eq(label + " mode", me.steering, mode)
    x, y, z = me.body_x, me.body_y, me.body_z
    h.eqv(label + " payload axis", z, payload_axis(h, me, tgt, mode), scale=1e5)
    h.eq(label + " x y", x.dot(y), 0, ctol=1e-5 if h.symbolic else 1e-6 * (1 + x.magnitude() * y.magnitude()))
    h.eq(label + " y z", y.dot(z), 0, ctol=1e-5 if h.symbolic else 1e-6 * (1 + y.magnitude() * z.magnitude()))
    h.eq(label + " z x", z.dot(x), 0, ctol=1e-5 if h.symbolic else 1e-6 * (1 + z.magnitude() * x.magnitude()))
    # x cross y is z times the (non-negative) square of x or y: right-handed
    c = x.cross(y)
    k = x.dot(x) if mode == "solar" else y.dot(y)
    for n in "xyz":
        b = k * getattr(z, n)
        h.eq(f"{label} right-handed {n}", getattr(c, n), b, ctol=1 if h.symbolic else 1e-6 * (1 + x.magnitude() * y.magnitude()))
    if mode == "lvlh":
        w = me.position().cross(me.velocity())
        h.eqv(label + " panels along the orbit normal", y, w, scale=1e6)
    if mode == "target":
        s, p = h.Sun.get_position(me.current_epoch()), me.position()
        u = h.V(s.x - p.x, s.y - p.y, s.z - p.z)
        h.eq(label + " panels across the Sun", y.dot(u), 0, ctol=1 if h.symbolic else 1e-6 * (1 + y.magnitude() * u.magnitude()))


def go(me, tgt, mode):
    if mode == "lvlh":
        me.track_lvlh()
    elif mode == "solar":
        me.track_sun()
    else:
        me.track_state(tgt)


@SCENARIOS.add()
def initial(h):
    """a new spacecraft is Earth-pointing and not slewing, with the default slew rate of 0.5 degrees per second"""
    e, r, v, me, tgt = world(h)
    axes(h, "start", me, tgt, "lvlh")
    h.eq("not slewing", me.slewing, False)
    h.eq("slew scale", me.slew_scalar * h.pi / 360 * 86400, 1)
    me.track_lvlh()
    h.eq("still not slewing", me.slewing, False)


def change(h, first, second):
    """two consecutive changes of mode, any geometry and slew rate: axes, mode, and slew time proportional to the angle turned"""
    e, r, v, me, tgt = world(h)
    k = h.real("slew scalar", 0.00001, 0.1)
    me.slew_scalar = k
    mode = "lvlh"
    for n, m in enumerate((first, second)):
        z0 = h.V(*h.lst(me.body_z))
        was = me.slewing
        stop0 = me.slew_stop.value if was else None
        go(me, tgt, m)
        axes(h, f"{n} {m}", me, tgt, m)
        if m != mode:
            h.eq(f"{n} slewing", me.slewing, True)
            t = z0.angle(payload_axis(h, me, tgt, m)) * k
            h.eq(f"{n} slew end", me.slew_stop.value, e + t, ctol=1e-6)
        else:
            h.eq(f"{n} slewing unchanged", me.slewing, was)
            if was:
                h.eq(f"{n} slew end unchanged", me.slew_stop.value, stop0, ctol=1e-6)
        mode = m
    h.eq("epoch", me.current_epoch().value, e)


SCENARIOS.many(change, [(f"{a}_then_{b}", (a, b)) for a in MODES[1:] for b in MODES])


def retarget(h):
    """tracking a second target follows that one"""
    e, r, v, me, tgt = world(h)
    q2 = h.free("q2", -R, R)
    apart(h, r, q2)
    two = h.Spacecraft(h.GCRF(h.Epoch(e), q2, h.free("w2", -15, 15)))
    me.track_state(tgt)
    me.track_state(two)
    h.fact("new target", me.tracked_target is two)
    axes(h, "second", me, two, "target")
    h.eqv("first target stays", tgt.position(), h.free("q", -R, R), scale=1e5)


SCENARIOS.add()(retarget)


def after_step(h, mode, how):
    """after a step, a propagation or a maneuver the axes belong to the new state and epoch; a tracked target is brought to the same epoch"""
    moving(h)
    e = h.real("mjd", 0, 100000)
    if how in ("impulse", "burn"):
        r, v = h.V(h.real("r", 6500, R), 0, 0), h.V(h.real("vr", -10, 10), h.real("vt", 0.1, 15), 0)
    else:
        r, v = far(h)
    me = h.Spacecraft(h.GCRF(h.Epoch(e), r, v))
    tgt = h.Spacecraft(h.GCRF(h.Epoch(e), h.free("q", -R, R), h.free("w", -15, 15)))
    h.no_domain_errors()
    pairs(h, me, tgt)
    go(me, tgt, mode)
    if how == "step":
        me.step()
        h.eq("advanced", (me.current_epoch().value - e) * 86400, 300, ctol=1e-4)
    elif how in ("epoch", "earlier_epoch"):
        dt = h.real("dt", 1, 300) if how == "epoch" else h.real("dt", -300, -1)
        me.step_to_epoch(h.Epoch(e + dt / 86400))
        h.eq("advanced", (me.current_epoch().value - e) * 86400, dt, ctol=1e-4)
    elif how == "impulse":
        b = h.real("burn", -1, 1)
        me.impulsive_maneuver(h.V(0, b / 2, b))
    else:
        b = h.real("burn", 0.0001, 0.001)
        me.m_dot = 1
        me.finite_maneuver(h.V(0, 0, b))
        h.lt("advanced", e, me.current_epoch().value)
    axes(h, how, me, tgt, mode)
    if mode == "target":
        h.eq("target at the same epoch", tgt.current_epoch().value, me.current_epoch().value)
    else:
        h.eq("other spacecraft left alone", tgt.current_epoch().value, e)


SCENARIOS.many(after_step, [(f"{m}_after_{s}", (m, s)) for m in MODES for s in ("step", "epoch", "earlier_epoch", "impulse", "burn")])


def company(h, how):
    """two spacecraft tracking each other, or one tracking a second that tracks a third: all are brought to the epoch of the one that moves, each points at its own target"""
    moving(h)
    e = h.real("mjd", 0, 100000)
    r, v = far(h)
    ships = [h.flown(h.GCRF(h.Epoch(e), r, v))]
    for n in ("q", "s") if how == "chain" else ("q",):
        ships.append(h.flown(h.GCRF(h.Epoch(e), h.free(n, -R, R), h.free(n + "v", -15, 15)), n + " "))
    h.no_domain_errors()
    for i in range(len(ships)):
        for j in range(i):
            apart(h, ships[i].position(), ships[j].position())
    follow = [(0, 1), (1, 0)] if how == "mutual" else [(0, 1), (1, 2)]
    for i, j in follow:
        pairs(h, ships[i], ships[j])
    for i, j in reversed(follow):
        ships[i].track_state(ships[j])
    dt = h.real("dt", 1, 300)
    ships[0].step_to_epoch(h.Epoch(e + dt / 86400))
    for i, j in follow:
        h.eq(f"epoch {i}{j}", ships[i].current_epoch().value, ships[j].current_epoch().value)
        axes(h, f"{i}{j}", ships[i], ships[j], "target")
    h.eq("there", (ships[0].current_epoch().value - e) * 86400, dt, ctol=1e-4)


SCENARIOS.many(company, [("tracking_each_other", ("mutual",)), ("tracking_a_tracker", ("chain",))])


def slew_ends(h, before, mode, busy=False):
    """slewing holds until the slew time has passed, then ends; the axes are those of the mode during and after the slew"""
    e, r, v, me, tgt = world(h)
    me.slew_scalar = h.real("slew scalar", 0.00001, 0.01)
    if busy:
        tgt.slew_scalar = h.real("target's slew scalar", 0.00001, 0.01)
        tgt.track_sun()
    if before is not None:
        go(me, tgt, before)
    go(me, tgt, mode)
    stop = me.slew_stop.value
    dt = h.real("dt", 1, 300)
    me.step_to_epoch(h.Epoch(e + dt / 86400))
    t = me.current_epoch().value
    h.eq("there", t, e + dt / 86400, ctol=1e-8)
    if bool(t > stop):
        h.eq("over", me.slewing, False)
    else:
        h.eq("under way", me.slewing, True)
    h.eq("slew end kept", me.slew_stop.value, stop, ctol=1e-6)
    axes(h, "first", me, tgt, mode)
    me.step_to_epoch(h.Epoch(e + dt / 86400 + h.q(200, 86400)))
    if bool(me.current_epoch().value > stop):
        h.eq("over later", me.slewing, False)
    else:
        h.eq("under way later", me.slewing, True)
    axes(h, "second", me, tgt, mode)


SCENARIOS.many(slew_ends, [("slew_to_sun_ends", (None, "solar")), ("slew_to_target_ends", (None, "target")),
                           ("slew_to_earth_ends", ("solar", "lvlh")), ("slew_from_target_ends", ("target", "lvlh")),
                           ("slew_from_sun_to_target_ends", ("solar", "target")), ("slew_to_slewing_target_ends", (None, "target", True))])


def late_change(h, first, second):
    """a change of mode after an earlier slew, over or not: the new slew starts at the current epoch, from the axis pointed along now"""
    e, r, v, me, tgt = world(h)
    k = h.real("slew scalar", 0.00001, 0.01)
    me.slew_scalar = k
    go(me, tgt, first)
    dt = h.real("dt", 1, 300)
    me.step_to_epoch(h.Epoch(e + dt / 86400))
    now = me.current_epoch().value
    pairs(h, me, tgt)
    z0 = h.V(*h.lst(me.body_z))
    go(me, tgt, second)
    h.eq("slewing", me.slewing, True)
    h.eq("slew end", me.slew_stop.value, now + z0.angle(payload_axis(h, me, tgt, second)) * k, ctol=1e-6)
    axes(h, "new", me, tgt, second)


SCENARIOS.many(late_change, [(f"{a}_later_{b}", (a, b)) for a in MODES[1:] for b in MODES if a != b])


def unsynced(h, late):
    """tracking a target whose epoch differs brings the target to the observer's epoch, not the other way round, and slews to where it is then"""
    moving(h)
    e = h.real("mjd", 0, 100000)
    r, v = far(h)
    dt = h.real("lag", 1, 300) * (-1 if late else 1)
    me = h.Spacecraft(h.GCRF(h.Epoch(e), r, v))
    tgt = h.Spacecraft(h.GCRF(h.Epoch(e + dt / 86400), h.free("q", -R, R), h.free("w", -15, 15)))
    k = h.real("slew scalar", 0.00001, 0.01)
    me.slew_scalar = k
    h.no_domain_errors()
    z0 = h.V(*h.lst(me.body_z))
    me.track_state(tgt)
    pairs(h, me, tgt)
    h.eq("slewing", me.slewing, True)
    h.eq("slew end", me.slew_stop.value, e + z0.angle(payload_axis(h, me, tgt, "target")) * k, ctol=1e-6)
    h.eq("own epoch", me.current_epoch().value, e)
    h.eqv("own position", me.position(), r, scale=1e5)
    h.eq("target epoch", tgt.current_epoch().value, e, ctol=1e-8)
    apart(h, me.position(), tgt.position())
    axes(h, "tracking", me, tgt, "target")


SCENARIOS.many(unsynced, [("target_ahead", (False,)), ("target_behind", (True,))])


SCENARIOS.again(skip=("tracking_each_other", "tracking_a_tracker"))

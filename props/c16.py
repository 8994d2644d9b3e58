"""C16 numerical propagation"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
ASSUMPTIONS = [
    "the equations of motion are an arbitrary function of epoch, position, velocity and thrust (uninterpreted), so the "
    "integrator is decided for every force model",
    "intervals of at most four maximum steps (quick) / eight (thorough); longer intervals repeat the same loop body",
]
DAY = 86400


def dynamics(h, log, thrust=True, pert=True):
    """derivative replaced by arbitrary functions; records the stages"""
    def derivative(self):
        args = [self.epoch.value] + h.lst(self.position) + h.lst(self.velocity) + h.lst(self.thrust)
        log.append(dict(epoch=self.epoch.value, pos=h.lst(self.position), vel=h.lst(self.velocity), thrust=h.lst(self.thrust),
                        pert=self.use_perturbations))
        return [h.V(*h.lst(self.velocity)), h.V(*[h.ufunc(f"acc{k}", *args, lo=-0.001, hi=0.001) for k in range(3)])]

    h.stub(h.GCRF, "derivative", derivative)

    def ref(epoch, pos, vel, thr):
        return list(vel), [h.ufunc(f"acc{k}", *([epoch] + list(pos) + list(vel) + list(thr)), lo=-0.001, hi=0.001) for k in range(3)]

    return ref


def start(h):
    e = h.real("mjd", 0, 100000)
    st = h.GCRF(h.Epoch(e), h.free("r", -(10**6), 10**6), h.free("v", -100, 100))
    st.use_perturbations = h.choice("pert", [True, False])
    st.srp_scalar = h.real("any coefficient", 0, 100)  # the force model is arbitrary
    return e, st


def ax(x, k, y):
    return [a + k * b for a, b in zip(x, y)]


def rk4(f, e, pos, vel, step, thr=lambda t: [0, 0, 0]):
    half = step / 2
    a1, b1 = f(e, pos, vel, thr(0))
    a2, b2 = f(e + half / DAY, ax(pos, half, a1), ax(vel, half, b1), thr(half))
    a3, b3 = f(e + half / DAY, ax(pos, half, a2), ax(vel, half, b2), thr(half))
    a4, b4 = f(e + step / DAY, ax(pos, step, a3), ax(vel, step, b3), thr(step))
    p = [x + step * (k1 + 2 * k2 + 2 * k3 + k4) / 6 for x, k1, k2, k3, k4 in zip(pos, a1, a2, a3, a4)]
    v = [x + step * (k1 + 2 * k2 + 2 * k3 + k4) / 6 for x, k1, k2, k3, k4 in zip(vel, b1, b2, b3, b4)]
    return p, v


@SCENARIOS.add()
def one_step(h):
    """step sizes -3000..3000 s, any state, any force model"""
    log = []
    f = dynamics(h, log)
    e, st = start(h)
    p = h.RK4(st)
    h.eq("default step", p.step_size, 300)
    s = h.real("step", -3000, 3000)
    p.step_size = s
    p.step()
    pos, vel = rk4(f, e, h.lst(st.position), h.lst(st.velocity), s)
    h.eql("position", h.lst(p.state.position), pos, scale=1e6)
    h.eql("velocity", h.lst(p.state.velocity), vel, scale=100)
    h.eq("epoch", p.state.epoch.value, e + s / DAY)
    h.eql("vector", h.lst(p.state.vector), pos + vel, scale=1e6)
    h.eq("step size kept", p.step_size, s)
    h.eq("setting kept", p.state.use_perturbations, st.use_perturbations)
    for k, c in enumerate(log):
        h.eq(f"setting in stage {k}", c["pert"], st.use_perturbations)
    h.eq("given state untouched", st.epoch.value, e)


@SCENARIOS.add()
def burning_step(h):
    """a step while an engine runs, any thrust as a function of the time into the step, any force model"""
    log = []
    f = dynamics(h, log)
    e, st = start(h)
    p = h.RK4(st)
    p.state.srp_scalar = st.srp_scalar
    t = lambda dt: [h.ufunc(f"thrust{k}", dt, lo=-1, hi=1) for k in range(3)]
    h.stub(h.RK4, "thrust_vector", lambda self, dt: h.V(*t(dt)), needed=True)
    s = h.real("step", 1, 300)
    p.step_size = s
    p.m_dot, p.m0, p.isp, p.thrust_direction = h.real("flow", 0.001, 1), h.real("mass", 1000, 10000), h.real("isp", 1, 5000), h.free("dir", -1, 1)
    p.step()
    pos, vel = rk4(f, e, h.lst(st.position), h.lst(st.velocity), s, t)
    h.eql("position", h.lst(p.state.position), pos, scale=1e6)
    h.eql("velocity", h.lst(p.state.velocity), vel, scale=100)
    h.eq("epoch", p.state.epoch.value, e + s / DAY)
    h.eq("step size kept", p.step_size, s)
    h.eq("setting kept", p.state.use_perturbations, st.use_perturbations)


@SCENARIOS.add()
def two_steps(h):
    """two default steps in a row"""
    log = []
    f = dynamics(h, log)
    e, st = start(h)
    p = h.RK4(st)
    p.step()
    p.step()
    pos, vel = rk4(f, e, h.lst(st.position), h.lst(st.velocity), h.q(300))
    pos, vel = rk4(f, e + h.q(300) / DAY, pos, vel, h.q(300))
    h.eql("position", h.lst(p.state.position), pos, scale=1e6)
    h.eql("velocity", h.lst(p.state.velocity), vel, scale=100)
    h.eq("epoch", p.state.epoch.value, e + h.q(600) / DAY)


def arrive(h, lim, dirn):
    """any target epoch within the stated number of seconds: the force model is evaluated from start to arrival, never more than half a
    maximum step apart"""
    calls = []

    def derivative(self):
        calls.append(self.epoch.value)
        return [h.V(0, 0, 0), h.V(0, 0, 0)]

    h.stub(h.GCRF, "derivative", derivative)
    e, st = start(h)
    p = h.RK4(st)
    old = h.real("oldstep", -600, 600)
    p.step_size = old
    dt = h.real("dt", 0, lim) * dirn
    p.step_to_epoch(h.Epoch(e + dt / DAY))
    h.eq("arrives", p.state.epoch.value, e + dt / DAY)
    h.eq("step size kept", p.step_size, old)
    h.eql("motion", h.lst(p.state.vector), h.lst(st.vector), scale=1e6)
    if not calls:
        h.eq("no step only for no time", dt, 0)
        return
    h.eq("starts at the current epoch", calls[0], e)
    h.eq("ends at the requested epoch", calls[-1], e + dt / DAY)
    for k in range(1, len(calls)):
        gap = (calls[k] - calls[k - 1]) * DAY * dirn
        h.le(f"stage {k} not before stage {k - 1}", 0, gap, slack="0.00001")
        h.le(f"stage {k} within half a maximum step", gap, 150, slack="0.00001")


SCENARIOS.many(arrive, [("arrive_forward", (1200, 1)), ("arrive_backward", (1200, -1))])
SCENARIOS.many(arrive, [("arrive_forward_long", (3000, 1)), ("arrive_backward_long", (3000, -1))], tier="thorough")


def to_epoch(h, n, dirn):
    """the whole propagation to an epoch: n equal classical steps, real step method"""
    log = []
    f = dynamics(h, log)
    e, st = start(h)
    p = h.RK4(st)
    dt = h.real("dt", 300 * (n - 1), 300 * n, lo_open=True) * dirn
    if not h.symbolic:  # in floats the interval may come out a little longer than asked for
        h.assume(300 * (n - 1) + 1e-3 < abs(dt) < 300 * n - 1e-3)
    p.step_to_epoch(h.Epoch(e + dt / DAY))
    pos, vel, ep = h.lst(st.position), h.lst(st.velocity), e
    for _ in range(n):
        pos, vel = rk4(f, ep, pos, vel, dt / n)
        ep = ep + dt / n / DAY
    h.eq("epoch", p.state.epoch.value, e + dt / DAY)
    h.eql("position", h.lst(p.state.position), pos, scale=1e6)
    h.eql("velocity", h.lst(p.state.velocity), vel, scale=100)
    h.eq("setting kept", p.state.use_perturbations, st.use_perturbations)
    for k, c in enumerate(log):
        h.eq(f"setting in stage {k}", c["pert"], st.use_perturbations)


SCENARIOS.many(to_epoch, [(f"to_epoch_{n}{'f' if d > 0 else 'b'}", (n, d)) for n in (1, 2, 3) for d in (1, -1)])
SCENARIOS.many(to_epoch, [(f"to_epoch_{n}{'f' if d > 0 else 'b'}", (n, d)) for n in (4, 6, 8) for d in (1, -1)], tier="thorough")


def long_way(h, n, dirn):
    """intervals that take many maximum steps: equal steps, the same for every one, exactly to the requested epoch"""
    seen = []

    def derivative(self):
        seen.append(self.epoch.value)
        return [h.V(0, 0, 0), h.V(0, 0, 0)]

    h.stub(h.GCRF, "derivative", derivative)
    e = h.real("mjd", 0, 100000)
    st = h.GCRF(h.Epoch(e), h.V(7000, 0, 0), h.V(0, 7, 0))
    p = h.RK4(st)
    dt = h.real("dt", 300 * (n - 1) + h.q(1, 2), 300 * n - h.q(1, 2)) * dirn
    p.step_to_epoch(h.Epoch(e + dt / DAY))
    h.eq("arrives", p.state.epoch.value, e + dt / DAY, ctol=1e-6)
    h.eq("step size kept", p.step_size, 300)
    h.eq("starts at the current epoch", seen[0], e, ctol=1e-6)
    h.eq("ends at the requested epoch", seen[-1], e + dt / DAY, ctol=1e-6)
    picks = sorted(set([1, 2, 3, 4, 5, len(seen) // 3, len(seen) // 2, len(seen) - 2, len(seen) - 1]))
    for k in range(1, len(seen)):
        if h.symbolic and k not in picks:
            continue  # the gaps of the stages picked and the two ends fix the equal steps
        gap = (seen[k] - seen[k - 1]) * DAY * dirn
        h.le(f"stage {k} not before", 0, gap, slack="0.00001")
        h.le(f"stage {k} within half a maximum step", gap, 150, slack="0.00001")


SCENARIOS.many(long_way, [(f"long_way_{n}{'f' if d > 0 else 'b'}", (n, d)) for n in (12, 100, 1000) for d in (1, -1)])
SCENARIOS.many(long_way, [("long_way_3000f", (3000, 1)), ("long_way_10000f", (10000, 1))], weight=5)


@SCENARIOS.add()
def same_epoch(h):
    """propagating to the current epoch changes nothing"""
    log = []
    dynamics(h, log)
    e, st = start(h)
    p = h.RK4(st)
    p.step_to_epoch(h.Epoch(e))
    h.eql("vector", h.lst(p.state.vector), h.lst(st.vector), scale=1e6)
    h.eq("epoch", p.state.epoch.value, e)


@SCENARIOS.add()
def spacecraft_steps(h):
    """a spacecraft's step and step_to_epoch are its propagator's"""
    log = []
    f = dynamics(h, log)
    e, st = start(h)
    h.assume(st.position.dot(st.position) > 1)
    s = h.Spacecraft(st)
    s.step()
    pos, vel = rk4(f, e, h.lst(st.position), h.lst(st.velocity), h.q(300))
    h.eql("position", h.lst(s.position()), pos, scale=1e6)
    h.eql("velocity", h.lst(s.velocity()), vel, scale=100)
    h.eq("epoch", s.current_epoch().value, e + h.q(300) / DAY)
    s2 = h.Spacecraft(st)
    dt = h.real("dt", 1, 299)
    s2.step_to_epoch(h.Epoch(e + dt / DAY))
    pos, vel = rk4(f, e, h.lst(st.position), h.lst(st.velocity), dt)
    h.eql("position at epoch", h.lst(s2.position()), pos, scale=1e6)
    h.eql("velocity at epoch", h.lst(s2.velocity()), vel, scale=100)
    h.eq("epoch at epoch", s2.current_epoch().value, e + dt / DAY)
    back = h.real("back", 1, 299)
    h.assume(dt + back < 300)
    at = [h.lst(s2.position()), h.lst(s2.velocity())]
    s2.step_to_epoch(h.Epoch(e - back / DAY))
    pos, vel = rk4(f, e + dt / DAY, at[0], at[1], -(dt + back))
    h.eql("position before the start", h.lst(s2.position()), pos, scale=1e6)
    h.eql("velocity before the start", h.lst(s2.velocity()), vel, scale=100)
    h.eq("epoch before the start", s2.current_epoch().value, e - back / DAY)
    h.eql("initial state kept", h.lst(s2.initial_state.vector), h.lst(st.vector), scale=1e6)


SCENARIOS.again()

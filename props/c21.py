"""C21 relative Kalman filter"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
ASSUMPTIONS = [
    "matrix identities are decided for arbitrary covariances, gains and transition matrices, one filter operation at a time",
    "the end-to-end scenarios use a transition matrix of the form [I g(t)I; 0 I] (arbitrary g) and an uninterpreted conversion to the relative frame, so that the whole "
    "sequence stays small; the real ones are decided by C15 and C14",
]
DAY = 86400
K6 = ("x", "y", "z", "vx", "vy", "vz")


def vec6(h, n, b=1000):
    return h.Vector6D(*[h.real(f"{n}.{k}", -b, b) for k in K6])


def mat6(h, n, b=10):
    return h.Matrix6D(*[vec6(h, f"{n}{i}", b) for i in range(6)])


def sym6(h, n, b=1000):
    e = [[h.real(f"{n}{min(i, j)}{max(i, j)}", -b, b) for j in range(6)] for i in range(6)]
    return h.Matrix6D(*[h.Vector6D(*r) for r in e]), e


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def add(A, B):
    return [[a + b for a, b in zip(r, s)] for r, s in zip(A, B)]


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


H = [[1 if i == j else 0 for j in range(6)] for i in range(3)]


def eqmat(h, label, m, ref, **k):
    m = h.mat(m) if not isinstance(m, list) else m
    for i, r in enumerate(ref):
        for j, x in enumerate(r):
            h.eq(f"{label}[{i}][{j}]", m[i][j], x, **k)


def fresh(h):
    st = h.HCW(h.Epoch(55000), h.free("p", -(10**5), 10**5), h.free("v", -100, 100))
    hill = h.Hill(st, h.real("sma", 6000, 10**6))
    return st, hill, h.RelativeKalman(h.Epoch(h.real("mjd", 0, 100000)), hill)


@SCENARIOS.add()
def initial(h):
    """a new filter starts from the propagator's state, the given epoch and the default covariance and noise"""
    st, hill, k = fresh(h)
    h.eql("state", h.lst(k.x00), h.lst(st.position) + h.lst(st.velocity))
    h.eq("epoch", k.epoch.value, h.real("mjd", 0, 100000))
    d = [h.dec("0.5")] * 3 + [h.dec("0.00005")] * 3
    eqmat(h, "covariance", k.p00, [[d[i] if i == j else 0 for j in range(6)] for i in range(6)], ctol=1e-12)
    q = h.dec("0.0000000000000001")
    eqmat(h, "noise", k.q, [[q if i == j else 0 for j in range(6)] for i in range(6)], ctol=1e-20)
    eqmat(h, "observation matrix", k.H, H)


@SCENARIOS.add()
def prediction(h):
    """any state, covariance, noise and elapsed time: x = F x, P = F P F' + Q with the propagator's matrix for that many seconds"""
    st, hill, k = fresh(h)
    x = vec6(h, "x")
    P, Pe = sym6(h, "P")
    Q, Qe = sym6(h, "Q", 1)
    F = [[h.ufunc(f"F{i}{j}", h.real("dt", -(10**7), 10**7)) for j in range(6)] for i in range(6)]
    h.stub(h.Hill, "system_matrix", lambda self, t: h.Matrix6D(*[h.Vector6D(*[h.ufunc(f"F{i}{j}", t) for j in range(6)]) for i in range(6)]))
    k.x00, k.p00, k.q = x, P, Q
    k.predict(h.real("dt", -(10**7), 10**7))
    xe = [[v] for v in h.lst(x)]
    eqmat(h, "state", [[v] for v in h.lst(k.x10)], mul(F, xe), scale=1e4)
    eqmat(h, "covariance", k.p10, add(mul(mul(F, Pe), tr(F)), Qe), scale=1e5)
    h.eql("previous state kept", h.lst(k.x00), h.lst(x))
    eqmat(h, "previous covariance kept", k.p00, Pe)


@SCENARIOS.add()
def optimal_gain(h):
    """any covariance and measurement noise with an invertible innovation covariance S: K S = P H'"""
    st, hill, k = fresh(h)
    P, Pe = sym6(h, "P")
    R = [[h.real(f"R{i}{j}", -50, 50) for j in range(3)] for i in range(3)]
    k.p10, k.r = P, h.Matrix3D(*[h.V(*r) for r in R])
    S = add(mul(mul(H, Pe), tr(H)), R)
    det = (S[0][0] * (S[1][1] * S[2][2] - S[1][2] * S[2][1]) - S[0][1] * (S[1][0] * S[2][2] - S[1][2] * S[2][0])
           + S[0][2] * (S[1][0] * S[2][1] - S[1][1] * S[2][0]))
    h.assume(h.Or(det > h.dec("0.001"), det < -h.dec("0.001")))
    h.no_domain_errors()
    k.gain()
    eqmat(h, "gain", mul(h.mat(k.k), S), mul(Pe, tr(H)), scale=1e5)


@SCENARIOS.add()
def state_update(h):
    """any gain, prediction and measurement: x = x + K (z - H x), and the propagator continues from it"""
    st, hill, k = fresh(h)
    x, z = vec6(h, "x", 10**5), h.free("z", -(10**5), 10**5)
    K = [[h.real(f"K{i}{j}", -10, 10) for j in range(3)] for i in range(6)]
    k.x10, k.z, k.k = x, z, h.Matrix6by3(*[h.V(*r) for r in K])
    k.update_state()
    res = [a - b for a, b in zip(h.lst(z), h.lst(x)[:3])]
    ref = [a + sum(K[i][j] * res[j] for j in range(3)) for i, a in enumerate(h.lst(x))]
    h.eql("state", h.lst(k.x00), ref, scale=1e7)
    h.eql("propagator state", h.lst(k.propagator.state.position) + h.lst(k.propagator.state.velocity), ref, scale=1e7)
    h.eql("propagator vector", h.lst(k.propagator.state.vector), ref, scale=1e7)


@SCENARIOS.add(weight=2)
def covariance_update(h):
    """any gain, any symmetric P and R: Joseph form, symmetric, and y'Py is a sum of quadratic forms in P and R for every y (so positive semidefinite)"""
    st, hill, k = fresh(h)
    P, Pe = sym6(h, "P")
    R = [[h.real(f"R{min(i, j)}{max(i, j)}", -500, 500) for j in range(3)] for i in range(3)]
    K = [[h.real(f"K{i}{j}", -10, 10) for j in range(3)] for i in range(6)]
    k.p10, k.r, k.k = P, h.Matrix3D(*[h.V(*r) for r in R]), h.Matrix6by3(*[h.V(*r) for r in K])
    k.update_covariance()
    M = [[(1 if i == j else 0) - (K[i][j] if j < 3 else 0) for j in range(6)] for i in range(6)]
    ref = add(mul(mul(M, Pe), tr(M)), mul(mul(K, R), tr(K)))
    got = h.mat(k.p00)
    eqmat(h, "joseph", got, ref, scale=1e7)
    for i in range(6):
        for j in range(i):
            h.eq(f"symmetric {i}{j}", got[i][j], got[j][i], scale=1e7)
    y = [h.real(f"y{i}", -1, 1) for i in range(6)]
    u = [sum(M[i][j] * y[i] for i in range(6)) for j in range(6)]
    w = [sum(K[i][j] * y[i] for i in range(6)) for j in range(3)]
    q = lambda A, v: sum(A[i][j] * v[i] * v[j] for i in range(len(v)) for j in range(len(v)))
    h.eq("quadratic form", q(got, y), q(Pe, u) + q(R, w), scale=1e7)


def hill_of(h, o, pos):
    args = h.lst(o.position) + h.lst(o.velocity) + pos
    return [h.ufunc(f"hill{c}", *args, lo=0.01, hi=5000) for c in "xyz"]


def simple(h):
    def F(t):
        g = h.ufunc("g", t, lo=-300, hi=300)
        return [[1 if i == j else (g if j == i + 3 else 0) for j in range(6)] for i in range(6)]

    h.stub(h.Hill, "system_matrix", lambda self, t: h.Matrix6D(*[h.Vector6D(*r) for r in F(t)]))

    def to_hcw(o, s):
        return h.HCW(o.epoch, h.V(*hill_of(h, o, h.lst(s.position))), h.V(0, 0, 0))

    h.stub(h.StateConvert.gcrf, "to_hcw", to_hcw)
    return F


def errors(h, d, re, ae):
    """one-sigma Cartesian error of the line of sight d"""
    s = h.SphericalPosition.from_cartesian(d)
    c = h.SphericalPosition(s.radius + re, s.right_ascension + ae, s.declination + ae).to_cartesian()
    return [a - b for a, b in zip(h.lst(c), h.lst(d))]


def observation(h, n, epoch):
    st = h.laden(h.GCRF(h.Epoch(epoch), h.free(f"or{n}", -(10**6), 10**6), h.free(f"ov{n}", -50, 50)), f"{n} ")
    d = h.vec(f"los{n}", 0.001, 10**5)
    re, ae = h.real(f"re{n}", 0.0001, 1000), h.real(f"ae{n}", 0.000001, 1)
    return d, re, ae, h.SpaceObservation(st, d, re, ae)


def axis_filter(h, x, v, P, g, z, r, q):
    """one axis of the decoupled filter: returns x, v, P after prediction over g and update with z, variance r"""
    xp, vp = x + g * v, v
    a, b, c = P
    p11, p12, p22 = a + 2 * g * b + g * g * c + q, b + g * c, c + q
    s = p11 + r
    k1, k2 = p11 / s, p12 / s
    e = z - xp
    m = 1 - k1
    return xp + k1 * e, vp + k2 * e, (m * m * p11 + k1 * k1 * r, m * (p12 - k2 * p11) + k1 * k2 * r,
                                      p22 - 2 * k2 * p12 + k2 * k2 * p11 + k2 * k2 * r)


def processing(h, anywhere):
    """observations up to a day later or earlier, line of sight 1e-3..1e5 km, any errors: state, covariance, epoch and propagator after each"""
    simple(h)
    st, hill, k = fresh(h)
    ep = h.real("mjd", 0, 100000)
    q = h.dec("0.0000000000000001")
    xs = [(st.position.x, st.velocity.x), (st.position.y, st.velocity.y), (st.position.z, st.velocity.z)]
    Ps = [(h.dec("0.5"), 0, h.dec("0.00005"))] * 3
    if anywhere:
        # an arbitrary earlier history: any estimate and any covariance of the decoupled form, after at least one observation
        k.process(h.SpaceObservation(h.GCRF(h.Epoch(ep + h.q(1, 8)), h.V(7000, 10, 20), h.V(1, 7, 0)), h.V(10, 3, 4), 0.1, 0.01))
        k.epoch = h.Epoch(ep)
        xs = [(h.real(f"x{i}", -(10**5), 10**5), h.real(f"v{i}", -100, 100)) for i in range(3)]
        Ps = [(h.real(f"a{i}", 0.001, 1000), h.real(f"b{i}", -0.001, 0.001), h.real(f"c{i}", 0.001, 0.1)) for i in range(3)]
        k.x00 = h.Vector6D(*[t[0] for t in xs], *[t[1] for t in xs])
        k.p00 = h.Matrix6D(*[h.Vector6D(*[Ps[i % 3][(i >= 3) + (j >= 3)] if i % 3 == j % 3 else 0 for j in range(6)]) for i in range(6)])
        # errors of the observation processed last
        k.range_error, k.angular_error = h.real("earlier re", 0.0001, 1000), h.real("earlier ae", 0.000001, 1)
    h.no_domain_errors()
    for n in range(1):
        dt = h.real(f"dt{n}", -DAY, DAY)
        d, re, ae, ob = observation(h, n, ep + dt / DAY)
        o = h.laden(h.GCRF(h.Epoch(ep), h.free(f"or{n}", -(10**6), 10**6), h.free(f"ov{n}", -50, 50)), f"{n} ")
        at = lambda w: hill_of(h, o, [a + b for a, b in zip(h.lst(o.position), w)])
        z, e = at(h.lst(d)), at(errors(h, d, re, ae))
        k.process(ob)
        ep = ep + dt / DAY
        g = h.ufunc("g", dt, lo=-300, hi=300)
        new = [axis_filter(h, xs[i][0], xs[i][1], Ps[i], g, z[i], e[i] * e[i], q) for i in range(3)]
        xs, Ps = [t[:2] for t in new], [t[2] for t in new]
        tol = dict(ctol=1e-4)
        h.eql(f"position {n}", h.lst(k.x00)[:3], [t[0] for t in xs], **tol)
        h.eql(f"velocity {n}", h.lst(k.x00)[3:], [t[1] for t in xs], **tol)
        h.eql(f"propagator {n}", h.lst(k.propagator.state.vector), h.lst(k.x00), **tol)
        h.eq(f"epoch {n}", k.epoch.value, ep)
        p = h.mat(k.p00)
        for i in range(3):
            h.eq(f"P{n} {i} xx", p[i][i], Ps[i][0], **tol)
            h.eq(f"P{n} {i} xv", p[i][i + 3], Ps[i][1], ctol=1e-6)
            h.eq(f"P{n} {i} vx", p[i + 3][i], Ps[i][1], ctol=1e-6)
            h.eq(f"P{n} {i} vv", p[i + 3][i + 3], Ps[i][2], ctol=1e-8)
        for i in range(6):
            for j in range(6):
                if i % 3 != j % 3:
                    h.eq(f"P{n} off {i}{j}", p[i][j], 0, ctol=1e-8)
        h.eq(f"range error {n}", k.range_error, re)
        h.eq(f"angular error {n}", k.angular_error, ae)


SCENARIOS.many(processing, [("process_first", (False,)), ("process_next", (True,))])


@SCENARIOS.add()
def defaults_are_not_shared(h):
    """processing with one filter leaves the defaults of other filters alone"""
    simple(h)
    st, hill, k = fresh(h)
    d, re, ae, ob = observation(h, 0, h.real("mjd", 0, 100000) + h.q(1, 1000))
    h.no_domain_errors()
    k.process(ob)
    k2 = h.RelativeKalman(h.Epoch(55000), h.Hill(st, 7000))
    dg = [h.dec("0.5")] * 3 + [h.dec("0.00005")] * 3
    eqmat(h, "covariance", k2.p00, [[dg[i] if i == j else 0 for j in range(6)] for i in range(6)], ctol=1e-12)
    h.eql("state", h.lst(k2.x00), h.lst(st.vector))


@SCENARIOS.add()
def acquisition(h):
    """acquiring a target starts the filter at the current epoch from the target's relative state and points at the target"""
    ro, vt, vr = h.real("ro", 7000, 50000), h.real("vt", 1, 10), h.real("vr", -3, 3)
    k = 2 * h.Earth.MU / ro - vt * vt - vr * vr
    h.assume(k > 1)
    o = h.GCRF(h.Epoch(h.real("mjd", 0, 100000)), h.V(ro, 0, 0), h.V(vr, vt, 0))
    d = h.free("d", -100, 100)
    h.assume(d.dot(d) > 1)
    t = h.GCRF(o.epoch, h.V(ro + d.x, d.y, d.z), h.free("tv", -10, 10))
    h.stub(h.Sun, "get_position", lambda e: h.V(*[h.ufunc(f"sun{c}", e.value, lo=100000000, hi=150000000) for c in "xyz"]))
    h.no_domain_errors()
    me, tgt = h.flown(o), h.flown(t, "target ", own=("step_size",))
    me.acquire(tgt)
    ref = h.StateConvert.gcrf.to_hcw(o, t)
    h.eql("filter state", h.lst(me.filter.x00), h.lst(ref.position) + h.lst(ref.velocity), ctol=1e-5)
    h.eq("filter epoch", me.filter.epoch.value, o.epoch.value)
    h.eq("filter orbit", me.filter.propagator.sma * k, h.Earth.MU, scale=1e6)
    h.eq("steering", me.steering, "target")
    h.fact("tracked target", me.tracked_target is tgt)


def acquisition_unsynced(h, late):
    """a target last propagated to another epoch (up to 300 s off) is acquired where it is at the filter's epoch"""
    h.stub(h.GCRF, "derivative", lambda self: [h.V(*[h.ufunc(f"vel{c}", self.epoch.value, lo=-10, hi=10) for c in "xyz"]),
                                               h.V(*[h.ufunc(f"acc{c}", self.epoch.value, lo=-0.001, hi=0.001) for c in "xyz"])])
    ro, vt = h.real("ro", 7000, 50000), h.real("vt", 1, 7)
    e = h.real("mjd", 0, 100000)
    o = h.GCRF(h.Epoch(e), h.V(ro, 0, 0), h.V(0, vt, 0))
    h.assume(2 * h.Earth.MU / ro - vt * vt > 1)
    lag = h.real("lag", 1, 299) * (-1 if late else 1)
    t = h.GCRF(h.Epoch(e + lag / 86400), h.V(ro, h.real("d", 4000, 5000), 0), h.V(vt, 0, 0))
    h.stub(h.Sun, "get_position", lambda e: h.V(*[h.ufunc(f"sun{c}", e.value, lo=100000000, hi=150000000) for c in "xyz"]))
    h.stub(h.StateConvert.gcrf, "to_hcw",
           lambda o, t: h.HCW(o.epoch, t.position.minus(o.position), t.velocity.minus(o.velocity)), needed=True)
    h.no_domain_errors()
    me, tgt = h.flown(o), h.flown(t, "target ", own=("step_size",))
    me.acquire(tgt)
    h.eq("target epoch", tgt.current_epoch().value, e, ctol=1e-8)
    h.eql("filter state", h.lst(me.filter.x00),
          h.lst(tgt.position().minus(o.position)) + h.lst(tgt.velocity().minus(o.velocity)), ctol=1e-5)
    h.eq("filter epoch", me.filter.epoch.value, e)


SCENARIOS.many(acquisition_unsynced, [("acquisition_of_target_ahead", (False,)), ("acquisition_of_target_behind", (True,))])


SCENARIOS.again()

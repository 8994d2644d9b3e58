"""C15 Hill propagation"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()


def hill(h):
    a = h.real("sma", 6000, 10**6)
    st = h.HCW(h.Epoch(h.real("mjd", 0, 100000)), h.free("p", -(10**5), 10**5), h.free("v", -100, 100))
    return a, st, h.Hill(st, a)


def cw(n):
    z = [0] * 6
    A = [list(z) for _ in range(6)]
    A[0][3] = A[1][4] = A[2][5] = 1
    A[3][0], A[3][4] = 3 * n * n, 2 * n
    A[4][3] = -2 * n
    A[5][2] = -n * n
    return A


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(6)) for j in range(6)] for i in range(6)]


SC = [1, 1, 1, 1e4, 1e4, 1e4]


@SCENARIOS.add()
def identity_at_zero(h):
    """semi-major axis 6000..1e6 km"""
    a, st, p = hill(h)
    h.eq("mean motion", p.n * p.n * a * a * a, h.Earth.MU, scale=1e9)
    h.lt("mean motion positive", 0, p.n)
    m = h.mat(p.system_matrix(0))
    for i in range(6):
        for j in range(6):
            h.eq(f"[{i}][{j}]", m[i][j], 1 if i == j else 0)


@SCENARIOS.add()
def differential_equation(h):
    """d/dt of the matrix equals the Clohessy-Wiltshire system matrix times it, |t| <= 1e6 s"""
    a, st, p = hill(h)
    t = h.real("t", -(10**6), 10**6)
    M = h.mat(p.system_matrix(t))
    R = mul(cw(p.n), M)
    for i in range(6):
        for j in range(6):
            d = h.deriv(lambda x: h.mat(p.system_matrix(x))[i][j], t, step=2)
            h.eq(f"[{i}][{j}]", d, R[i][j], ctol=1e-5 * max(1, abs(float(R[i][j])) if not h.symbolic else 1))


@SCENARIOS.add(weight=2)
def composition(h):
    """two consecutive times |t| <= 1e6 s"""
    a, st, p = hill(h)
    h.split_angles()
    t1, t2 = h.real("t1", -(10**6), 10**6), h.real("t2", -(10**6), 10**6)
    A, B, Cm = (h.mat(p.system_matrix(t)) for t in (t2, t1, t1 + t2))
    R = mul(A, B)
    for i in range(6):
        for j in range(6):
            h.eq(f"[{i}][{j}]", R[i][j], Cm[i][j], scale=1e9)


@SCENARIOS.add()
def stepping(h):
    """a step by t seconds is the matrix for t times the state, twice in a row and back"""
    a, st, p = hill(h)
    h.split_angles()
    t1, t2 = h.real("t1", -(10**6), 10**6), h.real("t2", -(10**6), 10**6)
    x = h.lst(st.vector)
    h.eql("state vector", x, h.lst(st.position) + h.lst(st.velocity))
    M1, M12 = h.mat(p.system_matrix(t1)), h.mat(p.system_matrix(t1 + t2))
    p.step_by_seconds(t1)
    y = [sum(M1[i][k] * x[k] for k in range(6)) for i in range(6)]
    h.eql("position", h.lst(p.state.position), y[:3], scale=1e9)
    h.eql("velocity", h.lst(p.state.velocity), y[3:], scale=1e5)
    h.eql("vector", h.lst(p.state.vector), y, scale=1e9)
    p.step_by_seconds(t2)
    z = [sum(M12[i][k] * x[k] for k in range(6)) for i in range(6)]
    h.eql("two steps", h.lst(p.state.vector), z, scale=1e9)
    p.step_by_seconds(-(t1 + t2))
    h.eql("and back", h.lst(p.state.vector), x, scale=1e9)
    h.eql("initial state untouched", h.lst(st.vector), x, scale=1e9)


@SCENARIOS.add()
def default_step(h):
    """step() advances by the configured step size"""
    a, st, p = hill(h)
    h.eq("default", p.step_size, 600)
    q = h.Hill(st, a)
    p.step()
    q.step_by_seconds(600)
    h.eql("default step", h.lst(p.state.vector), h.lst(q.state.vector), scale=1e9)
    s = h.real("step", -(10**6), 10**6)
    p2, q2 = h.Hill(st, a), h.Hill(st, a)
    p2.step_size = s
    p2.step()
    q2.step_by_seconds(s)
    h.eql("configured step", h.lst(p2.state.vector), h.lst(q2.state.vector), scale=1e9)
    h.eq("step size kept", p2.step_size, s)
    h.eq("semi-major axis kept", p2.sma, a)


SCENARIOS.again()

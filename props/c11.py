"""C11 Earth orientation and frame conversions"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
NUT = dict(tol="0.000000000001", ctol=1e-10)
ASSUMPTIONS = [
    "epochs between MJD 0 and 100000",
    "the nutation matrix is first order in the nutation angles, so it is orthonormal only to 2e-8",
]


def arcsec(h, s):
    return h.dec(s) * h.pi / 180 / 3600


def deg(h, s):
    return h.dec(s) * h.pi / 180


def epoch(h):
    v = h.real("mjd", 0, 100000)
    return v, h.Epoch(v)


def cents(h, v):
    return (v - h.dec("51544.5")) / h.q(36525)


def obliquity(h, t):
    return deg(h, "23.43929111") - arcsec(h, "46.815") * t - arcsec(h, "0.00059") * t * t + arcsec(h, "0.001813") * t * t * t


def nut_angles(h, v):
    d = v - h.dec("51544.5")
    a1, a2 = deg(h, "125") - deg(h, "0.05295") * d, deg(h, "200.9") + deg(h, "1.97129") * d
    dpsi = -deg(h, "0.0048") * h.sin(a1) - deg(h, "0.0004") * h.sin(a2)
    deps = deg(h, "0.0026") * h.cos(a1) + deg(h, "0.0002") * h.cos(a2)
    return dpsi, deps


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def rz(h, a):
    return [[h.cos(a), h.sin(a), 0], [-h.sin(a), h.cos(a), 0], [0, 0, 1]]


def ry(h, a):
    return [[h.cos(a), 0, -h.sin(a)], [0, 1, 0], [h.sin(a), 0, h.cos(a)]]


def eqmat(h, label, m, ref, **k):
    m = h.mat(m)
    for i in range(3):
        for j in range(3):
            h.eq(f"{label}[{i}][{j}]", m[i][j], ref[i][j], **k)


def proper(h, label, m, **k):
    m = h.mat(m)
    mt = [[m[j][i] for j in range(3)] for i in range(3)]
    p = mul(m, mt)
    for i in range(3):
        for j in range(i, 3):
            h.eq(f"{label} orthonormal[{i}][{j}]", p[i][j], 1 if i == j else 0, **k)
    d = (
        m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
    )
    h.eq(f"{label} determinant", d, 1, **k)


def precession_ref(h, v):
    t = cents(h, v)
    zeta = arcsec(h, "2306.2181") * t + arcsec(h, "0.30188") * t * t + arcsec(h, "0.017998") * t * t * t
    theta = arcsec(h, "2004.3109") * t - arcsec(h, "0.42665") * t * t - arcsec(h, "0.041833") * t * t * t
    z = zeta + arcsec(h, "0.7928") * t * t + arcsec(h, "0.000205") * t * t * t
    return mul(rz(h, -z), mul(ry(h, theta), rz(h, -zeta)))


def nutation_ref(h, v):
    dpsi, deps = nut_angles(h, v)
    eps = obliquity(h, cents(h, v))
    ce, se = h.cos(eps), h.sin(eps)
    return [[1, -dpsi * ce, -dpsi * se], [dpsi * ce, 1, -deps], [dpsi * se, deps, 1]]


def rotation_ref(h, v, gha):
    dpsi, _ = nut_angles(h, v)
    return rz(h, gha + dpsi * h.cos(obliquity(h, cents(h, v))))


@SCENARIOS.add()
def precession(h):
    """a proper rotation Rz(-z) Ry(theta) Rz(-zeta) with the IAU 1976 angles, the identity at J2000"""
    v, e = epoch(h)
    m = h.Earth.precession(e)
    proper(h, "precession", m)
    eqmat(h, "precession", m, precession_ref(h, v))
    eqmat(h, "at J2000", h.Earth.precession(h.Epoch(h.dec("51544.5"))), [[1, 0, 0], [0, 1, 0], [0, 0, 1]])


@SCENARIOS.add()
def nutation(h):
    """the first-order matrix for the two-term series; orthonormal to 2e-8"""
    v, e = epoch(h)
    m = h.Earth.nutation(e)
    eqmat(h, "nutation", m, nutation_ref(h, v), **NUT)
    proper(h, "nutation", m, tol="0.00000002", ctol=1e-7)


@SCENARIOS.add()
def sidereal_rotation(h):
    """a rotation about z by the apparent sidereal time"""
    v, e = epoch(h)
    m = h.Earth.rotation(e)
    proper(h, "rotation", m)
    eqmat(h, "rotation", m, rotation_ref(h, v, e.greenwich_hour_angle()), ctol=1e-8)
    h.eq("obliquity", h.Earth.obliquity_of_ecliptic_at_epoch(e), obliquity(h, cents(h, v)), ctol=1e-10)


def another_epoch(h, which):
    """the matrices of one epoch do not depend on the epochs asked for before, or on what the caller did with the earlier answer"""
    v, e = epoch(h)
    w = h.real("mjd2", 0, 100000)
    e2 = h.Epoch(w)
    f = getattr(h.Earth, which)
    m = f(e)
    m.row1.x, m.row2.z = m.row2.y + 5, h.q(7)
    if which == "precession":
        eqmat(h, "second epoch", f(e2), precession_ref(h, w), ctol=1e-9)
    elif which == "nutation":
        eqmat(h, "second epoch", f(e2), nutation_ref(h, w), **NUT)
    else:
        eqmat(h, "second epoch", f(e2), rotation_ref(h, w, e2.greenwich_hour_angle()), ctol=1e-8)


SCENARIOS.many(another_epoch, [(f"another_epoch_{n}", (n,)) for n in ("precession", "nutation", "rotation")])


def stubbed(h):
    """Earth's three matrices replaced by arbitrary ones that depend on the epoch only"""
    ms = {}
    for n in ("precession", "nutation", "rotation"):
        def f(ep, n=n):
            return h.Matrix3D(*[h.V(*[h.ufunc(f"{n}{i}{j}", ep.value) for j in range(3)]) for i in range(3)])

        h.stub(h.Earth, n, f)
        ms[n] = f
    return ms


@SCENARIOS.add()
def gcrf_chain(h):
    """positions up to 1e9 km; precession, then nutation, then sidereal rotation, all at the given epoch"""
    v, e = epoch(h)
    ms = stubbed(h)
    x = h.free("x", -(10**9), 10**9)
    g = h.PositionConvert.gcrf
    P, N, R = ms["precession"](e), ms["nutation"](e), ms["rotation"](e)
    mod = P.multiply_vector(x)
    tod = N.multiply_vector(mod)
    itrf = R.multiply_vector(tod)
    h.eqv("to mod", g.to_mod(x, e), mod, scale=1e9)
    h.eqv("to tod", g.to_tod(x, e), tod, scale=1e9)
    h.eqv("to itrf", g.to_itrf(x, e), itrf, scale=1e9)
    h.eqv("input kept", x, h.V(*h.lst(h.free("x", -(10**9), 10**9))), scale=1e9)


@SCENARIOS.add()
def itrf_chain(h):
    """positions up to 1e9 km; the inverse (transposed) rotations in the opposite order"""
    v, e = epoch(h)
    ms = stubbed(h)
    x = h.free("x", -(10**9), 10**9)
    g = h.PositionConvert.itrf
    P, N, R = (ms[n](e).transpose() for n in ("precession", "nutation", "rotation"))
    tod = R.multiply_vector(x)
    mod = N.multiply_vector(tod)
    h.eqv("to tod", g.to_tod(x, e), tod, scale=1e9)
    h.eqv("to mod", g.to_mod(x, e), mod, scale=1e9)
    h.eqv("to gcrf", g.to_gcrf(x, e), P.multiply_vector(mod), scale=1e9)


@SCENARIOS.add(weight=5)
def round_trip(h):
    """GCRF to ITRF and back, positions with components up to 50000 km: within 20 m (first-order nutation)"""
    v, e = epoch(h)
    x = h.free("x", -50000, 50000)
    y = h.PositionConvert.gcrf.to_itrf(x, e)
    z = h.PositionConvert.itrf.to_gcrf(y, e)
    h.eqv("round trip", z, x, tol="0.02", ctol=0.03)


@SCENARIOS.add()
def ijk(h):
    """Earth fixed to IJK turns the position about z by the Greenwich hour angle"""
    v, e = epoch(h)
    x = h.free("x", -50000, 50000)
    g = e.greenwich_hour_angle()
    y = h.PositionConvert.itrf.to_ijk(x, e)
    c, s = h.cos(g), h.sin(g)
    ref = h.V(c * x.x - s * x.y, s * x.x + c * x.y, x.z)
    h.eqv("to ijk", y, ref, scale=1e5)
    ms = stubbed(h)
    w = h.PositionConvert.gcrf.to_itrf(x, e)
    u = h.PositionConvert.gcrf.to_ijk(x, e)
    h.eqv("gcrf to ijk", u, h.V(c * w.x - s * w.y, s * w.x + c * w.y, w.z), scale=1e5)


SCENARIOS.again()

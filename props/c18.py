"""C18 geopotential"""
from math import factorial
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
ASSUMPTIONS = [
    "positions off the polar axis (the spherical formulation is singular there)",
    "in the gradient scenarios the Earth-fixed frame coincides with the inertial one or is turned about z and y by arbitrary angles",
]


def legendre(n, m, s, c):
    """P_nm(s) = c^m d^m/ds^m [ (1/(2^n n!)) d^n/ds^n (s^2-1)^n ], exact coefficients over 2^n n!"""
    co = [0] * (2 * n + 1)
    for k in range(n + 1):
        co[2 * k] = (-1) ** (n - k) * factorial(n) // (factorial(k) * factorial(n - k))
    for _ in range(n + m):
        co = [i * co[i] for i in range(1, len(co))] or [0]
    p = 0
    for a in reversed(co):
        p = p * s + a
    for _ in range(m):
        p = p * c
    return p / (2**n * factorial(n))


@SCENARIOS.add()
def legendre_table(h):
    """every latitude: degrees 0..4, all orders, and the zero entry after the last order"""
    phi = h.angle("phi", -PI / 2, PI / 2)
    p = h.LegendrePolynomial(phi).p
    s, c = h.sin(phi), h.cos(phi)
    for n in range(5):
        for m in range(n + 1):
            h.eq(f"P{n}{m}", p[n][m], legendre(n, m, s, c))
        h.eq(f"P{n} beyond", p[n][n + 1], 0)


CBAR = {
    (2, 0): "-0.000484165143790815", (2, 1): "-0.000000000206615509074176", (2, 2): "0.00000243938357328313",
    (3, 0): "0.000000957161207093473", (3, 1): "0.00000203046201047864", (3, 2): "0.000000904787894809528", (3, 3): "0.000000721321757121568",
    (4, 0): "0.000000539965866638991", (4, 1): "-0.000000536157389388867", (4, 2): "0.000000350501623962649",
    (4, 3): "0.000000990856766672321", (4, 4): "-0.000000188519633023033",
}
SBAR = {
    (2, 1): "0.00000000138441389137979", (2, 2): "-0.00000140027370385934",
    (3, 1): "0.000000248200415856872", (3, 2): "-0.000000619005475177618", (3, 3): "0.00000141434926192941",
    (4, 1): "-0.000000473567346518086", (4, 2): "0.000000662480026275829", (4, 3): "-0.000000200956723567452", (4, 4): "0.000000308803882149194",
}


@SCENARIOS.add()
def coefficients(h):
    """Earth's coefficients are the published normalised ones times the normalisation, degrees 2..4"""
    h.true("five degrees", h.Earth.DEGREE_AND_ORDER == 5)
    for n in range(2, 5):
        for m in range(n + 1):
            k = h.q(factorial(n + m), factorial(n - m) * (2 * n + 1) * (1 if m == 0 else 2))
            root = h.sqrt(k)
            h.eq(f"C{n}{m}", h.Earth.C[n][m] * root * 1000000, h.dec(CBAR[n, m]) * 1000000, tol="0.000000000000001", ctol=1e-12)
            sb = h.dec(SBAR[n, m]) if m else 0
            h.eq(f"S{n}{m}", h.Earth.S[n][m] * root * 1000000, sb * 1000000, tol="0.000000000000001", ctol=1e-12)


def potential(h, C, S, degrees):
    mu, R = h.Earth.MU, h.Earth.RADIUS

    def U(r, phi, lam):
        t = 0
        s, c = h.sin(phi), h.cos(phi)
        for n in degrees:
            for m in range(n + 1):
                if not isinstance(C[n][m], int) or not isinstance(S[n][m], int):
                    t = t + (R / r) ** n * legendre(n, m, s, c) * (C[n][m] * h.cos(m * lam) + S[n][m] * h.sin(m * lam))
        return mu / r * t

    return U


def gradient(h, U, r, phi, lam):
    ur = h.deriv(lambda x: U(x, phi, lam), r, step=20)
    up = h.deriv(lambda x: U(r, x, lam), phi, step=0.002)
    ul = h.deriv(lambda x: U(r, phi, x), lam, step=0.002)
    return ur, up, ul


def place(h):
    r = h.real("r", 6000, 10**6)
    phi = h.angle("phi", -1.5707, 1.5707)
    lam = h.angle("lam", 0, 2 * PI, hi_open=True)
    er = h.V(h.cos(phi) * h.cos(lam), h.cos(phi) * h.sin(lam), h.sin(phi))
    ep = h.V(-h.sin(phi) * h.cos(lam), -h.sin(phi) * h.sin(lam), h.cos(phi))
    el = h.V(-h.sin(lam), h.cos(lam), 0)
    return r, phi, lam, er, ep, el


def terms(h, which):
    C = [[0] * (n + 1) for n in range(5)]
    S = [[0] * (n + 1) for n in range(5)]
    for n, m in which:
        C[n][m] = h.real(f"C{n}{m}", -0.01, 0.01)
        if m:
            S[n][m] = h.real(f"S{n}{m}", -0.01, 0.01)
    h.stub(h.Earth, "C", C)
    h.stub(h.Earth, "S", S)
    return C, S


def identity(h, e):
    return h.Matrix3D(h.V(1, 0, 0), h.V(0, 1, 0), h.V(0, 0, 1))


def grad_scenario(h, which):
    """coefficients -0.01..0.01 of the named terms, radius 6000..1e6 km, latitude +-1.5707 rad, any longitude"""
    C, S = terms(h, which)
    for n in ("precession", "nutation", "rotation"):
        h.stub(h.Earth, n, lambda e: identity(h, e))
    r, phi, lam, er, ep, el = place(h)
    st = h.laden(h.GCRF(h.Epoch(h.real("mjd", 0, 100000)), er.scaled(r), h.free("v", -50, 50)))
    a = st.acceleration_from_gravity()
    ur, up, ul = gradient(h, potential(h, C, S, sorted({n for n, _ in which})), r, phi, lam)
    h.eq("radial", a.dot(er), ur, ctol=1e-9)
    h.eq("north", a.dot(ep) * r, up, ctol=1e-5)
    h.eq("east", a.dot(el) * r * h.cos(phi), ul, ctol=1e-5)


ALL = [(n, m) for n in range(2, 5) for m in range(n + 1)]
SCENARIOS.many(grad_scenario, [(f"gradient_{n}{m}", ([(n, m)],)) for n, m in ALL])
SCENARIOS.many(grad_scenario, [(f"gradient_degree{d}", ([x for x in ALL if x[0] == d],)) for d in (2, 3, 4)])
SCENARIOS.many(grad_scenario, [("gradient_all", (ALL,))], tier="thorough")


@SCENARIOS.add(weight=2)
def rotated(h):
    """the Earth-fixed frame turned by arbitrary angles: the acceleration is the gradient there, turned back (degree 2)"""
    C, S = terms(h, [(2, 0), (2, 2)])
    g, t = h.angle("g", 0, 2 * PI), h.angle("t", -1, 1)
    cg, sg, ct, sn = h.cos(g), h.sin(g), h.cos(t), h.sin(t)
    h.stub(h.Earth, "nutation", lambda e: identity(h, e))
    h.stub(h.Earth, "rotation", lambda e: h.Matrix3D(h.V(cg, sg, 0), h.V(-sg, cg, 0), h.V(0, 0, 1)))
    h.stub(h.Earth, "precession", lambda e: h.Matrix3D(h.V(ct, 0, -sn), h.V(0, 1, 0), h.V(sn, 0, ct)))
    r, phi, lam, er, ep, el = place(h)

    def back(v):
        x, y, z = cg * v.x - sg * v.y, sg * v.x + cg * v.y, v.z
        return h.V(ct * x + sn * z, y, -sn * x + ct * z)

    st = h.laden(h.GCRF(h.Epoch(h.real("mjd", 0, 100000)), back(er.scaled(r)), h.free("v", -50, 50)))
    a = st.acceleration_from_gravity()
    ur, up, ul = gradient(h, potential(h, C, S, [2]), r, phi, lam)
    h.eq("radial", a.dot(back(er)), ur, ctol=1e-9)
    h.eq("north", a.dot(back(ep)) * r, up, ctol=1e-5)
    h.eq("east", a.dot(back(el)) * r * h.cos(phi), ul, ctol=1e-5)


SCENARIOS.again()

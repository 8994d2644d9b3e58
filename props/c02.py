"""C02 matrix algebra"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
B = 10**9
K3 = ("x", "y", "z")
K6 = ("x", "y", "z", "vx", "vy", "vz")


def m33(h, n):
    return h.Matrix3D(*[h.free(f"{n}{i}", -B, B) for i in range(3)])


def v6(h, n):
    return h.Vector6D(*[h.real(f"{n}.{k}", -B, B) for k in K6])


def m36(h, n):
    return h.Matrix3by6(*[v6(h, f"{n}{i}") for i in range(3)])


def m63(h, n):
    return h.Matrix6by3(*[h.free(f"{n}{i}", -B, B) for i in range(6)])


def m66(h, n):
    return h.Matrix6D(*[v6(h, f"{n}{i}") for i in range(6)])


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(c) for c in zip(*a)]


def same(h, label, m, ref, scale=1e27):
    m = h.mat(m)
    h.true(label + " shape", len(m) == len(ref) and all(len(x) == len(y) for x, y in zip(m, ref)))
    for i, (x, y) in enumerate(zip(m, ref)):
        for j, (p, q) in enumerate(zip(x, y)):
            h.eq(f"{label}[{i}][{j}]", p, q, scale=scale)


@SCENARIOS.add()
def mat3(h):
    """entries in [-1e9, 1e9]"""
    a, b = m33(h, "a"), m33(h, "b")
    v = h.free("v", -B, B)
    k = h.real("k", -B, B)
    A, Bm = h.mat(a), h.mat(b)
    same(h, "transpose", a.transpose(), tr(A))
    same(h, "scaled", a.scaled(k), [[x * k for x in r] for r in A])
    same(h, "plus", a.plus(b), [[x + y for x, y in zip(r, s)] for r, s in zip(A, Bm)])
    h.eql("times vector", h.lst(a.multiply_vector(v)), [sum(x * y for x, y in zip(r, h.lst(v))) for r in A], scale=1e27)
    h.eql("diagonal", h.lst(a.diagonal()), [A[i][i] for i in range(3)])
    for j in range(3):
        h.eql(f"column {j}", h.lst(getattr(a, f"column_{j + 1}")()), [A[i][j] for i in range(3)])
    det = (
        A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1])
        - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0])
        + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0])
    )
    h.eq("determinant", a.determinant(), det, scale=1e27)
    cof = [
        [
            (-1) ** (i + j)
            * (
                A[(i + 1) % 3 if (i + 1) % 3 < (i + 2) % 3 else (i + 2) % 3][
                    (j + 1) % 3 if (j + 1) % 3 < (j + 2) % 3 else (j + 2) % 3
                ]
                * A[max((i + 1) % 3, (i + 2) % 3)][max((j + 1) % 3, (j + 2) % 3)]
                - A[min((i + 1) % 3, (i + 2) % 3)][max((j + 1) % 3, (j + 2) % 3)]
                * A[max((i + 1) % 3, (i + 2) % 3)][min((j + 1) % 3, (j + 2) % 3)]
            )
            for j in range(3)
        ]
        for i in range(3)
    ]
    same(h, "cofactor", a.cofactor(), cof)
    same(h, "adjugate", a.adjugate(), tr(cof))
    same(h, "a unchanged", a, A)


@SCENARIOS.add()
def inverse3(h):
    """entries in [-1e9, 1e9], determinant at least 1e-9 in magnitude"""
    a = m33(h, "a")
    d = a.determinant()
    h.assume(h.Or(d >= h.dec("1e-9"), d <= -h.dec("1e-9")))
    inv = a.inverse()
    A, I = h.mat(a), h.mat(inv)
    tol = 0 if h.symbolic else 1e-6 + 1e-14 * max(abs(x) for r in A for x in r) ** 3 / abs(d)
    ident = [[1 if i == j else 0 for j in range(3)] for i in range(3)]
    for nm, m in (("right inverse", mul(A, I)), ("left inverse", mul(I, A))):
        for i in range(3):
            for j in range(3):
                h.eq(f"{nm}[{i}][{j}]", m[i][j], ident[i][j], ctol=tol)


@SCENARIOS.add()
def mat36(h):
    """entries in [-1e9, 1e9]"""
    a, b = m36(h, "a"), m63(h, "b")
    c = m33(h, "c")
    v6_, v3 = v6(h, "v"), h.free("w", -B, B)
    A, Bm, Cm = h.mat(a), h.mat(b), h.mat(c)
    same(h, "3x6 transpose", a.transpose(), tr(A))
    same(h, "6x3 transpose", b.transpose(), tr(Bm))
    same(h, "3x6*6x3", a.multiply_matrix_6by3(b), mul(A, Bm))
    same(h, "6x3*3x6", b.multiply_matrix3by6(a), mul(Bm, A))
    same(h, "6x3*3x3", b.multiply(c), mul(Bm, Cm))
    same(h, "3x3*3x6", c.multiply_matrix3by6(a), mul(Cm, A))
    h.eql("3x6*v6", h.lst(a.multiply_vector(v6_)), [sum(x * y for x, y in zip(r, h.lst(v6_))) for r in A], scale=1e27)
    h.eql("6x3*v3", h.lst(b.multiply_vector(v3)), [sum(x * y for x, y in zip(r, h.lst(v3))) for r in Bm], scale=1e27)
    for j in range(6):
        h.eql(f"3x6 column {j}", h.lst(getattr(a, f"column_{j + 1}")()), [A[i][j] for i in range(3)])
    for j in range(3):
        h.eql(f"6x3 column {j}", h.lst(getattr(b, f"column_{j + 1}")()), [Bm[i][j] for i in range(6)])


@SCENARIOS.add()
def mat6(h):
    """entries in [-1e9, 1e9]"""
    a, b = m66(h, "a"), m66(h, "b")
    c = m63(h, "c")
    v = v6(h, "v")
    A, Bm, Cm = h.mat(a), h.mat(b), h.mat(c)
    same(h, "product", a.multiply_matrix(b), mul(A, Bm))
    same(h, "6x6*6x3", a.multiply_matrix_6by3(c), mul(A, Cm))
    same(h, "transpose", a.transpose(), tr(A))
    same(h, "plus", a.plus(b), [[x + y for x, y in zip(r, s)] for r, s in zip(A, Bm)])
    same(h, "minus", a.minus(b), [[x - y for x, y in zip(r, s)] for r, s in zip(A, Bm)])
    h.eql("times vector", h.lst(a.multiply_vector(v)), [sum(x * y for x, y in zip(r, h.lst(v))) for r in A], scale=1e27)
    h.eql("diagonal", h.lst(a.diagonal()), [A[i][i] for i in range(6)])
    for j in range(6):
        h.eql(f"column {j}", h.lst(getattr(a, f"column_{j + 1}")()), [A[i][j] for i in range(6)])
    same(h, "identity", h.Matrix6D.identity(), [[1 if i == j else 0 for j in range(6)] for i in range(6)])
    same(h, "a unchanged", a, A)
    same(h, "b unchanged", b, Bm)


@SCENARIOS.add()
def matrices_own_their_rows(h):
    """changing a vector after building a matrix from it does not change the matrix"""
    r = [h.free(f"r{i}", -B, B) for i in range(3)]
    ref = [h.lst(x) for x in r]
    m = h.Matrix3D(*r)
    s = [v6(h, f"s{i}") for i in range(6)]
    sref = [h.lst(x) for x in s]
    m6, m36_ = h.Matrix6D(*s), h.Matrix3by6(*s[:3])
    t = [h.free(f"t{i}", -B, B) for i in range(6)]
    tref = [h.lst(x) for x in t]
    m63_ = h.Matrix6by3(*t)
    for x in r + s + t:
        x.x = x.x + 1
        x.z = x.z - 7
    same(h, "3x3", m, ref)
    same(h, "6x6", m6, sref)
    same(h, "3x6", m36_, sref[:3])
    same(h, "6x3", m63_, tref)


@SCENARIOS.add()
def changed_matrices(h):
    """a matrix whose rows are changed after it was used answers for its present rows"""
    a, b = m33(h, "a"), m33(h, "b")
    a.determinant(), a.transpose(), a.cofactor(), a.adjugate(), a.diagonal(), a.column_1(), a.column_2(), a.column_3()
    v = h.V(1, -2, 3)
    a.multiply_vector(v)
    a.row1, a.row3 = b.row1, b.row3
    a.row2.y = h.real("y", -B, B)
    A = h.mat(a)
    h.eql("row 1", A[0], h.lst(b.row1))
    h.eq("row 2", A[1][1], h.real("y", -B, B))
    same(h, "transpose", a.transpose(), tr(A))
    h.eql("times vector", h.lst(a.multiply_vector(v)), [sum(x * y for x, y in zip(r, h.lst(v))) for r in A], scale=1e27)
    h.eql("diagonal", h.lst(a.diagonal()), [A[i][i] for i in range(3)])
    for j in range(3):
        h.eql(f"column {j}", h.lst(getattr(a, f"column_{j + 1}")()), [A[i][j] for i in range(3)])
    cof = [
        [
            A[(i + 1) % 3][(j + 1) % 3] * A[(i + 2) % 3][(j + 2) % 3] - A[(i + 1) % 3][(j + 2) % 3] * A[(i + 2) % 3][(j + 1) % 3]
            for j in range(3)
        ]
        for i in range(3)
    ]
    h.eq("determinant", a.determinant(), sum(A[0][j] * cof[0][j] for j in range(3)), scale=1e27)
    same(h, "cofactor", a.cofactor(), cof)
    same(h, "adjugate", a.adjugate(), tr(cof))
    c, d, e = m66(h, "c"), m63(h, "d"), m36(h, "e")
    for m in (c, d, e):
        m.transpose(), m.column_1(), m.column_2(), m.column_3()
    c.diagonal()
    c.row6 = v6(h, "c new")
    d.row1 = h.free("d new", -B, B)
    e.row2 = v6(h, "e new")
    C, D, E = h.mat(c), h.mat(d), h.mat(e)
    h.eql("row 6", C[5], h.lst(v6(h, "c new")))
    same(h, "6x6 transpose", c.transpose(), tr(C))
    same(h, "6x3 transpose", d.transpose(), tr(D))
    same(h, "3x6 transpose", e.transpose(), tr(E))
    h.eql("6x6 diagonal", h.lst(c.diagonal()), [C[i][i] for i in range(6)])
    h.eql("6x6 column", h.lst(c.column_2()), [C[i][1] for i in range(6)])
    h.eql("6x3 column", h.lst(d.column_2()), [D[i][1] for i in range(6)])
    h.eql("3x6 column", h.lst(e.column_3()), [E[i][2] for i in range(3)])


@SCENARIOS.add()
def results_are_new(h):
    """changing the matrix an operation returned changes neither its operands nor what the operation returns next"""
    a, b = m33(h, "a"), m33(h, "b")
    A = h.mat(a)
    c, d = m66(h, "c"), m66(h, "d")
    C = h.mat(c)
    e, f = m63(h, "e"), m36(h, "f")
    E, F = h.mat(e), h.mat(f)
    zero3 = h.Matrix3D(*[h.V(0, 0, 0)] * 3)
    one3 = h.Matrix3D(h.V(1, 0, 0), h.V(0, 1, 0), h.V(0, 0, 1))
    zero6 = h.Matrix6D(*[h.Vector6D(0, 0, 0, 0, 0, 0)] * 6)
    ident = h.Matrix6D.identity
    makers = [
        ("transpose", a.transpose), ("scaled", lambda: a.scaled(1)), ("plus", lambda: a.plus(zero3)), ("sum", lambda: a.plus(b)),
        ("cofactor", a.cofactor), ("adjugate", a.adjugate), ("identity", ident), ("6x6 transpose", c.transpose),
        ("6x6 plus", lambda: c.plus(zero6)), ("6x6 minus", lambda: c.minus(zero6)), ("6x6 sum", lambda: c.plus(d)),
        ("6x6 product", lambda: c.multiply_matrix(ident())), ("6x3 transpose", e.transpose), ("3x6 transpose", f.transpose),
        ("6x3 times 3x3", lambda: e.multiply(one3)), ("3x3 times 3x6", lambda: one3.multiply_matrix3by6(f)),
        ("6x6 times 6x3", lambda: ident().multiply_matrix_6by3(e)),
    ]
    for n, mk in makers:
        m = mk()
        ref = h.mat(m)
        m.row1.x = m.row1.x + 1
        m.row2.z = m.row2.z - 7
        m.row3 = m.row1
        same(h, n + " again", mk(), ref)
        for x in (a.column_1(), a.diagonal(), c.column_4(), c.diagonal(), e.column_1(), f.column_1(), a.multiply_vector(h.V(1, 0, 0))):
            x.x = x.x + 1
        same(h, n + ": 3x3 operand", a, A)
        same(h, n + ": 6x6 operand", c, C)
        same(h, n + ": 6x3 operand", e, E)
        same(h, n + ": 3x6 operand", f, F)
    same(h, "identity", ident(), [[1 if i == j else 0 for j in range(6)] for i in range(6)])


SCENARIOS.again()

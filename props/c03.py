"""C03 rotations about an axis"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793


@SCENARIOS.add()
def proper_rotation(h):
    """axis of any direction, norm in [1e-9, 1e9]; angle in [-100, 100]"""
    ax = h.vec("axis", h.dec("1e-9"), 10**9)
    th = h.angle("theta", -100, 100)
    m = h.Vector3D.rotation_matrix(ax, th)
    r = h.mat(m)
    for i in range(3):
        for j in range(i, 3):
            h.eq(f"rows orthonormal {i}{j}", sum(r[i][k] * r[j][k] for k in range(3)), 1 if i == j else 0)
    h.eq("determinant one", m.determinant(), 1)
    h.eqv("axis is fixed", m.multiply_vector(ax), ax)
    h.eq("trace", r[0][0] + r[1][1] + r[2][2], 1 + 2 * h.cos(th))


@SCENARIOS.add()
def right_handed(h):
    """any axis and any perpendicular vector: the turn is by +theta in the right-hand sense"""
    ax = h.vec("axis", 0.1, 100)
    w = h.vec("w", 0.1, 100)
    th = h.angle("theta", -100, 100)
    v = ax.cross(w)  # perpendicular to the axis
    u = v.rotation_about_axis(ax, th)
    n = ax.magnitude()
    c, s = h.cos(th), h.sin(th)
    ref = v.scaled(c).plus(ax.cross(v).scaled(s / n))
    h.eqv("turned by theta", u, ref, scale=1e4)


@SCENARIOS.add()
def rodrigues(h):
    """any axis, any vector: Rodrigues' formula; magnitude and operands unchanged"""
    ax = h.vec("axis", 0.1, 100)
    v = h.vec("v", 0.1, 100)
    a0, v0 = h.lst(ax), h.lst(v)
    th = h.angle("theta", -100, 100)
    u = v.rotation_about_axis(ax, th)
    n = ax.magnitude()
    c, s = h.cos(th), h.sin(th)
    ref = v.scaled(c).plus(ax.cross(v).scaled(s / n)).plus(ax.scaled(ax.dot(v) * (1 - c) / (n * n)))
    h.eqv("Rodrigues", u, ref, scale=100)
    h.eq("magnitude kept", u.dot(u), v.dot(v), scale=1e4)
    h.eq("component along axis kept", u.dot(ax), v.dot(ax), scale=1e4)
    h.eql("axis unchanged", h.lst(ax), a0)
    h.eql("v unchanged", h.lst(v), v0)


@SCENARIOS.add()
def composition(h):
    """two turns about one axis add up; a turn and its opposite cancel"""
    ax = h.vec("axis", 0.1, 100)
    v = h.free("v", -100, 100)
    a = h.angle("a", -PI, PI)
    b = h.angle("b", -PI, PI)
    two = v.rotation_about_axis(ax, a).rotation_about_axis(ax, b)
    one = v.rotation_about_axis(ax, a + b)
    h.eqv("adds", two, one, scale=100)
    back = v.rotation_about_axis(ax, a).rotation_about_axis(ax, -a)
    h.eqv("inverse", back, v, scale=100)
    h.eqv("scale of the axis is irrelevant", v.rotation_about_axis(ax.scaled(3), a), v.rotation_about_axis(ax, a), scale=100)


SCENARIOS.again()

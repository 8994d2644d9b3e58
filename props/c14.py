"""C14 relative frame conversions"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793


def frame(h):
    """an arbitrary right-handed orthonormal frame from three Euler angles"""
    a, b, c = h.angle("node", 0, 2 * PI), h.angle("inc", 0, PI), h.angle("u", 0, 2 * PI)
    ca, sa, cb, sb, cc, sc = h.cos(a), h.sin(a), h.cos(b), h.sin(b), h.cos(c), h.sin(c)
    r = h.V(ca * cc - sa * cb * sc, sa * cc + ca * cb * sc, sb * sc)
    i = h.V(-ca * sc - sa * cb * cc, -sa * sc + ca * cb * cc, sb * cc)
    w = h.V(sa * sb, -ca * sb, cb)
    return r, i, w


def lin(h, *kv):
    return h.V(*[sum(k * getattr(v, n) for k, v in kv) for n in "xyz"])


def origin(h):
    r, i, w = frame(h)
    ro = h.real("ro", 1000, 10**6)
    vr, vt = h.real("vr", -50, 50), h.real("vt", 0.01, 50)
    ep = h.Epoch(h.real("mjd", 0, 100000))
    return r, i, w, ro, vr, vt, h.laden(h.GCRF(ep, lin(h, (ro, r)), lin(h, (vr, r), (vt, i))))


@SCENARIOS.add()
def frame_from_euler(h):
    """origin at 1000..1e6 km in any orbit plane, radial speed -50..50, transverse 0.01..50 km/s"""
    r, i, w, ro, vr, vt, o = origin(h)
    h.eqm("frame", h.HCW.frame_matrix(o), h.Matrix3D(r, i, w))


@SCENARIOS.add()
def frame_is_orthonormal(h):
    """any position and velocity that are not parallel"""
    p, v = h.vec("p", 1000, 10**6), h.vec("v", 0.01, 50)
    c = p.cross(v)
    h.assume(c.dot(c) > h.dec("0.01"))
    m = h.mat(h.HCW.frame_matrix(h.GCRF(h.Epoch(55000), p, v)))
    for i in range(3):
        for j in range(i, 3):
            h.eq(f"orthonormal {i}{j}", sum(m[i][k] * m[j][k] for k in range(3)), 1 if i == j else 0)
    det = sum(m[0][k] * (m[1][(k + 1) % 3] * m[2][(k + 2) % 3] - m[1][(k + 2) % 3] * m[2][(k + 1) % 3]) for k in range(3))
    h.eq("right handed", det, 1)
    pm = p.magnitude()
    h.eq("first axis radial", sum(m[0][k] * h.lst(p)[k] for k in range(3)), pm, scale=1e6)
    h.le("second axis along track", 0, sum(m[1][k] * h.lst(v)[k] for k in range(3)))
    h.eq("third axis normal to p", sum(m[2][k] * h.lst(p)[k] for k in range(3)), 0, scale=1e6)
    h.eq("third axis normal to v", sum(m[2][k] * h.lst(v)[k] for k in range(3)), 0, scale=1e6)


def relative(h, ro):
    lam, phi = h.angle("lam", -3.1415, 3.1415), h.angle("phi", -1.5707, 1.5707)
    x = h.real("x", -900, 10**6)
    return lam, phi, x, h.V(x, ro * lam, ro * phi), h.free("hv", -100, 100)


@SCENARIOS.add()
def hcw_to_gcrf_geometry(h):
    """radial offset -900..1e6 km, in-track arc +-3.1415 rad, cross-track arc +-1.5707 rad: position and velocity in the curvilinear frame"""
    r, i, w, ro, vr, vt, o = origin(h)
    lam, phi, x, hp, hv = relative(h, ro)
    s = h.StateConvert.hcw.to_gcrf(h.HCW(o.epoch, hp, hv), o)
    rad = ro + x
    cl, sl, cp, sp = h.cos(lam), h.sin(lam), h.cos(phi), h.sin(phi)
    er = lin(h, (cp * cl, r), (cp * sl, i), (sp, w))
    el = lin(h, (-sl, r), (cl, i))
    ep = lin(h, (-sp * cl, r), (-sp * sl, i), (cp, w))
    h.eqv("position", s.position, er.scaled(rad), scale=1e6)
    ldot = hv.y / ro + vt / ro
    pdot = hv.z / ro
    h.eqv("velocity", s.velocity, lin(h, (hv.x + vr, er), (rad * cp * ldot, el), (rad * pdot, ep)), scale=1e2)
    h.eq("epoch", s.epoch.value, o.epoch.value)


@SCENARIOS.add(weight=3)
def round_trip_hcw(h):
    """relative -> inertial -> relative"""
    r, i, w, ro, vr, vt, o = origin(h)
    lam, phi, x, hp, hv = relative(h, ro)
    s = h.StateConvert.hcw.to_gcrf(h.HCW(o.epoch, hp, hv), o)
    b = h.StateConvert.gcrf.to_hcw(o, s)
    h.eq("x", b.position.x, x, scale=1e6)
    h.eq("in-track arc", b.position.y, ro * lam, scale=1e6)
    h.eq("cross-track arc", b.position.z, ro * phi, scale=1e6)
    h.eqv("velocity", b.velocity, hv, scale=1e2)
    h.eq("epoch", b.epoch.value, o.epoch.value)


@SCENARIOS.add(weight=3)
def round_trip_gcrf(h):
    """inertial -> relative -> inertial, target given by its own components in the origin's frame, off the frame's polar axis"""
    r, i, w, ro, vr, vt, o = origin(h)
    a, b, c = h.real("a", -(10**6), 10**6), h.real("b", -(10**6), 10**6), h.real("c", -(10**6), 10**6)
    h.assume(a * a + b * b > 1)
    p = lin(h, (a, r), (b, i), (c, w))
    v = lin(h, (h.real("va", -50, 50), r), (h.real("vb", -50, 50), i), (h.real("vc", -50, 50), w))
    s = h.GCRF(h.Epoch(h.real("mjd2", 0, 100000)), p, v)
    q = h.StateConvert.gcrf.to_hcw(o, s)
    h.eq("relative epoch", q.epoch.value, o.epoch.value)
    back = h.StateConvert.hcw.to_gcrf(h.HCW(s.epoch, q.position, q.velocity), o)
    h.eqv("position", back.position, p, scale=1e6)
    h.eqv("velocity", back.velocity, v, scale=1e2)
    h.eq("epoch", back.epoch.value, o.epoch.value)
    m2 = a * a + b * b + c * c
    h.eq("radial offset", (q.position.x + ro) * (q.position.x + ro), m2, scale=1e12)


@SCENARIOS.add()
def origin_is_zero(h):
    """the origin relative to itself is zero, and a zero relative state is the origin"""
    r, i, w, ro, vr, vt, o = origin(h)
    z = h.StateConvert.gcrf.to_hcw(o, h.GCRF(o.epoch, o.position, o.velocity))
    h.eqv("position", z.position, h.V(0, 0, 0), ctol=1e-4)
    h.eqv("velocity", z.velocity, h.V(0, 0, 0), ctol=1e-7)
    s = h.StateConvert.hcw.to_gcrf(h.HCW(o.epoch, h.V(0, 0, 0), h.V(0, 0, 0)), o)
    h.eqv("back position", s.position, o.position, scale=1e6)
    h.eqv("back velocity", s.velocity, o.velocity, scale=1e2)


@SCENARIOS.add()
def burn_at_origin(h):
    """zero offset with a relative velocity: the velocity is added along the frame's axes"""
    r, i, w, ro, vr, vt, o = origin(h)
    b = h.free("burn", -100, 100)
    s = h.StateConvert.hcw.to_gcrf(h.HCW(o.epoch, h.V(0, 0, 0), b), o)
    h.eqv("position", s.position, o.position, scale=1e6)
    h.eqv("velocity", s.velocity, lin(h, (vr + b.x, r), (vt + b.y, i), (b.z, w)), scale=1e2)


@SCENARIOS.add()
def spacecraft_hill_position(h):
    """a spacecraft's relative position of another is the conversion of their current states"""
    r, i, w, ro, vr, vt, o = origin(h)
    lam, phi, x, hp, hv = relative(h, ro)
    s = h.StateConvert.hcw.to_gcrf(h.HCW(o.epoch, hp, hv), o)
    me, other = h.flown(o), h.flown(s, "other ")
    q = me.hill_position(other)
    h.eq("x", q.x, x, scale=1e6)
    h.eq("y", q.y, ro * lam, scale=1e6)
    h.eq("z", q.z, ro * phi, scale=1e6)


SCENARIOS.again()

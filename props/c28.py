"""C28 measurement noise"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
ASSUMPTIONS = [
    "random.gauss / normalvariate return mean + sigma * z and random.uniform / random return any point of their range, with arbitrary z in [-6, 6] per draw",
    "drawn range errors leave a positive range; angles drawn up to half a turn",
]


class Draws:
    """arbitrary outcomes of the random generator"""

    def __init__(self, h, zmax=6):
        self.h, self.zmax, self.n, self.m = h, zmax, 0, 0
        self.fixed_u = self.fixed_z = None
        h.patch_random(gauss=self.gauss, normalvariate=self.gauss, uniform=self.uniform, random=self.random)

    def z(self, k):
        return self.h.real(f"z{k}", -self.zmax, self.zmax) if self.fixed_z is None else self.fixed_z

    def u(self, k):
        return self.h.angle(f"turn{k}", 0, 2 * PI) / (2 * self.h.pi) if self.fixed_u is None else self.fixed_u

    def gauss(self, mu=0, sigma=1):
        self.n += 1
        return mu + sigma * self.z(self.n)

    def uniform(self, a, b):
        self.m += 1
        return a + (b - a) * self.u(self.m)

    def random(self):
        self.m += 1
        return self.u(self.m)

    def rewind(self):
        self.n = self.m = 0


@SCENARIOS.add()
def range_noise(h):
    """any vector, sigma and draw: same direction, length off by sigma times the draw"""
    D = Draws(h)
    v = h.vec("v", 0.001, 1000000)
    s = h.real("sigma", 0, 10000)
    w = v.with_magnitude_noise(s)
    n = v.magnitude()
    h.true("one draw", D.n == 1 and D.m == 0)
    h.eqv("noisy", w, v.scaled((n + s * D.z(1)) / n), scale=1e4)


def angular(h, how):
    """any vector (also along z), sigma and draws: same length, turned by the drawn angle about any perpendicular axis"""
    D = Draws(h, 1)
    if how == "general":
        v = h.vec("v", 0.001, 1000000)
    else:
        v = h.V(0, 0, how * h.real("length", 0.001, 1000000))
    a = h.angle("angle", -3, 3)
    n2 = v.dot(v)
    zs = []

    def g(mu=0, sigma=1):
        zs.append((mu, sigma))
        return a

    h.patch_random(gauss=g, normalvariate=g)
    s = h.real("sigma", 0, 1)
    v = h.V(*h.lst(v))
    w = v.with_angular_noise(s)
    h.true("one normal draw", len(zs) == 1)
    h.eq("mean", zs[0][0], 0)
    h.eq("sigma", zs[0][1], s)
    h.true("one uniform draw", D.m == 1)
    h.eq("length", w.dot(w), n2, scale=1e8)
    h.eq("turned by the drawn angle", w.dot(v), n2 * h.cos(a), scale=1e8)
    u = D.u(1)
    D.rewind()
    D.fixed_u = 0
    w0 = v.with_angular_noise(s)
    D.fixed_u = None
    # the uniform draw sweeps a full turn around the line of sight
    h.eqv("azimuth", w, w0.rotation_about_axis(v, 2 * h.pi * u), scale=1e4)


SCENARIOS.many(angular, [("angular_noise", ("general",)), ("angular_noise_up", (1,)), ("angular_noise_down", (-1,))])


@SCENARIOS.add()
def both(h):
    """range and angular noise together"""
    D = Draws(h, 1)
    v = h.vec("v", 0.001, 1000000)
    s, t = h.real("range sigma", 0, 1000), h.real("angular sigma", 0, 3)
    n = v.magnitude()
    l = n + s * D.z(1)
    h.assume(l > n * h.q(1, 1000))
    w = v.with_noise(s, t)
    h.eq("length", w.dot(w), l * l, scale=1e8)
    h.eq("angle", w.dot(v), n * l * h.cos(t * D.z(2)), scale=1e8)
    h.true("draws", D.n == 2 and D.m == 1)


def twice(h, way):
    """noise drawn again for the same vector, with other draws: as the first time, whatever was drawn before"""
    D = Draws(h, 1)
    v = h.vec("v", 0.001, 1000000)
    s, t = h.real("range sigma", 0, 1000), h.real("angular sigma", 0, 3)
    n = v.magnitude()
    d = h.lst(v)
    for k in range(2):
        D.n, D.m = 10 * k, 10 * k
        l = n + s * D.z(10 * k + 1)
        h.assume(l > n * h.q(1, 1000))
        if way == "range":
            w = v.with_magnitude_noise(s)
            h.eqv(f"noisy {k}", w, h.V(*d).scaled(l / n), scale=1e4)
            continue
        w = v.with_angular_noise(t) if way == "angular" else v.with_noise(s, t)
        if way == "angular":
            l = n
        h.eq(f"length {k}", w.dot(w), l * l, scale=1e8)
        h.eq(f"angle {k}", sum(a * b for a, b in zip(h.lst(w), d)), n * l * h.cos(t * D.z(10 * k + (1 if way == "angular" else 2))), scale=1e8)
    h.eql("vector unchanged", h.lst(v), d)


SCENARIOS.many(twice, [("range_noise_twice", ("range",)), ("angular_noise_twice", ("angular",)), ("both_twice", ("both",))])


def sky(h):
    h.stub(h.Sun, "get_position", lambda e: h.V(*[h.ufunc(f"sun{c}", e.value, lo=-150000000, hi=150000000) for c in "xyz"]))


def observe(h, cam, other=False, again=None):
    """any pair of spacecraft (also while the observer tracks another one), camera and pointing accuracy: the camera's range error for the target's size, the observer's pointing accuracy, and the noise drawn with both"""
    D = Draws(h, 1)
    sky(h)
    e = h.Epoch(h.real("mjd", 0, 100000))
    d = h.vec("d", 0.01, 100000)
    h.assume(d.x * d.x + d.y * d.y > h.q(1, 100))  # lines of sight along z: angular_noise_up/down
    r, v = h.free("r", -1000000, 1000000), h.free("v", -15, 15)
    h.no_domain_errors()
    a = h.flown(h.GCRF(e, r, v))
    b = h.flown(h.GCRF(e, h.V(r.x + d.x, r.y + d.y, r.z + d.z), h.free("w", -10, 10)), "target ")
    c = getattr(a, cam)
    f = h.angle("fov", 0.0001, 1.5)
    px = h.real("pixels", 10, 100000)
    setattr(a, cam, h.Camera(px, f))
    size, own = h.real("target radius", 0.0001, 1), h.real("own radius", 0.0001, 1)
    b.body_radius, a.body_radius = size, own
    acc = h.real("pointing accuracy", 0, 1)
    a.pointing_accuracy = acc
    b.pointing_accuracy = 1
    if other:
        c = h.Spacecraft(h.GCRF(e, h.V(r.x + 1, r.y + 2, r.z + 7), h.V(0, 0, 0)))
        a.track_state(c)
    n = d.magnitude()
    err = h.sin(f) / h.cos(f) * n / (2 * px) / (2 * size) * n
    if again:
        # an earlier observation of another spacecraft, with the other camera or the same one
        o = h.Spacecraft(h.GCRF(e, h.V(r.x + 3, r.y, r.z + 4), h.V(0, 0, 0)))
        D.fixed_z = D.fixed_u = 0
        getattr(a, again)(o)
        D.fixed_z = D.fixed_u = None
        D.rewind()
    h.assume(n + err * D.z(1) > n * h.q(1, 1000))
    ob = a.observe_wfov(b) if cam == "wfov" else a.observe_nfov(b)
    h.eq("range error", ob.range_error, err, scale=100)
    h.eq("angular error", ob.angular_error, acc)
    h.eqv("observer position", ob.observer_state.position, r, scale=1e4)
    h.eqv("observer velocity", ob.observer_state.velocity, v)
    h.eq("epoch", ob.epoch().value, e.value)
    l = n + err * D.z(1)
    w = ob.observed_direction
    h.eq("length", w.dot(w), l * l, scale=1e4)
    h.eq("angle", w.dot(d), n * l * h.cos(acc * D.z(2)), scale=1e4)
    h.eq("range", ob.range * ob.range, l * l, scale=1e4)


SCENARIOS.many(observe, [("observe_wide", ("wfov",)), ("observe_narrow", ("nfov",)), ("observe_wide_tracking", ("wfov", True)), ("observe_narrow_tracking", ("nfov", True)),
                         ("observe_wide_twice", ("wfov", False, "observe_wfov")), ("observe_narrow_twice", ("nfov", False, "observe_nfov")),
                         ("observe_wide_after_narrow", ("wfov", False, "observe_nfov")), ("observe_narrow_after_wide", ("nfov", False, "observe_wfov"))])


def processed(h, cam):
    """a simulated observation goes to the spacecraft's own filter, once"""
    D = Draws(h, 1)
    sky(h)
    e = h.Epoch(h.real("mjd", 0, 100000))
    d = h.V(h.real("d", 0.01, 10000), 0, 0)
    h.no_domain_errors()
    a = h.Spacecraft(h.GCRF(e, h.V(7000, 0, 0), h.V(0, 7, 0)))
    b = h.Spacecraft(h.GCRF(e, h.V(7000 + d.x, 0, 0), h.V(0, 7, 0)))
    got = []

    class Filter:
        def process(self, ob):
            got.append(ob)

    a.filter = Filter()
    px = h.real("pixels", 10, 100000)
    wide, narrow = h.Camera(px, h.q(1, 10)), h.Camera(px, h.q(1, 100))
    a.wfov, a.nfov = wide, narrow
    h.assume(D.z(1) >= 0)
    a.process_wfov(b) if cam == "wfov" else a.process_nfov(b)
    h.fact("processed once", len(got) == 1)
    c = wide if cam == "wfov" else narrow
    h.eq("camera used", got[0].range_error, c.range_error(d.x, 2 * b.body_radius), scale=100)
    h.eq("accuracy", got[0].angular_error, a.pointing_accuracy)


SCENARIOS.many(processed, [("process_wide", ("wfov",)), ("process_narrow", ("nfov",))])

"""C13 topocentric observations"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
PI = 3.141592653589793
ASSUMPTIONS = [
    "in the reconstruction scenarios precession, nutation and sidereal rotation are arbitrary epoch-dependent matrices and the "
    "ellipsoid inverse (decided by C12) is replaced by the site it must return",
]


def matrices(h):
    ms = {}
    for n in ("precession", "nutation", "rotation"):
        def f(ep, n=n):
            return h.Matrix3D(*[h.V(*[h.ufunc(f"{n}{i}{j}", ep.value) for j in range(3)]) for i in range(3)])

        h.stub(h.Earth, n, f)
        ms[n] = f
    return ms


def line_of_sight(h, label, obs_range, lon, lat, v):
    """v has length obs_range and points to longitude-like angle lon (from x to y) and latitude-like lat"""
    h.le(label + " range not negative", 0, obs_range)
    h.eq(label + " range", obs_range * obs_range, v[0] * v[0] + v[1] * v[1] + v[2] * v[2], scale=1e18)
    h.eq(label + " x", obs_range * h.cos(lat) * h.cos(lon), v[0], scale=1e9)
    h.eq(label + " y", obs_range * h.cos(lat) * h.sin(lon), v[1], scale=1e9)
    h.eq(label + " z", obs_range * h.sin(lat), v[2], scale=1e9)
    h.le(label + " first angle at least 0", 0, lon)
    h.lt(label + " first angle below a turn", lon, 2 * h.pi)
    h.le(label + " second angle at least -90", -h.pi / 2, lat)
    h.le(label + " second angle at most 90", lat, h.pi / 2)


@SCENARIOS.add()
def space_observation(h):
    """line of sight of norm 1e-6..1e9 km, any direction; observer anywhere within 1e7 km"""
    d = h.vec("los", h.dec("1e-6"), 10**9)
    st = h.GCRF(h.Epoch(h.real("mjd", 0, 100000)), h.free("r", -(10**7), 10**7), h.free("v", -100, 100))
    re, ae = h.real("re", 0, 10**6), h.real("ae", 0, 10)
    o = h.SpaceObservation(st, d, re, ae)
    line_of_sight(h, "space", o.range, o.right_ascension, o.declination, h.lst(d))
    h.eq("range error kept", o.range_error, re)
    h.eq("angular error kept", o.angular_error, ae)
    h.eqv("direction kept", o.observed_direction, d, scale=1e7)
    h.eqv("observer position kept", o.observer_state.position, st.position, scale=1e7)
    h.eqv("observer velocity kept", o.observer_state.velocity, st.velocity, scale=1e7)
    h.eq("epoch", o.epoch().value, st.epoch.value)


@SCENARIOS.add()
def ground_observation(h):
    """line of sight of norm 1e-6..1e9 km: azimuth from north through east, elevation above the horizon"""
    d = h.vec("los", h.dec("1e-6"), 10**9)
    st = h.ITRF(h.Epoch(h.real("mjd", 0, 100000)), h.free("r", -(10**7), 10**7), h.free("v", -100, 100))
    re, ae = h.real("re", 0, 10**6), h.real("ae", 0, 10)
    o = h.GroundObservation(st, d, re, ae)
    e, n, z = h.lst(d)
    line_of_sight(h, "ground", o.range, o.azimuth, o.elevation, [n, e, z])
    h.eq("range error kept", o.range_error, re)
    h.eq("angular error kept", o.angular_error, ae)
    h.eqv("direction kept", o.observed_direction, d, scale=1e7)
    h.eqv("observer position kept", o.observer_state.position, st.position, scale=1e7)
    h.eq("epoch", o.epoch().value, st.epoch.value)


@SCENARIOS.add()
def from_angles(h):
    """azimuth in [0, 2pi), elevation in (-pi/2, pi/2), range 1e-6..1e9 km: the same angles come back"""
    az = h.angle("az", 0, 2 * PI, hi_open=True)
    el = h.angle("el", -PI / 2, PI / 2, lo_open=True, hi_open=True)
    r = h.real("r", h.dec("1e-6"), 10**9)
    st = h.ITRF(h.Epoch(h.real("mjd", 0, 100000)), h.free("p", -10000, 10000), h.V(0, 0, 0))
    re, ae = h.real("re", 0, 10**6), h.real("ae", 0, 10)
    h.assume(h.cos(el) > h.q(1, 1000000))
    o = h.GroundObservation.from_angles_and_range(st, az, el, r, re, ae)
    h.eqv("east north zenith", o.observed_direction,
          h.V(r * h.cos(el) * h.sin(az), r * h.cos(el) * h.cos(az), r * h.sin(el)), scale=1e7)
    h.eq("range", o.range, r, scale=1e7)
    h.eq("azimuth", o.azimuth, az, angle=True, ctol=1e-6)
    h.eq("elevation sine", h.sin(o.elevation), h.sin(el))
    h.eq("range error kept", o.range_error, re)
    h.eq("angular error kept", o.angular_error, ae)
    h.eqv("observer position kept", o.observer_state.position, st.position, scale=1e7)


def site(h):
    lat, lon = h.angle("lat", -PI / 2, PI / 2), h.angle("lon", 0, 2 * PI, hi_open=True)
    lla = h.LLA(lat, lon, h.real("alt", -100, 1000))
    return lat, lon, lla, h.GroundSite(lla)


def axes(h, lat, lon):
    east = h.V(-h.sin(lon), h.cos(lon), 0)
    north = h.V(-h.sin(lat) * h.cos(lon), -h.sin(lat) * h.sin(lon), h.cos(lat))
    up = h.V(h.cos(lat) * h.cos(lon), h.cos(lat) * h.sin(lon), h.sin(lat))
    return east, north, up


@SCENARIOS.add()
def site_axes(h):
    """every latitude and longitude, altitude -100..1000 km, target anywhere within 1e7 km"""
    lat, lon, lla, gs = site(h)
    east, north, up = axes(h, lat, lon)
    pos = h.PositionConvert.lla.to_itrf(lla)
    h.eqv("site position", gs.itrf_position, pos, scale=1e4)
    t = h.free("t", -(10**7), 10**7)
    d = h.V(t.x - pos.x, t.y - pos.y, t.z - pos.z)
    enz = gs.enz_position(t)
    h.eqv("enz", enz, h.V(d.dot(east), d.dot(north), d.dot(up)), scale=1e7)
    h.eqv("enz back to itrf", h.PositionConvert.enz.to_itrf(lla, enz), d, scale=1e7)
    k = h.real("height", 0.001, 10**7)
    h.eqv("straight up", gs.enz_position(h.V(pos.x + k * up.x, pos.y + k * up.y, pos.z + k * up.z)), h.V(0, 0, k), scale=1e7)
    h.eqm("enz matrix", gs.enz_matrix, h.Matrix3D(east, north, up))
    h.eq("latitude kept", gs.latitude, lat)
    h.eq("longitude kept", gs.longitude, lon)


@SCENARIOS.add()
def site_observes_and_reconstructs(h):
    """site anywhere, spacecraft anywhere within 1e7 km, any Earth orientation: the observation has the line of sight from the site and its inertial position is the target's"""
    lat, lon, lla, gs = site(h)
    matrices(h)
    p = gs.itrf_position
    site_pos = h.V(p.x, p.y, p.z)

    def to_lla(pos):
        h.eqv("geodetic coordinates of the site", pos, site_pos, scale=1e4)
        return h.LLA(lat, lon, lla.altitude)

    h.stub(h.PositionConvert.itrf, "to_lla", to_lla, needed=True)
    e = h.Epoch(h.real("mjd", 0, 100000))
    x = h.free("x", -(10**7), 10**7)
    tgt = h.flown(h.laden(h.GCRF(e, x, h.free("v", -100, 100))))
    h.no_domain_errors()  # the angles themselves are decided in ground_observation
    ob = gs.angles_and_range(tgt)
    fixed = h.PositionConvert.gcrf.to_itrf(x, e)
    d = h.V(fixed.x - site_pos.x, fixed.y - site_pos.y, fixed.z - site_pos.z)
    east, north, up = axes(h, lat, lon)
    h.eqv("line of sight", ob.observed_direction, h.V(d.dot(east), d.dot(north), d.dot(up)), scale=1e7)
    h.eqv("observer", ob.observer_state.position, site_pos, scale=1e7)
    h.eqv("observer at rest on Earth", ob.observer_state.velocity, h.V(0, 0, 0))
    h.eq("no range error", ob.range_error, 0)
    h.eq("no angular error", ob.angular_error, 0)
    h.eq("epoch", ob.epoch().value, e.value)
    h.eqv("gcrf position", ob.gcrf_position(), h.PositionConvert.itrf.to_gcrf(fixed, e), scale=1e9)
    h.eqv("ijk position", ob.ijk_position(), h.PositionConvert.itrf.to_ijk(fixed, e), scale=1e9)


@SCENARIOS.add()
def space_reconstructs(h):
    """observer and target anywhere within 1e7 km, any Earth orientation"""
    matrices(h)
    e = h.Epoch(h.real("mjd", 0, 100000))
    r, d = h.free("r", -(10**7), 10**7), h.free("d", -(10**7), 10**7)
    h.assume(d.dot(d) > 1)
    ob = h.SpaceObservation(h.GCRF(e, r, h.free("v", -100, 100)), d, 0, 0)
    h.eqv("ijk position", ob.ijk_position(), h.PositionConvert.gcrf.to_ijk(h.V(r.x + d.x, r.y + d.y, r.z + d.z), e), scale=1e9)


@SCENARIOS.add()
def site_from_itrf(h):
    """a site created from an Earth-fixed position has the geodetic coordinates of that position"""
    lat, lon = h.angle("lat", -PI / 2, PI / 2), h.angle("lon", 0, 2 * PI, hi_open=True)
    alt = h.real("alt", -100, 1000)
    p = h.PositionConvert.lla.to_itrf(h.LLA(lat, lon, alt))

    def to_lla(pos):
        h.eqv("geodetic coordinates of the position", pos, p, scale=1e4)
        return h.LLA(lat, lon, alt)

    h.stub(h.PositionConvert.itrf, "to_lla", to_lla, needed=True)
    gs = h.GroundSite.from_itrf_position(p)
    h.eqv("position", gs.itrf_position, p, scale=1e4)
    h.eq("latitude", gs.latitude, lat)
    h.eq("longitude", gs.longitude, lon)


@SCENARIOS.add()
def asked_again(h):
    """positions asked for again, after the answer or the observation was changed, are those of the observation as it is"""
    matrices(h)
    lla = [h.LLA(h.angle("lat", -PI / 2, PI / 2), h.angle("lon", 0, 2 * PI, hi_open=True), 0)]
    lla.append(h.LLA(h.angle("lat2", -PI / 2, PI / 2), h.angle("lon2", 0, 2 * PI, hi_open=True), 0))
    now = []
    h.stub(h.PositionConvert.itrf, "to_lla", lambda pos: lla[len(now)], needed=True)
    v = h.V(0, 0, 0)

    def free(n):
        return h.free(n, -(10**6), 10**6)

    e, e2 = h.real("mjd", 0, 100000), h.real("mjd2", 0, 100000)
    err = h.real("range error", 0, 1000), h.real("angular error", 0, 10)  # where the target is does not depend on them
    h.no_domain_errors()
    g = h.GroundObservation(h.ITRF(h.Epoch(e), free("r"), v), free("d"), *err)
    s = h.SpaceObservation(h.GCRF(h.Epoch(e), free("r"), v), free("d"), *err)
    asks = [g.ijk_position, g.gcrf_position, s.ijk_position]
    ref = [h.lst(f()) for f in asks]
    for k, f in enumerate(asks):
        x = f()
        x.x, x.z = x.x + 1, x.z - 7
        h.eql(f"answer changed {k}", h.lst(f()), ref[k], scale=1e6)
    now.append(1)
    for o in (g, s):
        o.observer_state.position = free("r2")
        o.observer_state.epoch.value = e2
        o.observed_direction = free("d2")
    g2 = h.GroundObservation(h.ITRF(h.Epoch(e2), free("r2"), v), free("d2"), 0, 0)
    s2 = h.SpaceObservation(h.GCRF(h.Epoch(e2), free("r2"), v), free("d2"), 0, 0)
    for k, (f, f2) in enumerate(zip(asks, (g2.ijk_position, g2.gcrf_position, s2.ijk_position))):
        h.eql(f"observation changed {k}", h.lst(f()), h.lst(f2()), scale=1e6)


SCENARIOS.again()

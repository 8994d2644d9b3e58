"""C26 Hohmann transfers"""
from symx.scen import Scenarios

SCENARIOS = Scenarios()
ASSUMPTIONS = ["radii 1 to 1e9 km; the gravitational parameter is the repository's own constant"]


def radii(h):
    return h.real("r1", 1, 1000000000), h.real("r2", 1, 1000000000)


@SCENARIOS.add()
def speeds(h):
    """vis-viva: v^2 = mu (2/r - 1/a), positive roots"""
    VV = h.mod("openspace.planning.maneuvers").VisViva
    r, a = h.real("r", 1, 1000000000), h.real("a", 1, 1000000000)
    c = VV.circular_velocity(r)
    h.eq("circular", c * c * r, h.Earth.MU, scale=4e5)
    h.lt("circular positive", 0, c)
    h.assume(r * (1 + h.q(1, 1000000)) < 2 * a)
    v = VV.eccentric_velocity(r, a)
    h.eq("eccentric", v * v, h.Earth.MU * (2 / r - 1 / a), scale=1e4)
    h.lt("eccentric positive", 0, v)


@SCENARIOS.add()
def circular_is_eccentric(h):
    """the two speeds agree on a circle"""
    VV = h.mod("openspace.planning.maneuvers").VisViva
    r = h.real("r", 1, 1000000000)
    h.eq("same", VV.eccentric_velocity(r, r), VV.circular_velocity(r), scale=10)


@SCENARIOS.add()
def transfer(h):
    """any pair of radii, up or down"""
    r1, r2 = radii(h)
    t = h.Hohmann(r1, r2)
    mu = h.Earth.MU
    h.eq("initial", t.initial_velocity * t.initial_velocity * r1, mu, scale=4e5)
    h.eq("final", t.final_velocity * t.final_velocity * r2, mu, scale=4e5)
    for n, v, r, o in (("departure", t.transfer_velocity_1, r1, r2), ("arrival", t.transfer_velocity_2, r2, r1)):
        h.eq(n, v * v * r * (r1 + r2), 2 * mu * o, scale=1e12)
        h.le(n + " sign", 0, v)
    h.le("initial sign", 0, t.initial_velocity)
    h.le("final sign", 0, t.final_velocity)
    h.eq("burn 1", t.delta_v_1, t.transfer_velocity_1 - t.initial_velocity, scale=10)
    h.eq("burn 2", t.delta_v_2, t.final_velocity - t.transfer_velocity_2, scale=10)
    # one ellipse: same energy and angular momentum at both ends
    h.eq("angular momentum", t.transfer_velocity_1 * r1, t.transfer_velocity_2 * r2, scale=1e6)
    h.eq("energy", t.transfer_velocity_1 * t.transfer_velocity_1 / 2 - mu / r1,
         t.transfer_velocity_2 * t.transfer_velocity_2 / 2 - mu / r2, scale=4e3)


@SCENARIOS.add()
def directions(h):
    """raising burns forward twice, lowering backward twice, equal radii not at all"""
    r1, r2 = radii(h)
    t = h.Hohmann(r1, r2)
    if bool(r1 < r2):
        h.le("raise 1", 0, t.delta_v_1)
        h.le("raise 2", 0, t.delta_v_2)
    elif bool(r1 > r2):
        h.le("lower 1", t.delta_v_1, 0)
        h.le("lower 2", t.delta_v_2, 0)
    else:
        h.eq("none 1", t.delta_v_1, 0)
        h.eq("none 2", t.delta_v_2, 0)


@SCENARIOS.add()
def there_and_back(h):
    """the way back undoes both burns"""
    r1, r2 = radii(h)
    a, b = h.Hohmann(r1, r2), h.Hohmann(r2, r1)
    h.eq("burn 1", b.delta_v_1, -a.delta_v_2, scale=10)
    h.eq("burn 2", b.delta_v_2, -a.delta_v_1, scale=10)


@SCENARIOS.add()
def equal_radii(h):
    """no burn needed between equal circles"""
    r = h.real("r", 1, 1000000000)
    t = h.Hohmann(r, r)
    h.eq("burn 1", t.delta_v_1, 0, scale=10)
    h.eq("burn 2", t.delta_v_2, 0, scale=10)


SCENARIOS.again()

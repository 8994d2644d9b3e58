"""Fresh copies of the repository's openspace modules, compiled from the current
source with every float literal kept as an exact rational (symbolic mode only)."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import os
import sys

from . import core as C

SRC = os.environ.get("VERIF_SRC", "/repo/src")


class _Lit(ast.NodeTransformer):
    def __init__(self):
        self.lits = {}

    def visit_Constant(self, n):
        if type(n.value) is float:
            k = repr(n.value)
            nm = self.lits.setdefault(k, f"_symx_c{len(self.lits)}_")
            return ast.copy_location(ast.Name(nm, ast.Load()), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_MatchValue(self, n):
        return n


_cache = {}


def _compiled(path):
    r = _cache.get(path)
    if r is None:
        src = open(path, encoding="utf8").read()
        tree = ast.parse(src, path)
        t = _Lit()
        tree = ast.fix_missing_locations(t.visit(tree))
        r = (compile(tree, path, "exec", dont_inherit=True), {v: float(k) for k, v in t.lits.items()})
        _cache[path] = r
    return r


class SymLoader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path = path
        self.pkg = pkg

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        code, lits = _compiled(self.path)
        d = mod.__dict__
        for k, v in lits.items():
            d[k] = C.Sym.of(v)
        d["float"] = C.FloatShim
        d["int"] = C.IntShim
        d["min"] = C.min_shim
        d["max"] = C.max_shim
        exec(code, d)
        for k, v in list(d.items()):
            if type(v) is float and not k.startswith("__"):
                d[k] = C.Sym.of(v)


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "openspace" and not name.startswith("openspace."):
            return None
        base = os.path.join(SRC, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.machinery.ModuleSpec(name, SymLoader(f, True), origin=f, is_package=True)
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + ".py"
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(name, SymLoader(f, False), origin=f)
        return None


def install():
    sys.meta_path.insert(0, SymFinder())
    for k, f in C.PATCHES.items():
        setattr(C._m, k, f)


def fresh():
    for k in [k for k in sys.modules if k == "openspace" or k.startswith("openspace.")]:
        del sys.modules[k]


WHERE = {}
for _mod, _names in {
    "openspace.math.linalg": "Vector3D Vector6D Matrix3D Matrix3by6 Matrix6by3 Matrix6D",
    "openspace.math.functions": "Conversions sign LegendrePolynomial EquationsOfMotion Eccentricity Flattening "
    "SemiMajorAxis SemiMinorAxis SemiParameter ArealVelocity RightAscensionNode Inclination Radius "
    "SpecificMechanicalEnergy VisVivaVelocity Period MeanMotion EccentricAnomaly TrueAnomaly "
    "ArgumentOfPerigee ArgumentOfLatitude MeanAnomaly",
    "openspace.time": "Epoch",
    "openspace.bodies.celestial": "Earth Sun Moon",
    "openspace.bodies.artificial": "Spacecraft",
    "openspace.bodies.terrestrial": "GroundSite",
    "openspace.coordinates.positions": "SphericalPosition ENZ LLA PositionConvert",
    "openspace.coordinates.states": "State ITRF HCW GCRF IJK StateConvert",
    "openspace.coordinates.elements": "ClassicalElements",
    "openspace.propagators.inertial": "RK4",
    "openspace.propagators.relative": "Hill",
    "openspace.estimation.filtering": "RelativeKalman",
    "openspace.estimation.obs": "Observation SpaceObservation GroundObservation",
    "openspace.estimation.iod": "Gauss",
    "openspace.hardware.constraints": "OpticalConstraints",
    "openspace.hardware.payloads": "Camera",
    "openspace.planning.maneuvers": "Hohmann",
}.items():
    for _n in _names.split():
        WHERE[_n] = _mod


def get(name):
    m = importlib.import_module(WHERE[name])
    return getattr(m, name)

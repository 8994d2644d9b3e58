"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/openspace/"
LIN, FUN, POS, STA = S + "math/linalg.py", S + "math/functions.py", S + "coordinates/positions.py", S + "coordinates/states.py"
ELE, TIM, CEL, ART = S + "coordinates/elements.py", S + "time.py", S + "bodies/celestial.py", S + "bodies/artificial.py"
TER, OBS, FIL, IOD = S + "bodies/terrestrial.py", S + "estimation/obs.py", S + "estimation/filtering.py", S + "estimation/iod.py"
INE, REL, PAY, CON, MAN = (S + "propagators/inertial.py", S + "propagators/relative.py", S + "hardware/payloads.py",
                          S + "hardware/constraints.py", S + "planning/maneuvers.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })


prop("C01", "Vector algebra is exact",
     "Sums, differences, scalings, dot and cross products, magnitudes and normalisations of 3- and 6-component vectors "
     "equal their textbook definitions for every input, a zero vector cannot be normalised (ZeroDivisionError), and no operation alters its operands.",
     ["inputs"], "all component values and scalars in the stated range",
     "the tests evaluate each operation at one or two integer vectors",
     [LIN], [("Vector3D, Vector6D", LIN)], ["return values of the vector methods"])
prop("C02", "Matrix algebra is exact",
     "Products, sums, differences, transposes, scalings, determinants and inverses of the 3x3, 3x6, 6x3 and 6x6 matrices equal the definitions "
     "of linear algebra, a matrix times its inverse is the identity, and changing one matrix or the vectors it was built from never changes another.",
     ["inputs"], "all matrix entries in the stated range; determinants bounded away from 0 for inverses",
     "the tests use one numeric matrix per method; transposed or swapped entries cancel in symmetric samples",
     [LIN], [("Matrix3D, Matrix3by6, Matrix6by3, Matrix6D", LIN)], ["rows of the result matrices"])
prop("C03", "Axis rotations are proper rotations",
     "Rotating a vector about any nonzero axis by any angle preserves lengths, angles and handedness, leaves the axis fixed, turns by exactly that angle in "
     "the right-hand sense, and rotations about one axis compose by adding angles.",
     ["inputs"], "all axes (any norm) and angles within two turns",
     "tests rotate about coordinate axes by multiples of 90 degrees",
     [LIN], [("Vector3D.rotation_matrix / rotation_about_axis", LIN)], ["rotated vectors, rotation matrices"])
prop("C04", "Angle between vectors is correct and total",
     "The angle between two nonzero vectors is a number in [0, pi] whose cosine is the normalised dot product; it is symmetric, independent of lengths, and is "
     "returned without an exception even when rounding makes parallel vectors look more than parallel.",
     ["inputs"], "all pairs of nonzero vectors, including parallel and opposite ones under rounding",
     "tests use perpendicular unit vectors; domain errors appear only for particular roundings",
     [LIN], [("Vector3D.angle", LIN)], ["returned angle, exceptions"])
prop("C05", "Spherical and Cartesian coordinates are mutually inverse",
     "Converting any Cartesian vector to radius, right ascension and declination and back gives the same vector; right ascension is in [0, 2pi), declination in [-pi/2, pi/2], "
     "and the converse round trip also holds away from the poles.",
     ["inputs"], "all vectors, axes and origin included; all angles",
     "tests convert a couple of octants",
     [POS], [("SphericalPosition", POS)], ["converted coordinates"])
prop("C06", "Conic and orbit relations are mutually consistent",
     "Semi-major and semi-minor axis, semi-parameter, eccentricity, flattening, energy, speed, period, mean motion and angular momentum computed from one another agree with the "
     "two-body relations for every ellipse, and the eccentricity of any circular or elliptic orbit is returned as a number in [0, 1] without an exception.",
     ["inputs"], "all semi-major axes, eccentricities, radii and gravitational parameters in the stated ranges",
     "each formula is tested at one orbit",
     [FUN, CEL], [("EquationsOfMotion and its helper classes", FUN), ("Earth.geo_radius", CEL)], ["returned quantities"])
prop("C07", "Anomalies and orbit angles satisfy their defining equations",
     "Eccentric, true and mean anomaly, argument of latitude, argument of perigee, inclination and node are returned in their principal range and satisfy their defining equations; "
     "solving Kepler's equation leaves a residual within tolerance and terminates.",
     ["inputs"], "all eccentricities up to the stated bound and all anomalies; Newton iterations up to the stated unrolling",
     "tests evaluate a handful of angles, mostly in the first quadrant",
     [FUN], [("EccentricAnomaly, TrueAnomaly, MeanAnomaly, ArgumentOf*, Inclination, RightAscensionNode", FUN)], ["returned angles"])
prop("C08", "Classical elements and inertial states correspond",
     "The inertial state produced from classical elements lies on the orbit those elements describe (position, velocity, plane, perigee direction and epoch), and the elements "
     "recovered from an inertial state describe that same state.",
     ["inputs"], "all elliptic, non-equatorial orbits in the stated bounds",
     "tests convert two example orbits",
     [ELE, FUN], [("ClassicalElements", ELE)], ["state vectors and elements"])
prop("C09", "Gregorian dates become the right Modified Julian Date",
     "A Gregorian date and time converts to its Modified Julian Date for every month, leap year and century rule: consecutive days differ by one, times of day add their fraction, and "
     "later instants give larger values.",
     ["inputs"], "all dates 1600-2399 and all times of day",
     "tests check a few dates; leap and century rules need particular years",
     [TIM], [("Epoch.from_gregorian", TIM)], ["Epoch.value"])
prop("C10", "Epochs, units and Greenwich hour angle follow their definitions",
     "Epoch arithmetic, day and angle unit conversions, Julian date and Julian centuries are exact, and the Greenwich hour angle equals mean sidereal time, in [0, 2pi), advancing "
     "continuously at the sidereal rate across day boundaries.",
     ["inputs"], "all epochs in MJD 40000..70000",
     "tests evaluate one epoch",
     [TIM, FUN], [("Epoch", TIM), ("Conversions", FUN)], ["Epoch accessors"])
prop("C11", "Frame conversions are the documented chain of rotations",
     "Conversions between inertial, mean-of-date, true-of-date, Earth-fixed and IJK positions apply precession, nutation and sidereal rotation of the requested epoch in the right order and direction; "
     "precession and sidereal rotation are proper rotations with the published angles, and going to Earth-fixed and back returns the original position to metre level.",
     ["inputs"], "all epochs in MJD 40000..70000 and all positions in bounds",
     "tests compare one epoch and position with a loose tolerance",
     [POS, CEL], [("PositionConvert", POS), ("Earth.precession / nutation / rotation", CEL)], ["converted positions, matrices"])
prop("C12", "Geodetic coordinates describe the reference ellipsoid",
     "Latitude, longitude and altitude map to the point that far along the ellipsoid normal, and the inverse conversion returns coordinates of that point for every position including poles and equator, without raising.",
     ["inputs"], "all latitudes and longitudes, altitudes in bounds",
     "tests convert a few sites",
     [POS], [("PositionConvert.lla / itrf.to_lla", POS)], ["LLA and ITRF values"])
prop("C13", "Topocentric observations describe the observed geometry",
     "Range, azimuth, elevation, right ascension and declination of an observation are those of the line of sight in the observer's frame (azimuth from north towards east), building an "
     "observation from angles inverts them, and the position reconstructed from an observation is the true position of the observed object.",
     ["inputs"], "all sites, epochs and target positions in bounds",
     "tests look at one site and one satellite",
     [OBS, TER, POS], [("GroundObservation, SpaceObservation", OBS), ("GroundSite", TER), ("ENZ, PositionConvert.enz", POS)], ["observation attributes, reconstructed positions"])
prop("C14", "Relative (Hill) and inertial states convert losslessly",
     "The radial/in-track/cross-track frame is orthonormal and right-handed; converting a target state to the curvilinear relative frame of an origin and back returns the same position and velocity, and the "
     "origin itself has zero relative state. The epoch of the origin is kept.",
     ["inputs"], "all origins (any orbit orientation, eccentric included) and all relative states within bounds",
     "tests convert one formation near GEO",
     [STA], [("StateConvert.gcrf.to_hcw, StateConvert.hcw.to_gcrf, HCW.frame_matrix", STA)], ["converted states"])
prop("C15", "Hill propagation solves the Clohessy-Wiltshire equations",
     "The relative state transition matrix is the identity at zero, satisfies the Clohessy-Wiltshire differential equations, and composes (two steps equal one combined step, backward undoes forward); the propagator applies exactly this matrix.",
     ["inputs", "histories"], "all semi-major axes, times and sequences of two steps",
     "tests propagate one state by one step",
     [REL], [("Hill.system_matrix, step_by_seconds, step", REL)], ["relative state after steps"])
prop("C16", "Numerical propagation is classical RK4 and arrives on time",
     "One integration step is the classical fourth-order Runge-Kutta step of the state's equations of motion, with stage epochs at the start, middle and end; propagating to an epoch, forward or backward, "
     "arrives exactly there in equal steps no longer than the maximum, does nothing for zero elapsed time, and keeps the configured step size.",
     ["inputs", "histories"], "all dynamics (uninterpreted acceleration), step sizes, and intervals up to the stated number of steps",
     "tests propagate one orbit and compare positions loosely",
     [INE, STA], [("RK4.step, RK4.step_to_epoch", INE)], ["propagated state and epoch"])
prop("C17", "Accelerations follow the force model and the perturbation setting",
     "The acceleration of a state is thrust plus point-mass gravity and, exactly when perturbations are enabled, lunar and solar third-body, radiation pressure (away from the Sun, scaled by the state's coefficient) and "
     "geopotential terms; the setting is kept by copies and by propagation.",
     ["inputs", "configurations"], "all positions, Sun and Moon positions, coefficients and settings",
     "tests check single components at one epoch",
     [STA, INE], [("GCRF.acceleration_from_*, GCRF.derivative", STA)], ["acceleration vectors"])
prop("C18", "Geopotential acceleration is the gradient of the potential",
     "For any spherical-harmonic coefficients up to the modelled degree the non-spherical acceleration equals the gradient of the corresponding potential in the Earth-fixed frame, rotated to inertial axes; the tabulated Legendre functions and "
     "Earth coefficients are the published ones.",
     ["inputs"], "all positions off the polar axis and all coefficient values",
     "tests compare one position with a loose tolerance",
     [STA, FUN, CEL], [("GCRF.acceleration_from_gravity", STA), ("LegendrePolynomial", FUN), ("Earth.C, Earth.S", CEL)], ["acceleration vector, Legendre table"])
prop("C19", "Sun and Moon follow the published low-precision series",
     "Sun and Moon positions equal the published analytic series (distance, longitude, latitude, obliquity) at every epoch, so their distances and the Moon's ecliptic latitude stay in their physical range.",
     ["inputs"], "all epochs in MJD 40000..70000",
     "tests check one epoch with a loose tolerance; small periodic terms vanish there",
     [CEL], [("Sun.get_position, Moon.get_position", CEL)], ["position vectors"])
prop("C20", "Maneuvers obey the rocket equation and frame conventions",
     "A finite burn thrusts along the requested direction with acceleration thrust over remaining mass, lasts and consumes exactly what the rocket equation demands for the requested velocity change, keeps losing mass continuously across integration steps, "
     "and leaves thrust off; radial/in-track/cross-track burns are applied along the satellite's own frame, and an impulsive burn changes velocity only.",
     ["inputs", "histories"], "all burns, masses, flow rates and specific impulses in bounds",
     "tests run one burn and look at one number",
     [INE, ART], [("RK4.maneuver, RK4.thrust_vector", INE), ("Spacecraft.finite_maneuver, impulsive_maneuver", ART)], ["thrust vectors, mass, state after the burn"])
prop("C21", "The relative Kalman filter applies the Kalman equations",
     "Processing an observation predicts with the relative dynamics over the elapsed seconds, uses the optimal gain and updates state and covariance by the Joseph form; covariances stay symmetric and positive semidefinite, and the filter epoch and "
     "propagator follow the estimate. Acquiring a target starts the filter from the target's relative state at the filter's epoch.",
     ["inputs", "histories"], "all covariances, states, measurements and errors in bounds",
     "tests run one sequence and check convergence",
     [FIL], [("RelativeKalman", FIL)], ["filter state, covariance, gain"])
prop("C22", "Camera geometry and limits follow the optics",
     "Resolution, range error, tracking minimum, bore limit and characterisation range follow from pixel count and half field of view for every camera, and cameras have independent limits.",
     ["inputs"], "all pixel counts, fields of view and ranges",
     "tests check the default cameras at one range",
     [PAY, CON], [("Camera", PAY), ("OpticalConstraints", CON)], ["camera values"])
prop("C23", "Detection holds exactly when every sensor constraint holds",
     "A target is detected exactly when its Sun, Earth and Moon angles are not below their limits, its visual magnitude is not above the limit and it lies within the bore limit of the payload axis; the visual magnitude is that of the target's "
     "size, albedo, distance and phase.",
     ["inputs", "configurations"], "all geometries and limits",
     "tests try one geometry per outcome",
     [ART], [("Spacecraft.detect, visual_magnitude, *_angle, range", ART)], ["detection flag, magnitudes, angles"])
prop("C24", "Attitude follows steering mode and slews take their time",
     "In each steering mode the payload axis points to Earth, away from the Sun, or at the tracked target, with mutually perpendicular right-handed body axes, after every step and maneuver; changing mode starts a slew whose duration is proportional to the angle "
     "turned, and slewing ends once that time has passed.",
     ["inputs", "histories"], "all states, targets and mode sequences of two changes",
     "tests change mode once from one state",
     [ART], [("Spacecraft.update_attitude, track_*", ART)], ["body axes, slewing flag, slew end"])
prop("C25", "Objects do not share mutable state",
     "States, propagators, filters, observations and spacecraft copy the vectors, epochs and states they are built from, copies are independent of their originals, and spacecraft accessors return copies, so changing one object never changes another, and propagating or observing one spacecraft never alters the object it was created from (a tracked target is followed by reference).",
     ["inputs", "histories"], "all values; every constructor/accessor pair listed",
     "tests rarely mutate arguments after the call",
     [STA, LIN, TIM, ART, INE, OBS], [("copy methods and constructors", STA)], ["values of objects after mutation of others"])
prop("C26", "Hohmann transfers satisfy vis-viva",
     "Circular, transfer and final speeds and both burns of a Hohmann transfer satisfy the vis-viva equation on the transfer ellipse touching both circles; burns are positive when raising, negative when lowering, and zero for equal radii.",
     ["inputs"], "all pairs of radii in bounds",
     "tests compute one transfer",
     [MAN], [("VisViva, Hohmann", MAN)], ["speeds and burns"])
prop("C27", "Two-position orbit determination solves Gauss's problem",
     "The elements from two position observations describe the orbit through both positions in the observed time: plane, semi-parameter from the sector-triangle ratio, eccentricity and perigee follow from both positions, and the ratio solves Gauss's equations.",
     ["inputs"], "all position pairs less than 180 degrees apart and times in bounds",
     "tests recover one orbit",
     [IOD], [("Gauss", IOD)], ["returned elements"])
prop("C28", "Simulated measurement noise has the requested size and direction",
     "Range noise changes only the length of the line of sight, angular noise only its direction by the drawn angle about an arbitrary perpendicular axis, for every vector without exception; simulated observations carry the camera's range error and the pointing accuracy.",
     ["inputs"], "all vectors and every outcome of the random generator",
     "tests are statistical or absent: outcomes of the random generator cannot be enumerated",
     [LIN, ART], [("Vector3D.with_*noise", LIN), ("Spacecraft.observe_wfov/nfov", ART)], ["noisy vectors, observation attributes"])

NA = {}
TECH = "symbolic execution of the current Python source; assertions decided by z3 over all inputs in bounds; counterexamples replayed"
NOTE = ("Holds for every input within the bounds in evidence (per scenario). Trusts: real-number semantics for floats, the "
        "symbolic value layer (validated against the real code on witnesses each run), z3 (cvc5 cross-check in thorough).")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "other", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. fix: commits and known findings are listed in known_findings.json and DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()

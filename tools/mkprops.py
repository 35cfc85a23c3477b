#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append(d)

CA = "src/core_astro/"; IA = "include/kep3/core_astro/"
prop("C01", "Keplerian elements <-> Cartesian state conversions are mutual inverses",
 "For every Cartesian state with a well defined orbit (non-zero angular momentum, not equatorial, not circular, not parabolic), converting to osculating Keplerian elements and back returns the same position and velocity; conversely, converting valid elements (a>0,e<1 or a<0,e>1, 0<i<pi) to Cartesian and back returns the same a, e, i and the same angles modulo 2*pi. The returned angles are always in [0, 2*pi], the inclination in [0, pi], and a is positive exactly for ellipses.",
 "all states (r, v, mu) and all element sets (a, e, i, W, w, f) away from the documented singularities; all quadrants of W, w and f; ellipses and hyperbolas",
 "ic2par2ic_test samples random elements in limited ranges plus a few fixed states; quadrant logic, sign conventions and both orbit families must hold for every input.",
 [CA+"ic2par2ic.cpp", IA+"ic2par2ic.hpp"],
 [("quadrant resolution of node, pericentre and anomaly angles", CA+"ic2par2ic.cpp ic2par"), ("perifocal to inertial rotation", CA+"ic2par2ic.cpp par2ic")])
prop("C02", "Elements-to-Cartesian conversion yields the orbit the elements describe",
 "For valid elements the returned state has distance p/(1+e cos f), specific energy -mu/(2a), angular momentum of magnitude sqrt(mu p) along the pole given by (W, i), and an eccentricity vector of length e pointing to the pericentre given by (W, i, w). Element sets with a and e of incompatible sign, and hyperbolic true anomalies beyond the asymptotes, are rejected with a domain error, and nothing else is rejected.",
 "every element set (a, e, i, W, w, f) and mu > 0, valid or not",
 "The tests check round trips and a handful of known states and two rejections; a consistent mistake in both directions, or a rejection threshold that is slightly off, passes them.",
 [CA+"ic2par2ic.cpp"],
 [("domain checks", CA+"ic2par2ic.cpp par2ic"), ("perifocal state and rotation matrix", CA+"ic2par2ic.cpp par2ic")])
prop("C03", "Equinoctial elements <-> Cartesian conversions are mutual inverses",
 "For every Cartesian state with non-zero angular momentum (and not at the singular inclination of the chosen set), converting to modified equinoctial elements and back returns the same state, for the direct and the retrograde set and for ellipses and hyperbolas. Conversely elements -> Cartesian -> elements returns the same p, f, g, h, k and the same true longitude modulo 2*pi, with the longitude in [-pi, pi].",
 "all states (including circular and planar ones) and all equinoctial sets, both direct and retrograde",
 "ic2eq2ic_test samples random orbits; the code chooses among three projections of the equinoctial frame depending on the geometry, and each choice and both signs of the retrograde factor must be right for all inputs.",
 [CA+"ic2eq2ic.cpp"],
 [("projection chosen by largest determinant", CA+"ic2eq2ic.cpp ic2eq"), ("retrograde factor I", CA+"ic2eq2ic.cpp ic2eq, eq2ic")])
prop("C04", "Keplerian <-> equinoctial conversions agree with each other and with Cartesian",
 "Converting Keplerian elements to equinoctial ones and back returns the same a, e, i and angles modulo 2*pi, for both the direct and the retrograde set; the equinoctial set obtained from Keplerian elements describes the same Cartesian state, and likewise the Keplerian set obtained from equinoctial elements. Angles of the node and of the pericentre are returned in [0, 2*pi].",
 "all Keplerian sets with 0<i<pi, e>0 and all equinoctial sets with non-zero eccentricity and inclination; direct and retrograde",
 "eq2par2eq_test only checks the round trip on random elements; agreement with the Cartesian routes and the wrap-around branches are not covered.",
 [CA+"eq2par2eq.cpp", CA+"ic2eq2ic.cpp", CA+"ic2par2ic.cpp"],
 [("angle wrap-around", CA+"eq2par2eq.cpp eq2par"), ("retrograde formulas", CA+"eq2par2eq.cpp par2eq")])
prop("C05", "Elliptic anomaly conversions satisfy their defining equations",
 "For 0 <= e < 1: eccentric and true anomaly are related by tan(f/2)=sqrt((1+e)/(1-e))tan(E/2), mean anomaly is E - e sin E, mean-to-eccentric returns a solution of Kepler's equation for the given mean anomaly modulo 2*pi, and each conversion inverts its partner (modulo 2*pi), the mean-true conversions being the compositions. For e >= 1 every elliptic conversion returns NaN and never throws.",
 "every anomaly (any magnitude and sign, many revolutions) and every eccentricity",
 "convert_anomalies_test samples 10^5 random points and a few fixed ones; it cannot show that the root bracket always contains the root, nor cover all revolutions, nor eccentricities close to 0 and 1.",
 [IA+"convert_anomalies.hpp", IA+"kepler_equations.hpp"],
 [("Newton iteration with bracket on Kepler's equation", IA+"convert_anomalies.hpp m2e"), ("half-angle formulas", IA+"convert_anomalies.hpp e2f, f2e"), ("domain guards", IA+"convert_anomalies.hpp")])
prop("C06", "Hyperbolic anomaly conversions satisfy their defining equations",
 "For e > 1: hyperbolic and true anomaly are related by tan(f/2)=sqrt((e+1)/(e-1))tanh(H/2), the Gudermannian by tan(f/2)=sqrt((e+1)/(e-1))tan(zeta/2), the mean hyperbolic anomaly is e sinh H - H, mean-to-hyperbolic returns the solution of that equation, and each conversion inverts its partner, the mean-true conversions being the compositions. For e <= 1 every hyperbolic conversion returns NaN and never throws.",
 "every true anomaly inside the asymptotes, every H, N and zeta and every eccentricity",
 "convert_anomalies_test samples random points in a limited range; inverse relations and the guards must hold for all arguments.",
 [IA+"convert_anomalies.hpp", IA+"kepler_equations.hpp"],
 [("Newton iteration with bracket on the hyperbolic Kepler equation", IA+"convert_anomalies.hpp n2h"), ("half-angle formulas", IA+"convert_anomalies.hpp h2f, f2h, zeta2f, f2zeta")])
prop("C07", "Kepler-equation helpers: exact derivatives; Stumpff functions exact",
 "Every published form of Kepler's equation (eccentric, hyperbolic, anomaly-difference and universal-anomaly forms) comes with a first and a second derivative that are exactly its first and second derivatives in the anomaly, for all parameters. The Stumpff functions return (1-cos sqrt x)/x, (sqrt x - sin sqrt x)/x^(3/2) for x>0, their hyperbolic counterparts for x<0, and 1/2, 1/6 at zero.",
 "all anomalies and all parameters (M, e, sigma0, a, R, r0, vr0, alpha, mu), both signs of the Stumpff argument and of alpha",
 "No test touches the second derivatives, and the first ones are only exercised through converged root searches, which mask a wrong derivative.",
 [IA+"kepler_equations.hpp", IA+"special_functions.hpp"],
 [("kepE/kepH/kepDE/kepDH/kepDS and derivatives", IA+"kepler_equations.hpp"), ("stumpff_s, stumpff_c", IA+"special_functions.hpp")])
prop("C08", "Lagrangian propagation is the exact two-body flow",
 "For every elliptic or hyperbolic initial state and every time of flight of either sign, the propagated state satisfies the two-body equations of motion as a function of the time of flight and equals the initial state at zero time of flight; hence energy, angular momentum and eccentricity vector are conserved and propagating forward then backward returns to the start.",
 "every initial state with non-zero energy, every mu > 0, every time of flight (positive, negative, zero, many revolutions)",
 "propagate_lagrangian_test compares a few cases and random round trips; it cannot quantify over all states and times, and a compensating mistake in the Lagrange coefficients survives forward/backward checks.",
 [CA+"propagate_lagrangian.cpp", IA+"kepler_equations.hpp"],
 [("Kepler's equation in anomaly difference, elliptic branch", CA+"propagate_lagrangian.cpp propagate_lagrangian"), ("hyperbolic branch", CA+"propagate_lagrangian.cpp propagate_lagrangian"), ("Lagrange coefficients", CA+"propagate_lagrangian.cpp")])
prop("C09", "All Keplerian propagators compute the same motion",
 "The universal-variable propagator and the element-based propagator return the state of the exact two-body motion, hence the same state as the Lagrangian propagator, for every initial state in their domain and every time of flight of either sign.",
 "every elliptic and hyperbolic initial state (for the element-based one: non-circular, non-equatorial), every mu and every time of flight",
 "The tests compare the propagators on random states in narrow ranges with tolerances; the universal one has its own branches for backward time and sign of the energy.",
 [CA+"propagate_lagrangian.cpp", IA+"special_functions.hpp", IA+"convert_anomalies.hpp"],
 [("universal anomaly equation, time reversal for dt<0", CA+"propagate_lagrangian.cpp propagate_lagrangian_u"), ("mean anomaly update", CA+"propagate_lagrangian.cpp propagate_keplerian")])
prop("C10", "Propagator state transition matrix is the exact derivative of the flow",
 "When requested, the 6x6 matrix returned with a Lagrangian propagation is the Jacobian of the final position and velocity with respect to the initial position and velocity (row-major), for ellipses and hyperbolas and for either sign of the time of flight; requesting it never changes the propagated state, and not requesting it returns none.",
 "every initial state with non-zero energy, every mu and every time of flight",
 "stm_test checks a few states against finite differences or the other formula; each of the 36 entries must be right for all states.",
 [CA+"stm.cpp", CA+"propagate_lagrangian.cpp"],
 [("hand-derived differentials of the Lagrange coefficients", CA+"stm.cpp stm_lagrangian"), ("arguments handed over by the propagator", CA+"propagate_lagrangian.cpp")])
prop("C11", "Reynolds state transition matrix equals the derivative of the flow",
 "The alternative (Reynolds) state transition matrix of an initial and a propagated state equals the Jacobian of the two-body flow, and therefore the matrix returned by the Lagrangian propagator; the corresponding propagation entry point returns the two-body state and, on request only, that matrix.",
 "every non-rectilinear, non-circular, non-planar-degenerate initial state, every mu and every time of flight",
 "Only a few states are compared in the tests, with tolerances.",
 [CA+"stm.cpp", "src/linalg.cpp", "include/kep3/linalg.hpp"],
 [("fundamental matrix in Cartesian form", CA+"stm.cpp _compute_Y"), ("inverse at the initial time", CA+"stm.cpp stm_reynolds")])
prop("C12", "Vectorised propagation equals element-wise propagation",
 "Propagating one state over a vector of times of flight returns one entry per time of flight, in the same order, each equal to the single propagation for that time with the same gravitational parameter and the same request for the state transition matrix; an empty vector gives an empty result.",
 "vectors of times of flight of any length and content, both values of the matrix request",
 "The tests use fixed vectors; order, length and pass-through must hold for every vector.",
 [CA+"propagate_lagrangian.cpp"],
 [("propagate_lagrangian_v loop", CA+"propagate_lagrangian.cpp propagate_lagrangian_v")])
prop("C13", "Every Lambert solution connects the two positions in the given time",
 "For every solution returned by the Lambert solver, two-body propagation of the first position with the returned departure velocity for the given time of flight arrives at the second position with the returned arrival velocity; the motion completes the number of revolutions that the solution's place in the list stands for.",
 "all pairs of positions (plane not containing the z axis), times of flight, mu, both directions of motion and all revolution counts; elliptic, hyperbolic and near-parabolic transfers",
 "lambert_problem_test checks random instances; the time-of-flight evaluation switches between three formulas and several initial-guess regimes, all of which must be consistent.",
 ["src/lambert_problem.cpp", "include/kep3/lambert_problem.hpp"],
 [("time-of-flight curve in three forms", "src/lambert_problem.cpp x2tof, x2tof2, hypergeometricF"), ("third-order Householder iteration with exact derivatives", "src/lambert_problem.cpp householder, dTdx"), ("terminal velocity reconstruction", "src/lambert_problem.cpp constructor")])
prop("C14", "Lambert solution list: count, order, direction and stored inputs",
 "The solver returns exactly 2N+1 departure velocities, arrival velocities, x values and iteration counts, where N is the reported maximum number of revolutions and never exceeds the requested one: first the direct solution, then for each revolution count the left and right solution. All solutions move counter-clockwise as seen from the positive z axis unless the clockwise flag is given, in which case all move clockwise, and the accessors return the inputs unchanged.",
 "all valid inputs, all requested revolution counts, both directions",
 "The tests check counts on a few instances; the list layout and direction must hold for every geometry.",
 ["src/lambert_problem.cpp"],
 [("Nmax determination", "src/lambert_problem.cpp constructor"), ("direction flip by plane orientation and cw flag", "src/lambert_problem.cpp constructor"), ("accessors", "src/lambert_problem.cpp")])
prop("C15", "The Lambert solver rejects exactly the ill-posed inputs",
 "Constructing a Lambert problem with a time of flight or a gravitational parameter that is zero or negative, or with positions whose plane contains the z axis so that the direction is undefined, throws a domain error; every other input with finite values and non-aligned positions is accepted.",
 "all inputs",
 "The tests sample three rejected inputs; boundary values and the absence of spurious rejections are not covered.",
 ["src/lambert_problem.cpp"],
 [("sanity checks", "src/lambert_problem.cpp constructor")])
prop("C16", "Saved and reloaded objects are equal to the originals",
 "Writing a Lambert problem, a Sims-Flanagan leg (impulsive or high-fidelity), a Stark problem, a Keplerian or low-precision JPL planet or an epoch to an archive and reading it back yields an object whose every accessor and every computed quantity is identical to the original's; the order and set of stored fields is the same when saving and loading.",
 "all reachable objects of the classes",
 "The tests serialise one object per class and compare printed text, which does not expose every field.",
 ["include/kep3/lambert_problem.hpp", "include/kep3/leg/sims_flanagan.hpp", "include/kep3/leg/sims_flanagan_hf.hpp", "include/kep3/stark_problem.hpp", "include/kep3/udpla/keplerian.hpp", "include/kep3/udpla/jpl_lp.hpp", "include/kep3/epoch.hpp", "include/kep3/detail/s11n.hpp"],
 [("serialize members", "include/kep3/lambert_problem.hpp, include/kep3/leg/sims_flanagan.hpp, include/kep3/leg/sims_flanagan_hf.hpp, include/kep3/stark_problem.hpp, include/kep3/udpla/keplerian.hpp, include/kep3/udpla/jpl_lp.hpp, include/kep3/epoch.hpp")], over=("inputs", "histories"))
prop("C17", "Sims-Flanagan mismatch is the forward/backward impulsive-leg mismatch",
 "The mismatch equals the state and mass reached by the forward half minus that of the backward half, where with N segments of length tof/N the forward half applies its segments' impulses (max_thrust*dt/m times the throttle) at mid-segment on Keplerian arcs, the backward half does so in reverse, and mass follows the rocket equation with Isp*g0 across every impulse. The first nseg_fwd throttle triplets belong to the forward half and the rest to the backward one.",
 "all states, masses, throttles, times, thrust, Isp, mu, cut and numbers of segments, including all-forward and all-backward legs",
 "leg_sims_flanagan_test is not even built here and samples a few legs; indices, half-step durations and signs must be right for every segment count and cut.",
 ["src/leg/sims_flanagan.cpp"],
 [("forward and backward passes", "src/leg/sims_flanagan.cpp compute_mismatch_constraints")])
prop("C18", "Sims-Flanagan mismatch gradients are the exact derivatives",
 "The gradients of the mismatch with respect to the initial state and mass, the final state and mass, the throttles and the time of flight are the exact partial derivatives of the mismatch, with throttles in leg order and the time of flight last, whenever no throttle is exactly zero.",
 "all legs (states, masses, non-zero throttles, times, thrust, Isp, mu, cut, segment counts)",
 "The gradient test compares with finite differences on a few legs and is not built here; every entry, for every split of the segments, must be right.",
 ["src/leg/sims_flanagan.cpp", CA+"stm.cpp"],
 [("chain rule over segments", "src/leg/sims_flanagan.cpp gradients_multiple_impulses"), ("time reversal of the backward half", "src/leg/sims_flanagan.cpp gradients_bck"), ("assembly", "src/leg/sims_flanagan.cpp compute_mc_grad")])
prop("C19", "Sims-Flanagan throttle constraints and their gradients are exact",
 "There is one throttle constraint per segment, in leg order, equal to the squared norm of its throttle minus one, and the returned gradient matrix (segments by 3*segments, row-major) contains twice the throttle components at the segment's own columns and zero elsewhere.",
 "all throttle vectors and segment counts",
 "Tests sample a few fixed legs.",
 ["src/leg/sims_flanagan.cpp"],
 [("compute_throttle_constraints, compute_tc_grad", "src/leg/sims_flanagan.cpp")])
prop("C20", "A Sims-Flanagan leg never holds an invalid or inconsistent configuration",
 "After construction and after any sequence of setter calls the leg holds at least one segment, a throttle vector of three entries per segment, non-negative time of flight, thrust, Isp and mu, a cut in [0,1], and forward plus backward segments equal to the total with the forward count equal to the integer part of segments*cut. A construction or setter call with an invalid argument throws and leaves the leg exactly as it was; valid arguments are accepted, the whole-leg setter gives the same leg as constructing it anew, and every accessor returns the value last set.",
 "all argument values (including negative, zero, out of range and wrongly sized) and all sequences of setter calls",
 "Tests try some invalid arguments one at a time; they cannot cover every history of setter calls or every argument.",
 ["src/leg/sims_flanagan.cpp", "src/leg/sf_checks.cpp", "include/kep3/leg/sims_flanagan.hpp"],
 [("argument checks", "src/leg/sf_checks.cpp"), ("setters keep segment counts in step", "src/leg/sims_flanagan.cpp")], over=("inputs", "histories"),
 state=(("segment split", "nseg_fwd = trunc(nseg*cut), nseg_bck = nseg - nseg_fwd", "include/kep3/leg/sims_flanagan.hpp"),))
prop("C21", "Fly-by constraints, fly-by cost and outgoing velocity are physically exact",
 "The fly-by constraints are the difference of squared relative speeds and the turn angle minus the maximum turn angle at the safe radius; the fly-by cost is the smallest velocity change that makes the required outgoing velocity reachable by a ballistic fly-by (speed difference when the turn is feasible, otherwise the law-of-cosines value for the angle excess). The outgoing velocity of a fly-by keeps the incoming relative speed and turns it by 2*asin(1/(1+rp*v^2/mu)) about the axis chosen by beta.",
 "all relative velocities, planet velocities, mu, radii and beta",
 "flyby_test is not built here and compares a few numbers.",
 [CA+"flyby.cpp", "src/linalg.cpp"],
 [("fb_con, fb_dv, fb_vout", CA+"flyby.cpp"), ("cross product and normalisation", "src/linalg.cpp")])
prop("C22", "Julian date conversions and epoch arithmetic are consistent",
 "The free Julian-date conversions are exact offsets consistent with each other (2400000.5 and 51544 days), an epoch built from a number of days in any of the three Julian scales represents the same instant to the microsecond and reads back in each scale, an epoch built from a duration is that long after 0 MJD2000, and adding or subtracting durations and differences and all comparisons follow the underlying instant exactly.",
 "all day counts within the representable range and all durations",
 "epoch_test is not built here and uses a handful of dates.",
 ["include/kep3/epoch.hpp", "src/epoch.cpp", IA+"convert_julian_dates.hpp"],
 [("offset constants", "include/kep3/epoch.hpp"), ("tp_from_days", "src/epoch.cpp"), ("free functions", IA+"convert_julian_dates.hpp")])
prop("C23", "Calendar dates map to the right instant",
 "An epoch built from year, month, day, hour, minute, second, millisecond and microsecond is the proleptic Gregorian instant they denote in UTC without leap seconds, at microsecond resolution; a month outside 1-12, a day outside 1-31 or a year outside -32767..32767 is rejected. Parsing an ISO string of any permitted truncated length gives the same instant as the calendar constructor, with missing fields defaulting to the start of the period and fraction digits scaled by their place, and other lengths are rejected.",
 "all calendar dates and all strings of permitted and other lengths",
 "epoch_test is not built here and tries a dozen dates.",
 ["src/epoch.cpp", "include/kep3/epoch.hpp"],
 [("make_tp", "src/epoch.cpp"), ("string constructor", "src/epoch.cpp")])
prop("C24", "A Keplerian planet's ephemeris and elements describe its defining orbit",
 "A Keplerian planet built from a state or from elements of any supported type (true anomaly, mean anomaly, equinoctial, retrograde equinoctial) has, at any date, the two-body state propagated from that orbit over the seconds elapsed since its reference epoch; its elements in every type describe that orbit, its period is 2*pi*sqrt(a^3/mu) for ellipses and NaN otherwise, and the accessors return the given parameters. Element sets with incompatible a and e are rejected, and mean anomaly is rejected for hyperbolas.",
 "all defining orbits, element types and dates",
 "udpla_keplerian_test is not built here (missing dependencies) and samples few planets.",
 ["src/udpla/keplerian.cpp", "include/kep3/udpla/keplerian.hpp"],
 [("constructors convert the element types", "src/udpla/keplerian.cpp"), ("eph", "src/udpla/keplerian.cpp")])
prop("C25", "Low-precision planetary ephemerides follow the published linear-element model",
 "For a recognised planet name (any letter case) and a date strictly inside the validity interval, the state is the Cartesian state of the elements obtained by evaluating the planet's linear element model at the centuries elapsed since J2000, with mean anomaly solved by Kepler's equation; dates outside the interval throw a domain error and unknown names throw. Elements in every supported type describe that same state.",
 "all planets, all dates, all element types",
 "udpla_jpl_lp_test is not built here (missing dependencies) and samples few dates.",
 ["src/udpla/jpl_lp.cpp"],
 [("_f_elements", "src/udpla/jpl_lp.cpp"), ("planet tables", "src/udpla/jpl_lp.cpp")])
prop("C26", "Planets without own period/elements get correct osculating defaults",
 "For a planet that only provides its ephemeris and its central body's gravitational parameter, the default period is 2*pi*sqrt(a^3/mu) of the osculating orbit (NaN when unbound), the default elements of every type are those of the osculating orbit, and mean-anomaly elements are refused exactly for unbound orbits, in any unit system. The default vectorised ephemeris lists the states in the order of the dates; a planet giving neither its period (elements) nor its central body's parameter refuses the request with a not-implemented error.",
 "all states and mu, all element types",
 "planet_test is not built here (missing dependencies) and samples few states.",
 ["src/planet.cpp", "include/kep3/planet.hpp"],
 [("period_from_energy, elements_from_posvel", "src/planet.cpp")])
prop("C27", "Low-thrust and three-body dynamics are the documented equations of motion",
 "The right-hand side integrated by the constant-thrust (Stark) problem is Keplerian attraction plus thrust over mass with mass flow -|u|/veff (zero for zero thrust), and the circular restricted three-body right-hand side conserves the Jacobi integral and has the two primaries at (-mu,0,0) and (1-mu,0,0). The variational versions integrate the same equations. The integrator handed out for a tolerance integrates those equations with that tolerance whatever was requested before, from any thread: the caches are only touched under their own lock.",
 "all states and parameters",
 "ta_stark_test and ta_cr3bp_test are not built here (missing heyoka) and check a few trajectories.",
 ["src/ta/stark.cpp", "src/ta/cr3bp.cpp"],
 [("stark_dyn", "src/ta/stark.cpp"), ("cr3bp_dyn", "src/ta/cr3bp.cpp")])
prop("C28", "High-fidelity Sims-Flanagan leg keeps a valid, up-to-date configuration",
 "After construction and any sequence of setter calls the high-fidelity leg satisfies the same configuration invariants as the impulsive one, rejects invalid arguments without changing the leg, and computes its mismatch with the currently set time of flight, thrust, Isp, mu and tolerance.",
 "all argument values and all sequences of setter calls",
 "The test needs heyoka, is not built here, and exercises a few sequences.",
 ["src/leg/sims_flanagan_hf.cpp", "include/kep3/leg/sims_flanagan_hf.hpp", "src/leg/sf_checks.cpp"],
 [("setters", "src/leg/sims_flanagan_hf.cpp")], over=("inputs", "histories"))
prop("C30", "The high-fidelity leg's gradients and state history are exact",
 "For every valid high-fidelity leg the mismatch gradients are the derivatives of the mismatch constraints with respect to both end states, the throttles (forward segments first, then backward) and the time of flight; the throttle-constraint gradient is the derivative of the throttle constraints; the state derivative handed out is the constant-thrust right-hand side at that state; and the state history has, for every segment and in flight order, the states of the propagation of that segment on the requested grid points.",
 "all leg configurations, state and throttle values",
 "The test needs heyoka, is not built here, and compares a few legs with max_thrust = 1.",
 ["src/leg/sims_flanagan_hf.cpp", "include/kep3/leg/sims_flanagan_hf.hpp"],
 [("gradient assembly", "src/leg/sims_flanagan_hf.cpp"), ("state history", "src/leg/sims_flanagan_hf.cpp")])
prop("C31", "The Stark problem propagates its dynamics with exactly its parameters",
 "After construction, copies, assignments and any sequence of setters and propagations, a Stark problem's propagate returns the state reached by the constant-thrust equations from the given state with the given thrust after the given time, with the problem's current mu, exhaust velocity and tolerance; propagate_var returns the same state and its derivatives with respect to the initial state (7x7, row by row) and the thrust (7x3). The accessors and the integrators handed out carry the current parameters; a zero mass and a failed integration are reported as domain errors and leave the problem usable.",
 "all parameters, states, thrusts, times and histories",
 "The test needs heyoka, is not built here, and exercises a few calls.",
 ["src/stark_problem.cpp", "include/kep3/stark_problem.hpp"],
 [("propagate, propagate_var, setters", "src/stark_problem.cpp")], over=("inputs", "histories"))
prop("C29", "Trajectory-optimisation problems expose consistent objectives and constraints",
 "The Python trajectory-optimisation problem classes return fitness vectors whose length and content match their declared bounds and constraint counts for every decision vector in bounds.",
 "all decision vectors",
 "Python tests need the compiled extension and sample few vectors.",
 ["pykep/trajopt"], [("fitness methods", "pykep/trajopt")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))

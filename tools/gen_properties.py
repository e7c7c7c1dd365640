#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they can be reviewed and diffed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Every Lambert solution joins the two positions in the given time",
 "For every Lambert problem that is accepted (two non-collinear positions, positive time of flight and gravity parameter, any number of requested revolutions, prograde or retrograde), each returned departure velocity, propagated as two-body motion for the time of flight, arrives at the second position with the returned arrival velocity, to an accuracy commensurate with double precision. All returned velocities are finite.",
 ["inputs"], "all transfer geometries (angle 0-360 deg in any plane), all radius ratios, all non-dimensional times from strongly hyperbolic to hundreds of revolutions, both directions, all unit systems, all solution branches",
 "The tests draw one family of random geometries from one fixed seed and check with a loose tolerance on delta-guidance; the property is over a continuum with several algorithm branches (series / Lagrange / Lancaster, multi-rev double roots) that sampling at order-one values does not separate.",
 ["src/lambert_problem.cpp", "include/kep3/lambert_problem.hpp"],
 [("dimensionless time equation and Householder root finding", "src/lambert_problem.cpp: householder, dTdx, x2tof, x2tof2, hypergeometricF"), ("velocity reconstruction", "src/lambert_problem.cpp: constructor step 4")],
 ["lambert_problem::get_v0 / get_v1 / get_x against an independent quad-precision two-body propagation"])

prop("P02", "Lambert returns exactly the feasible revolution branches, in order",
 "A Lambert problem returns 2N+1 solutions, where N is the largest number of complete revolutions, not above the requested one, for which the time of flight is feasible: first the zero-revolution transfer and then, for each k=1..N, two distinct transfers that complete exactly k revolutions, left branch (smaller x) first. All of them move in the requested direction: counter-clockwise seen from +z unless retrograde motion was requested. The inputs and the per-solution iteration counts and x values reported by the object have the same number of entries and describe these same solutions.",
 ["inputs", "configurations"], "all geometries, directions, times of flight (including just above and below each minimum multi-revolution time) and revolution caps",
 "Tests check the number of solutions for a handful of cases and never recompute the swept angle or the minimum time of flight per revolution count; off-by-one errors in the feasible revolutions only show near those minimum times.",
 ["src/lambert_problem.cpp", "include/kep3/lambert_problem.hpp"],
 [("Nmax detection with Halley iterations on the minimum time", "src/lambert_problem.cpp: constructor step 2"), ("left/right initial guesses", "src/lambert_problem.cpp: constructor step 3.2"), ("sign of lambda and of the tangential unit vectors", "src/lambert_problem.cpp: constructor step 1")],
 ["get_Nmax, get_v0, get_x, get_iters; swept angle measured on the reference trajectory; minimum time per revolution from an independent Lagrange time equation"])

prop("P03", "Two-body propagation returns the true Keplerian state",
 "For every initial state that is not (near-)rectilinear or (near-)parabolic, every propagation time (positive, negative, zero, many periods) and every positive gravity parameter, the returned state equals the exact two-body solution within double-precision conditioning. The Lagrange-coefficient, universal-variable and Keplerian-element propagators agree on their common domain, and the vectorised propagator returns, entry by entry and in order, what the scalar one returns.",
 ["inputs"], "elliptic and hyperbolic states of all eccentricities, orientations and unit systems; times from 0 to hundreds of periods, forward and backward; all time grids for the vectorised form",
 "Unit tests compare the code with a stored oracle on a few states and on moderate eccentricities; accuracy must hold across eccentricity, anomaly, sign of time and number of revolutions.",
 ["src/core_astro/propagate_lagrangian.cpp", "include/kep3/core_astro/kepler_equations.hpp", "include/kep3/core_astro/special_functions.hpp", "include/kep3/core_astro/propagate_lagrangian.hpp"],
 [("Kepler equation in the eccentric / hyperbolic anomaly difference and Lagrange coefficients", "src/core_astro/propagate_lagrangian.cpp: propagate_lagrangian"), ("universal variables with Stumpff functions", "src/core_astro/propagate_lagrangian.cpp: propagate_lagrangian_u"), ("element-based propagation", "src/core_astro/propagate_lagrangian.cpp: propagate_keplerian"), ("vectorised loop", "src/core_astro/propagate_lagrangian.cpp: propagate_lagrangian_v")],
 ["return value of each propagator against a quad-precision universal-variable propagation"])

prop("P04", "Propagation is a flow: conserves, composes, reverses, scales, rotates",
 "Two-body propagation conserves energy, angular momentum and eccentricity vector; propagating for t1 and then t2 equals propagating for t1+t2; propagating forth and back (or by a whole number of periods) returns the initial state; a zero time returns the state unchanged. Changing units or rotating the reference frame of the inputs changes the outputs in the same way.",
 ["inputs", "histories"], "all sequences of propagation steps, elliptic and hyperbolic, in all unit systems and frames",
 "A metamorphic relation between many calls; the tests check single calls in one unit system.",
 ["src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp", "src/lambert_problem.cpp"],
 [("Lagrange coefficients F G Ft Gt with unit Wronskian", "src/core_astro/propagate_lagrangian.cpp")],
 ["states along long chains of calls"])

prop("P05", "State transition matrices are the derivative of the propagated state",
 "Whenever a state transition matrix is requested, the returned matrix is the derivative of the final state with respect to the initial state of that same propagation: it matches the derivative of the exact flow, is symplectic, is the identity at zero time and composes by multiplication along consecutive arcs. The two available methods agree, the propagated state is the same whether or not the matrix is requested, and the matrix is present exactly when requested.",
 ["inputs"], "elliptic and hyperbolic states, forward and backward times, many revolutions, all unit systems",
 "The tests compare the two methods and a few stored matrices at order-one values; a derivative is a 36-entry object over a seven-dimensional input and errors in single terms vanish for special inputs.",
 ["src/core_astro/stm.cpp", "src/core_astro/propagate_lagrangian.cpp", "include/kep3/core_astro/stm.hpp", "include/kep3/linalg.hpp", "src/linalg.cpp"],
 [("differentials of the Lagrange coefficients", "src/core_astro/stm.cpp: stm_lagrangian"), ("Reynolds fundamental matrices", "src/core_astro/stm.cpp: _compute_Y, stm_reynolds"), ("small linear algebra helpers", "include/kep3/linalg.hpp: _dot; src/linalg.cpp: _skew, _cross")],
 ["36 entries returned against variational differentiation of a quad-precision flow"])

prop("P06", "Cartesian and Keplerian elements are faithful, mutually inverse descriptions",
 "For every state with non-zero inclination and eccentricity, the Keplerian elements returned satisfy their definitions (sign convention a>0 for ellipses and a<0 for hyperbolas, inclination in [0,pi], node, pericentre argument and anomaly in [0,2pi], in the right quadrant), and converting back returns the state; for every valid element set the Cartesian state lies on the orbit the elements define and converts back to the same elements. Results are finite also where the body is exactly or almost at an apse or a node, and inconsistent element sets (a and e of different conic type, anomalies beyond the asymptotes) are refused.",
 ["inputs"], "all conics, all inclinations strictly between 0 and pi (direct and retrograde), all quadrants of every angle including their boundaries, all unit systems",
 "Tests check round trips on random samples in the interior of the quadrants plus about ten stored values; quadrant boundaries and rounding at the apses are measure-zero for them.",
 ["src/core_astro/ic2par2ic.cpp", "include/kep3/core_astro/ic2par2ic.hpp"],
 [("eccentricity and node vectors, acos with quadrant selection", "src/core_astro/ic2par2ic.cpp: ic2par"), ("perifocal frame and rotation matrix, consistency checks", "src/core_astro/ic2par2ic.cpp: par2ic")],
 ["ic2par / par2ic results against a quad-precision atan2-based conversion"])

prop("P07", "Equinoctial elements, direct and retrograde, describe the same orbit",
 "Converting a state or a Keplerian element set to modified equinoctial elements (direct or retrograde set) and back returns the same state or orbit, for ellipses and hyperbolas and for every inclination except the one singular for the chosen set. The equinoctial elements agree with their definition in terms of the Keplerian ones, and going through Keplerian elements or directly to Cartesian gives the same state. Circular and equatorial orbits, where equinoctial elements are regular, give finite results describing the right orbit.",
 ["inputs", "configurations"], "all conics, all inclinations, all true longitudes, circular and equatorial limits, both element sets, all unit systems",
 "Tests check round trips on random non-singular samples; the reason equinoctial elements exist is the regularity at zero eccentricity and inclination, which no test drives.",
 ["src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp"],
 [("equinoctial frame and true longitude", "src/core_astro/ic2eq2ic.cpp: ic2eq, eq2ic"), ("angle bookkeeping between the two element sets", "src/core_astro/eq2par2eq.cpp: eq2par, par2eq")],
 ["element sets and states against definitions evaluated in quad precision"])

prop("P08", "Anomaly conversions solve Kepler's equation and invert each other",
 "For every eccentricity in [0,1), mean, eccentric and true anomaly conversions satisfy Kepler's equation and the half-angle relation modulo 2pi, are mutual inverses, and return anomalies in the documented [-pi, pi] range; for every eccentricity above 1 the same holds for hyperbolic mean, hyperbolic, true and Gudermannian anomalies inside the asymptotes. Conversions asked for a conic of the wrong type return NaN and never a number.",
 ["inputs"], "all anomalies (including +-pi, 0 and thousands of revolutions) and eccentricities from 0 to 0.999999 and from just above 1 to large values",
 "The tests sample random anomalies at moderate eccentricities; solver bounds and initial guesses fail, if at all, at high eccentricity or large anomaly only.",
 ["include/kep3/core_astro/convert_anomalies.hpp", "include/kep3/core_astro/kepler_equations.hpp"],
 [("bracketed Newton on Kepler's equation", "include/kep3/core_astro/convert_anomalies.hpp: m2e, n2h"), ("half-angle formulas", "include/kep3/core_astro/convert_anomalies.hpp: e2f, f2e, h2f, f2h, zeta2f, f2zeta")],
 ["returned anomalies against Kepler's equation evaluated in quad precision"])

prop("P09", "Low-thrust leg mismatch is the true match-point discontinuity",
 "The mismatch constraints of an impulsive low-thrust leg are exactly the position, velocity and mass discontinuity at the match point obtained by propagating the departure state forward and the arrival state backward over equal-duration segments, with each segment's impulse of magnitude (max thrust)x(segment duration)x(throttle)/(current mass) applied at mid segment and mass updated by the rocket equation, forward segments being the integer part of cut times the number of segments. The throttle constraints are the squared throttle norms minus one, segment by segment.",
 ["inputs", "configurations"], "all numbers of segments, all cuts in [0,1] (including no forward or no backward segments and single segments), all throttle vectors including zero, all masses, thrusts, specific impulses, gravity parameters and times, non-dimensional or SI",
 "No test of this leg is part of the buildable suite; the upstream one checks a few stored mismatches.",
 ["src/leg/sims_flanagan.cpp", "include/kep3/leg/sims_flanagan.hpp", "src/leg/sf_checks.cpp"],
 [("forward and backward passes", "src/leg/sims_flanagan.cpp: compute_mismatch_constraints"), ("throttle constraints", "src/leg/sims_flanagan.cpp: compute_throttle_constraints")],
 ["compute_mismatch_constraints / compute_throttle_constraints against an independent quad-precision leg"])

prop("P10", "Low-thrust leg gradients are the derivatives of its constraints",
 "The gradients returned for an impulsive low-thrust leg equal the derivatives of the mismatch constraints with respect to the departure state and mass, the arrival state and mass, every throttle component and the time of flight, in the documented order and layout, and those of the throttle constraints with respect to the throttles. They have the documented sizes and are finite for every valid leg, including coasting segments with zero throttle.",
 ["inputs", "configurations"], "all numbers of segments, cuts, throttles (including zero), masses, thrusts, isp, mu, times",
 "No test of this leg is part of the buildable suite; numerically differentiating at a couple of points does not reach empty forward/backward halves, single segments or coasting segments.",
 ["src/leg/sims_flanagan.cpp"],
 [("chain rule over impulses and STMs", "src/leg/sims_flanagan.cpp: gradients_multiple_impulses"), ("time and sign reversal of the backward half", "src/leg/sims_flanagan.cpp: gradients_bck"), ("assembly", "src/leg/sims_flanagan.cpp: compute_mc_grad, compute_tc_grad")],
 ["compute_mc_grad / compute_tc_grad against central differences of a quad-precision leg"])

prop("P11", "A low-thrust leg is a function of its current settings, not its history",
 "After any sequence of constructions, copies, assignments and setter calls (single or all at once), an impulsive low-thrust leg reports the last accepted value of every setting and computes the same constraints and gradients as a leg freshly built from those values. Values that are not acceptable (throttles not a positive multiple of three, negative time, thrust, isp or gravity parameter, cut outside [0,1], or any of these not a number) are refused with an error by the constructor and by every setter, and a refused call leaves the leg as it was.",
 ["histories", "inputs"], "all sequences of valid and invalid setter calls, copies, moves and assignments of any length",
 "A property of call histories; tests set values once on a fresh object.",
 ["src/leg/sims_flanagan.cpp", "include/kep3/leg/sims_flanagan.hpp", "src/leg/sf_checks.cpp"],
 [("validation before assignment", "src/leg/sims_flanagan.cpp: setters and set; src/leg/sf_checks.cpp"), ("segment counts recomputed on change of throttles or cut", "src/leg/sims_flanagan.cpp: set_throttles, set_cut, set")],
 ["getters and constraints after each call of a random history, against a model of the accepted settings"],
 state=[("segment counts", "derived from the throttles and the cut, must follow every change of either", "include/kep3/leg/sims_flanagan.hpp: m_nseg, m_nseg_fwd, m_nseg_bck")])

prop("P12", "Ill-posed problems are refused with an error, never answered",
 "Requests that have no answer are refused with an exception and not answered with NaN or an arbitrary result: Lambert problems with non-positive time of flight or gravity parameter, with collinear positions or with a transfer plane containing the z axis; conversions of Keplerian elements to a Cartesian state with a semi-major axis and an eccentricity of different conics or a true anomaly beyond the asymptotes; legs of both kinds and epochs built from malformed data; planets by unknown names, from inconsistent elements, asked for epochs out of their range or for what they do not know; thrust arcs without mass. Conversely, well-posed requests are never refused.",
 ["inputs"], "all inputs on and around the boundary between well- and ill-posed requests",
 "Tests check one refused input per exception site; acceptance on the other side of each boundary, and refusals reached through rounding (collinear positions), are not sampled.",
 ["src/lambert_problem.cpp", "src/core_astro/ic2par2ic.cpp", "src/leg/sf_checks.cpp", "src/leg/sims_flanagan_hf.cpp", "src/epoch.cpp", "src/planet.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp", "src/udpla/vsop2013.cpp", "src/stark_problem.cpp"],
 [("sanity checks", "src/lambert_problem.cpp: constructor step 0 and ih check; src/core_astro/ic2par2ic.cpp: par2ic; src/leg/sf_checks.cpp")],
 ["exception or result of each call, against an independently evaluated well-posedness predicate"])

prop("P13", "No input causes undefined behaviour, memory errors or an endless loop",
 "No call of the public interface, whatever the numeric values of its arguments (zeros, denormals, huge values, infinities, NaN, aligned vectors) and whatever the sizes of its containers, reads or writes out of bounds, uses freed or uninitialised storage, leaks, performs an undefined arithmetic conversion or fails to terminate after a bounded number of iterations: it either returns or throws a standard exception.",
 ["inputs", "histories"], "all double values including special ones in every argument position, all container sizes, all object histories",
 "The tests run ordinary values without sanitizers; undefined behaviour mostly leaves the results of such runs unchanged.",
 ["src/lambert_problem.cpp", "src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp", "src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/leg/sims_flanagan.cpp", "include/kep3/core_astro/convert_anomalies.hpp", "include/kep3/linalg.hpp", "src/epoch.cpp"],
 [("iteration caps on every root finder", "src/lambert_problem.cpp: householder, hypergeometricF; src/core_astro/propagate_lagrangian.cpp; include/kep3/core_astro/convert_anomalies.hpp"), ("index arithmetic on throttles, gradients and solutions", "src/leg/sims_flanagan.cpp; src/lambert_problem.cpp")],
 ["AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer reports, exception types and CPU-time watchdog around every call"])

prop("P14", "Concurrent use is race-free and gives the sequential results, bit for bit",
 "Any number of threads may call the library's functions and read shared const objects (those that do not carry a numerical integrator) at the same time, with no data race, and each call returns bit-for-bit what the same call returns when made alone, in any order and any number of times. Results depend on the arguments only.",
 ["schedules", "histories"], "all interleavings of concurrent calls of the public functions on shared const inputs and thread-local objects, and all call orders",
 "Every test is single threaded and calls each function in one order.",
 ["src/lambert_problem.cpp", "src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp", "src/leg/sims_flanagan.cpp", "include/kep3/linalg.hpp", "src/ta/stark.cpp", "src/ta/cr3bp.cpp"],
 [("absence of shared mutable state", "all of src/core_astro, src/lambert_problem.cpp, src/leg/sims_flanagan.cpp"), ("mutex-protected integrator caches", "src/ta/stark.cpp, src/ta/cr3bp.cpp")],
 ["ThreadSanitizer reports; 64-bit patterns of concurrent results against a sequential log"])

prop("P15", "Saving and restoring any object loses nothing",
 "Any Lambert problem, impulsive or high-fidelity low-thrust leg, constant-thrust problem, planet (Keplerian, JPL, VSOP2013 or user-defined) or epoch written to a binary or text archive and read back - alone, in sequence or in containers with others, into a fresh or an already used object, in the same or in another process - reports the same values from every accessor, computes the same results and prints the same text as the original.",
 ["inputs", "histories"], "all object states reachable through the public interface, all archive kinds, any number of objects per archive, any previous content of the destination",
 "The tests serialize one or two objects each, in binary, into a default object, and compare the printed text, which does not show every member.",
 ["include/kep3/lambert_problem.hpp", "include/kep3/leg/sims_flanagan.hpp", "include/kep3/leg/sims_flanagan_hf.hpp", "include/kep3/stark_problem.hpp", "include/kep3/planet.hpp", "include/kep3/udpla/keplerian.hpp", "include/kep3/udpla/vsop2013.hpp", "include/kep3/epoch.hpp", "include/kep3/detail/s11n.hpp"],
 [("member-wise archive functions", "include/kep3/lambert_problem.hpp: serialize; include/kep3/leg/sims_flanagan.hpp: serialize; include/kep3/epoch.hpp: save, load")],
 ["accessors and computations of restored objects, bit for bit"])

prop("P16", "Epochs are exact, ordered points in time across all calendars",
 "An epoch built from a calendar date, an ISO string (of any allowed precision), an MJD2000, MJD or JD number denotes the right instant at microsecond resolution on the proleptic Gregorian calendar; reading it back as MJD2000, MJD, JD or as a UTC string gives the same instant, and the three numbers differ by the documented constants. Adding and subtracting durations, differences and all comparison operators agree with arithmetic on the instants, and malformed strings and impossible calendar fields (a month outside 1-12, a day outside 1-31, digits missing, numbers that are not finite or out of range) are refused; days 29-31 of shorter months roll over into the next month.",
 ["inputs", "histories"], "all dates over at least +-2000 years around 2000, all string precisions, all durations at microsecond resolution, all operation sequences",
 "Tests check a dozen dates after and before 2000; leap years, negative and pre-1970 instants, string precisions and rounding are an input space.",
 ["include/kep3/epoch.hpp", "src/epoch.cpp", "include/kep3/core_astro/convert_julian_dates.hpp"],
 [("microsecond time point with constant offsets", "include/kep3/epoch.hpp: y2k_offset, jd_offset, mjd_offset, mjd2000, mjd, jd"), ("calendar and string parsing", "src/epoch.cpp: make_tp, string constructor")],
 ["epoch accessors against an integer civil-calendar model"])

prop("P17", "Any user-defined planet behaves the same behind the planet interface",
 "A planet built from any user-provided ephemeris type returns exactly what that type returns for everything it implements, and the documented defaults for the rest: its own type name, -1 for physical constants, a vectorised ephemeris equal to the scalar one entry by entry, period and osculating elements of every kind derived from its state and central body, and a not-implemented error where no central body is known. Copies, moves and serialization preserve this, and epochs and MJD2000 numbers are interchangeable.",
 ["programs", "inputs"], "all combinations of optional methods a user type may provide, all epochs, element types, elliptic and hyperbolic states, unit systems, and copy/move/serialize histories",
 "The tests use four user types with constant ephemerides in order-one units.",
 ["include/kep3/planet.hpp", "src/planet.cpp"],
 [("compile-time detection of optional methods", "include/kep3/planet.hpp: planet_iface_impl"), ("fallback period and elements", "src/planet.cpp: period_from_energy, elements_from_posvel"), ("default vectorisation", "include/kep3/planet.hpp: default_eph_vectorization")],
 ["planet accessors for generated user types against the types themselves"])

prop("P18", "Keplerian and low-precision planets move on the orbits they declare",
 "A Keplerian planet, built from a state or from any supported kind of elements, returns at its reference epoch that state, at any other epoch the two-body propagation of it, with the matching period, and reports the elements of the reference epoch in every supported kind, all describing the same orbit. A low-precision Solar System planet returns, at every epoch of its validity range, the state of its published secular elements at that epoch, with period, elements, vectorised ephemerides and names consistent, and refuses unknown names and epochs out of range.",
 ["inputs", "configurations"], "all orbits, element kinds, unit systems and epochs; all planets and epochs in range",
 "Tests check stored states for a few planets and epochs.",
 ["src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp", "include/kep3/udpla/keplerian.hpp", "include/kep3/udpla/jpl_lp.hpp"],
 [("stored reference state and propagation", "src/udpla/keplerian.cpp: constructors, eph, elements"), ("secular element tables", "src/udpla/jpl_lp.cpp")],
 ["eph / elements / period against a quad-precision model of the same orbit"])

prop("P19", "Fly-by constraints, cost and outgoing velocity follow patched conics",
 "For all relative velocities and any planet, the fly-by constraint pair equals the difference of squared relative speeds and the difference between the requested turn and the largest turn available at the safe radius; the reported delta-v is the smallest single correction that makes the fly-by feasible (zero when it is ballistic and feasible); and the outgoing velocity for a given pericentre and plane angle conserves relative speed and turns it by exactly the hyperbola's angle in the given plane. The three are mutually consistent, and constraints and cost are finite also for parallel and antiparallel relative velocities; the outgoing velocity is defined whenever the relative velocity is not along the planet's own.",
 ["inputs"], "all velocity pairs including parallel and antiparallel, all pericentre radii, gravity parameters, plane angles and unit systems",
 "Tests compare three stored values per function.",
 ["src/core_astro/flyby.cpp", "include/kep3/core_astro/flyby.hpp"],
 [("turn angle and eccentricity relations", "src/core_astro/flyby.cpp: fb_con, fb_dv, fb_vout")],
 ["returned values against quad-precision patched-conic geometry"])

prop("P20", "Finite-burn low-thrust leg integrates its thrust arcs and differentiates them",
 "The mismatch of a high-fidelity low-thrust leg is the discontinuity at the match point obtained by integrating thrust of constant inertial direction and magnitude, with mass depletion, over every segment forward and backward from the two ends; its gradients are the derivatives of that mismatch (wherever every segment thrusts); and its state history passes through the segment boundaries. After any sequence of accepted setter calls, copies and serialization the leg behaves as one freshly built with the same settings, and refused settings change nothing.",
 ["inputs", "histories", "configurations"], "all numbers of segments, cuts, throttles, masses, thrusts, isp, mu, times, setter histories",
 "Tests compare a few stored mismatches and numerical gradients on freshly built legs.",
 ["src/leg/sims_flanagan_hf.cpp", "include/kep3/leg/sims_flanagan_hf.hpp", "src/ta/stark.cpp"],
 [("segment-wise adaptive Taylor integration", "src/leg/sims_flanagan_hf.cpp: compute_mismatch_constraints"), ("variational integration", "src/leg/sims_flanagan_hf.cpp: compute_all_gradients"), ("settings propagated to integrators", "src/leg/sims_flanagan_hf.cpp: setters")],
 ["mismatch, gradients and history against an independent integration"])

prop("P21", "Thrusted and three-body dynamics are the documented equations, cached safely",
 "The low-thrust Kepler dynamics and the circular restricted three-body dynamics integrate the documented equations of motion and their first variations (those of thrusting motion), the constant-thrust propagation returns the state and derivatives of that motion, and the Jacobi constant and, without thrust, two-body motion are conserved. Integrator caches return an integrator of exactly the requested tolerance, one per distinct tolerance, from any number of threads at once.",
 ["inputs", "schedules"], "all states, thrusts, parameters, times and tolerances; all interleavings of cache accesses",
 "Tests compare one stored trajectory each and use the caches from one thread.",
 ["src/ta/stark.cpp", "src/ta/cr3bp.cpp", "src/stark_problem.cpp"],
 [("expression systems", "src/ta/stark.cpp: stark_dyn; src/ta/cr3bp.cpp: cr3bp_dyn"), ("mutex-protected caches", "src/ta/stark.cpp, src/ta/cr3bp.cpp"), ("propagation wrappers", "src/stark_problem.cpp")],
 ["integrated states against independent equations of motion; cache dimensions and ThreadSanitizer reports"])

prop("P22", "Multi-gravity-assist problems price exactly the trajectory they encode",
 "For every chromosome within bounds and every time-of-flight encoding, the multi-gravity-assist trajectory problem decodes to the same epochs, prices the launch, fly-by and arrival manoeuvres of the unpowered legs it encodes by Lambert arcs, and reports total time when asked; converting chromosomes between encodings preserves the trajectory and the objective, and the planet built from a trajectory follows it at every epoch between launch and arrival and refuses epochs outside.",
 ["inputs", "configurations"], "all planet sequences, encodings, bounds and chromosomes",
 "The Python tests check one sequence and a few chromosomes.",
 ["pykep/trajopt/_mga.py", "pykep/trajopt/gym/_cassini_mga.py"],
 [("encodings", "pykep/trajopt/_mga.py: _decode_tofs and converters"), ("objective", "pykep/trajopt/_mga.py: _compute_dvs, fitness"), ("trajectory as a planet", "pykep/trajopt/_mga.py: to_planet")],
 ["problem objects run on the real C++ core against an independent re-computation"])

prop("P23", "Direct low-thrust problems declare true constraints, bounds and gradients",
 "For every decision vector, the point-to-point and planet-to-planet direct transcriptions return the final-mass objective, mismatch and throttle constraints of the leg the vector encodes, with bounds and dimensions that match; the analytical gradient equals the derivative of the fitness entry by entry, in the layout its declared sparsity states.",
 ["inputs", "configurations"], "all leg configurations, numbers of segments, decision vectors and option flags",
 "The Python tests check a few vectors per problem.",
 ["pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"],
 [("encoding to a leg", "pykep/trajopt/_direct_*.py: _set_leg_from_x"), ("gradient assembly", "pykep/trajopt/_direct_*.py: gradient, gradient_sparsity")],
 ["fitness and gradient of problem objects run on the real C++ core"])

prop("P24", "VSOP2013 planets give the theory's state in SI, whatever is made beside them",
 "A VSOP2013 planet returns, at every epoch, the state that the theory of the named planet, truncated at the requested threshold and in the ICRF, gives at that epoch (the time scale and units of the theory converted to kep3's), scalar and vectorised alike. It keeps doing so through every history of copies, moves, assignments, archives and destructions of it and of others, and when many threads make such planets at once. Names are accepted in any case; unknown names and negative or non-finite thresholds are refused, and a refused construction or archive leaves the others as they were.",
 ["inputs", "configurations", "histories", "schedules"], "all planets, thresholds and epochs; all histories of objects sharing the cache of compiled functions; all schedules of threads constructing them",
 "Tests compare a few stored ephemerides at one threshold and copy one object; the compiled functions are shared through a process-wide cache and reached through raw pointers, so that a dangling or wrong one shows only in particular histories.",
 ["src/udpla/vsop2013.cpp", "include/kep3/udpla/vsop2013.hpp"], [("time scale and units", "src/udpla/vsop2013.cpp: constructor, eph"), ("cache of compiled functions", "src/udpla/vsop2013.cpp: state_dict"), ("ownership of compiled functions", "src/udpla/vsop2013.cpp: impl")],
 ["eph of vsop2013 planets", "compiled functions called after their owner died", "data races reported by ThreadSanitizer"],
 state=[("state_dict", "compiled theory by planet and threshold, for the life of the process", "src/udpla/vsop2013.cpp")])

prop("P25", "Plots show the trajectories they are given",
 "Every plotting helper draws, in the requested units and with the requested options, points that lie on the planet orbit, Lambert arc, ballistic arc, leg or trajectory it was given (arcs begin and end where the object begins and ends, are traversed in time order, throttles point along the throttles), draws nothing else, leaves its arguments unchanged, refuses solutions that do not exist without drawing, and returns the axes it drew on.",
 ["inputs", "configurations"], "all planets, Lambert solutions, legs, decision vectors and plotting options (units, number of points, epochs, flags, colours)",
 "The tests do not compare what is drawn with the geometry of the object; the drawing must be right for every object and every option.",
 ["pykep/plot/_planet.py", "pykep/plot/_lambert.py", "pykep/plot/_ballistic.py", "pykep/plot/_sf_leg.py", "pykep/trajopt/_mga.py", "pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"],
 [("sampling of trajectories", "pykep/plot"), ("plot methods", "pykep/trajopt")], ["points, lines and arrows added to the axes", "axes returned"])

prop("P26", "SPICE and TLE planets return their sources' states in SI while they live",
 "A planet backed by SPICE kernels or by a two-line element set returns the state its source gives at the requested epoch for the requested body, observer and frame, converted to SI units, scalar and vectorised alike; it does so for as long as it exists and its kernel is loaded, whatever other planets are made, copied, pickled or destroyed, and kernels that it loaded itself are unloaded when no longer needed. Unknown bodies, frames, files and element sets, and epochs outside the coverage, are refused. Names, codes and rotations between frames are those of the toolkit.",
 ["inputs", "configurations", "histories"], "all bodies, observers, frames, epochs and element sets; all histories of loading, unloading, copying and destroying",
 "Tests check one kernel at a few epochs and one file of element sets against the same calls, and no history of copies.",
 ["pykep/udpla/_spice.py", "pykep/udpla/_tle.py", "pykep/utils/_spice_utils.py"], [("unit and time-scale conversion", "pykep/udpla/_spice.py: eph, eph_v; pykep/udpla/_tle.py: eph, eph_v"), ("loading and unloading of kernels", "pykep/udpla/_spice.py: de440s")],
 ["eph and eph_v of such planets", "list of loaded kernels"])

prop("P27", "The Python interface returns what the C++ library returns",
 "Every function, class and attribute of pykep gives, for any acceptable mixture of positional, keyword and default arguments in any sequence type, the values the C++ library computes for them (same bits, documented shapes), and the exception "
 "that corresponds to the C++ refusal otherwise; a planet coded in Python answers what its methods answer (and raises what they raise), and the documented default for those it lacks; copies, deep copies and pickles answer like the original; "
 "values returned belong to the caller and outlive the object they came from.",
 ["inputs", "histories"], "all functions and classes of pykep.core, all argument styles, all user-defined Python planets",
 "Tests call a few functions with one input each and never compare with the C++ answers.",
 ["pykep/core.cpp", "pykep/python_udpla.cpp", "pykep/common_utils.cpp", "pykep/_patch_planet.py"], [("argument passing, ownership of returned arrays, defaults of missing methods", "pykep/core.cpp, pykep/python_udpla.cpp")],
 ["values, shapes, exceptions and texts returned by pykep"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

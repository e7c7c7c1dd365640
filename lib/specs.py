"""Which monitors decide which property."""
from .runner import Job
SPECS = {}


def spec(prop, **kw):
    SPECS[prop] = kw


spec("P03", jobs=[Job("p03_propagation", 160000, 6000000)],
     technique="online oracle: quad-precision two-body reference monitor over random and boundary propagations",
     rule="One case = one initial state (eccentricity regime x anomaly x orientation x unit system) and one time of flight (zero / short / within a period / many periods / "
          "exact half periods / both signs), run through every propagator. Non-trivial: time of flight not zero and the rounding-error bound stays below 1e-5 of the state; distinct: by the bits of state and time.",
     must_decide=["lagrangian:position", "universal:position", "keplerian:position", "vectorised:position"],
     note="Every observed propagation matched a 113-bit reference within 50x a first-order rounding-error model, in all listed regimes. Nothing is said about near-parabolic or rectilinear states (|1-e|<1e-4).",
     assumptions=["libquadmath is correct to about 1e-30", "states with |1-e| < 1e-4 are outside the property"])

spec("P06", jobs=[Job("p06_elements", 400000, 20000000)],
     technique="online oracle: quad-precision element/state reference monitor, ranges and refusals observed per call",
     rule="One case = one element set and one state (generic, exactly axis aligned at apses/nodes, above the pole) over all conics, quadrants and unit systems, converted both ways. "
          "Non-trivial: e>1e-8, sin i>1e-8, |1-e|>1e-6; distinct by the bits of state and elements.",
     must_decide=["ic2par:a", "ic2par:f", "ic2par:w", "par2ic:position", "roundtrip:position", "par2ic:refuses"],
     note="Every observed conversion matched a 113-bit reference within 50x a first-order error model (inverse-cosine loss near apses and nodes is allowed for), with ranges, quadrants and refusals as stated.",
     assumptions=["libquadmath is correct to about 1e-30"])

spec("P07", jobs=[Job("p07_equinoctial", 300000, 12000000)],
     technique="online oracle: quad-precision equinoctial reference monitor with round-trip relations",
     rule="One case = one orbit (all conics, circular and equatorial ones included) in the direct or retrograde set, driven through ic2eq, eq2ic, par2eq, eq2par and their compositions. "
          "Non-trivial: inclination not singular for the chosen set; distinct by the bits of the state and the set.",
     must_decide=["ic2eq:p", "ic2eq:L", "eq2ic:position", "ic2eq2ic:position", "eq2par:state", "par2eq:f", "par2eq2par:w"],
     note="Every observed conversion matched a 113-bit reference within 50x a first-order error model, circular and equatorial orbits included.",
     assumptions=["libquadmath is correct to about 1e-30"])

spec("P08", jobs=[Job("p08_anomalies", 1000000, 50000000)],
     technique="online oracle: Kepler-equation residuals and quad-precision inverse anomalies",
     rule="One case = one eccentricity (0, ordinary, up to 1-1e-6; 1+1e-6 up to 1e4) and anomalies (0, +-pi, tiny, thousands of revolutions, near asymptotes), through every conversion of the right and of the wrong conic. "
          "Non-trivial: all; distinct by the bits of eccentricity and anomalies.",
     must_decide=["m2e:residual", "n2h:residual", "f2e", "f2h", "f2zeta", "zeta2f", "nan:"],
     note="Every observed conversion satisfied its defining equation and matched the quad-precision value within 40x the rounding-error model; wrong-conic calls returned NaN.",
     assumptions=["libquadmath is correct to about 1e-30"])

spec("P01", jobs=[Job("p01_lambert", 60000, 2000000)],
     technique="online oracle: quad-precision propagation of every returned Lambert solution to its arrival",
     rule="One case = one Lambert problem (positions, time of flight, gravity parameter, direction, requested revolutions; regimes: generic, near 0/180/360 degrees, minimum-time neighbourhoods, parabolic/hyperbolic, long times, unit systems). "
          "Non-trivial: at least one solution is well enough conditioned to be decided (bound below 1e-3); distinct by the bits of the inputs.",
     must_decide=["zero-rev:arrival-position", "left:arrival-position", "right:arrival-position", "right:arrival-velocity"],
     note="Every returned solution observed arrived within 60x a first-order rounding-error bound, propagated in quad precision.",
     assumptions=["libquadmath is correct to about 1e-30", "solutions whose own conditioning exceeds 1e-3 are checked for finiteness only"])

spec("P02", jobs=[Job("p01_lambert", 150000, 8000000, opts=["mode=enum"], name="p02_lambert_enum")],
     technique="online oracle: independent quad-precision enumeration of feasible revolutions and branches",
     rule="One case = one Lambert problem with up to 30 requested revolutions, biased towards times of flight around the minimum of a revolution. The reference enumerates the feasible revolutions by bracketing in 113 bits. "
          "Non-trivial: not within 1e-9 of a minimum time; distinct by the bits of the inputs.",
     must_decide=["number-of-solutions", "revolutions", "direction", "x:left", "x:right", "left-before-right"],
     note="Every problem observed returned exactly the reference's solutions, in its order, in the requested direction, with the revolutions counted along the returned trajectories.",
     assumptions=["libquadmath is correct to about 1e-30", "times of flight within 1e-9 of a feasibility boundary are not decided"])

spec("P04", jobs=[Job("p04_flow", 80000, 4000000)],
     technique="online metamorphic monitors over observed propagations: conservation, composition, reversal, periodicity, units, rotations",
     rule="One case = one orbit, time of flight and propagator (Lagrange, universal, Keplerian); about nine related calls are observed and related to each other. "
          "Non-trivial: time of flight not zero and rounding bound below 1e-3/50; distinct by the bits of state, time and propagator.",
     must_decide=["lagrangian:energy", "universal:composition", "keplerian:units", "lagrangian:rotation", "lagrangian:whole-periods", "universal:reversed-motion", "lagrangian:zero-time"],
     note="Every observed relation held within 50x a first-order rounding-error model of the calls involved.",
     assumptions=["tolerances use a 113-bit conditioning estimate; compared values are kep3's own"])

spec("P05", jobs=[Job("p05_stm", 100000, 5000000)],
     technique="online oracle: derivative of the quad-precision flow, symplecticity and composition of every returned matrix",
     rule="One case = one orbit and time of flight; both matrix methods with and without the matrix, from states, by default arguments, and along a split arc. "
          "Non-trivial: time of flight not zero; distinct by the bits of state and time.",
     must_decide=["lagrangian:derivative", "reynolds:derivative", "from-states:derivative", "lagrangian:symplectic", "lagrangian:composition", "reynolds:composition", "lagrangian:identity-at-zero", "lagrangian:same-state",
                  "reynolds:presence"],
     note="Every returned matrix matched the derivative of a 113-bit flow within 50x a first-order error model.",
     assumptions=["libquadmath is correct to about 1e-30"])

spec("P09", jobs=[Job("p09_leg", 30000, 1500000)],
     technique="online oracle: quad-precision integration of the leg's impulses, two-sided, against the reported constraints",
     rule="One case = one impulsive leg (1-60 segments, cut 0..1 with exact and off-by-one-ulp products, throttles zero / unit / random / larger than one, random units, tof 0 to several periods). "
          "Non-trivial: at least one segment and a positive time of flight; distinct by the bits of the settings.",
     must_decide=["segments", "throttle-constraints", "mismatch:position", "mismatch:velocity", "mismatch:mass"],
     note="Every mismatch and throttle constraint observed matched a 113-bit evaluation of the documented transcription within 50x a first-order error model.",
     assumptions=["libquadmath is correct to about 1e-30"])

spec("P10", jobs=[Job("p10_grad", 20000, 800000)],
     technique="online oracle: quad-precision derivatives of the leg's constraints, layout, size and finiteness monitors",
     rule="One case = one impulsive leg as in P09 (coasting segments included); every gradient block is compared, column by column, with derivatives of the 113-bit reference. "
          "Non-trivial: at least one non-coasting segment; distinct by the bits of the settings.",
     must_decide=["state:fwd:position", "state:bck:velocity", "mass:fwd:velocity", "throttle:fwd:position", "throttle:bck:mass", "tof:velocity", "finite-with-coasting", "empty-side", "throttle:derivative"],
     note="Every gradient entry observed matched the derivative of the 113-bit reference within 50x a first-order error model, and every gradient was finite.",
     assumptions=["libquadmath is correct to about 1e-30"])

spec("P11", jobs=[Job("p11_history", 15000, 1500000)],
     technique="online model-based monitor: every leg of a random operation history against its last accepted values and a freshly built leg, bit for bit",
     rule="One case = a population of 1-3 legs and 4-23 operations on them (constructors, each setter, set(), iterator setters, copies, moves, swaps, queries; about a third with unacceptable values). "
          "After every operation all getters of all legs and all results of the touched one are compared. Non-trivial: all; distinct by the operation trace.",
     must_decide=["refused", "accepted", "settings-after-refusal", "settings", "segments", "results", "results-after-refusal"],
     note="In every history observed every leg reported its last accepted settings and computed bit for bit what a freshly built leg computes; unacceptable values were refused and changed nothing.",
     assumptions=["NaN is an unacceptable value of any checked setting"])

VALGRIND = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--track-origins=no", "--num-callers=12"]
SAN_RERUNS = [("p01_lambert", 1500, 60000, []), ("p01_lambert", 3000, 100000, ["mode=enum"]), ("p03_propagation", 4000, 200000, []), ("p04_flow", 1500, 60000, []), ("p05_stm", 1500, 60000, []),
              ("p06_elements", 8000, 400000, []), ("p07_equinoctial", 5000, 200000, []), ("p08_anomalies", 20000, 1000000, []), ("p09_leg", 800, 30000, []), ("p10_grad", 400, 15000, []),
              ("p11_history", 1500, 80000, []), ("p12_refusals", 5000, 300000, [])]
SHIM_ALL = dict(shims=True, shim_sources=["src/epoch.cpp", "src/planet.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp", "src/core_astro/flyby.cpp", "src/ta/stark.cpp", "src/ta/cr3bp.cpp", "src/stark_problem.cpp",
                                          "src/leg/sims_flanagan_hf.cpp"])
SHIM_LIB = dict(shims=True, shim_sources=SHIM_ALL["shim_sources"] + ["src/udpla/vsop2013.cpp"], extra_defs=["VF_BINARY_ARCHIVES"])
spec("P12", jobs=[Job("p12_refusals", 100000, 8000000), Job("p12_refusals_shim", 120000, 6000000, build=SHIM_LIB), Job("p12_refusals_shim", 3000, 200000, config="san", build=SHIM_LIB, opts=["own=1"], name="p12_refusals_shim-san")],
     technique="online monitor of refusals and answers against a well-posedness predicate evaluated in exact or quad arithmetic",
     rule="One case = one Lambert request, one element conversion and one leg (constructor, set(), single setters), each ill-posed in one way (exactly representable collinear or z-containing geometry, non-positive or NaN scalars, inconsistent conics, "
          "malformed throttles, cut off by one ulp) or well-posed, often close to the boundary; or one epoch (number, date, text, duration), one high-fidelity leg (every constructor, set and setter, chromosome), one planet of each kind (elements, names, epochs, thresholds, what it does not know) "
          "and one thrust arc, likewise. Non-trivial: all; distinct by the bits of the Lambert inputs.",
     must_decide=["lambert:refuses:tof", "lambert:refuses:mu", "lambert:refuses:collinear", "lambert:refuses:z-in-plane", "lambert:answers", "par2ic:refuses:sign-of-a", "par2ic:refuses:conic-of-e",
                  "par2ic:refuses:beyond-asymptote", "par2ic:answers", "leg:refuses:cut", "leg:refuses:throttles", "leg:accepts", "leg-set:refuses", "leg-setters:refuse",
                  "epoch:refuses:number", "epoch:refuses:date", "epoch:refuses:string:field", "epoch:refuses:duration", "epoch:accepts:string", "hf:constructor:refuses", "hf:set:refuses", "hf:set(short):refuses", "hf:setter:refuses", "hf:setter:accepts",
                  "hf:after-refusal", "hf:refuses:chromosome", "checks:refuse-together", "keplerian:refuses", "keplerian:accepts", "planet:refuses:period-without-mu", "planet:refuses:elements-without-mu", "jpl_lp:refuses:epoch", "jpl_lp:accepts:epoch",
                  "jpl_lp:refuses:name", "vsop2013:refuses:name", "vsop2013:refuses:threshold", "stark:refuses:no-mass"],
     note="Every ill-posed request observed was refused with a standard exception and every well-posed one was answered with finite numbers.",
     assumptions=["requests closer to the boundary than rounding are not decided"])

spec("P13", jobs=[Job("p13_hostile", 16000, 1500000, config="san", opts=["own=1"], cpu=20),
                  Job("p13_hostile_shim", 6000, 400000, config="san", build=SHIM_LIB, opts=["own=1"], cpu=60),
                  Job("p13_hostile", 400, 20000, config="vg", opts=["own=1"], cpu=120, wrap=VALGRIND, leaks=False),
                  Job("p13_hostile_shim", 160, 6000, config="vg", build=SHIM_LIB, opts=["own=1"], cpu=240, wrap=VALGRIND, leaks=False, name="p13_hostile_shim-vg")]
     + [Job(h, q, t, config="san", opts=o, name="%s-san%s" % (h, "-enum" if o else ""), cpu=60) for h, q, t, o in SAN_RERUNS],
     technique="AddressSanitizer, LeakSanitizer, UndefinedBehaviourSanitizer (with float casts and libstdc++ assertions), valgrind memcheck and a CPU watchdog over hostile calls",
     rule="One case = every public numeric function (and epoch, planet, fly-by, thrust arc, high-fidelity leg, integrator cache) called with hostile arguments (zeros, subnormals, huge, NaN, infinities, exact integers around type limits, "
          "degenerate vectors, empty and wrong-sized containers, broken texts, user types that misanswer or throw anything); "
          "plus the workloads of P01 and P03-P12 under the same sanitizers. Non-trivial: all; distinct by the bits of state, time and gravity parameter.",
     must_decide=["propagate_lagrangian", "lambert_problem", "leg:constructor", "leg:set", "leg:setters", "ic2par", "anomalies", "epoch:number", "epoch:date", "epoch:text",
                  "epoch:duration", "epoch:arithmetic", "keplerian:state", "keplerian:elements", "jpl_lp", "user-type", "vsop2013", "flyby", "stark_problem", "hf:constructor", "hf:setters", "cached-integrators"],
     note="No call observed made a sanitizer report, crashed, leaked, threw anything but a standard exception or used more than the CPU limit.",
     assumptions=["sanitizers report only what the executions reach", "division by zero of doubles is defined (IEEE 754)"])

SHIM_EPOCH = dict(shims=True, shim_sources=["src/epoch.cpp"])
spec("P16", jobs=[Job("p16_epoch", 60000, 4000000, build=SHIM_EPOCH), Job("p16_epoch", 8000, 400000, config="san", build=SHIM_EPOCH, opts=["own=1"], name="p16_epoch-san")],
     technique="online oracle: integer arithmetic on an independent proleptic Gregorian calendar, on every construction, reading and operation observed; UBSan on the same calls",
     rule="One case = two dates (years 1-9999 for strings, +-32767 otherwise; month ends, leap days, century years favoured), all string precisions, numbers in three calendars, seven duration types, all comparisons, and malformed or impossible inputs. "
          "Non-trivial: all; distinct by the first date.",
     must_decide=["calendar", "calendar:refuses-month", "string", "string:refuses-field", "utc-string", "from:jd", "round-trip:mjd", "compare", "difference", "add:days", "add:nanoseconds", "from-duration:seconds", "refuses-number", "convert"],
     note="Every epoch observed denoted the instant given by integer calendar arithmetic, to the microsecond, and every malformed input was refused. The printed string is the code's request to fmt, rendered by a stand-in for fmt >= 10 (the sandbox has fmt 9).",
     assumptions=["shims/fmt/chrono.h renders time points as fmt >= 10 does", "days 29-31 of shorter months are normalised on purpose (see make_tp) and not decided"])

spec("P15", jobs=[Job("p15_archive", 20000, 1500000, build=SHIM_EPOCH), Job("p15_archive", 800, 40000, config="san", build=SHIM_EPOCH, opts=["own=1"], name="p15_archive-san"),
                  Job("p15_archive_shim", 6000, 400000, build=SHIM_LIB, cpu=60), Job("p15_archive_shim", 240, 16000, config="san", build=SHIM_LIB, opts=["own=1"], name="p15_archive_shim-san", cpu=120)],
     technique="online monitor of save/restore histories: every accessor, result and printed text of the restored object against the original's, bit for bit",
     rule="One case = 1-5 objects (Lambert problems with 0-39 requested revolutions, impulsive legs with histories, epochs, vectors of legs and epochs) written to a binary and to a text archive, alone or in sequence, "
          "and read into fresh or already used objects; the restored leg then takes one more setter. Or one of: a high-fidelity leg, a constant-thrust problem, a planet (Keplerian, JPL, VSOP2013, a user's own, none), a vector of them with pointers, bare planet "
          "types; the same way, and by another process. Non-trivial: all; distinct by the bits of the objects or of all their answers.",
     must_decide=["lambert:v0", "lambert:iters", "lambert:text", "leg:throttles", "leg:nseg_fwd", "leg:results", "leg:after-a-setter", "epoch:instant", "rewritten-archive",
                  "hf:state", "hf:throttles", "hf:settings", "hf:segments", "hf:results", "hf:after-a-setter", "stark", "stark:after-a-setter", "planet", "planet:type", "planet:user", "planets:in-vector", "planets:pointer",
                  "keplerian", "jpl_lp", "vsop2013", "other-process"],
     note="Every object observed came back from binary and text archives with the same accessors, results and text, bit for bit.",
     assumptions=["objects holding NaN or infinities are not written to text archives (their number format cannot hold them)", "shims/heyoka gives heyoka's semantics (its integrators' own archives included)"])

SHIM_PLANET = dict(shims=True, shim_sources=["src/epoch.cpp", "src/planet.cpp"])
spec("P17", jobs=[Job("p17_planet", 60000, 2000000, build=SHIM_PLANET), Job("p17_planet", 1500, 60000, config="san", build=SHIM_PLANET, opts=["own=1"], name="p17_planet-san")],
     technique="online monitor of generated user types behind the interface against the types themselves; quad-precision oracle for the derived period and elements",
     rule="One case = a user type with one of 22 combinations of the nine optional methods, holding a random orbit (elliptic, hyperbolic, circular or equatorial; random units), optionally failing from some epoch on, "
          "wrapped, queried by number and by epoch, copied, assigned, moved, swapped, modified through extract and archived. Non-trivial: all; distinct by state and combination.",
     must_decide=["name", "eph", "eph:epoch", "eph_v:default", "eph_v:user", "period", "period:hyperbola-is-nan", "period:not-implemented", "elements:KEP_M:position", "elements:KEP_F:position",
                  "elements:MEQ:position", "elements:MEQ_R:velocity", "elements:not-implemented", "elements:refuses-KEP_M", "copy:independent", "archive:binary", "archive:text", "printed"],
     note="Every planet observed answered what its user type answers, and the documented default otherwise. The type-erasing wrapper is a stand-in for heyoka's tanuki (not in the sandbox); kep3's interface implementation is the real one.",
     assumptions=["shims/heyoka/detail/tanuki.hpp gives tanuki::wrap's semantics", "libquadmath is correct to about 1e-30"])

SHIM_UDPLA = dict(shims=True, shim_sources=["src/epoch.cpp", "src/planet.cpp", "src/udpla/keplerian.cpp", "src/udpla/jpl_lp.cpp"])
spec("P18", jobs=[Job("p18_udpla", 40000, 2000000, build=SHIM_UDPLA), Job("p18_udpla", 1500, 60000, config="san", build=SHIM_UDPLA, opts=["own=1"], name="p18_udpla-san")],
     technique="online oracle: quad-precision propagation of the declared orbit and quad-precision evaluation of the published secular elements (the monitor's own table)",
     rule="One case = a Keplerian planet made from a state or from one of the four kinds of elements (all conics, circular and equatorial ones, random units and reference epochs), observed at its reference epoch and others (up to thousands of periods away), "
          "or one of the eight low-precision planets at four epochs in its range and three outside, under any spelling of its name. Both directly and behind kep3::planet, copied and archived. Non-trivial: all; distinct by state or epochs.",
     must_decide=["keplerian:eph", "keplerian:eph-at-reference", "keplerian:period", "keplerian:period:hyperbola", "keplerian:elements:KEP_M", "keplerian:elements:MEQ", "keplerian:elements:MEQ_R",
                  "keplerian:refuses-wrong-conic", "keplerian:archive:binary", "jpl_lp:eph", "jpl_lp:elements", "jpl_lp:period", "jpl_lp:refuses-epoch", "jpl_lp:refuses-name", "jpl_lp-planet:archive:text"],
     note="Every Keplerian planet observed moved on its declared orbit within 60x a first-order rounding model; every low-precision planet matched the published elements to 2e-11.",
     assumptions=["shims/heyoka/detail/tanuki.hpp gives tanuki::wrap's semantics", "libquadmath is correct to about 1e-30",
                  "elements() of a Keplerian planet are those of its reference epoch at any epoch, as the repository's tests pin"])

SHIM_FLYBY = dict(shims=True, shim_sources=["src/epoch.cpp", "src/planet.cpp", "src/core_astro/flyby.cpp"])
spec("P19", jobs=[Job("p19_flyby", 300000, 15000000, build=SHIM_FLYBY), Job("p19_flyby", 20000, 1000000, config="san", build=SHIM_FLYBY, opts=["own=1"], name="p19_flyby-san")],
     technique="online oracle: quad-precision patched-conic geometry, sampled minimality and mutual consistency of the observed answers",
     rule="One case = a pair of relative velocities (parallel, antiparallel, nearly so, at the largest turn available, within it, along axes, free; equal, nearly equal or different speeds), a gravity parameter, a safe radius from grazing to far, "
          "and an outgoing velocity for a random pericentre and plane angle. Non-trivial: all; distinct by the bits of the inputs.",
     must_decide=["con:speeds", "con:turn", "dv", "dv:feasible-turn", "dv:nothing-cheaper", "planet:con", "planet:dv", "vout", "vout:speed", "vout:turn", "consistent:turn", "consistent:dv"],
     note="Every answer observed matched 113-bit geometry within 40x a first-order rounding model (inverse-cosine loss allowed for).",
     assumptions=["libquadmath is correct to about 1e-30", "the relative velocity is not along the planet's (there is no plane then)"])

SHIM_HF = dict(shims=True, shim_sources=["src/epoch.cpp", "src/ta/stark.cpp", "src/ta/cr3bp.cpp", "src/stark_problem.cpp", "src/leg/sims_flanagan_hf.cpp"])
spec("P20", jobs=[Job("p20_hf", 8000, 400000, build=SHIM_HF), Job("p20_hf", 320, 16000, config="san", build=SHIM_HF, opts=["own=1"], name="p20_hf-san", cpu=60)],
     technique="online oracle: independent extended-precision integration of every thrust arc with dual-number derivatives, and a model-based monitor of operation histories, bit for bit",
     rule="Two cases of three: one high-fidelity leg (1-20 segments, all cuts, tolerances 1e-16..1e-8, random units) made by one of many routes, its mismatch, constraints, gradients, state derivative and state history compared with the reference. "
          "One of three: 1-2 legs through 3-10 operations (setters, set, constructors, iterators into own throttles, chromosomes, copies, archives, queries; a third with unacceptable values), compared with freshly built legs after each. "
          "Non-trivial: positive time of flight and thrust, or any history; distinct by the bits of the settings or the trace.",
     must_decide=["segments", "built-settings", "throttle-constraints", "throttle-gradient", "mismatch:position", "mismatch:velocity", "mismatch:mass", "constraints-vector", "state-derivative", "history:forward", "history:backward",
                  "gradient:initial-state", "gradient:final-state", "gradient:empty-side", "gradient:throttles", "gradient:tof", "refused", "accepted", "settings", "settings-after-refusal", "results", "chromosome"],
     note="Every high-fidelity leg observed agreed with an independent integration within 30x a first-order error model and with a freshly built leg bit for bit. The integrator underneath is a stand-in for heyoka (not in the sandbox) with its interface, order and step rules; kep3's dynamics and leg code are the real ones.",
     assumptions=["shims/heyoka gives heyoka's semantics", "gradients of segments without thrust do not exist in heyoka's variational equations (square root at zero): not decided", "states are recovered where Taylor coefficients do not underflow (time units 1e-8 to 1e8)"])

spec("P21", jobs=[Job("p21_ta", 8000, 400000, build=SHIM_HF), Job("p21_ta", 320, 16000, config="san", build=SHIM_HF, opts=["own=1"], name="p21_ta-san", cpu=60),
                  Job("p21_ta", 300, 6000, config="tsan", build=SHIM_HF, opts=["mode=caches", "own=1"], name="p21_ta-tsan", shards=4, cpu=120, leaks=False)],
     technique="online oracle: independent extended-precision integration with dual-number derivatives; conservation monitor; ThreadSanitizer over the shared integrator caches",
     rule="One case = an arc of the constant-thrust or of the restricted three-body problem (all conics, no thrust, thrust along and across, tolerances 1e-16..1e-4, random units, regions near and far from the primaries) through kep3's "
          "dynamics and stark_problem, twice; or 2-8 threads asking the caches for integrators of the same and of different tolerances. Non-trivial: all; distinct by the bits of the inputs.",
     must_decide=["stark:state", "stark-variational:state", "stark:d-state", "stark:d-thrust", "stark:two-body", "stark:mass", "stark:refuses-no-mass", "stark:repeatable", "cr3bp:state", "cr3bp:variational-state",
                  "cr3bp:jacobi", "cr3bp:d-state", "cr3bp:reaches", "cache:dimension", "cache:one-per-tolerance", "cache:tolerance", "cache:kind", "cache:distinct", "cache:concurrent-results"],
     note="Every arc observed agreed with an independent integration of the stated equations, conserved what they conserve, and every integrator came from the cache of its own kind and tolerance. The integrator underneath is a stand-in for heyoka.",
     assumptions=["shims/heyoka gives heyoka's semantics", "derivatives with respect to a zero thrust do not exist (square root at zero): not decided"])

spec("P14", jobs=[Job("p14_threads", 400, 12000, config="tsan", build=SHIM_ALL, opts=["own=1"], shards=4, cpu=300, leaks=False),
                  Job("p14_threads", 5000, 200000, build=SHIM_ALL, shards=4, cpu=120)],
     technique="ThreadSanitizer and bit-for-bit comparison of concurrent, sequential and repeated calls from threads sharing const objects",
     rule="One case = 2-16 threads started together, each making the same pool of 7-45 calls (free functions, shared const legs and Lambert problems, copies of them, serialization) in its own order, some hammering one call, with yields and sleeps; "
          "before or after the same calls alone. Non-trivial: all; distinct by the results and the number of threads.",
     must_decide=["concurrent:propagate_lagrangian", "concurrent:shared-leg", "concurrent:shared-lambert", "concurrent:lambert_problem", "repeated:leg"],
     note="No data race was reported and every concurrent call observed returned the bits of the same call alone.",
     assumptions=["ThreadSanitizer reports races between the accesses that were executed; calls-overlapping-another counts calls that really overlapped"])

spec("P22", jobs=[Job("p22_mga", 20000, 1500000, kind="py", cpu=60)],
     technique="online oracle: decoding by the documented formulas, Lambert arcs and patched-conic pricing recomputed outside the problem class, for every evaluation observed",
     rule="One case = a generated problem (2-6 planets, low-precision or Keplerian about any body; repeated planets; three encodings; one or two objectives; insertion or not) and three chromosomes: objective, conversions between encodings, "
          "copies, pickles, printed totals and the trajectory as a planet; or malformed problems; or the three Cassini problems of the gym. Non-trivial: a trajectory was priced; distinct by chromosome.",
     must_decide=["fitness", "fitness:total-time", "bounds:t0", "bounds:tof", "bounds:ratios", "alpha2direct:objective", "direct2alpha:objective", "eta2direct:objective", "direct2eta:objective", "to_planet:position",
                  "to_planet:velocity", "to_planet:meets-planets", "to_planet:refuses-epoch", "fitness:history-free", "refuses:different-central-bodies", "refuses:tof", "gym:fitness", "gym:described"],
     note="Every objective observed equals the price of the encoded trajectory, in every encoding, and the trajectory followed as a planet meets the planets at the encounters.",
     assumptions=["pyshim gives pybind11's semantics (pybind11 is not in the sandbox); the Lambert solver and propagator underneath are decided by P01-P05"])

spec("P23", jobs=[Job("p23_direct", 24000, 1500000, kind="py", cpu=60)],
     technique="online oracle: the leg the decision vector encodes, built outside the problem class; Richardson differences for every gradient entry, inside and outside the declared sparsity",
     rule="One case = a generated point-to-point or planet-to-planet problem (1-20 segments, any cut, random units and scalings, Keplerian or low-precision planets) and up to three decision vectors evaluated on it, on a new problem, on copies and pickles; "
          "gradients by column. Non-trivial: a leg was evaluated; distinct by decision vector.",
     must_decide=["bounds", "constraint-counts", "fitness:objective", "fitness:mismatch", "fitness:throttles", "fitness:departure-vinf", "fitness:arrival-vinf", "gradient:entry", "gradient:outside-sparsity", "gradient:length",
                  "sparsity:well-formed", "fitness:again", "fitness:new-problem", "fitness:copied-problem", "fitness:pickled-problem"],
     note="Every objective, constraint and gradient entry observed is that of the encoded leg, whatever was evaluated before.",
     assumptions=["pyshim gives pybind11's semantics (pybind11 is not in the sandbox)", "with a low-precision ephemeris the gradient is the documented one of planets on their osculating Keplerian orbits",
                  "zero throttles have no gradient of their norm: not decided"])

spec("P27", jobs=[Job("p27_python", 40000, 3000000, kind="py", cpu=60), Job("p27_python", 1600, 80000, kind="py", config="san", opts=["own=1"], name="p27_python-san", cpu=120, leaks=False)],
     technique="differential online oracle: every binding observed beside a direct call of the C++ function in the same module, bit for bit; generated Python planet types against themselves; AddressSanitizer and overwritten freed memory over the shared buffers",
     rule="One case = one part of the interface (constants; anomalies and their broadcasting; elements; epochs from numbers, text, datetime, with timedelta; planets in C++; planets in Python with any of the optional methods, failing or misanswering; "
          "Lambert; propagators; thrust arcs; fly-bys; legs through setters) called by position, keyword and default with lists, tuples and arrays, on originals, copies and pickles. Non-trivial: something was returned; distinct by inputs.",
     must_decide=["constant", "constant:value", "enum", "anomaly", "anomaly_v", "anomaly_v:shape", "ic2par", "par2ic", "ic2eq", "eq2ic", "par2eq", "eq2par", "epoch", "epoch:repr", "epoch:datetime", "epoch:days", "epoch:timedelta", "epoch:timedelta-exact",
                  "epoch:compare", "epoch:order", "epoch:pickle", "planet:eph", "planet:eph-epoch", "planet:eph_v", "planet:eph_v:shape", "planet:period", "planet:elements", "planet:elements-default", "planet:getters", "planet:extract", "planet:pickle",
                  "planet:extracted-outlives", "planet_to_keplerian", "user:eph", "user:called-with", "user:eph_v", "user:eph_v:refuses", "user:eph_v-default", "user:getter", "user:getter-default", "user:period", "user:period-default",
                  "user:elements", "user:elements-default", "user:elements-missing:refuses", "user:exception-passes", "user:refuses", "lambert", "lambert:pickle", "lambert:refuses", "lagrangian", "lagrangian_v", "lagrangian_v:shape", "fb_con", "fb_con:planet", "fb_dv", "fb_dv:planet",
                  "fb_vout", "stark:propagate", "stark:propagate_var", "sf:mismatch", "sf:mc_grad", "sf:tc_grad", "sf:set", "sf:set:refuses", "sf:pickle", "sf:arrays-outlive-legs", "hf:mismatch", "hf:mc_grad", "hf:rvm", "hf:history", "hf:pickle", "wrong-type:refuses"],
     note="Every value, shape, text and refusal observed through the Python interface is that of the C++ library (bit for bit), and every Python planet answered what its own methods answer or the documented default.",
     assumptions=["pyshim gives pybind11's semantics (pybind11 is not in the sandbox)", "integrators returned by pykep.ta need heyoka's own Python package: not decided", "planets coded in Python are copied by reference, as the interface holds them"])

spec("P25", jobs=[Job("p25_plots", 24000, 800000, kind="py", cpu=60)],
     technique="online oracle over a recording drawing surface: every point, line and arrow that the plotting code draws is decided against the conic, the arc or the leg it stands for",
     rule="One case = a generated object (Lambert problem with any of its solutions; planet of any conic; ballistic arc; Sims-Flanagan or high-fidelity leg; multi-gravity-assist or direct-transfer decision vector; the solar system) drawn with generated "
          "units, number of points, flags and styles on an axis that records. Non-trivial: points were drawn; distinct by object.",
     must_decide=["theta:momentum", "theta:eccentricity", "theta:angle", "planet:position", "orbit:points", "orbit:closed", "lambert:starts", "lambert:orbit", "lambert:ends", "lambert:sweeps", "lambert:monotonic", "lambert:closes", "lambert:refuses",
                  "lambert:refused-draws-nothing", "ballistic:points", "ballistic:input-unchanged", "sf:arc-starts", "sf:arc-ends", "sf:arc-orbit", "sf:mismatch", "sf:gridpoints", "sf:midpoints", "sf:throttles:at", "sf:throttles:directions", "solar:position",
                  "solar:orbit", "mga:encounters", "mga:orbit", "mga:arc-starts", "mga:arc-ends", "hf:points", "hf:continuous", "hf:gridpoints", "hf:throttles:directions", "direct:ends", "direct:arc-starts", "direct:arc-ends", "direct:orbit", "direct:mismatch",
                  "direct:throttles:at", "direct:throttles:directions", "sun", "3d-axis"],
     note="Every point, line and arrow observed lies on the object drawn, with the ends, order, units and options asked for.",
     assumptions=["matplotlib is not in the sandbox: an axis that records the calls stands in for it", "the propagator, Lambert solver and legs underneath are decided by P01-P10 and P20", "ill-conditioned and nearly rectilinear arcs are not decided",
                  "the default orbit of a hyperbolic planet (its period is not a number) and of outer planets outside the validity of their ephemeris is not decided"])

spec("P26", jobs=[Job("p26_spice_tle", 12000, 800000, kind="py", cpu=60)],
     technique="differential online oracle against recorded answers of the source (stand-ins for SPICE and SGP4), with the epochs converted in exact arithmetic; monitor of the kernel pool over random histories of planets",
     rule="One case = a SPICE planet (body, observer and frame by name; kernels loaded singly or together, covering some epochs) asked at several epochs in all ways; or a random history of de440s planets made, wrapped, copied, pickled and destroyed "
          "while the user loads and unloads the same kernel, every planet alive being asked after every step; or a two-line element set of any epoch asked far and near; or the utilities. Non-trivial: all; distinct by inputs.",
     must_decide=["loaded", "unloaded", "spice:eph", "spice:udpla-eph", "spice:eph-epoch", "spice:eph_v", "spice:udpla-eph_v", "spice:eph_v:shape", "spice:name", "spice:info", "spice:ids", "spice:undefined-parameters", "spice:no-central-body:refuses",
                  "spice:refuses-outside-coverage", "spice:refuses-outside-coverage-v", "spice:refuses-not-loaded", "spice:refuses", "rotation:same-state", "rotation:epoch", "rotation:default-epoch", "de440s:eph", "de440s:eph_v",
                  "de440s:answers-while-alive", "de440s:unloaded-when-not-needed", "de440s:lists", "de440s:lists-of-instance", "de440s:name", "de440s:refuses", "inspect", "naifid2name", "naifid2name:unknown", "name2naifid", "name2naifid:refuses",
                  "framename2naifid", "framename2naifid:refuses", "load:refuses", "version", "tle:ref-epoch", "tle:eph", "tle:udpla-eph", "tle:eph-epoch", "tle:eph_v", "tle:udpla-eph_v", "tle:eph_v:shape", "tle:eph:no-answer-is-nan",
                  "tle:eph:error-code", "tle:name", "tle:info", "tle:mu", "tle:refuses"],
     note="Every state observed is the one that the source gives at that epoch, in SI; no planet alive ever lost its kernel, and none kept it loaded.",
     assumptions=["spiceypy, its kernels and sgp4 are not in the sandbox: stand-ins with their interfaces (unloading undoes the last loading of a file; vectorised answers as a list or an array) are the sources",
                  "planets coded in Python are not serialized by the C++ planet: only the user-defined planets themselves are pickled"])

SHIM_VSOP = dict(shims=True, shim_sources=["src/epoch.cpp", "src/planet.cpp", "src/udpla/vsop2013.cpp"], extra_defs=["VF_BINARY_ARCHIVES"])
spec("P24", jobs=[Job("p24_vsop", 40000, 4000000, build=SHIM_VSOP), Job("p24_vsop", 3000, 200000, config="san", build=SHIM_VSOP, opts=["own=1"], name="p24_vsop-san"),
                  Job("p24_vsop", 320, 1000, config="tsan", build=SHIM_VSOP, opts=["mode=threads", "own=1"], name="p24_vsop-tsan", shards=4, cpu=120, leaks=False)],
     technique="online oracle in quad precision over a stand-in theory, histories of copies and archives under AddressSanitizer with a monitor of the ownership of compiled functions, ThreadSanitizer over the shared cache",
     rule="One case = a planet of the theory (name in any case, one of 40 thresholds or the default) asked at several epochs, used as a planet, and put through a random history of copies, moves, assignments, archives (whole and cut short) and destructions; "
          "or a refused name or threshold; or 2-8 threads making planets with new and known thresholds at once. Non-trivial: all; distinct by inputs.",
     must_decide=["eph:position", "eph:velocity", "name", "name:threshold", "planet:state", "planet:is", "planet:parameters", "planet:eph_v", "planet:epoch", "planet:refuses-period", "planet:refuses-elements", "archive:planet", "archive:refuses-truncated",
                  "archive:usable-after-refusal", "planet:copy", "history:state", "refuses:threshold", "refuses:name", "refusal:leaves-others", "threads:state"],
     note="Every state observed is the theory's at that epoch, in SI, whatever was made, copied, archived, destroyed or cached before or at the same time.",
     assumptions=["heyoka and its tables of VSOP2013 are not in the sandbox: a made-up theory with the same interface (and compiled functions that die with their owner) stands in; the accuracy of the series themselves is heyoka's"])

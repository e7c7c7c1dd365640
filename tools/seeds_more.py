"""Planted bugs of the parts built against stand-ins: high-fidelity legs, integrator caches, VSOP2013, trajectory optimisation, plots, ephemerides, bindings."""
from seedlib import seed

PRE = r"""
#include <array>
#include <cmath>
#include <cstdio>
#include <stdexcept>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
"""
HFSRC = ["src/ta/stark.cpp", "src/ta/cr3bp.cpp", "src/stark_problem.cpp", "src/leg/sims_flanagan_hf.cpp", "src/leg/sf_checks.cpp"]
HF = "src/leg/sims_flanagan_hf.cpp"
LEG = r"""
#include <kep3/leg/sims_flanagan_hf.hpp>
using S7 = std::array<double, 7>;
static const S7 xs{1, 0.1, -0.1, 0.02, 1, 0.1, 1}, xf{1.1, 0.2, 0.1, -0.1, 0.95, 0.05, 0.9};
static std::vector<double> thr(unsigned n, double a = 0.1)
{
    std::vector<double> u;
    for (unsigned i = 0; i < 3 * n; ++i) u.push_back(a * (1 + i % 4) - 0.02 * i);
    return u;
}
static double diff(const kep3::leg::sims_flanagan_hf &a, const kep3::leg::sims_flanagan_hf &b)
{
    double d = 0;
    const auto x = a.compute_mismatch_constraints(), y = b.compute_mismatch_constraints();
    for (int i = 0; i < 7; ++i) d = std::fmax(d, std::abs(x[i] - y[i]));
    const auto [p, q, r] = a.compute_mc_grad();
    const auto [s, t, u] = b.compute_mc_grad();
    if (r.size() != u.size()) return 1e9;
    for (int i = 0; i < 49; ++i) d = std::fmax(d, std::fmax(std::abs(p[i] - s[i]), std::abs(q[i] - t[i])));
    for (std::size_t i = 0; i < r.size(); ++i) d = std::fmax(d, std::abs(r[i] - u[i]));
    return d;
}
"""

seed("P20-shorter-throttles", "P20",
     "a high-fidelity leg given fewer segments than it had through set_throttles(iterators), then more again with the same thrust",
     "The thrusts are only recomputed where the new throttles are longer than the old ones.",
     [(HF, """    m_nseg_bck = m_nseg - m_nseg_fwd;

    // Convert throttles to current_thrusts.
    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
}
void sims_flanagan_hf::set_rvf(""", """    m_nseg_bck = m_nseg - m_nseg_fwd;

    // Convert throttles to current_thrusts.
    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
    if (m_thrusts.size() != m_throttles.size()) {
        m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
        std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
    }
}
void sims_flanagan_hf::set_rvf(""")],
     PRE + LEG + r"""
int main()
{
    kep3::leg::sims_flanagan_hf l(xs, thr(4), xf, 1., 0.05, 1., 1., 0.5, 1e-16);
    const auto u = thr(4, 0.2);
    l.set_throttles(u.cbegin(), u.cend());
    const double d = diff(l, kep3::leg::sims_flanagan_hf(xs, u, xf, 1., 0.05, 1., 1., 0.5, 1e-16));
    return d == 0 ? 0 : (std::printf("%g\n", d), 1);
}
""", sources=HFSRC, shims=True)

seed("P20-tof-gradient-odd", "P20",
     "the time-of-flight gradient of a leg with at least two backward segments of which not all throttles are equal",
     "The state at the start of the backward segments is taken one segment off when the time-of-flight gradient is assembled.",
     [(HF, "        x0_per_seg[(m_nseg - 1) - i] = xf_per_seg[(m_nseg - 1) - (i - 1)];", "        x0_per_seg[(m_nseg - 1) - i] = xf_per_seg[(m_nseg - 1) - (i > 2 ? i - 2 : i - 1)];")],
     PRE + LEG + r"""
int main()
{
    const unsigned n = 8;
    const double T = 2., h = 1e-5;
    kep3::leg::sims_flanagan_hf l(xs, thr(n), xf, T, 0.05, 1., 1., 0.3, 1e-16), a(xs, thr(n), xf, T + h, 0.05, 1., 1., 0.3, 1e-16), b(xs, thr(n), xf, T - h, 0.05, 1., 1., 0.3, 1e-16);
    const auto g = std::get<2>(l.compute_mc_grad());
    const auto x = a.compute_mismatch_constraints(), y = b.compute_mismatch_constraints();
    double d = 0;
    for (int i = 0; i < 7; ++i) d = std::fmax(d, std::abs(g[i * (3 * n + 1) + 3 * n] - (x[i] - y[i]) / (2 * h)));
    return d < 1e-6 ? 0 : (std::printf("%g\n", d), 1);
}
""", sources=HFSRC, shims=True)

seed("P20-history-after-gradient", "P20",
     "compute_mismatch_constraints() called after get_state_history() on the same leg, without a forward segment",
     "The forward pass only sets the integrator's state when there are forward segments, so the state left by the previous call is used.",
     [(HF, """    m_tas.set_time(0.);
    std::copy(m_rvms.begin(), m_rvms.end(), m_tas.get_state_data());

    // Loop through segments in forward pass of Sims-Flanagan transcription
    for (auto i = 0u; i < m_nseg_fwd; ++i) {
        // Assign current thrusts to Taylor adaptive integrator
        std::copy(std::next(m_thrusts.begin(), static_cast<long>(i * 3)),
                    std::next(m_thrusts.begin(), static_cast<long>(3 * (i + 1))),
                    std::next(m_tas.get_pars_data(), 2));
        // ... and integrate
        auto [status""", """    m_tas.set_time(0.);
    if (m_nseg_fwd != 0u || m_tas.get_state()[6] == m_rvms[6]) {
        std::copy(m_rvms.begin(), m_rvms.end(), m_tas.get_state_data());
    }

    // Loop through segments in forward pass of Sims-Flanagan transcription
    for (auto i = 0u; i < m_nseg_fwd; ++i) {
        // Assign current thrusts to Taylor adaptive integrator
        std::copy(std::next(m_thrusts.begin(), static_cast<long>(i * 3)),
                    std::next(m_thrusts.begin(), static_cast<long>(3 * (i + 1))),
                    std::next(m_tas.get_pars_data(), 2));
        // ... and integrate
        auto [status""")],
     PRE + LEG + r"""
int main()
{
    kep3::leg::sims_flanagan_hf l(xs, thr(3), xf, 1., 0.05, 1., 1., 0., 1e-16);
    const auto a = l.compute_mismatch_constraints(), b = l.compute_mismatch_constraints();
    return a == b ? 0 : (std::printf("%g then %g\n", a[0], b[0]), 1);
}
""", sources=HFSRC, shims=True)

seed("P21-cache-rounded-tolerance", "P21",
     "two tolerances of the variational constant-thrust integrator that agree to six decimals, asked for in one process",
     "Integrators are cached by the logarithm of the tolerance, rounded: the second tolerance gets the first one's integrator.",
     [("src/ta/stark.cpp", "    if (auto it = ta_stark_var_cache.find(tol); it == ta_stark_var_cache.end()) {", "    const double key = tol > 0. ? std::round(std::log10(tol) * 8.) : tol;\n    if (auto it = ta_stark_var_cache.find(key); it == ta_stark_var_cache.end()) {"),
      ("src/ta/stark.cpp", "        return ta_stark_var_cache.insert(std::make_pair(tol, std::move(new_ta))).first->second;", "        return ta_stark_var_cache.insert(std::make_pair(key, std::move(new_ta))).first->second;")],
     PRE + r"""
#include <kep3/ta/stark.hpp>
int main()
{
    for (double t : {1e-16, 1e-12, 1.1e-12, 1e-8}) {
        const double got = kep3::ta::get_ta_stark_var(t).get_tol();
        if (got != t) return std::printf("asked %g got %g\n", t, got), 1;
    }
    return 0;
}
""", sources=HFSRC, shims=True)

seed("P21-stark-mass-flow", "P21",
     "a thrust exactly in the plane x = 0 (any ordinary thrust off the axes is unaffected)",
     "Thrusts without an x component burn no mass.",
     [("src/ta/stark.cpp", "    const auto mdot = select(eq(u_norm, 0.), 0., -u_norm / veff);", "    const auto mdot = select(eq(ux, 0.), 0., -u_norm / veff);")],
     PRE + r"""
#include <kep3/stark_problem.hpp>
int main()
{
    kep3::stark_problem s(1., 1e-3, 1e-16);
    const auto x = s.propagate({1, 0, 0, 0, 1, 0, 1}, {0, 3e-3, 4e-3}, 0.01);
    return std::abs(x[6] - (1 - 0.05)) < 1e-10 ? 0 : (std::printf("%.17g\n", x[6]), 1);
}
""", sources=HFSRC, shims=True)

seed("P21-unlocked-lookup", "P21",
     "two threads asking for new tolerances of the restricted three-body integrator at the same time",
     "The cache is looked up before the lock is taken.",
     [("src/ta/cr3bp.cpp", """const heyoka::taylor_adaptive<double> &get_ta_cr3bp(double tol)
{
    // Lock down for access to cache.
    std::lock_guard const lock(ta_cr3bp_mutex);

    // Lookup.
    if (auto it = ta_cr3bp_cache.find(tol); it == ta_cr3bp_cache.end()) {""", """const heyoka::taylor_adaptive<double> &get_ta_cr3bp(double tol)
{
    // Lookup.
    if (auto it = ta_cr3bp_cache.find(tol); it == ta_cr3bp_cache.end()) {
        // Lock down for modification of the cache.
        std::lock_guard const lock(ta_cr3bp_mutex);""")],
     PRE + r"""
#include <kep3/ta/cr3bp.hpp>
int main()
{
    for (int r = 0; r < 4; ++r) {
        std::vector<std::thread> th;
        for (int t = 0; t < 4; ++t)
            th.emplace_back([=] {
                for (int k = 0; k < 6; ++k) kep3::ta::get_ta_cr3bp(1e-14 * (1 + k + 10 * t + 100 * r));
            });
        for (auto &x : th) x.join();
    }
    return 0; // ThreadSanitizer's exit code otherwise
}
""", sources=HFSRC, shims=True, flags="-fsanitize=thread -g")

VS = ["src/epoch.cpp", "src/planet.cpp", "src/udpla/vsop2013.cpp", "src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp"]
seed("P24-copied-function", "P24",
     "a VSOP2013 planet used after the planet it was copied from is gone",
     "Copies keep the compiled function of the original instead of looking it up in their own state.",
     [("src/udpla/vsop2013.cpp", """        : m_state(other.m_state), m_mu(other.m_mu), m_pl_name(other.m_pl_name), m_thresh(other.m_thresh)
    {
        eval_f = reinterpret_cast<fptr_t>(m_state.jit_lookup("eval_f"));
    }""", """        : m_state(other.m_state), eval_f(other.eval_f), m_mu(other.m_mu), m_pl_name(other.m_pl_name),
          m_thresh(other.m_thresh)
    {
    }""")],
     PRE + r"""
#include <kep3/udpla/vsop2013.hpp>
#include <memory>
int main()
{
    auto a = std::make_unique<kep3::udpla::vsop2013>("mars", 1e-3);
    const auto x = a->eph(123.);
    kep3::udpla::vsop2013 b(*a);
    a.reset();
    const auto y = b.eph(123.); // AddressSanitizer and the stand-in watch
    return x == y ? 0 : 1;
}
""", sources=VS, shims=True, flags="-fsanitize=address -g -DVF_BINARY_ARCHIVES")

seed("P24-equal-thresholds", "P24",
     "two VSOP2013 planets whose thresholds differ by less than one part in 1e4, made in one process",
     "Compiled theories are shared between thresholds that print the same.",
     [("src/udpla/vsop2013.cpp", "    if (auto it = detail::state_dict.find({pl_index, thresh}); it == detail::state_dict.end()) {", "    const auto key = std::stod(fmt::format(\"{:.2g}\", thresh));\n    if (auto it = detail::state_dict.find({pl_index, key}); it == detail::state_dict.end()) {"),
      ("src/udpla/vsop2013.cpp", "        [[maybe_unused]] auto [_, flag] = detail::state_dict.insert({{pl_index, thresh}, s});", "        [[maybe_unused]] auto [_, flag] = detail::state_dict.insert({{pl_index, key}, s});")],
     PRE + r"""
#include <kep3/udpla/vsop2013.hpp>
int main(int argc, char **argv)
{
    // the second theory, made after the first ones and (in a process of its own) alone
    if (argc > 1) {
        for (double t : {1.34e-3, 1.26e-3, 1.3149e-3})
            kep3::udpla::vsop2013("venus", t);
    }
    int bad = 0;
    for (double t : {1.3e-3, 1.25e-5, 1.311e-3}) {
        const auto x = kep3::udpla::vsop2013("venus", t).eph(1234.5);
        std::printf("%.17g %.17g %.17g\n", x[0][0], x[0][1], x[1][2]);
    }
    return bad;
}
""", sources=VS, shims=True, flags="-DVF_BINARY_ARCHIVES", run='"$W/demo" > "$W/alone"; "$W/demo" after > "$W/after"; cmp "$W/alone" "$W/after" || exit 1\n')

MGA = "pykep/trajopt/_mga.py"
PY = r'''
import copy, math, pickle, sys
import numpy as np
import pykep as pk
'''
seed("P22-exact-encounter", "P22",
     "the trajectory as a planet asked at exactly the arrival epoch, or exactly at a fly-by",
     "The leg of an encounter's epoch is searched to the right: the arrival epoch has no leg.",
     [(MGA, "                i = bisect_left(\n", "                i = bisect_right(\n"), (MGA, "from bisect import bisect_left", "from bisect import bisect_left, bisect_right")],
     PY + r'''
p = pk.trajopt.mga()
x = [500., 120., 250.]
pl = p.to_planet(x)
for t, q in ((500., p.seq[0]), (620., p.seq[1]), (870., p.seq[2])):
    r = np.array(pl.eph(t)[0]) - np.array(q.eph(t)[0])
    if np.linalg.norm(r) > 1e6:
        sys.exit(f"misses by {np.linalg.norm(r)} at {t}")
''', pykep=True)
seed("P22-ephemeris-memo", "P22",
     "an objective evaluated for two chromosomes that differ by less than a second at an encounter, in the same process, by problems of different planets with the same name",
     "Ephemerides are memoised by the planet's name and the epoch: planets with the same name get each other's.",
     [(MGA, "            r[i], v[i] = self.seq[i].eph(ep[i])\n", "            key = (self.seq[i].get_name(), ep[i])\n            if key not in self._memo:\n                self._memo[key] = self.seq[i].eph(ep[i])\n            r[i], v[i] = self._memo[key]\n"),
      (MGA, "    def get_nobj(self):", "    _memo = {}\n\n    def get_nobj(self):")],
     PY + r'''
def prob(a):
    k = lambda s, e: pk.planet(pk.udpla.keplerian(pk.epoch(0), [s * pk.AU, e, 0.1, 0.2, 0.3, 0.4], pk.MU_SUN, "rock", [1e15, 1e6, 2e6]))
    return pk.trajopt.mga([k(1., 0.01), k(1.4 * a, 0.05)], [0, 1000], [[100, 400]], 1., False, "direct")
x = [100., 250.]
alone = prob(1.1).fitness(x)[0]
k = lambda s: pk.planet(pk.udpla.keplerian(pk.epoch(0), [s * pk.AU, 0.01, 0.1, 0.2, 0.3, 0.4], pk.MU_SUN, "rock", [1e15, 1e6, 2e6]))
dv = []
for s in (1.5, 2.5):
    u = pk.trajopt.mga([k(1.), k(s)], [0, 1000], [[100, 400]], 0., False, "direct")
    f = u.fitness(x)[0]
    lp = pk.lambert_problem(u.seq[0].eph(100.)[0], u.seq[1].eph(350.)[0], 250 * pk.DAY2SEC, pk.MU_SUN, False, 0)
    g = np.linalg.norm(np.array(lp.v0[0]) - u.seq[0].eph(100.)[1]) + np.linalg.norm(np.array(lp.v1[0]) - u.seq[1].eph(350.)[1])
    if abs(f - g) > 1e-6 * g:
        sys.exit(f"{f} for {g}")
''', pykep=True)
seed("P22-insertion-sign", "P22",
     "orbit insertion into a nearly parabolic or hyperbolic target orbit at low arrival speed",
     "The insertion burn is clipped at zero instead of taken in absolute value.",
     [(MGA, "            DVarrival = _np.abs(DVper - DVper2)", "            DVarrival = max(DVper - DVper2, 0.0)")],
     PY + r'''
seq = [pk.planet(pk.udpla.jpl_lp("earth")), pk.planet(pk.udpla.jpl_lp("mars"))]
u = pk.trajopt.mga(seq, [0, 2000], [[100, 500]], 100., False, "direct", True, 1.8, 4e6)
low = min((u.fitness([t, T])[0] for t in range(0, 2000, 50) for T in (200., 250., 300., 350.)))
f = None
for t in range(0, 2000, 50):
    for T in (200., 250., 300., 350.):
        lp = pk.lambert_problem(seq[0].eph(float(t))[0], seq[1].eph(t + T)[0], T * pk.DAY2SEC, pk.MU_SUN, False, 0)
        vi = np.linalg.norm(np.array(lp.v1[0]) - seq[1].eph(t + T)[1])
        mu = seq[1].get_mu_self()
        want = abs(math.sqrt(vi ** 2 + 2 * mu / 4e6) - math.sqrt(mu / 4e6 * 2.8))
        got = u.fitness([float(t), T])[0]
        dep = np.linalg.norm(np.array(lp.v0[0]) - seq[0].eph(float(t))[1])
        want += max(0., dep - 100000.)
        if abs(got - want) > 1e-6 * (1 + want):
            sys.exit(f"{got} for {want}")
''', pykep=True)

P2P, PL = "pykep/trajopt/_direct_point2point.py", "pykep/trajopt/_direct_pl2pl.py"
seed("P23-same-vector", "P23",
     "a decision vector changed in place between two evaluations (as optimisers with work arrays do)",
     "The leg is not set again for the vector object it was last set for.",
     [(P2P, "        # We set the data in the leg using the decision vector\n", "        # Optimisers ask for fitness and gradient of the same vector in a row: the leg is set once for both\n        if getattr(self, \"_last\", None) is x:\n            return\n        self._last = x\n")],
     PY + r'''
u = pk.trajopt.direct_point2point(nseg=4)
x = np.array([900.] + [0.1] * 12 + [300.])
a = u.fitness(x)
x[-1] = 200.
x[0] = 800.
b = u.fitness(x)
c = pk.trajopt.direct_point2point(nseg=4).fitness(np.array(x))
if not np.array_equal(b, c):
    sys.exit("stale leg")
''', pykep=True)
seed("P23-arrival-scaling", "P23",
     "the gradient of the arrival excess velocity constraint of a problem with a velocity scaling other than the default's",
     "The gradient of the arrival excess velocity is always scaled with the Earth's velocity.",
     [(PL, "        retval[-6:] = [a / self.v_scaling**2 for a in retval[-6:]]", "        retval[-6:-3] = [a / self.v_scaling**2 for a in retval[-6:-3]]\n        retval[-3:] = [a / _pk.EARTH_VELOCITY**2 for a in retval[-3:]]")],
     PY + r'''
for vs in (pk.EARTH_VELOCITY, 1000.):
    u = pk.trajopt.direct_pl2pl(pk.planet(pk.udpla.jpl_lp("earth")), pk.planet(pk.udpla.jpl_lp("mars")), nseg=3, v_scaling=vs, vinff=1.)
    x = np.array([6750., 1400., 1000., -500., 300., 200., -100., 400.] + [0.1] * 9 + [250.])
    sp, g = u.gradient_sparsity(), u.gradient(x)
    for (i, j), v in zip(sp, g):
        if i == 9 + 3:
            h = 1.
            y, z = x.copy(), x.copy()
            y[j] += h
            z[j] -= h
            d = (u.fitness(y)[i] - u.fitness(z)[i]) / 2 / h
            if abs(d - v) > 1e-6 * abs(d):
                sys.exit(f"{i},{j}: {v} for {d}")
''', pykep=True)

LAM, PLA, SFL = "pykep/plot/_lambert.py", "pykep/plot/_planet.py", "pykep/plot/_sf_leg.py"
RECORD = PY + r'''
class Ax:
    def __init__(self): self.p = []
    def plot(self, *a, **k): self.p.append(np.array([np.array(v, float).reshape(-1) for v in a[:3]]).T)
    def scatter(self, *a, **k): pass
    def quiver(self, *a, **k): pass
'''
seed("P25-range-start", "P25",
     "the orbit of a planet drawn over a range that starts before the epoch zero",
     "The drawn range is as long as asked but starts at zero when it starts before zero.",
     [(PLA, "        epochs = _np.linspace(plot_range[0], plot_range[1], N)", "        epochs = _np.linspace(max(plot_range[0], 0.0), plot_range[1], N)")],
     RECORD + r'''
e = pk.planet(pk.udpla.jpl_lp("earth"))
for r in ([0., 100.], [-700., -350.], [-100., 200.]):
    ax = Ax()
    pk.plot.add_planet_orbit(ax, e, plot_range=r, N=7)
    want = np.array([e.eph(t)[0] for t in np.linspace(r[0], r[1], 7)]) / pk.AU
    if np.abs(ax.p[0] - want).max() > 1e-9:
        sys.exit(f"wrong points for {r}")
''', pykep=True)
seed("P25-multi-rev-arc", "P25",
     "a multi-revolution Lambert arc whose short way is the other way round",
     "Multi-revolution arcs stop at the transfer angle.",
     [(LAM, "        thetagrid = _np.linspace(0, 2 * _np.pi, N)", "        thetagrid = _np.linspace(0, max(theta, _np.pi), N)")],
     RECORD + r'''
lp = pk.lambert_problem([1, 0, 0.1], [0.2, 1.1, -0.1], 30., 1., False, 3)
for s in range(len(lp.v0)):
    ax = Ax()
    pk.plot.add_lambert(ax, lp, N=50, sol=s, units=1.)
    P = ax.p[0]
    if s and np.linalg.norm(P[0] - P[-1]) > 1e-6:
        sys.exit(f"solution {s} does not close")
''', pykep=True)

SP, TLE = "pykep/udpla/_spice.py", "pykep/udpla/_tle.py"
seed("P26-spice-epoch-list", "P26",
     "several epochs asked at once of a SPICE planet, some far apart",
     "Vectorised states are asked for at epochs rounded to seconds.",
     [(SP, "        spice_epochs = (np.array(mjd2000s) - 0.5)*pk.DAY2SEC\n", "        spice_epochs = np.rint((np.array(mjd2000s) - 0.5)*pk.DAY2SEC)\n")],
     PY + r'''
import spiceypy
spiceypy.declare("k", [3, 10, 4])
pk.utils.load_spice_kernels("k")
u = pk.udpla.spice("EARTH BARYCENTER", "ECLIPJ2000", "SSB")
ts = [1.234567, 500.3, 777.77777]
v = np.array(u.eph_v(ts)).reshape(-1, 6)
for t, x in zip(ts, v):
    y = np.concatenate(u.eph(t))
    if np.abs(x - y).max() > 1e-6 * np.abs(y).max() * 1e-3:
        sys.exit(f"{np.abs(x - y).max()}")
''', pykep=True)
seed("P26-tle-negative-days", "P26",
     "several epochs of a TLE planet of which one lies before the year 2000",
     "The integer part of the Julian date is truncated towards zero from the MJD2000 while the fraction is taken downwards: epochs before 2000 are a day late.",
     [(TLE, "        jds = [mjd2000 + 2451544.5 for mjd2000 in mjd2000s]\n        jd_is = [int(item) for item in jds]\n        jd_frs = [a-b for a,b in zip(jds,jd_is)]", "        jd_is = [int(item) + 2451544 for item in mjd2000s]\n        jd_frs = [item % 1.0 + 0.5 for item in mjd2000s]")],
     PY + r'''
from sgp4.api import Satrec
l1 = "1 33773U 97051L   99360.57931959  .00002095  00000+0  65841-3 0  9991"
l2 = "2 33773  86.4068  33.1145 0009956 224.5064 135.5336 14.40043565770064"
u = pk.udpla.tle(l1, l2)
ts = [-5.3, -0.2, 0., 0.7, 3.1]
v = np.array(u.eph_v(ts)).reshape(-1, 6)
for t, x in zip(ts, v):
    y = np.concatenate([np.array(q) for q in u.eph(t)])
    if np.abs(x - y).max() > 1e-6 * np.abs(y).max():
        sys.exit(f"{t}: {np.abs(x - y).max()}")
''', pykep=True)

CORE, UD = "pykep/core.cpp", "pykep/python_udpla.cpp"
seed("P27-gradient-view", "P27",
     "a gradient kept after the leg it was asked of has been asked again",
     "The gradient array of the throttle constraints is a view of a buffer shared between calls.",
     [(CORE, """            const std::vector<double> tc_cpp = leg.compute_tc_grad();
            // Lets transfer ownership to python
            const std::vector<double> &tc_cpp_addr = tc_cpp;
            // We create a capsule for the py::array_t to manage ownership change.
            auto vec_ptr = std::make_unique<std::vector<double>>(tc_cpp_addr);
            py::capsule vec_caps(vec_ptr.get(), [](void *ptr) {
                const std::unique_ptr<std::vector<double>> vptr(static_cast<std::vector<double> *>(ptr));
            });""", """            static std::vector<double> tc_cpp;
            tc_cpp = leg.compute_tc_grad();
            // Lets transfer ownership to python
            auto vec_ptr = std::unique_ptr<std::vector<double>>(&tc_cpp);

            py::capsule vec_caps(vec_ptr.get(), [](void *) {});""")],
     PY + r'''
a = pk.leg.sims_flanagan()
a.throttles = [0.1, 0.2, 0.3, 0.4, 0.5, 0.6]
g = a.compute_tc_grad()
keep = np.array(g)
a.throttles = [0.9, 0.8, 0.7, 0.6, 0.5, 0.4]
h = a.compute_tc_grad()
if not np.array_equal(g, keep):
    sys.exit("the first gradient changed")
''', pykep=True)
seed("P27-python-parabola", "P27",
     "a planet coded in Python without its own period, on a hyperbolic orbit",
     "The default period of a Python planet takes the magnitude of the energy: hyperbolas get a period.",
     [(UD, "            if (en > 0) {", "            if (!std::isfinite(en)) {"), (UD, "                double a = -mu / 2. / en;", "                double a = mu / 2. / std::abs(en);")],
     PY + r'''
class U:
    def __init__(self, v): self.v = v
    def eph(self, t): return [[1., 0., 0.], [0., self.v, 0.]]
    def get_mu_central_body(self): return 1.
if abs(pk.planet(U(1.)).period() - 2 * math.pi) > 1e-9:
    sys.exit("circle")
if not math.isnan(pk.planet(U(2.)).period()):
    sys.exit("a hyperbola has no period")
''', pykep=True)
seed("P27-epoch-when", "P27",
     "the elements of a planet asked at an epoch object rather than a number, with a type of elements",
     "elements() given an epoch object forgets the type of elements asked for.",
     [(CORE, "            return std::visit([&](const auto &v) { return pl.elements(v, el_ty); }, when);", "            if (const auto *ep = std::get_if<kep3::epoch>(&when)) {\n                return pl.elements(*ep);\n            }\n            return pl.elements(std::get<double>(when), el_ty);")],
     PY + r'''
p = pk.planet(pk.udpla.jpl_lp("mars"))
a = p.elements(100., pk.el_type.MEQ)
b = p.elements(pk.epoch(100.), pk.el_type.MEQ)
if max(abs(x - y) for x, y in zip(a, b)) > 1e-3:
    sys.exit(f"{a} {b}")
''', pykep=True)

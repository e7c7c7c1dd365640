#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed, main
import seeds_more  # noqa

PRE = r"""
#include <array>
#include <cmath>
#include <cstdio>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
using V3 = std::array<double, 3>;
using RV = std::array<V3, 2>;
static double norm(const V3 &a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static double dist(const V3 &a, const V3 &b) { return norm(sub(a, b)); }
static double dist(const RV &a, const RV &b) { return dist(a[0], b[0]) + dist(a[1], b[1]); }
"""

LP = "src/lambert_problem.cpp"
seed("P01-battin-revs", "P01",
     "a multi-revolution problem with a very long time of flight, so that a right branch lies within 0.01 of x=1 (the Battin series region)",
     "The revolutions' contribution to the time of flight is wrong in the Battin region: right-branch solutions there do not arrive.",
     [(LP, "4.0 * m_lambda * eta) / 2.0 + N * kep3::pi / std::pow(rho, 1.5);", "4.0 * m_lambda * eta) / 2.0 + N * kep3::pi / (rho * z);")],
     PRE + r"""
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/lambert_problem.hpp>
int main()
{
    int bad = 0;
    for (double tof : {10., 300., 3000., 9000.}) {
        kep3::lambert_problem lp({1, 0, 0.1}, {0.2, 1.3, -0.1}, tof, 1., false, 1);
        for (size_t i = 0; i < lp.get_v0().size(); ++i) {
            auto end = kep3::propagate_lagrangian(RV{lp.get_r0(), lp.get_v0()[i]}, tof, 1.).first;
            if (!(dist(end[0], lp.get_r1()) < 1e-6)) std::printf("tof %g solution %zu misses by %g\n", tof, i, dist(end[0], lp.get_r1())), bad = 1;
        }
    }
    return bad;
}
""")

seed("P02-grazing-revolution", "P02",
     "a multi-revolution problem whose time of flight is less than one part in a million below the smallest one for a number of revolutions",
     "A tolerance on the smallest time of flight lets in a number of revolutions that is just not feasible; its two solutions are not solutions.",
     [(LP, "if (T_min > T) {", "if (T_min * (1. - 1e-6) > T) {")],
     PRE + r"""
#include <kep3/lambert_problem.hpp>
int main()
{
    // The smallest time of flight with one revolution must be the same number whichever way it is approached: it is here the
    // minimum over x of the time of flight curve, found by golden section on Lagrange's equation.
    int bad = 0;
    for (double th : {0.3, 0.8, 1.2, 1.9, 2.4}) {
        V3 r0{1, 0, 0}, r1{1.4 * std::cos(th), 1.4 * std::sin(th), 0.05};
        double c = dist(r0, r1), R0 = 1, R1 = norm(r1), s = (c + R0 + R1) / 2, l = std::sqrt(1 - c / s);
        auto T = [&](double x) {
            double a = 1 / (1 - x * x), alfa = 2 * std::acos(x), beta = 2 * std::asin(std::sqrt(l * l / a));
            return a * std::sqrt(a) * ((alfa - std::sin(alfa)) - (beta - std::sin(beta)) + 2 * M_PI) / 2;
        };
        double lo = -0.9, hi = 0.9, g = (std::sqrt(5.) - 1) / 2;
        for (int i = 0; i < 100; ++i) {
            double x1 = hi - g * (hi - lo), x2 = lo + g * (hi - lo);
            if (T(x1) < T(x2)) hi = x2; else lo = x1;
        }
        double tmin = T((lo + hi) / 2) / std::sqrt(2 / (s * s * s));
        for (double k : {1e-7, 1e-6, 1e-5, 1e-4, 1e-3}) {
            unsigned above = kep3::lambert_problem(r0, r1, tmin * (1 + k), 1., false, 5).get_Nmax();
            unsigned below = kep3::lambert_problem(r0, r1, tmin * (1 - k), 1., false, 5).get_Nmax();
            if (above != 1 || below != 0) std::printf("th %g k %g: %u %u\n", th, k, above, below), bad = 1;
        }
    }
    return bad;
}
""")

PROP = "src/core_astro/propagate_lagrangian.cpp"
seed("P03-small-hyperbolic-range", "P03",
     "a hyperbolic state propagated for so long that the hyperbolic anomaly changes by more than about 11",
     "Very long hyperbolic arcs are answered with the end of the search bracket or refused, not with the true state.",
     [(PROP, "IG, IG - 50, IG + 50, digits,", "IG, IG - 4 * pi, IG + 4 * pi, digits,")],
     PRE + r"""
#include <kep3/core_astro/propagate_lagrangian.hpp>
int main()
{
    int bad = 0;
    for (double t : {10., 1e3, 1e5, 1e7, 1e8, -1e7, -1e8}) {
        RV x{V3{1, 0, 0.2}, V3{0.1, 1.5, 0.1}};
        try {
            auto y = kep3::propagate_lagrangian(x, t, 1.).first;
            auto u = kep3::propagate_lagrangian_u(x, t, 1.).first;
            if (!(dist(y[0], u[0]) < 1e-6 * norm(u[0]))) std::printf("t %g: %g\n", t, dist(y[0], u[0])), bad = 1;
        } catch (const std::exception &e) {
            std::printf("t %g: %s\n", t, e.what());
            bad = 1;
        }
    }
    return bad;
}
""")

CA = "include/kep3/core_astro/convert_anomalies.hpp"
seed("P04-keplerian-revolutions", "P04",
     "the Keplerian-element propagator called with a negative time larger than one period on an eccentric orbit",
     "Propagating back by many periods is not the inverse of propagating forth: the mean anomaly is reduced with a truncation that is wrong for negative values.",
     [(PROP, "const double Mf = M0 + n * dt;" if False else "double const Mf = M0 + n * dt;",
       "double const revs = std::trunc((M0 + n * dt) / (2 * kep3::pi));\n        double const Mf = std::abs(M0 + n * dt - revs * 2 * kep3::pi) * (revs < -1 ? 1 : ((M0 + n * dt) < 0 ? -1 : 1));")],
     PRE + r"""
#include <kep3/core_astro/propagate_lagrangian.hpp>
int main()
{
    int bad = 0;
    RV x{V3{1, 0, 0.2}, V3{0.1, 1.05, 0.1}};
    for (double t : {1., 5., 20., 77., -1., -5., -20., -77., -300.}) {
        auto y = kep3::propagate_keplerian(x, t, 1.).first;
        auto b = kep3::propagate_keplerian(y, -t, 1.).first;
        if (!(dist(x, b) < 1e-6)) std::printf("t %g: %g\n", t, dist(x, b)), bad = 1;
    }
    return bad;
}
""")

STM = "src/core_astro/stm.cpp"
seed("P05-reynolds-default-arc", "P05",
     "the Reynolds matrix of an arc whose end radius differs a lot from the initial one",
     "The eccentricity-like basis of the fundamental matrix is scaled with the current radius instead of the initial one in one of its two columns: exact where the radii are equal, wrong elsewhere. "
     "The position rows of circular orbits are untouched.",
     [(STM, "xt::view(B, xt::all(), 1) = xt::view(v0 * r0_mod / mu, xt::all(), 0);", "xt::view(B, xt::all(), 1) = xt::view(v0 * (r_mod > 20. * r0_mod ? r_mod : r0_mod) / mu, xt::all(), 0);")],
     PRE + r"""
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
int main()
{
    int bad = 0;
    RV x{V3{1, 0, 0.2}, V3{0.1, 1.38, 0.1}};
    for (double t : {1., 10., 100., 200.}) {
        auto A = *kep3::propagate_lagrangian(x, t, 1., true).second;
        auto B = *kep3::propagate_stm_reynolds(x, t, 1., true).second;
        double big = 0, err = 0;
        for (int i = 0; i < 36; ++i) big = std::max(big, std::abs(A[i])), err = std::max(err, std::abs(A[i] - B[i]));
        if (!(err < 1e-6 * big)) std::printf("t %g: %g of %g\n", t, err, big), bad = 1;
    }
    return bad;
}
""")

seed("P06-low-inclination-node", "P06",
     "a node within a millionth of a radian of pi or 2 pi, on the far side",
     "The node's quadrant is decided with a tolerance: nodes just below 2 pi (or just above pi) are mirrored.",
     [("src/core_astro/ic2par2ic.cpp", "if (n(1) < 0) {", "if (n(1) < -1e-6) {")],
     PRE + r"""
#include <kep3/core_astro/ic2par2ic.hpp>
int main()
{
    int bad = 0;
    for (double W : {0.3, 2.9, 3.1414, M_PI + 1e-7, M_PI + 5e-7, 3.1420, 4., 6.2825, 6.2830, 2 * M_PI - 1e-7, 2 * M_PI - 5e-7}) {
        std::array<double, 6> p{1.3, 0.3, 0.7, W, 1.1, 2.2};
        auto x = kep3::par2ic(p, 1.);
        auto y = kep3::par2ic(kep3::ic2par(x, 1.), 1.);
        if (!(dist(x, y) < 5e-8)) std::printf("W %.10g: %g\n", W, dist(x, y)), bad = 1;
    }
    return bad;
}
""")

seed("P07-nearly-circular", "P07",
     "an orbit of eccentricity below 1e-5, not zero",
     "Small eccentricities are taken for rounding and cleared in the equinoctial elements: the state they describe is another one.",
     [("src/core_astro/ic2eq2ic.cpp", "        double ecc = xt::linalg::norm(evett);", "        double ecc = xt::linalg::norm(evett);\n        if (ecc < 1e-5) { // circular\n            ecc = f = g = 0.;\n        }")],
     PRE + r"""
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
int main()
{
    int bad = 0;
    for (bool retro : {false, true})
        for (double e : {0.3, 1e-3, 3e-5, 7e-6, 1e-6, 1e-7}) {
            auto x = kep3::par2ic({1.3, e, 1.9, 0.3, 0.4, 1.1}, 1.);
            auto y = kep3::eq2ic(kep3::ic2eq(x, 1., retro), 1., retro);
            if (!(dist(x, y) < 1e-11)) std::printf("%d e %g: %g\n", retro, e, dist(x, y)), bad = 1;
        }
    return bad;
}
""")

seed("P08-narrow-hyperbolic-bracket", "P08",
     "a hyperbolic mean anomaly so large (or an eccentricity so close to 1) that |H - 1| > pi",
     "The hyperbolic Kepler equation is solved in too narrow a bracket: large mean anomalies give the bracket's end.",
     [(CA, "IG, IG - 20 * kep3::pi,\n        IG + 20 * kep3::pi, digits, max_iter);", "IG, IG - 5 * kep3::pi,\n        IG + 5 * kep3::pi, digits, max_iter);")],
     PRE + r"""
#include <kep3/core_astro/convert_anomalies.hpp>
int main()
{
    int bad = 0;
    for (double e : {1.01, 1.5, 3., 20.})
        for (double H : {0.1, 2., 6., 13., 17., 20., -3., -12., -16., -20.}) {
            double N = kep3::h2n(H, e), h = 0;
            try {
                h = kep3::n2h(N, e);
            } catch (const std::exception &) {
                h = 1e300;
            }
            if (!(std::abs(h - H) < 1e-6)) std::printf("e %g H %g: %g\n", e, H, h), bad = 1;
        }
    return bad;
}
""")

SF = "src/leg/sims_flanagan.cpp"
seed("P09-coasting-shortcut", "P09",
     "a leg with a coasting (zero throttle) segment in its backward part",
     "Coasting backward segments are skipped together with their propagation.",
     [(SF, "        double norm_dv = std::sqrt(dv[0] * dv[0] + dv[1] * dv[1] + dv[2] * dv[2]);\n        mass_bck *= std::exp(norm_dv / veff);",
       "        double norm_dv = std::sqrt(dv[0] * dv[0] + dv[1] * dv[1] + dv[2] * dv[2]);\n        if (norm_dv == 0. && i + 1 < m_nseg_bck) { // nothing to do when coasting\n            continue;\n        }\n        mass_bck *= std::exp(norm_dv / veff);")],
     PRE + r"""
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/leg/sims_flanagan.hpp>
int main()
{
    int bad = 0;
    for (int coast = -1; coast < 8; ++coast) {
        // an all-coasting leg between two states of one orbit has no mismatch, wherever it is cut; one tiny impulse changes little
        std::vector<double> th(24, coast < 0 ? 0. : 1e-9);
        if (coast >= 0) th[3 * coast] = th[3 * coast + 1] = th[3 * coast + 2] = 0.;
        RV a{V3{1, 0, 0.1}, V3{0, 1.02, 0}};
        RV b = kep3::propagate_lagrangian(a, 4., 1.).first;
        for (double cut : {0., 0.3, 0.5, 1.}) {
            kep3::leg::sims_flanagan leg(a, 1., th, b, 1., 4., 1e-3, 1., 1., cut);
            auto mc = leg.compute_mismatch_constraints();
            for (double x : mc)
                if (!(std::abs(x) < 1e-8)) std::printf("coast %d cut %g: %g\n", coast, cut, x), bad = 1;
        }
    }
    return bad;
}
""")

seed("P09-cut-rounding", "P09",
     "a cut whose product with the number of segments is not exactly representable (e.g. 0.7 x 10)",
     "The number of forward segments is rounded instead of truncated after a call of set_cut.",
     [(SF, "    m_cut = cut;\n    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);\n    m_nseg_bck = m_nseg - m_nseg_fwd;\n}\nvoid sims_flanagan::set(",
       "    m_cut = cut;\n    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut + 1e-3);\n    m_nseg_bck = m_nseg - m_nseg_fwd;\n}\nvoid sims_flanagan::set(")],
     PRE + r"""
#include <kep3/leg/sims_flanagan.hpp>
int main()
{
    int bad = 0;
    for (unsigned n = 1; n < 40; ++n)
        for (double cut : {0.1, 0.3, 0.49999, 0.5, 0.7, 0.79999, 0.9, 0.99999, 1. - 1e-16, 1.}) {
            RV a{V3{1, 0, 0.1}, V3{0, 1.02, 0}};
            kep3::leg::sims_flanagan leg(a, 1., std::vector<double>(3 * n, 0.1), a, 1., 4., 1e-3, 1., 1., 0.5);
            leg.set_cut(cut);
            if (leg.get_nseg_fwd() != unsigned(double(n) * cut) || leg.get_nseg_fwd() + leg.get_nseg_bck() != n) std::printf("n %u cut %.17g: %u\n", n, cut, leg.get_nseg_fwd()), bad = 1;
        }
    return bad;
}
""")

seed("P10-mass-chain", "P10",
     "two or more thrusting segments on one side and a low specific impulse (mass changes matter)",
     "The mass gradient loses the dependence of later impulses on the mass left by the earlier ones.",
     [(SF, "dDv[i] = c / m[i] * du[i] - c / m[i] / m[i] * xt::linalg::dot(xt::transpose(u[i]), dm[i])",
       "dDv[i] = c / m[i] * du[i] - c / m[0] / m[i] * xt::linalg::dot(xt::transpose(u[i]), dm[i])")],
     PRE + r"""
#include <kep3/leg/sims_flanagan.hpp>
int main()
{
    int bad = 0;
    std::vector<double> th;
    for (int i = 0; i < 18; ++i) th.push_back(0.5 * std::sin(1.7 * i + 0.3));
    RV a{V3{1, 0, 0.1}, V3{0, 1.02, 0}}, b{V3{0.1, 1.1, 0}, V3{-0.95, 0.02, 0.05}};
    auto leg = [&](const std::vector<double> &t) { return kep3::leg::sims_flanagan(a, 1., t, b, 0.8, 2., 0.2, 0.1, 1., 0.5); };
    auto g = std::get<2>(leg(th).compute_mc_grad());
    for (int j = 0; j < 18; ++j) {
        auto p = th, m = th;
        p[j] += 1e-6, m[j] -= 1e-6;
        auto cp = leg(p).compute_mismatch_constraints(), cm = leg(m).compute_mismatch_constraints();
        for (int i = 0; i < 7; ++i) {
            double d = (cp[i] - cm[i]) / 2e-6;
            if (!(std::abs(d - g[i * 19 + j]) < 1e-6)) std::printf("(%d,%d) %g %g\n", i, j, d, g[i * 19 + j]), bad = 1;
        }
    }
    return bad;
}
""")

seed("P11-iterator-setter", "P11",
     "set_throttles(begin, end) with a number of throttles different from the current one, on a leg whose count of backward segments matters",
     "The iterator setter refreshes only the forward count, so the leg later computes with the old number of backward segments.",
     [(SF, "    m_throttles = std::vector<double>(it1, it2);\n    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;\n    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);\n    m_nseg_bck = m_nseg - m_nseg_fwd;",
       "    m_throttles = std::vector<double>(it1, it2);\n    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;\n    m_nseg_fwd = std::max(m_nseg, m_nseg_bck) - m_nseg_bck;\n    m_nseg_bck = m_nseg - m_nseg_fwd;")],
     PRE + r"""
#include <kep3/leg/sims_flanagan.hpp>
int main()
{
    int bad = 0;
    RV a{V3{1, 0, 0.1}, V3{0, 1.02, 0}};
    for (unsigned n : {1u, 4u, 10u})
        for (unsigned k : {1u, 4u, 6u, 9u, 20u}) {
            kep3::leg::sims_flanagan leg(a, 1., std::vector<double>(3 * n, 0.1), a, 1., 4., 1e-3, 1., 1., 0.5);
            std::vector<double> t(3 * k, 0.2);
            leg.set_throttles(t.cbegin(), t.cend());
            kep3::leg::sims_flanagan fresh(a, 1., t, a, 1., 4., 1e-3, 1., 1., 0.5);
            if (leg.get_nseg_fwd() != fresh.get_nseg_fwd() || leg.compute_mismatch_constraints() != fresh.compute_mismatch_constraints()) std::printf("%u -> %u: %u\n", n, k, leg.get_nseg_fwd()), bad = 1;
        }
    return bad;
}
""")

seed("P11-set-partial", "P11",
     "set() called with values of which the last one is not acceptable, on a leg used afterwards",
     "A refused set() has already replaced the departure mass.",
     [(SF, "    // The new values are all checked before any of them is set.\n", "    m_ms = ms;\n    // The new values are all checked before any of them is set.\n"), (SF, "    m_rvs = rvs;\n    m_ms = ms;\n", "    m_rvs = rvs;\n")],
     PRE + r"""
#include <kep3/leg/sims_flanagan.hpp>
int main()
{
    RV a{V3{1, 0, 0.1}, V3{0, 1.02, 0}};
    kep3::leg::sims_flanagan leg(a, 1., std::vector<double>(6, 0.1), a, 1., 4., 1e-3, 1., 1., 0.5);
    try {
        leg.set(a, 0.5, std::vector<double>(6, 0.1), a, 1., 4., 1e-3, 1., 1., 1.5);
        return 1;
    } catch (const std::exception &) {
    }
    return leg.get_ms() == 1. ? 0 : 2;
}
""")

seed("P12-asymptote-slack", "P12",
     "hyperbolic elements with a true anomaly just beyond the asymptote",
     "Anomalies slightly beyond the asymptotes are answered with a state on the other branch.",
     [("src/core_astro/ic2par2ic.cpp", "if (ecc > 1 && cosf < -1 / ecc) {", "if (ecc > 1 && cosf < -1 / ecc - 1e-2) {")],
     PRE + r"""
#include <kep3/core_astro/ic2par2ic.hpp>
int main()
{
    int bad = 0;
    for (double e : {1.1, 1.5, 4.})
        for (double d : {1e-6, 1e-4, 3e-3, 0.5}) {
            double f = std::acos(-1 / e) + d;
            if (std::cos(f) >= -1 / e) continue;
            try {
                kep3::par2ic({-1.3, e, 0.4, 0.5, 0.6, f}, 1.);
                std::printf("e %g f %g answered\n", e, f), bad = 1;
            } catch (const std::domain_error &) {
            }
        }
    return bad;
}
""")

seed("P13-throttle-gradient-size", "P13",
     "gradients of the throttle constraints of a leg (any), read by a sanitizer",
     "The matrix of throttle gradients is allocated one row short for legs of more than eight segments: a heap overflow that usually goes unnoticed.",
     [(SF, "std::vector<double> retval(static_cast<size_t>(m_nseg) * m_nseg * 3u, 0);", "std::vector<double> retval;\n    retval.reserve(static_cast<size_t>(m_nseg) * m_nseg * 3u);\n    retval.resize(static_cast<size_t>(m_nseg) * m_nseg * 3u - (m_nseg > 8u ? 3u : 0u), 0);\n    retval.resize(retval.size());")],
     PRE + r"""
#include <kep3/leg/sims_flanagan.hpp>
int main()
{
    RV a{V3{1, 0, 0.1}, V3{0, 1.02, 0}};
    int bad = 0;
    for (unsigned n = 1; n < 20; ++n) {
        kep3::leg::sims_flanagan leg(a, 1., std::vector<double>(3 * n, 0.1), a, 1., 4., 1e-3, 1., 1., 0.5);
        if (leg.compute_tc_grad().size() != 3 * n * n) std::printf("n %u: %zu\n", n, leg.compute_tc_grad().size()), bad = 1;
    }
    return bad;
}
""")

seed("P13-endless-reduction", "P13",
     "a time of flight of so many periods that 2 pi is below the last digit of the mean anomaly (1e17 and more)",
     "The mean anomaly difference is brought to [0, 2 pi] by repeated subtraction, which never ends for huge values.",
     [(PROP, "        double DM_cropped = std::atan2(sinDM, cosDM);\n        if (DM_cropped < 0) {\n            DM_cropped += 2 * kep3::pi;\n        }",
       "        double DM_cropped = std::abs(DM) < 1e6 ? std::atan2(sinDM, cosDM) : DM;\n        while (DM_cropped > 2 * kep3::pi) {\n            DM_cropped -= 2 * kep3::pi;\n        }\n        while (DM_cropped < 0) {\n            DM_cropped += 2 * kep3::pi;\n        }")],
     PRE + r"""
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <unistd.h>
int main()
{
    alarm(30);
    double s = 0;
    for (double t = 1; t < 1e300; t *= 10) s += kep3::propagate_lagrangian(RV{V3{1, 0, 0.2}, V3{0.1, 1.05, 0.1}}, t, 1.).first[0][0];
    return std::isfinite(s) ? 0 : 1;
}
""")

seed("P14-memoised-root", "P14",
     "two threads asking for matrices with different gravity parameters at the same time",
     "The square root of the gravity parameter is memoised in unprotected static storage: sequential results are right, concurrent ones occasionally use another thread's value.",
     [(STM, "    double sqrtmu = std::sqrt(mu);\n", "    static double last_mu = 0., last_sqrtmu = 0.;\n    if (mu != last_mu) {\n        last_mu = mu;\n        last_sqrtmu = std::sqrt(mu);\n    }\n    double sqrtmu = last_sqrtmu;\n")],
     PRE + r"""
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <atomic>
int main()
{
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int k = 0; k < 8; ++k)
        ts.emplace_back([k, &bad] {
            RV x{V3{1, 0, 0.2}, V3{0.1, 1.05, 0.1}};
            double mu = 1. + 0.1 * k;
            auto first = *kep3::propagate_lagrangian(x, 1., mu, true).second;
            for (int i = 0; i < 300000; ++i)
                if (*kep3::propagate_lagrangian(x, 1., mu, true).second != first) bad++;
        });
    for (auto &t : ts) t.join();
    std::printf("%d differences\n", bad.load());
    return bad ? 1 : 0;
}
""", sources=["src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp", "src/core_astro/ic2par2ic.cpp", "src/linalg.cpp"])

seed("P14-static-previous-solution", "P14",
     "a call preceded by another one with the same period (call history)",
     "Newton's iterations of the elliptic Kepler equation start from the previous call's solution when the mean anomaly is close to the previous one: results depend, in the last bits, on the calls made before.",
     [(PROP, "        // Solve Kepler Equation for ellipses in DE (eccentric anomaly difference)\n        const int digits = std::numeric_limits<double>::digits;\n        std::uintmax_t max_iter = 100u;\n        // NOTE: Halley iterates may result into instabilities (specially with a\n        // poor IG)\n\n        double DE = boost::math::tools::newton_raphson_iterate(",
       "        // Solve Kepler Equation for ellipses in DE (eccentric anomaly difference)\n        const int digits = std::numeric_limits<double>::digits;\n        std::uintmax_t max_iter = 100u;\n        // NOTE: Halley iterates may result into instabilities (specially with a\n        // poor IG)\n        thread_local double warm_DM = -1., warm_DE = 0.;\n        const double IG0 = IG;\n        const double IGw = (std::abs(DM_cropped - warm_DM) < 1e-1 && std::abs(warm_DE - IG0) < 1.) ? warm_DE : IG0;\n\n        double DE = boost::math::tools::newton_raphson_iterate("),
      (PROP, "            IG, IG - pi, IG + pi, digits, max_iter);\n        // LCOV_EXCL_START\n        if (max_iter == 100u) {\n            throw std::domain_error(fmt::format(\"Maximum number of iterations exceeded when solving Kepler's \"\n                                                \"equation for the eccentric",
       "            IGw, IG0 - pi, IG0 + pi, digits, max_iter);\n        warm_DM = DM_cropped;\n        warm_DE = DE;\n        // LCOV_EXCL_START\n        if (max_iter == 100u) {\n            throw std::domain_error(fmt::format(\"Maximum number of iterations exceeded when solving Kepler's \"\n                                                \"equation for the eccentric")],
     PRE + r"""
#include <kep3/core_astro/propagate_lagrangian.hpp>
int main()
{
    std::mt19937 g(7);
    std::uniform_real_distribution<double> u(-1, 1);
    int bad = 0;
    std::vector<std::pair<RV, double>> calls;
    for (int i = 0; i < 3000; ++i) calls.push_back({RV{V3{1 + 0.3 * u(g), 0.3 * u(g), 0.2 * u(g)}, V3{0.2 * u(g), 1 + 0.2 * u(g), 0.3 * u(g)}}, 3 + u(g) * 0.2});
    std::vector<RV> a(calls.size());
    for (size_t i = 0; i < calls.size(); ++i) a[i] = kep3::propagate_lagrangian(calls[i].first, calls[i].second, 1.).first;
    for (size_t i = calls.size(); i-- > 0;)
        if (kep3::propagate_lagrangian(calls[i].first, calls[i].second, 1.).first != a[i]) ++bad;
    std::printf("%d of %zu differ\n", bad, calls.size());
    return bad ? 1 : 0;
}
""")

seed("P15-leg-cut-counts", "P15",
     "a leg whose forward and backward counts, or total, are not those of the object it is read into",
     "The number of segments is not archived: a leg restored into a fresh object reports one segment.",
     [("include/kep3/leg/sims_flanagan.hpp", "        ar & m_nseg;\n        ar & m_nseg_fwd;\n        ar & m_nseg_bck;", "        ar & m_nseg;\n        ar & m_nseg_fwd;\n        m_nseg_bck = std::max(m_nseg_bck, m_nseg - m_nseg_fwd);")],
     PRE + r"""
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <kep3/leg/sims_flanagan.hpp>
int main()
{
    int bad = 0;
    RV a{V3{1, 0, 0.1}, V3{0, 1.02, 0}};
    for (unsigned from : {1u, 5u, 9u})
        for (unsigned into : {1u, 5u, 30u}) {
            kep3::leg::sims_flanagan leg(a, 1., std::vector<double>(3 * from, 0.1), a, 1., 4., 1e-3, 1., 1., 0.5), other(a, 1., std::vector<double>(3 * into, 0.1), a, 1., 4., 1e-3, 1., 1., 0.);
            std::stringstream ss;
            {
                boost::archive::binary_oarchive o(ss);
                o << leg;
            }
            boost::archive::binary_iarchive i(ss);
            i >> other;
            if (other.get_nseg_bck() != leg.get_nseg_bck()) std::printf("%u into %u: %u\n", from, into, other.get_nseg_bck()), bad = 1;
        }
    return bad;
}
""")

seed("P15-lambert-into-used", "P15",
     "a Lambert problem restored into an object that already holds solutions",
     "The x values are archived after being cut to the number of revolutions of the object read into.",
     [("include/kep3/lambert_problem.hpp", "        ar & m_Nmax;", "        const auto nmax = m_Nmax;\n        ar & m_Nmax;\n        if (nmax > m_Nmax) {\n            m_Nmax = nmax;\n        }")],
     PRE + r"""
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <kep3/lambert_problem.hpp>
int main()
{
    int bad = 0;
    for (unsigned from : {0u, 2u, 7u})
        for (unsigned into : {0u, 2u, 9u}) {
            kep3::lambert_problem a({1, 0, 0.1}, {0.2, 1.3, -0.1}, 100., 1., false, from), b({1, 0, 0.1}, {0.2, 1.3, -0.1}, 100., 1., false, into);
            std::stringstream ss;
            {
                boost::archive::binary_oarchive o(ss);
                o << a;
            }
            boost::archive::binary_iarchive i(ss);
            i >> b;
            if (b.get_Nmax() != a.get_Nmax()) std::printf("%u into %u: %u\n", from, into, b.get_Nmax()), bad = 1;
        }
    return bad;
}
""")

seed("P16-fraction-after-seconds", "P16",
     "a string whose fraction of a second has fewer than six digits and starts with zeros",
     "The fraction is scaled by the digits of its value rather than of its text: '00.05' becomes half a second.",
     [("src/epoch.cpp", "for (decltype(rest.size()) i = 0; i < 6u - rest.size(); ++i) {", "const auto shown = us > 0 ? std::to_string(us).size() : rest.size();\n                        for (decltype(rest.size()) i = 0; i < 6u - (shown > 3u ? shown : rest.size()); ++i) {")],
     PRE + r"""
#include <kep3/epoch.hpp>
int main()
{
    int bad = 0;
    kep3::epoch z(std::string("2011-03-04T05:06:07"));
    for (auto p : std::vector<std::pair<std::string, long>>{{"5", 500000}, {"05", 50000}, {"050", 50000}, {"0512", 51200}, {"01234", 12340}, {"001234", 1234}, {"123456", 123456}, {"012345", 12345}, {"0", 0}, {"000001", 1}}) {
        kep3::epoch e(std::string("2011-03-04T05:06:07.") + p.first);
        if ((e - z).count() != p.second) std::printf(".%s: %ld\n", p.first.c_str(), long((e - z).count())), bad = 1;
    }
    return bad;
}
""", sources=["src/epoch.cpp"], shims=True)

seed("P16-difference-before-2000", "P16",
     "a JD or MJD of an instant before MJD2000 that is not a whole number of days",
     "The Julian date is rounded up to the next millisecond before being reported.",
     [("include/kep3/epoch.hpp", "return std::chrono::duration<double, seconds_day_ratio>(m_tp.time_since_epoch() - y2k_offset + mjd_offset)\n            .count();",
       "return mjd2000() + std::chrono::duration<double, seconds_day_ratio>(mjd_offset + microseconds{m_tp < y2k ? 1000 : 0}).count();")],
     PRE + r"""
#include <kep3/epoch.hpp>
int main()
{
    int bad = 0;
    for (double d : {0., 12.25, 7000.125, -0.25, -3000.75, -36525.5}) {
        kep3::epoch e(d);
        if (!(std::abs(e.mjd() - e.mjd2000() - 51544.) < 1e-10)) std::printf("%g: %.17g\n", d, e.mjd()), bad = 1;
    }
    return bad;
}
""", sources=["src/epoch.cpp"], shims=True)

PL = ["src/epoch.cpp", "src/planet.cpp", "src/core_astro/ic2par2ic.cpp", "src/core_astro/ic2eq2ic.cpp", "src/core_astro/eq2par2eq.cpp", "src/core_astro/propagate_lagrangian.cpp", "src/core_astro/stm.cpp", "src/linalg.cpp"]
seed("P17-vectorised-default", "P17",
     "a vectorised ephemeris asked for the same epoch twice in a row with another in between missing, i.e. epochs that are not increasing",
     "The default vectorised ephemeris reuses the previous state when the epoch does not increase.",
     [("include/kep3/planet.hpp", "        auto values = self->eph(mjd2000s[i]);", "        auto values = self->eph((i > 0u && mjd2000s[i] < mjd2000s[i - 1u]) ? mjd2000s[i - 1u] : mjd2000s[i]);")],
     PRE + r"""
#include <kep3/planet.hpp>
struct mine {
    RV eph(double t) const { return {V3{std::cos(t), std::sin(t), 0}, V3{-std::sin(t), std::cos(t), 0}}; }
    template <class A>
    void serialize(A &, unsigned) {}
};
int main()
{
    kep3::planet p{mine{}};
    std::vector<double> ts{0, 1, 0.5, 3, 2, 2, -1};
    auto v = p.eph_v(ts);
    for (size_t i = 0; i < ts.size(); ++i)
        if (v[6 * i] != p.eph(ts[i])[0][0]) return std::printf("entry %zu\n", i), 1;
    return 0;
}
""", sources=PL, shims=True)

seed("P18-secular-date", "P18",
     "a low-precision planet asked for an epoch before 2000",
     "The centuries before 2000 are counted from another instant (half a day off the published one).",
     [("src/udpla/jpl_lp.cpp", "double dt = (mjd2000 - 0.5) / 36525.;", "double dt = (mjd2000 < 0. ? mjd2000 : mjd2000 - 0.5) / 36525.;")],
     PRE + r"""
#include <kep3/udpla/jpl_lp.hpp>
int main()
{
    // the mean longitude of the Earth advances by 35999.37 degrees a century at any epoch: no jump at 2000
    kep3::udpla::jpl_lp e{"earth"};
    auto a = e.eph(-0.5), b = e.eph(0.5), c = e.eph(1.5);
    double d1 = dist(a[0], b[0]), d2 = dist(b[0], c[0]);
    std::printf("%g %g\n", d1, d2);
    return std::abs(d1 - d2) < 1e-2 * d2 ? 0 : 1;
}
""", sources=PL + ["src/udpla/jpl_lp.cpp"], shims=True)

seed("P18-period-retro", "P18",
     "a Keplerian planet built from a state (not elements) of an elliptic orbit, queried for its period after being archived",
     "The flag of elliptic orbits is archived before it is set from the state: planets built from states of hyperbolas report a mean anomaly after a save and restore.",
     [("include/kep3/udpla/keplerian.hpp", "        ar &m_ellipse;", "        bool ell = m_ellipse || m_kep_f_elements[1] > 1.;\n        ar & ell;\n        m_ellipse = ell;")],
     PRE + r"""
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <kep3/udpla/keplerian.hpp>
int main()
{
    kep3::planet p{kep3::udpla::keplerian(kep3::epoch(0.), RV{V3{1, 0.1, 0.2}, V3{0.1, 1.7, 0.2}}, 1.)}, q;
    std::stringstream ss;
    {
        boost::archive::binary_oarchive o(ss);
        o << p;
    }
    boost::archive::binary_iarchive i(ss);
    i >> q;
    for (auto *x : {&p, &q})
        try {
            x->elements(0., kep3::elements_type::KEP_M);
            return std::printf("a mean anomaly for a hyperbola\n"), 1;
        } catch (const std::logic_error &) {
        }
    return 0;
}
""", sources=PL + ["src/udpla/keplerian.cpp"], shims=True)

FB = PL + ["src/core_astro/flyby.cpp"]
seed("P19-plane-angle", "P19",
     "an outgoing velocity with a plane angle beyond a half turn",
     "The sine of the plane angle is computed from its cosine: angles in (pi, 2 pi) give the mirror plane.",
     [("src/core_astro/flyby.cpp", "    std::array<double, 3> k_hat = linalg::_cross(i_hat, j_hat);", "    std::array<double, 3> k_hat = linalg::_cross(i_hat, j_hat);\n    beta = std::fmod(beta, 2 * pi);\n    if (beta > pi) {\n        beta = 2 * pi - beta;\n    }")],
     PRE + r"""
#include <kep3/core_astro/flyby.hpp>
int main()
{
    V3 in{1, 0.3, 0.1}, pl{0.2, 1, 0};
    for (double b : {0.3, 2., 4., 5.5, -1.}) {
        auto x = kep3::fb_vout(in, pl, 1.2, b, 1.), y = kep3::fb_vout(in, pl, 1.2, b + M_PI, 1.);
        // opposite plane angles: the two outgoing velocities average to the component along the incoming one
        V3 rel = sub(in, pl), m{(x[0] + y[0]) / 2 - pl[0], (x[1] + y[1]) / 2 - pl[1], (x[2] + y[2]) / 2 - pl[2]};
        double c = (m[0] * rel[0] + m[1] * rel[1] + m[2] * rel[2]) / (norm(rel) * norm(m));
        if (!(std::abs(std::abs(c) - 1) < 1e-9)) return std::printf("beta %g: %g\n", b, c), 1;
    }
    return 0;
}
""", sources=FB, shims=True)

if __name__ == "__main__":
    main()

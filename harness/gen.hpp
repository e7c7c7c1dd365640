// Generators of astrodynamical inputs over many regimes. Values are rounded to double before use.
#pragma once
#include "common.hpp"
#include "ref.hpp"
namespace vf
{
using rv_t = std::array<std::array<double, 3>, 2>;

struct Orbit {
    double mu, a, e, inc, W, w, f; // as drawn (the state is the rounded one)
    rv_t rv;
    std::string regime;
};

inline void units(Rng &g, double &mu, double &L)
{
    switch (g.n(6)) {
        case 0:
        case 1:
            mu = 1.;
            L = 1.;
            break;
        case 2:
            mu = 1.32712440018e20;
            L = 1.495978707e11;
            break;
        case 3:
            mu = 3.986004418e14;
            L = 7e6;
            break;
        case 4:
            mu = g.logu(1e-6, 1e21);
            L = g.logu(1e-4, 1e12);
            break;
        default:
            mu = 1.;
            L = g.logu(1e-3, 1e3);
    }
}

inline double angle(Rng &g) // [0, 2pi), sometimes exactly or nearly on a quadrant boundary
{
    const double r = g.u();
    if (r < 0.8) return g.u(0, 2 * M_PI);
    const double q = static_cast<double>(g.n(4)) * M_PI / 2;
    if (r < 0.87) return q;
    double x = q + g.sgn() * g.logu(1e-12, 1e-2);
    if (x < 0) x += 2 * M_PI;
    return x;
}
inline double inclination(Rng &g, bool singular)
{
    const double r = g.u();
    if (r < 0.75) return std::acos(g.u(-1, 1));
    if (r < 0.80) return M_PI / 2;
    if (r < 0.88) return g.logu(1e-6, 1e-1);
    if (r < 0.96) return M_PI - g.logu(1e-6, 1e-1);
    if (singular) return g.p(0.5) ? 0. : M_PI;
    return g.u(0.1, 3.0);
}
// e regimes: 0 circular-ish, 1 ordinary, 2 high, 3 hyperbolic mild, 4 hyperbolic ordinary, 5 strongly hyperbolic
inline double eccentricity(Rng &g, std::string &reg, bool exact_zero, int force = -1)
{
    int k = force;
    if (k < 0) {
        const double r = g.u();
        k = r < 0.12 ? 0 : r < 0.5 ? 1 : r < 0.64 ? 2 : r < 0.74 ? 3 : r < 0.92 ? 4 : 5;
    }
    switch (k) {
        case 0:
            reg = "near-circular";
            if (exact_zero && g.p(0.3)) return 0.;
            return g.logu(1e-9, 0.02);
        case 1:
            reg = "ellipse";
            return g.u(0.02, 0.9);
        case 2:
            reg = "high-e-ellipse";
            return 1. - g.logu(1e-4, 1e-1);
        case 3:
            reg = "low-e-hyperbola";
            return 1. + g.logu(1e-4, 1e-1);
        case 4:
            reg = "hyperbola";
            return g.u(1.1, 6.);
        default:
            reg = "high-e-hyperbola";
            return g.logu(6., 200.);
    }
}
inline Orbit orbit(Rng &g, bool exact_zero_e, bool singular_i, int force = -1)
{
    Orbit o;
    double L;
    units(g, o.mu, L);
    o.e = eccentricity(g, o.regime, exact_zero_e, force);
    L *= g.logu(0.2, 5.);
    // For high eccentricities keep either pericentre or semi-major axis at the length scale
    if (o.e < 1)
        o.a = g.p(0.5) ? L : L / (1 - o.e);
    else
        o.a = g.p(0.5) ? -L : -L / (o.e - 1);
    if (!std::isfinite(o.a)) o.a = L;
    o.inc = inclination(g, singular_i);
    o.W = angle(g);
    o.w = angle(g);
    if (o.e < 1) {
        if (g.p(0.5))
            o.f = angle(g);
        else { // uniform in eccentric anomaly
            const double E = g.u(-M_PI, M_PI);
            o.f = 2 * std::atan2(std::sqrt(1 + o.e) * std::sin(E / 2), std::sqrt(1 - o.e) * std::cos(E / 2));
            if (o.f < 0) o.f += 2 * M_PI;
        }
    } else {
        const double fmax = std::acos(-1 / o.e);
        const double r = g.u();
        if (r < 0.1)
            o.f = 0.;
        else if (r < 0.75)
            o.f = g.u(-0.95, 0.95) * fmax;
        else { // in hyperbolic anomaly, far out on the asymptotes
            const double H = g.u(-4., 4.);
            o.f = 2 * std::atan(std::sqrt((o.e + 1) / (o.e - 1)) * std::tanh(H / 2));
        }
        if (o.f < 0) o.f += 2 * M_PI;
    }
    o.rv = ref::toD(ref::par2ic(o.a, o.e, o.inc, o.W, o.w, o.f, o.mu));
    return o;
}
inline double period(const Orbit &o) { return 2 * M_PI * std::sqrt(std::abs(o.a)) * std::abs(o.a) / std::sqrt(o.mu); }

// A time of flight for the orbit, with its regime
inline double tof_for(Rng &g, const Orbit &o, std::string &reg)
{
    const double P = period(o);
    const double r = g.u();
    double t;
    if (r < 0.03) {
        reg = "zero";
        return 0.;
    }
    if (o.e < 1) {
        if (r < 0.45) {
            reg = "within-period";
            t = g.u(0, 1) * P;
        } else if (r < 0.6) {
            reg = "short";
            t = g.logu(1e-9, 1e-1) * P;
        } else if (r < 0.8) {
            reg = "few-revs";
            t = g.u(1, 10) * P;
        } else if (r < 0.9) {
            reg = "many-revs";
            t = g.logu(10, 2000) * P;
        } else {
            reg = "whole-half-revs";
            t = static_cast<double>(g.n(9)) * P / 2;
        }
    } else {
        const double T = P / (2 * M_PI); // time unit: mean hyperbolic anomaly 1
        if (r < 0.5) {
            reg = "hyp-moderate";
            t = g.u(0, 10) * T;
        } else if (r < 0.75) {
            reg = "hyp-short";
            t = g.logu(1e-9, 1e-1) * T;
        } else {
            reg = "hyp-long";
            t = g.logu(10, 1e5) * T;
        }
    }
    return g.sgn() * t;
}
inline std::array<double, 3> unit(Rng &g)
{
    while (true) {
        std::array<double, 3> x{g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)};
        const double n = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
        if (n > 0.05 && n <= 1) return {x[0] / n, x[1] / n, x[2] / n};
    }
}
} // namespace vf

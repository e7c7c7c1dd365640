// Any kind of orbital elements to a state, in quad precision, with none of kep3's code.
#pragma once
#include "gen.hpp"
#include <kep3/core_astro/constants.hpp>
namespace vf
{
inline ref::RV ref_meq2ic(const std::array<double, 6> &e, ref::Q mu, int I)
{
    using ref::Q;
    const Q p = e[0], f = e[1], g = e[2], h = e[3], k = e[4], L = e[5];
    const Q s2 = 1 + h * h + k * k;
    const ref::V3 F{(1 - k * k + h * h) / s2, 2 * k * h / s2, -2 * I * k / s2};
    const ref::V3 w{2 * k / s2, -2 * h / s2, I * (1 - h * h - k * k) / s2};
    const ref::V3 G = ref::cross(w, F);
    const Q c = cosq(L), s = sinq(L), r = p / (1 + f * c + g * s), v = sqrtq(mu / p);
    ref::RV o;
    for (int j = 0; j < 3; ++j) {
        o.r[j] = r * (c * F[j] + s * G[j]);
        o.v[j] = v * (-(g + s) * F[j] + (f + c) * G[j]);
    }
    return o;
}
inline ref::Q ref_m2f(ref::Q M, ref::Q e)
{
    using ref::Q;
    M = fmodq(M, 2 * ref::PI);
    Q lo = M - e - 1e-3Q, hi = M + e + 1e-3Q, E = M;
    for (int i = 0; i < 300; ++i) {
        const Q F = E - e * sinq(E) - M;
        (F > 0 ? hi : lo) = E;
        Q n = E - F / (1 - e * cosq(E));
        if (!(n > lo && n < hi)) n = (lo + hi) / 2;
        const Q s = fabsq(n - E);
        E = n;
        if (s < 1e-33Q * (1 + fabsq(E))) break;
    }
    return 2 * atan2q(sqrtq(1 + e) * sinq(E / 2), sqrtq(1 - e) * cosq(E / 2));
}
inline ref::RV ref_elements2ic(int kind, const std::array<double, 6> &e, ref::Q mu)
{
    switch (kind) {
        case kep3::elements_type::KEP_F:
            return ref::par2ic(e[0], e[1], e[2], e[3], e[4], e[5], mu);
        case kep3::elements_type::KEP_M:
            return ref::par2ic(e[0], e[1], e[2], e[3], e[4], ref_m2f(e[5], e[1]), mu);
        case kep3::elements_type::MEQ:
            return ref_meq2ic(e, mu, 1);
        default:
            return ref_meq2ic(e, mu, -1);
    }
}
inline const char *kind_name(int k)
{
    static const char *n[] = {"KEP_M", "KEP_F", "MEQ", "MEQ_R", "POSVEL"};
    return n[k];
}
// A tame orbit: no element is close to a singularity, so that all kinds can be compared tightly.
inline Orbit tame(Rng &g, bool hyper)
{
    Orbit o;
    double L;
    units(g, o.mu, L);
    L *= g.logu(0.2, 5.);
    o.e = hyper ? g.u(1.2, 3.) : g.u(0.01, 0.9);
    o.a = hyper ? -L : L;
    o.inc = g.u(0.1, 2.9);
    auto ang = [&] {
        for (;;) {
            const double x = g.u(0, 2 * M_PI);
            if (std::abs(std::sin(x)) > 1e-3) return x;
        }
    };
    o.W = ang();
    o.w = ang();
    if (!hyper)
        o.f = ang();
    else {
        o.f = g.sgn() * g.u(0.01, 0.9) * std::acos(-1 / o.e);
        if (o.f < 0) o.f += 2 * M_PI;
    }
    o.regime = hyper ? "hyperbola" : "ellipse";
    o.rv = ref::toD(ref::par2ic(o.a, o.e, o.inc, o.W, o.w, o.f, o.mu));
    return o;
}
} // namespace vf

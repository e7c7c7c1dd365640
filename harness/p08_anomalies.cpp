// P08: anomaly conversions.
#include "bounds.hpp"
#include <kep3/core_astro/convert_anomalies.hpp>
using namespace vf;
using ref::Q;

namespace
{
Q solve_m2e(Q M, Q e) // quad Newton with bisection
{
    M = ref::angdiff(M, 0);
    Q lo = -ref::PI, hi = ref::PI, E = M;
    for (int i = 0; i < 300; ++i) {
        const Q f = E - e * sinq(E) - M;
        if (f > 0) hi = E; else lo = E;
        Q n = E - f / (1 - e * cosq(E));
        if (!(n > lo && n < hi)) n = (lo + hi) / 2;
        if (fabsq(n - E) < 1e-33Q * (1e-10Q + fabsq(n))) return n;
        E = n;
    }
    return E;
}
Q solve_n2h(Q N, Q e)
{
    const Q s = N < 0 ? -1 : 1, A = fabsq(N);
    Q lo = 0, hi = 1;
    while (e * sinhq(hi) - hi < A) hi *= 2;
    Q H = asinhq(A / e);
    if (!(H > lo && H < hi)) H = (lo + hi) / 2;
    for (int i = 0; i < 400; ++i) {
        const Q f = e * sinhq(H) - H - A;
        if (f > 0) hi = H; else lo = H;
        Q n = H - f / (e * coshq(H) - 1);
        if (!(n > lo && n < hi)) n = (lo + hi) / 2;
        if (fabsq(n - H) < 1e-33Q * fabsq(n)) { H = n; break; }
        H = n;
    }
    return s * H;
}
Q half(Q k, Q f) { return 2 * atanq(k * tanq(f / 2)); }
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 8, [](Recorder &rec, Rng &g, long) {
        const double K = rec.opt.mode == "calib" ? 1 : 40;
        auto ang = [&] { return g.p(0.8) ? g.u(-M_PI, M_PI) : g.p(0.3) ? g.sgn() * M_PI : g.p(0.2) ? 0. : g.p(0.5) ? g.sgn() * g.logu(1e-12, 1e-2) : g.sgn() * (M_PI - g.logu(1e-12, 1e-2)); };
        const bool ell = g.p(0.5);
        double e;
        if (ell)
            e = g.p(0.1) ? 0. : g.p(0.6) ? g.u(0, 0.95) : 1 - g.logu(1e-6, 1e-1);
        else
            e = g.p(0.5) ? g.u(1.05, 5) : g.p(0.6) ? 1 + g.logu(1e-6, 1e-1) : g.logu(5, 1e4);
        const Q q = e;
        rec.ev(ell ? "ellipse" : "hyperbola");
        auto mk = [&](const char *fn, double x) {
            return [=] { return J().t("call", fn).d("x", x).d("ecc", e).str(); };
        };
        auto chk = [&](const char *fn, double x, double got, Q want, double bound, bool angle) {
            rec.check(fn, ref::d(fabsq(angle ? ref::angdiff(got, want) : Q(got) - want)), K * bound, mk(fn, x));
        };
        auto rng = [&](const char *fn, double x, double got) {
            rec.require(std::string(fn) + ":range", std::abs(got) <= M_PI * (1 + 1e-12), mk(fn, x));
        };
        const double NaNs = std::nan("");
        (void)NaNs;
        try {
            if (ell) {
                const Q s = sqrtq((1 - q) / (1 + q));
                double M = ang();
                if (g.p(0.4)) M += 2 * M_PI * std::floor(g.u(-5000, 5000));
                // m2e: Kepler's equation, residual modulo 2 pi
                const double E1 = kep3::m2e(M, e);
                const Q res = ref::angdiff(Q(E1) - q * sinq(E1), Q(M));
                rec.check("m2e:residual", ref::d(fabsq(res)), K * EPS * (4 + std::abs(E1)), mk("m2e", M));
                const Q Er = solve_m2e(M, q);
                const double dEdM = 1 / ref::d(1 - q * cosq(Er));
                rec.check("m2e:anomaly", ref::d(fabsq(ref::angdiff(E1, Er))), K * EPS * (8 * std::min(dEdM, 1e12) + 4) + 1e-300, mk("m2e", M));
                rng("m2e", M, E1);
                double E = ang();
                if (g.p(0.2)) E += 2 * M_PI * std::floor(g.u(-50, 50));
                chk("e2m", E, kep3::e2m(E, e), Q(E) - q * sinq(E), EPS * (std::abs(E) + 2), false);
                const double f1 = kep3::e2f(E, e);
                chk("e2f", E, f1, half(1 / s, E), EPS * 8, true);
                rng("e2f", E, f1);
                double f = ang();
                if (g.p(0.2)) f += 2 * M_PI * std::floor(g.u(-50, 50));
                const double E2 = kep3::f2e(f, e);
                const Q E2r = half(s, f);
                chk("f2e", f, E2, E2r, EPS * 8, true);
                rng("f2e", f, E2);
                const double M2 = kep3::f2m(f, e);
                chk("f2m", f, M2, E2r - q * sinq(E2r), EPS * 16, true);
                rng("f2m", f, M2);
                const double f3 = kep3::m2f(M, e);
                const Q f3r = half(1 / s, Er);
                const double k = ref::d(1 - q * cosq(Er));
                chk("m2f", M, f3, f3r, EPS * (8 + 8 * std::sqrt(1 - e * e) / (k * k)), true);
                rng("m2f", M, f3);
                // inverses through the library itself
                chk("f2e(e2f)", E, kep3::f2e(f1, e), Q(E), EPS * (16 + 16 * ref::d((1 - q * cosq(Q(E))) / sqrtq(1 - q * q)) + std::abs(E)), true);
                if (dEdM < 1e6) chk("e2m(m2e)", M, kep3::e2m(E1, e), Q(M), EPS * 16, true);
                // wrong conic
                for (double x : {M, E, f, 0.})
                    rec.require("nan:hyperbolic-on-ellipse", std::isnan(kep3::zeta2f(x, e)) && std::isnan(kep3::f2zeta(x, e)) && std::isnan(kep3::n2h(x, e)) && std::isnan(kep3::h2n(x, e)) && std::isnan(kep3::h2f(x, e)) && std::isnan(kep3::f2h(x, e)) && std::isnan(kep3::n2f(x, e)) && std::isnan(kep3::f2n(x, e)), mk("hyperbolic conversions", x));
                rec.nontriv(hash_vec(std::array<double, 4>{M, E, f, e}));
                rec.sample(mk("m2e", M));
            } else {
                const Q s = sqrtq((q - 1) / (1 + q));
                const double fl = std::acos(-1 / e);
                double f = g.p(0.7) ? g.u(-1, 1) * fl : g.sgn() * (g.p(0.5) ? fl * (1 - g.logu(1e-10, 1e-1)) : g.logu(1e-12, 1e-1) * fl);
                double N = g.p(0.5) ? g.sgn() * g.logu(1e-10, 1e2) : g.p(0.2) ? 0. : g.p(0.5) ? g.u(-20, 20) : g.sgn() * g.logu(1e2, 1e8);
                double H = g.p(0.5) ? g.u(-6, 6) : g.p(0.2) ? 0. : g.p(0.5) ? g.sgn() * g.logu(1e-10, 1) : g.u(-30, 30);
                const double H1 = kep3::n2h(N, e);
                const double nz = e * std::abs(std::sinh(H1)) + std::abs(H1) * (1 + std::abs(e * std::cosh(H1) - 1));
                rec.check("n2h:residual", ref::d(fabsq(q * sinhq(H1) - H1 - N)), K * EPS * (4 * nz + std::abs(N)) + 1e-300, mk("n2h", N));
                const Q Hr = solve_n2h(N, q);
                const double slope = ref::d(q * coshq(Hr) - 1);
                chk("n2h:anomaly", N, H1, Hr, EPS * ((4 * nz + std::abs(N)) / slope + std::abs(H1)) + EPS, false);
                const double nH = e * std::abs(std::sinh(H)) + std::abs(H);
                chk("h2n", H, kep3::h2n(H, e), q * sinhq(H) - H, EPS * 4 * nH + 1e-300, false);
                const double f1 = kep3::h2f(H, e);
                chk("h2f", H, f1, 2 * atanq(1 / s * tanhq(Q(H) / 2)), EPS * 8, true);
                rng("h2f", H, f1);
                const double f3 = kep3::n2f(N, e);
                chk("n2f", N, f3, 2 * atanq(1 / s * tanhq(Hr / 2)), EPS * (8 + (4 * nz + std::abs(N)) / slope * std::sqrt(e * e - 1) / slope), true);
                rng("n2f", N, f3);
                const Q x = s * tanq(Q(f) / 2);
                const double om = ref::d(1 - x * x);
                if (om > 1e-9) {
                    const Q H2 = 2 * atanhq(x);
                    const double dH = EPS * (12 * std::abs(ref::d(x)) / om + std::abs(ref::d(H2)));
                    chk("f2h", f, kep3::f2h(f, e), H2, dH + 1e-300, false);
                    const Q N2 = q * sinhq(H2) - H2;
                    chk("f2n", f, kep3::f2n(f, e), N2, dH * std::abs(ref::d(q * coshq(H2) + 1)) + EPS * 4 * (e * std::abs(ref::d(sinhq(H2))) + std::abs(ref::d(H2))) + 1e-300, false);
                    // Gudermannian: tan(zeta/2) = tanh(H/2)
                    const double z = kep3::f2zeta(f, e);
                    chk("f2zeta", f, z, 2 * atanq(x), EPS * 8, true);
                    rng("f2zeta", f, z);
                    chk("zeta2f", z, kep3::zeta2f(z, e), 2 * atanq(1 / s * tanq(Q(z) / 2)), EPS * 8, true);
                    const double back = kep3::h2f(kep3::f2h(f, e), e);
                    chk("h2f(f2h)", f, back, Q(f), EPS * 16 + dH * std::sqrt(e * e - 1) / std::abs(ref::d(q * coshq(H2) - 1)), true);
                }
                const double zz = g.u(-1, 1) * M_PI / 2;
                const double fz = kep3::zeta2f(zz, e);
                chk("zeta2f", zz, fz, 2 * atanq(1 / s * tanq(Q(zz) / 2)), EPS * 8, true);
                rng("zeta2f", zz, fz);
                for (double y : {N, H, f, 0.})
                    rec.require("nan:elliptic-on-hyperbola", std::isnan(kep3::m2e(y, e)) && std::isnan(kep3::e2m(y, e)) && std::isnan(kep3::e2f(y, e)) && std::isnan(kep3::f2e(y, e)) && std::isnan(kep3::m2f(y, e)) && std::isnan(kep3::f2m(y, e)), mk("elliptic conversions", y));
                rec.nontriv(hash_vec(std::array<double, 4>{N, H, f, e}));
                rec.sample(mk("n2h", N));
            }
            if (g.p(0.05)) { // exactly parabolic: neither
                const double y = g.u(-3, 3);
                rec.require("nan:parabola", std::isnan(kep3::m2e(y, 1.)) && std::isnan(kep3::e2m(y, 1.)) && std::isnan(kep3::e2f(y, 1.)) && std::isnan(kep3::f2e(y, 1.)) && std::isnan(kep3::m2f(y, 1.)) && std::isnan(kep3::f2m(y, 1.)) && std::isnan(kep3::zeta2f(y, 1.)) && std::isnan(kep3::f2zeta(y, 1.)) && std::isnan(kep3::n2h(y, 1.)) && std::isnan(kep3::h2n(y, 1.)) && std::isnan(kep3::h2f(y, 1.)) && std::isnan(kep3::f2h(y, 1.)) && std::isnan(kep3::n2f(y, 1.)) && std::isnan(kep3::f2n(y, 1.)), mk("parabola", y));
            }
        } catch (const std::exception &ex) {
            rec.violate("throws", ex.what(), mk("case", e)());
        }
    });
}

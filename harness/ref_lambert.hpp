// Independent quad-precision Lambert machinery: Lagrange time equation, minimum time per revolution count, roots.
#pragma once
#include "bounds.hpp"
namespace ref
{
// Non-dimensional time of flight T = tof*sqrt(2 mu/s^3) as a function of x (Lagrange form).
inline Q lam_T(Q x, Q lam, int N)
{
    const Q om = (1 - x) * (1 + x);
    const Q z = sqrtq((1 - lam * lam) + lam * lam * x * x); // y of the literature
    if (fabsq(om) < 1e-9Q) { // series about the parabola, N=0 only (T is infinite otherwise)
        const Q t1 = 2.0Q / 3.0Q * (1 - lam * lam * lam), d = 2.0Q / 5.0Q * (lam * lam * lam * lam * lam - 1);
        return t1 + d * (x - 1);
    }
    if (om > 0) {
        const Q s = sqrtq(om);
        const Q alpha = 2 * atan2q(s, x), beta = 2 * atan2q(lam * s, z);
        return ((alpha - sinq(alpha)) - (beta - sinq(beta)) + 2 * PI * N) / (2 * om * s);
    }
    const Q s = sqrtq(-om);
    const Q alpha = 2 * asinhq(s), beta = 2 * asinhq(lam * s);
    return ((sinhq(alpha) - alpha) - (sinhq(beta) - beta)) / (2 * (-om) * s);
}
inline Q lam_dT(Q x, Q lam, Q T)
{
    const Q om = (1 - x) * (1 + x), y = sqrtq((1 - lam * lam) + lam * lam * x * x), l3 = lam * lam * lam;
    if (fabsq(om) < 1e-9Q) return 2.0Q / 5.0Q * (l3 * lam * lam - 1);
    return (3 * T * x - 2 + 2 * l3 * x / y) / om;
}
inline Q lam_dT(Q x, Q lam, int N) { return lam_dT(x, lam, lam_T(x, lam, N)); }
// x of the minimum time for N >= 1
inline Q lam_xmin(Q lam, int N)
{
    Q lo = -1 + 1e-12Q, hi = 1 - 1e-12Q;
    // the derivative changes sign once: negative on the left, positive on the right; Illinois method
    Q flo = -1, fhi = 1; // signs only
    for (int i = 0; i < 120; ++i) {
        const Q m = (lo + hi) / 2, f = lam_dT(m, lam, N);
        if (f < 0) {
            lo = m;
            flo = f;
        } else {
            hi = m;
            fhi = f;
        }
        if (hi - lo < 1e-8Q) break;
    }
    for (int i = 0; i < 60; ++i) { // secant with safeguard
        Q m = lo - flo * (hi - lo) / (fhi - flo);
        if (!(m > lo && m < hi)) m = (lo + hi) / 2;
        const Q f = lam_dT(m, lam, N);
        if (f == 0) return m;
        if (f < 0) {
            lo = m;
            flo = f;
            fhi /= 2;
        } else {
            hi = m;
            fhi = f;
            flo /= 2;
        }
        if (hi - lo < 1e-24Q) break;
    }
    return (lo + hi) / 2;
}
// Root of T(x)=T in (lo,hi), T monotone there (decreasing when dec).
inline Q lam_root(Q lo, Q hi, Q lam, int N, Q T, bool dec, Q guess)
{
    Q x = guess > lo && guess < hi ? guess : (lo + hi) / 2;
    for (int i = 0; i < 300; ++i) {
        const Q t = lam_T(x, lam, N);
        const Q f = t - T;
        if (f == 0) return x;
        if ((f > 0) == dec)
            lo = x;
        else
            hi = x;
        const Q d = lam_dT(x, lam, t);
        Q n = x - f / d;
        if (!(n > lo && n < hi)) n = (lo + hi) / 2;
        if (fabsq(n - x) < 1e-31Q * fabsq(1 + n) || hi - lo < 1e-31Q * fabsq(1 + n)) return n;
        x = n;
    }
    return x;
}
struct LamGeo {
    Q c, s, lam, T, R0, R1, sin_theta;
    int dir; // +1: counter-clockwise about the (positive z) normal of the plane
    V3 ih;   // normal with positive z
};
inline LamGeo lam_geo(const V3 &r0, const V3 &r1, Q tof, Q mu, bool cw)
{
    LamGeo g;
    g.R0 = norm(r0);
    g.R1 = norm(r1);
    g.c = norm(sub(r1, r0));
    g.s = (g.c + g.R0 + g.R1) / 2;
    const V3 h = cross(r0, r1);
    g.sin_theta = norm(h) / (g.R0 * g.R1);
    // angle travelled, counter-clockwise seen from +z (or clockwise)
    const Q cz = h[2] > 0 ? 1 : -1;
    g.ih = mul(cz / norm(h), h);
    Q th = atan2q(cz * norm(h), dot(r0, r1)); // signed, about the +z normal
    if (cw) th = -th;
    if (th < 0) th += 2 * PI;
    g.dir = cw ? -1 : 1;
    g.lam = sqrtq(g.R0 * g.R1) / g.s * cosq(th / 2);
    g.T = tof * sqrtq(2 * mu / g.s) / g.s;
    return g;
}
struct LamSol {
    int revs;
    Q x;
    V3 v0, v1;
};
inline LamSol lam_sol(const LamGeo &g, const V3 &r0, const V3 &r1, Q mu, int N, Q x)
{
    LamSol o;
    o.revs = N;
    o.x = x;
    const Q gam = sqrtq(mu * g.s / 2), rho = (g.R0 - g.R1) / g.c;
    const Q sig = sqrtq(g.R0 * g.R1) / g.c * 2 * sqrtq((1 - dot(r0, r1) / (g.R0 * g.R1)) / 2);
    const Q y = sqrtq((1 - g.lam * g.lam) + g.lam * g.lam * x * x);
    const V3 i0 = mul(1 / g.R0, r0), i1 = mul(1 / g.R1, r1);
    const V3 n = mul(g.dir, g.ih), t0 = cross(n, i0), t1 = cross(n, i1);
    const Q a = gam * ((g.lam * y - x) - rho * (g.lam * y + x)), b = -gam * ((g.lam * y - x) + rho * (g.lam * y + x)), t = gam * sig * (y + g.lam * x);
    o.v0 = add(mul(a / g.R0, i0), mul(t / g.R0, t0));
    o.v1 = add(mul(b / g.R1, i1), mul(t / g.R1, t1));
    return o;
}
struct LamRef {
    LamGeo g;
    std::vector<Q> tmin; // tmin[k]: minimum time with k revolutions (k>=1)
    std::vector<Q> xmin;
    int N = 0;           // feasible revolutions (capped)
    double margin = 1;   // smallest relative distance of T to a minimum time that decides N
    std::vector<LamSol> sol;
};
inline LamRef lam_solve(const V3 &r0, const V3 &r1, Q tof, Q mu, bool cw, unsigned cap, bool roots = true)
{
    LamRef L;
    L.g = lam_geo(r0, r1, tof, mu, cw);
    L.tmin.push_back(0);
    L.xmin.push_back(0);
    const Q T = L.g.T, lam = L.g.lam;
    if (cap > 0) {
        const double top = d(T / PI);
        int n = static_cast<int>(top) + 1; // T_min(N) >= N pi
        if (static_cast<unsigned>(n) > cap) n = static_cast<int>(cap);
        // T_min(N-1) <= T0(N-1) <= N pi <= T: only the last candidates can be infeasible
        L.N = 0;
        for (int k = n; k >= 1 && k >= n - 2; --k) {
            const Q xm = lam_xmin(lam, k), tm = lam_T(xm, lam, k);
            L.margin = std::min(L.margin, std::abs(d((T - tm) / tm)));
            if (T >= tm) {
                L.N = k;
                break;
            }
        }
    }
    if (!roots) return L;
    // zero revolutions: T decreasing on (-1, inf)
    {
        Q hi = 2;
        while (lam_T(hi, lam, 0) > T) hi *= 2;
        Q lo = hi > 2 ? hi / 2 : -1 + 1e-12Q;
        L.sol.push_back(lam_sol(L.g, r0, r1, mu, 0, lam_root(lo, hi, lam, 0, T, true, -2)));
    }
    for (int k = 1; k <= L.N; ++k) {
        const Q xm = lam_xmin(lam, k);
        L.sol.push_back(lam_sol(L.g, r0, r1, mu, k, lam_root(-1 + 1e-14Q, xm, lam, k, T, true, -2)));
        L.sol.push_back(lam_sol(L.g, r0, r1, mu, k, lam_root(xm, 1 - 1e-14Q, lam, k, T, false, -2)));
    }
    return L;
}
} // namespace ref

namespace vf
{
struct LamCase {
    std::array<double, 3> r0, r1;
    double tof, mu;
    bool cw;
    unsigned cap;
    std::string regime;
};
inline LamCase lambert_case(Rng &g, bool many)
{
    LamCase c;
    double L;
    units(g, c.mu, L);
    L *= g.logu(0.2, 5);
    const double q = g.u();
    std::string geo;
    double th;
    if (q < 0.6) {
        th = g.u(0.02, 2 * M_PI - 0.02);
        geo = "generic";
    } else if (q < 0.7) {
        th = M_PI + g.sgn() * g.logu(1e-5, 1e-1);
        geo = "near-pi";
    } else if (q < 0.8) {
        th = g.logu(1e-4, 1e-1);
        if (g.p(0.5)) th = 2 * M_PI - th;
        geo = "near-0";
    } else {
        const double qs[] = {M_PI / 2, M_PI / 3, 1., 2 * M_PI / 3, 3 * M_PI / 2};
        th = qs[g.n(5)];
        geo = "special";
    }
    double ratio = g.p(0.15) ? 1. : g.p(0.8) ? g.logu(0.1, 10) : g.logu(1e-3, 1e3);
    // plane
    const double inc = inclination(g, true), W = angle(g), u0 = angle(g);
    auto at = [&](double R, double u) {
        const double cu = std::cos(u), su = std::sin(u), cW = std::cos(W), sW = std::sin(W), ci = std::cos(inc), si = std::sin(inc);
        return std::array<double, 3>{R * (cW * cu - sW * su * ci), R * (sW * cu + cW * su * ci), R * su * si};
    };
    c.r0 = at(L, u0);
    c.r1 = at(L * ratio, u0 + th);
    if (inc == 0. || inc == M_PI) c.r0[2] = c.r1[2] = 0;
    c.cw = g.p(0.4);
    // non-dimensional time
    const ref::LamGeo G = ref::lam_geo(ref::toQ(c.r0), ref::toQ(c.r1), 1, c.mu, c.cw);
    const double lam = ref::d(G.lam);
    const double T00 = std::acos(lam) + lam * std::sqrt(1 - lam * lam), T1 = 2. / 3. * (1 - lam * lam * lam);
    double T;
    std::string tr;
    const double z = g.u();
    const bool close = g.p(0.3);
    if (z < 0.25) {
        T = T00 * g.logu(0.1, 10);
        tr = "ordinary";
    } else if (z < 0.35) {
        T = T1 * g.logu(1e-3, 1);
        tr = "hyperbolic";
    } else if (z < 0.42) {
        T = T1 * (1 + g.sgn() * g.logu(1e-6, 0.2));
        tr = "near-parabolic";
    } else if (z < 0.48) {
        T = T00 * (1 + g.sgn() * g.logu(1e-6, 0.2));
        tr = "near-min-energy";
    } else if (z < 0.72) {
        T = g.u(M_PI, 12 * M_PI);
        tr = "multi-rev";
    } else if (z < 0.92) {
        const int k = 1 + static_cast<int>(g.n(g.p(0.8) ? 4 : 20));
        const ref::Q xm = ref::lam_xmin(G.lam, k);
        const double tm = ref::d(ref::lam_T(xm, G.lam, k));
        T = tm * (1 + g.sgn() * (close ? g.logu(1e-8, 1e-4) : g.logu(1e-4, 3e-1)));
        tr = "near-Tmin";
    } else {
        const double w = g.u();
        if (w < 0.6) {
            T = g.logu(10, many ? 1000 : 200);
            tr = "long";
        } else if (w < 0.85) {
            T = g.logu(1e3, 1e8);
            tr = "very-long";
        } else {
            T = T1 * g.logu(1e-7, 1e-3);
            tr = "very-short";
        }
    }
    c.tof = T / ref::d(sqrtq(2 * ref::Q(c.mu) / G.s) / G.s);
    const double m = g.u();
    c.cap = m < 0.15 ? 0 : m < 0.55 ? 1 + static_cast<unsigned>(g.n(5)) : m < 0.9 ? 1 + static_cast<unsigned>(g.n(12)) : m < 0.97 || !many ? 20 : 400;
    if ((!many || T > 1000) && c.cap > 12 && T > 60) c.cap = 12;
    c.regime = geo + "/" + tr;
    return c;
}
inline std::string lam_str(const LamCase &c)
{
    return J().a("r0", c.r0).a("r1", c.r1).d("tof", c.tof).d("mu", c.mu).i("cw", c.cw).i("multi_revs", c.cap).t("regime", c.regime).str();
}
} // namespace vf

// Independent reference mathematics in quad precision (113-bit). Nothing here uses kep3 code.
#pragma once
#include <array>
#include <cmath>
#include <quadmath.h>
#include <vector>

namespace ref
{
using Q = __float128;
using V3 = std::array<Q, 3>;
struct RV {
    V3 r, v;
};
inline const Q PI = M_PIq;
constexpr double EPS = 2.220446049250313e-16;

inline Q dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline Q norm(const V3 &a) { return sqrtq(dot(a, a)); }
inline V3 cross(const V3 &a, const V3 &b)
{
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline V3 add(const V3 &a, const V3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 mul(Q k, const V3 &a) { return {k * a[0], k * a[1], k * a[2]}; }
inline V3 toQ(const std::array<double, 3> &a) { return {a[0], a[1], a[2]}; }
inline RV toQ(const std::array<std::array<double, 3>, 2> &a) { return {toQ(a[0]), toQ(a[1])}; }
inline std::array<double, 3> toD(const V3 &a)
{
    return {static_cast<double>(a[0]), static_cast<double>(a[1]), static_cast<double>(a[2])};
}
inline std::array<std::array<double, 3>, 2> toD(const RV &x) { return {toD(x.r), toD(x.v)}; }
inline double d(Q x) { return static_cast<double>(x); }
inline double dist(const V3 &a, const std::array<double, 3> &b) { return d(norm(sub(a, toQ(b)))); }

// Stumpff functions c2(z), c3(z).
inline void stumpff(Q z, Q &c2, Q &c3)
{
    const Q az = z < 0 ? -z : z;
    if (az < 2) {
        Q t2 = 0.5Q, t3 = 1.0Q / 6.0Q;
        c2 = t2;
        c3 = t3;
        for (int k = 1; k < 40; ++k) {
            t2 *= -z / ((2 * k + 1) * (2 * k + 2));
            t3 *= -z / ((2 * k + 2) * (2 * k + 3));
            c2 += t2;
            c3 += t3;
            if ((t2 < 0 ? -t2 : t2) < 1e-36Q) break;
        }
        return;
    }
    if (z > 0) {
        const Q s = sqrtq(z);
        Q sn, cs;
        sincosq(s, &sn, &cs);
        c2 = (1 - cs) / z;
        c3 = (s - sn) / (z * s);
    } else {
        const Q s = sqrtq(-z);
        c2 = (coshq(s) - 1) / (-z);
        c3 = (sinhq(s) - s) / (-z * s);
    }
}

struct PropInfo {
    Q alpha = 0;   // 1/a
    Q chi = 0;     // universal anomaly, after removal of whole periods
    Q F = 1, G = 0, Ft = 0, Gt = 1;
    long revs = 0; // whole periods removed
    bool ok = true;
};

// Two-body propagation, universal variables, bracketed Newton. Whole periods are removed first.
inline RV kepler(const RV &x, Q dt, Q mu, PropInfo *info = nullptr)
{
    const Q R0 = norm(x.r), smu = sqrtq(mu);
    const Q alpha = 2 / R0 - dot(x.v, x.v) / mu;
    const Q s0 = dot(x.r, x.v) / smu;
    PropInfo I;
    I.alpha = alpha;
    if (alpha > 0) {
        const Q a = 1 / alpha;
        const Q P = 2 * PI * a * sqrtq(a) / smu;
        const Q k = rintq(dt / P);
        I.revs = static_cast<long>(k);
        dt -= k * P;
    }
    const Q target = smu * dt;
    auto fun = [&](Q c, Q &f, Q &df) {
        Q c2, c3;
        const Q z = alpha * c * c;
        stumpff(z, c2, c3);
        f = s0 * c * c * c2 + (1 - alpha * R0) * c * c * c * c3 + R0 * c - target;
        df = s0 * c * (1 - z * c3) + (1 - alpha * R0) * c * c * c2 + R0;
    };
    Q chi = 0;
    if (target != 0) {
        const Q sg = target > 0 ? 1 : -1;
        Q lo = 0, hi, f, df;
        // A first guess, then expansion of the bracket: F is increasing in chi with slope r > 0.
        Q guess = target / R0;
        if (alpha > 0) {
            const Q g2 = target * alpha;
            if ((g2 < 0 ? -g2 : g2) < (guess < 0 ? -guess : guess)) guess = g2;
        } else if (alpha < 0) {
            const Q sa = sqrtq(-1 / alpha);
            const Q cap = sg * sa * 3;
            if ((cap < 0 ? -cap : cap) < (guess < 0 ? -guess : guess)) guess = cap;
        }
        hi = guess;
        int n = 0;
        while (true) {
            fun(hi, f, df);
            if (f * sg >= 0) break;
            lo = hi;
            hi *= 2;
            if (++n > 300) {
                I.ok = false;
                break;
            }
        }
        chi = (lo + hi) / 2;
        Q last = (hi - lo) * sg;
        for (int it = 0; it < 400; ++it) {
            fun(chi, f, df);
            if (f == 0) break;
            if (f * sg > 0)
                hi = chi;
            else
                lo = chi;
            Q step = -f / df;
            Q nx = chi + step;
            const bool inside = (nx - lo) * sg > 0 && (hi - nx) * sg > 0;
            if (!inside || (it > 20 && (step < 0 ? -step : step) > last / 2)) {
                nx = (lo + hi) / 2;
                step = nx - chi;
            }
            last = step < 0 ? -step : step;
            const Q ac = nx < 0 ? -nx : nx;
            chi = nx;
            if (last <= ac * 4e-34Q) break;
        }
    }
    Q c2, c3;
    const Q z = alpha * chi * chi;
    stumpff(z, c2, c3);
    I.chi = chi;
    I.F = 1 - chi * chi * c2 / R0;
    I.G = dt - chi * chi * chi * c3 / smu;
    RV o;
    for (int i = 0; i < 3; ++i) o.r[i] = I.F * x.r[i] + I.G * x.v[i];
    const Q R = norm(o.r);
    I.Ft = smu / (R * R0) * (z * c3 - 1) * chi;
    I.Gt = 1 - chi * chi * c2 / R;
    for (int i = 0; i < 3; ++i) o.v[i] = I.Ft * x.r[i] + I.Gt * x.v[i];
    if (info) *info = I;
    return o;
}

using M6 = std::array<std::array<Q, 6>, 6>;
// d(final state)/d(initial state) by central differences of the quad flow (error about 1e-20 relative).
inline M6 stm(const RV &x, Q dt, Q mu, double rel = 1e-11)
{
    M6 m{};
    const Q R = norm(x.r), Vn = norm(x.v);
    for (int j = 0; j < 6; ++j) {
        RV p = x, q = x;
        Q h = (j < 3 ? R : (Vn > 0 ? Vn : sqrtq(mu / R))) * rel;
        // The step in position must also be small in time terms for long propagations
        (j < 3 ? p.r[j] : p.v[j - 3]) += h;
        (j < 3 ? q.r[j] : q.v[j - 3]) -= h;
        const RV a = kepler(p, dt, mu), b = kepler(q, dt, mu);
        for (int i = 0; i < 3; ++i) {
            m[i][j] = (a.r[i] - b.r[i]) / (2 * h);
            m[i + 3][j] = (a.v[i] - b.v[i]) / (2 * h);
        }
    }
    return m;
}

// Sensitivities of the final state to relative perturbations (normwise) of all inputs:
// out.first / out.second: bound coefficients such that |dr| <= first*delta, |dv| <= second*delta.
struct Cond {
    Q r = 0, v = 0;
};
inline Cond cond(const RV &x, Q dt, Q mu, const RV &xf, M6 *keep = nullptr)
{
    const M6 m = stm(x, dt, mu);
    if (keep) *keep = m;
    const Q R = norm(x.r), Vn = norm(x.v);
    Q cr = 0, cv = 0;
    for (int j = 0; j < 6; ++j) {
        Q a = 0, b = 0;
        for (int i = 0; i < 3; ++i) {
            a += m[i][j] * m[i][j];
            b += m[i + 3][j] * m[i + 3][j];
        }
        const Q w = j < 3 ? R : Vn;
        cr += sqrtq(a) * w;
        cv += sqrtq(b) * w;
    }
    const Q adt = dt < 0 ? -dt : dt;
    const Q Rf = norm(xf.r), Vf = norm(xf.v);
    cr += Vf * adt + Rf;
    cv += mu / (Rf * Rf) * adt + Vf;
    // mu
    const Q h = mu * 1e-11Q;
    const RV a = kepler(x, dt, mu + h), b = kepler(x, dt, mu - h);
    cr += norm(sub(a.r, b.r)) / (2e-11Q);
    cv += norm(sub(a.v, b.v)) / (2e-11Q);
    return {cr, cv};
}

// Classical elements -> state (perifocal frame, own rotation), f true anomaly.
inline RV par2ic(Q a, Q e, Q i, Q W, Q w, Q f, Q mu)
{
    const Q p = a * (1 - e * e);
    Q sf, cf, si, ci, sW, cW, sw, cw;
    sincosq(f, &sf, &cf);
    sincosq(i, &si, &ci);
    sincosq(W, &sW, &cW);
    sincosq(w, &sw, &cw);
    const Q r = p / (1 + e * cf), k = sqrtq(mu / p);
    // unit vectors of pericentre and of its normal in the plane
    const V3 P{cW * cw - sW * sw * ci, sW * cw + cW * sw * ci, sw * si};
    const V3 S{-cW * sw - sW * cw * ci, -sW * sw + cW * cw * ci, cw * si};
    RV o;
    for (int j = 0; j < 3; ++j) {
        o.r[j] = r * (cf * P[j] + sf * S[j]);
        o.v[j] = k * (-sf * P[j] + (e + cf) * S[j]);
    }
    return o;
}
// State -> classical elements with atan2 everywhere.
struct Par {
    Q a, e, i, W, w, f;
};
inline Q wrap2pi(Q x)
{
    x = fmodq(x, 2 * PI);
    if (x < 0) x += 2 * PI;
    return x;
}
inline Par ic2par(const RV &x, Q mu)
{
    Par o;
    const V3 h = cross(x.r, x.v);
    const Q H = norm(h), R = norm(x.r);
    const V3 ev = sub(mul(1 / mu, cross(x.v, h)), mul(1 / R, x.r));
    o.e = norm(ev);
    o.a = 1 / (2 / R - dot(x.v, x.v) / mu);
    o.i = atan2q(sqrtq(h[0] * h[0] + h[1] * h[1]), h[2]);
    o.W = wrap2pi(atan2q(h[0], -h[1]));
    const V3 n{cosq(o.W), sinq(o.W), 0};
    const V3 hh = mul(1 / H, h);
    const V3 m = cross(hh, n);
    o.w = wrap2pi(atan2q(dot(ev, m), dot(ev, n)));
    const V3 eh = mul(1 / o.e, ev), q = cross(hh, eh);
    o.f = wrap2pi(atan2q(dot(x.r, q), dot(x.r, eh)));
    return o;
}
// Signed smallest difference of two angles.
inline Q angdiff(Q a, Q b)
{
    Q x = fmodq(a - b, 2 * PI);
    if (x > PI) x -= 2 * PI;
    if (x < -PI) x += 2 * PI;
    return x;
}

} // namespace ref

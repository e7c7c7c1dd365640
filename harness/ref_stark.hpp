// Independent integration of constant-thrust Keplerian motion and of the restricted three-body problem: hand-written Taylor recurrences in
// extended precision, derivatives by forward-mode dual numbers.
#pragma once
#include "common.hpp"
namespace vf
{
using LD = long double;
template <int N>
struct Dual {
    LD v = 0;
    std::array<LD, N> d{};
    Dual() = default;
    Dual(LD x) : v(x) {}
    static Dual var(LD x, int k)
    {
        Dual r(x);
        r.d[k] = 1;
        return r;
    }
};
template <int N>
Dual<N> operator+(Dual<N> a, const Dual<N> &b)
{
    a.v += b.v;
    for (int i = 0; i < N; ++i) a.d[i] += b.d[i];
    return a;
}
template <int N>
Dual<N> operator-(Dual<N> a, const Dual<N> &b)
{
    a.v -= b.v;
    for (int i = 0; i < N; ++i) a.d[i] -= b.d[i];
    return a;
}
template <int N>
Dual<N> operator*(const Dual<N> &a, const Dual<N> &b)
{
    Dual<N> r(a.v * b.v);
    for (int i = 0; i < N; ++i) r.d[i] = a.v * b.d[i] + b.v * a.d[i];
    return r;
}
template <int N>
Dual<N> operator*(LD a, Dual<N> b)
{
    b.v *= a;
    for (auto &x : b.d) x *= a;
    return b;
}
template <int N>
Dual<N> operator/(const Dual<N> &a, const Dual<N> &b)
{
    Dual<N> r(a.v / b.v);
    for (int i = 0; i < N; ++i) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v;
    return r;
}
template <int N>
Dual<N> powc(const Dual<N> &a, LD e)
{
    Dual<N> r(std::pow(a.v, e));
    const LD q = e * std::pow(a.v, e - 1);
    for (int i = 0; i < N; ++i) r.d[i] = q * a.d[i];
    return r;
}
inline LD powc(LD a, LD e) { return std::pow(a, e); }
inline LD val(LD a) { return a; }
template <int N>
LD val(const Dual<N> &a)
{
    return a.v;
}
constexpr int TAY = 26;

// Statistics of one integration, for rounding models.
struct Trip {
    double steps = 0, rmin = 1e300, rmax = 0, vmax = 0, mmin = 1e300, hmin = 1e300;
    bool ok = true;
};

// One Taylor expansion: fills c[i][k]; the caller sums it.
template <class T>
struct StarkRhs {
    T mu, ux, uy, uz, mdot; // mdot: negative
    static constexpr int dim = 7;
    void expand(const std::array<T, 7> &x, std::array<std::array<T, TAY + 1>, 7> &c) const
    {
        std::array<T, TAY + 1> s, q, w;
        for (int i = 0; i < 7; ++i) c[i][0] = x[i];
        for (int n = 0; n < TAY; ++n) {
            T a(0);
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j <= n; ++j) a = a + c[i][j] * c[i][n - j];
            s[n] = a;
            if (n == 0) {
                q[0] = powc(s[0], -1.5L);
                w[0] = T(1) / x[6];
            } else {
                T b(0);
                for (int j = 0; j < n; ++j) b = b + (-1.5L * n - j * -0.5L) * (s[n - j] * q[j]);
                q[n] = b / (static_cast<LD>(n) * s[0]);
                w[n] = -1.0L * (mdot * w[n - 1]) / x[6];
            }
            const T u[3] = {ux, uy, uz};
            for (int i = 0; i < 3; ++i) {
                T g(0);
                for (int j = 0; j <= n; ++j) g = g + q[j] * c[i][n - j];
                const T acc = u[i] * w[n] - mu * g;
                c[i][n + 1] = (1.0L / (n + 1)) * c[i + 3][n];
                c[i + 3][n + 1] = (1.0L / (n + 1)) * acc;
            }
            c[6][n + 1] = n == 0 ? mdot : T(0);
        }
    }
    double size(const std::array<T, 7> &x, Trip &t) const
    {
        const double r = static_cast<double>(std::sqrt(val(x[0]) * val(x[0]) + val(x[1]) * val(x[1]) + val(x[2]) * val(x[2])));
        const double v = static_cast<double>(std::sqrt(val(x[3]) * val(x[3]) + val(x[4]) * val(x[4]) + val(x[5]) * val(x[5])));
        t.rmin = std::min(t.rmin, r);
        t.rmax = std::max(t.rmax, r);
        t.vmax = std::max(t.vmax, v);
        t.mmin = std::min(t.mmin, static_cast<double>(val(x[6])));
        return r;
    }
};
template <class T>
struct Cr3bpRhs {
    T mu;
    static constexpr int dim = 6;
    void expand(const std::array<T, 6> &x, std::array<std::array<T, TAY + 1>, 6> &c) const
    {
        std::array<T, TAY + 1> s1, s2, q1, q2, a1, a2;
        for (int i = 0; i < 6; ++i) c[i][0] = x[i];
        for (int n = 0; n < TAY; ++n) {
            a1[n] = c[0][n];
            a2[n] = c[0][n];
            if (n == 0) {
                a1[0] = a1[0] + mu;
                a2[0] = a2[0] + mu - T(1);
            }
            T b1(0), b2(0);
            for (int j = 0; j <= n; ++j) {
                const T yz = c[1][j] * c[1][n - j] + c[2][j] * c[2][n - j];
                b1 = b1 + a1[j] * a1[n - j] + yz;
                b2 = b2 + a2[j] * a2[n - j] + yz;
            }
            s1[n] = b1;
            s2[n] = b2;
            auto rec = [n](std::array<T, TAY + 1> &q, const std::array<T, TAY + 1> &s) {
                if (n == 0) {
                    q[0] = powc(s[0], -1.5L);
                    return;
                }
                T b(0);
                for (int j = 0; j < n; ++j) b = b + (-1.5L * n - j * -0.5L) * (s[n - j] * q[j]);
                q[n] = b / (static_cast<LD>(n) * s[0]);
            };
            rec(q1, s1);
            rec(q2, s2);
            T gx(0), gy(0), gz(0);
            for (int j = 0; j <= n; ++j) {
                const T k1 = (T(1) - mu) * q1[j], k2 = mu * q2[j];
                gx = gx + k1 * a1[n - j] + k2 * a2[n - j];
                gy = gy + (k1 + k2) * c[1][n - j];
                gz = gz + (k1 + k2) * c[2][n - j];
            }
            for (int i = 0; i < 3; ++i) c[i][n + 1] = (1.0L / (n + 1)) * c[i + 3][n];
            c[3][n + 1] = (1.0L / (n + 1)) * (2.0L * c[4][n] + c[0][n] - gx);
            c[4][n + 1] = (1.0L / (n + 1)) * (c[1][n] - 2.0L * c[3][n] - gy);
            c[5][n + 1] = (1.0L / (n + 1)) * (T(0) - gz);
        }
    }
    double size(const std::array<T, 6> &x, Trip &t) const
    {
        const LD y = val(x[1]) * val(x[1]) + val(x[2]) * val(x[2]);
        const LD d1 = val(x[0]) + val(mu), d2 = d1 - 1;
        const double r1 = static_cast<double>(std::sqrt(d1 * d1 + y)), r2 = static_cast<double>(std::sqrt(d2 * d2 + y));
        const double v = static_cast<double>(std::sqrt(val(x[3]) * val(x[3]) + val(x[4]) * val(x[4]) + val(x[5]) * val(x[5])));
        t.rmin = std::min({t.rmin, r1, r2});
        t.rmax = std::max({t.rmax, r1, r2, 1.});
        t.vmax = std::max(t.vmax, v);
        t.mmin = 1;
        return std::max(r1, r2);
    }
};
// Integrates for dt; scale[i] are the sizes that truncation is relative to.
template <class RHS, class T, std::size_t D>
std::array<T, D> integrate(const RHS &f, std::array<T, D> x, LD dt, Trip &t)
{
    LD left = dt;
    f.size(x, t);
    while (left != 0) {
        std::array<std::array<T, TAY + 1>, D> c;
        f.expand(x, c);
        // positions decide the step: their last two coefficients below 1e-21 of their size
        LD r = 0, c1 = 0, c2 = 0, vv = 0, w1 = 0, w2 = 0;
        for (int i = 0; i < 3; ++i) {
            r = std::max(r, std::abs(val(c[i][0])));
            c1 = std::max(c1, std::abs(val(c[i][TAY - 1])));
            c2 = std::max(c2, std::abs(val(c[i][TAY])));
            vv = std::max(vv, std::abs(val(c[i + 3][0])));
            w1 = std::max(w1, std::abs(val(c[i + 3][TAY - 1])));
            w2 = std::max(w2, std::abs(val(c[i + 3][TAY])));
        }
        LD h = std::numeric_limits<LD>::infinity();
        auto lim = [&](LD a, LD b, int k) {
            if (b > 0 && a > 0) h = std::min(h, std::pow(1e-21L * a / b, 1.0L / k));
        };
        lim(r, c1, TAY - 1);
        lim(r, c2, TAY);
        lim(vv, w1, TAY - 1);
        lim(vv, w2, TAY);
        t.hmin = std::min(t.hmin, static_cast<double>(h)); // the natural step
        h = std::min(h, std::abs(left));
        if (!(h > 0) || !std::isfinite(static_cast<double>(h)) || t.steps > 20000) {
            t.ok = false;
            return x;
        }
        const LD s = left < 0 ? -h : h;
        for (std::size_t i = 0; i < D; ++i) {
            T a = c[i][TAY];
            for (int k = TAY; k-- > 0;) a = s * a + c[i][k];
            x[i] = a;
        }
        left -= s;
        t.steps += 1;
        f.size(x, t);
        for (const auto &e : x)
            if (!std::isfinite(static_cast<double>(val(e)))) t.ok = false;
        if (!t.ok) return x;
    }
    return x;
}

struct StarkSeg {
    std::array<LD, 7> x0, x1;
    std::array<std::array<LD, 7>, 7> M;
    std::array<std::array<LD, 3>, 7> U;
    std::array<LD, 7> f1; // time derivative at the end
    Trip t;
};
// State and derivatives with respect to the initial state and to the thrust.
inline StarkSeg stark_segment(const std::array<LD, 7> &x0, const std::array<LD, 3> &u, LD mu, LD veff, LD dt, bool derivatives = true)
{
    StarkSeg s;
    s.x0 = x0;
    const LD un = std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
    if (!derivatives) {
        StarkRhs<LD> f{mu, u[0], u[1], u[2], un == 0 ? 0 : -un / veff};
        s.x1 = integrate(f, x0, dt, s.t);
    } else {
        using D = Dual<10>;
        std::array<D, 7> x;
        for (int i = 0; i < 7; ++i) x[i] = D::var(x0[i], i);
        const D a = D::var(u[0], 7), b = D::var(u[1], 8), c = D::var(u[2], 9);
        StarkRhs<D> f{D(mu), a, b, c, un == 0 ? D(0) : (-1 / veff) * powc(a * a + b * b + c * c, 0.5L)};
        const auto y = integrate(f, x, dt, s.t);
        for (int i = 0; i < 7; ++i) {
            s.x1[i] = y[i].v;
            for (int j = 0; j < 7; ++j) s.M[i][j] = y[i].d[j];
            for (int j = 0; j < 3; ++j) s.U[i][j] = y[i].d[7 + j];
        }
    }
    const auto &y = s.x1;
    const LD r = std::sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2]);
    for (int i = 0; i < 3; ++i) {
        s.f1[i] = y[i + 3];
        s.f1[i + 3] = -mu * y[i] / (r * r * r) + u[i] / y[6];
    }
    s.f1[6] = un == 0 ? 0 : -un / veff;
    return s;
}
} // namespace vf

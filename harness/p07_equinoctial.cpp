// P07: modified equinoctial elements, direct and retrograde.
#include "bounds.hpp"
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
using namespace vf;
using ref::Q;

namespace
{
struct Eq {
    Q p, f, g, h, k, L;
};
// From the angular momentum and eccentricity vectors; I=+1 direct, -1 retrograde set.
Eq ref_eq(const ref::RV &x, Q mu, int I, ref::V3 *fo = nullptr, ref::V3 *go = nullptr)
{
    const ref::V3 H = ref::cross(x.r, x.v);
    const Q hn = ref::norm(H);
    const ref::V3 w = ref::mul(1 / hn, H);
    Eq q;
    q.p = hn * hn / mu;
    const Q den = 1 + I * w[2];
    q.k = w[0] / den;
    q.h = -w[1] / den;
    // f: the x axis (node-free) reference: rotate from inertial x by node, inclination, -I*node
    const Q s2 = 1 + q.h * q.h + q.k * q.k;
    const ref::V3 f{(1 - q.k * q.k + q.h * q.h) / s2, 2 * q.k * q.h / s2, -2 * I * q.k / s2};
    const ref::V3 g = ref::cross(w, f); // completes the right-handed in-plane frame
    const ref::V3 ev = ref::sub(ref::mul(1 / mu, ref::cross(x.v, H)), ref::mul(1 / ref::norm(x.r), x.r));
    q.f = ref::dot(ev, f);
    q.g = ref::dot(ev, g);
    q.L = atan2q(ref::dot(x.r, g), ref::dot(x.r, f));
    if (fo) *fo = f;
    if (go) *go = g;
    return q;
}
ref::RV ref_eq2ic(const std::array<double, 6> &e, Q mu, int I)
{
    const Q p = e[0], f = e[1], g = e[2], h = e[3], k = e[4], L = e[5];
    const Q s2 = 1 + h * h + k * k;
    const ref::V3 F{(1 - k * k + h * h) / s2, 2 * k * h / s2, -2 * I * k / s2};
    const ref::V3 w{2 * k / s2, -2 * h / s2, I * (1 - h * h - k * k) / s2};
    const ref::V3 G = ref::cross(w, F);
    const Q c = cosq(L), s = sinq(L), r = p / (1 + f * c + g * s), v = sqrtq(mu / p);
    ref::RV o;
    for (int j = 0; j < 3; ++j) {
        o.r[j] = r * (c * F[j] + s * G[j]);
        o.v[j] = v * (-(g + s) * F[j] + (f + c) * G[j]);
    }
    return o;
}
struct EqB {
    double p, fg, hk, L;
};
EqB eq_bounds(const ref::RV &x, const Eq &q, double mu, int I, double eps)
{
    const ref::V3 H = ref::cross(x.r, x.v);
    const double R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v)), h = ref::d(ref::norm(H));
    const double w2 = ref::d(H[2]) / h, rh = R * V / h, den = 1 + I * w2;
    const double e = std::sqrt(ref::d(q.f * q.f + q.g * q.g)), hk = std::sqrt(ref::d(q.h * q.h + q.k * q.k));
    const double de = eps * (2 + 2 * V * h / mu + 2 * rh * V * h / mu);
    const double a = ref::d(q.p) / (1 - e * e);
    EqB b;
    b.p = ref::d(q.p) * (2 * e * de / std::abs(1 - e * e) + eps * (2 + std::abs(a) * (2 / R + V * V / mu)));
    const double dw = eps * (1 + rh);
    b.hk = 2 * dw / den * (1 + hk) + eps * hk;
    const double frame = 4 * b.hk / (1 + hk * hk) + 4 * eps;
    b.fg = de + e * frame;
    b.L = frame + 4 * eps + 2 * dw;
    return b;
}
RVB eq2ic_bound(const std::array<double, 6> &q, const ref::RV &x, double mu)
{
    const double R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v)), p = std::abs(q[0]), e = std::hypot(q[1], q[2]), s = std::sqrt(mu / p);
    return {EPS * R * (8 + (1 + e) * R / p), EPS * (8 * V + 8 * s * (1 + e))};
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 7, [](Recorder &rec, Rng &g, long i) {
        const bool calib = rec.opt.mode == "calib";
        const double K = calib ? 1 : 50;
        Orbit o = orbit(g, true, true);
        const bool retro = g.p(0.5);
        const int I = retro ? -1 : 1;
        const std::string reg = calib ? ":" + o.regime : "";
        if (g.p(0.1)) { // exactly equatorial, in either sense (the regular one for the set)
            o.inc = retro ? M_PI : 0.;
            o.rv = ref::toD(ref::par2ic(o.a, o.e, o.inc, o.W, o.w, o.f, o.mu));
            o.rv[0][2] = o.rv[1][2] = 0;
            o.regime = "equatorial";
        }
        const double den = retro ? 1 - std::cos(o.inc) : 1 + std::cos(o.inc);
        if (den < 1e-9 || (o.e > 1 && 1 + o.e * std::cos(o.f) < 1e-9)) {
            rec.ev("skipped:singular");
            return;
        }
        rec.ev("regime:" + o.regime + (retro ? ":retrograde-set" : ":direct-set") + (o.e == 0 ? ":circular" : ""));
        const ref::RV x = ref::toQ(o.rv);
        auto in = [&] { return J().t("call", "ic2eq").rv("rv", o.rv).d("mu", o.mu).i("retrogade", retro).t("regime", o.regime).str(); };
        rec.sample(in);
        rec.nontriv(hash_vec(o.rv[0], hash_vec(o.rv[1], retro)));
        const double R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v)), hh = ref::d(ref::norm(ref::cross(x.r, x.v)));
        // 1 - state -> equinoctial
        const Eq q = ref_eq(x, o.mu, I);
        const EqB b = eq_bounds(x, q, o.mu, I, K * EPS);
        const auto e = kep3::ic2eq(o.rv, o.mu, retro);
        rec.check("ic2eq:p" + reg, std::abs(ref::d(e[0] - q.p)), b.p, in);
        rec.check("ic2eq:f" + reg, std::abs(ref::d(e[1] - q.f)), b.fg, in);
        rec.check("ic2eq:g" + reg, std::abs(ref::d(e[2] - q.g)), b.fg, in);
        rec.check("ic2eq:h" + reg, std::abs(ref::d(e[3] - q.h)), b.hk, in);
        rec.check("ic2eq:k" + reg, std::abs(ref::d(e[4] - q.k)), b.hk, in);
        rec.check("ic2eq:L" + reg, std::abs(ref::d(ref::angdiff(e[5], q.L))), b.L, in);
        // 2 - and back to the state
        const double hk = std::sqrt(ref::d(q.h * q.h + q.k * q.k)), p = ref::d(q.p), ve = std::sqrt(o.mu / p);
        {
            const double frame = 4 * b.hk / (1 + hk * hk);
            const RVB eb = eq2ic_bound(e, x, o.mu);
            const double Br = R * (frame + b.p / p + (b.fg + b.L * (1 + o.e)) * R / p) + R * b.L + K * eb.r, Bv = (V + ve) * (frame + b.p / p + b.fg + b.L) + ve * (b.fg + b.L) + K * eb.v;
            if (Br < 1e-3 * R && Bv < 1e-3 * V) {
                const auto s = kep3::eq2ic(e, o.mu, retro);
                rec.check("ic2eq2ic:position" + reg, ref::dist(x.r, s[0]), Br, in);
                rec.check("ic2eq2ic:velocity" + reg, ref::dist(x.v, s[1]), Bv, in);
            }
        }
        // 3 - an arbitrary equinoctial set -> state; both routes to the state
        {
            std::array<double, 6> y{ref::d(q.p), o.e * std::cos(o.w + I * o.W), o.e * std::sin(o.w + I * o.W), ref::d(q.h), ref::d(q.k), o.f + o.w + I * o.W};
            if (g.p(0.2)) y[5] += 2 * M_PI * static_cast<double>(static_cast<long>(g.n(9)) - 4);
            auto iny = [&] { return J().t("call", "eq2ic").a("eq", y).d("mu", o.mu).i("retrogade", retro).t("regime", o.regime).str(); };
            const double e2 = y[1] * y[1] + y[2] * y[2], ee = std::sqrt(e2);
            const double rad = 1 + y[1] * std::cos(y[5]) + y[2] * std::sin(y[5]);
            if (rad > 1e-8 && std::abs(1 - ee) > 1e-6) {
                const ref::RV xy = ref_eq2ic(y, o.mu, I);
                const double Ry = ref::d(ref::norm(xy.r)), Vy = ref::d(ref::norm(xy.v));
                const RVB eb = eq2ic_bound(y, xy, o.mu);
                const auto s = kep3::eq2ic(y, o.mu, retro);
                rec.check("eq2ic:position" + reg, ref::dist(xy.r, s[0]), K * eb.r, iny);
                rec.check("eq2ic:velocity" + reg, ref::dist(xy.v, s[1]), K * eb.v, iny);
                // Keplerian elements of it, by definition: a, e, i and the state they give
                const auto par = kep3::eq2par(y, retro);
                const double t = std::hypot(y[3], y[4]);
                const double ir = retro ? 2 * std::atan2(1., t) : 2 * std::atan2(t, 1.);
                rec.check("eq2par:a" + reg, std::abs(par[0] - y[0] / (1 - e2)), K * EPS * std::abs(y[0] / (1 - e2)) * (3 + 3 * e2 / std::abs(1 - e2)), iny);
                rec.check("eq2par:e" + reg, std::abs(par[1] - ee), K * EPS * ee * 2 + 1e-300, iny);
                rec.check("eq2par:i" + reg, std::abs(par[2] - ir), K * EPS * 4, iny);
                rec.require("eq2par:ranges", par[2] >= -1e-14 && par[2] <= M_PI + 1e-14 && par[3] >= -1e-14 && par[3] <= 2 * M_PI + 1e-14 && par[4] >= -1e-14 && par[4] <= 2 * M_PI + 1e-14, iny);
                if (t > 0) rec.check("eq2par:W" + reg, std::abs(ref::d(ref::angdiff(par[3], std::atan2(y[4], y[3])))), K * EPS * 8, iny);
                if (ee > 0) {
                    rec.check("eq2par:w" + reg, std::abs(ref::d(ref::angdiff(Q(par[4]) + I * Q(par[3]), std::atan2(y[2], y[1])))), K * EPS * 16, iny);
                }
                rec.check("eq2par:f" + reg, std::abs(ref::d(ref::angdiff(Q(par[5]) + Q(par[4]) + I * Q(par[3]), Q(y[5])))), K * EPS * (16 + std::abs(y[5])), iny);
                const ref::RV xk = ref::par2ic(par[0], par[1], par[2], par[3], par[4], par[5], o.mu);
                const double angs = EPS * (32 + std::abs(y[5]) * 2), kp = (3 + 6 * e2) / std::abs(1 - e2);
                const double Br = K * (Ry * (EPS * kp + EPS * ee * Ry / y[0] + angs * 3 + ee * angs * Ry / y[0]) + eb.r), Bv = K * (Vy * (EPS * kp + 3 * angs) + std::sqrt(o.mu / y[0]) * (2 * EPS * (1 + ee) + 3 * angs) + eb.v);
                rec.check("eq2par:state:position" + reg, ref::d(ref::norm(ref::sub(xk.r, xy.r))), Br, iny);
                rec.check("eq2par:state:velocity" + reg, ref::d(ref::norm(ref::sub(xk.v, xy.v))), Bv, iny);
            }
        }
        // 4 - Keplerian elements -> equinoctial, by definition
        if (std::abs(1 - o.e) > 1e-6 && (!retro || o.inc > 1e-7)) {
            std::array<double, 6> par{o.a, o.e, o.inc, o.W, o.w, o.f};
            auto inp = [&] { return J().t("call", "par2eq").a("par", par).d("mu", o.mu).i("retrogade", retro).t("regime", o.regime).str(); };
            const auto y = kep3::par2eq(par, retro);
            const Q th = tanq(Q(o.inc) / 2), T = retro ? 1 / th : th;
            const double t = ref::d(T);
            const Q lp = Q(o.w) + I * Q(o.W);
            rec.check("par2eq:p" + reg, std::abs(ref::d(y[0] - Q(o.a) * (1 - Q(o.e) * Q(o.e)))), K * EPS * std::abs(o.a) * (2 + 2 * o.e * o.e), inp);
            rec.check("par2eq:f" + reg, std::abs(ref::d(y[1] - Q(o.e) * cosq(lp))), K * EPS * 16 * o.e + 1e-300, inp);
            rec.check("par2eq:g" + reg, std::abs(ref::d(y[2] - Q(o.e) * sinq(lp))), K * EPS * 16 * o.e + 1e-300, inp);
            rec.check("par2eq:h" + reg, std::abs(ref::d(y[3] - T * cosq(Q(o.W)))), K * EPS * 8 * std::abs(t) + 1e-300, inp);
            rec.check("par2eq:k" + reg, std::abs(ref::d(y[4] - T * sinq(Q(o.W)))), K * EPS * 8 * std::abs(t) + 1e-300, inp);
            rec.check("par2eq:L" + reg, std::abs(ref::d(ref::angdiff(y[5], Q(o.f) + lp))), K * EPS * 32, inp);
            // and the inverse returns the elements themselves
            if (o.e > 1e-9 && std::sin(o.inc) > 1e-9) {
                const auto z = kep3::eq2par(y, retro);
                const double kp = (3 + 6 * o.e * o.e) / std::abs(1 - o.e * o.e);
                rec.check("par2eq2par:a" + reg, std::abs(z[0] - o.a), K * EPS * std::abs(o.a) * kp * 2, inp);
                rec.check("par2eq2par:e" + reg, std::abs(z[1] - o.e), K * EPS * o.e * 8, inp);
                rec.check("par2eq2par:i" + reg, std::abs(z[2] - o.inc), K * EPS * 8, inp);
                rec.check("par2eq2par:W" + reg, std::abs(ref::d(ref::angdiff(z[3], o.W))), K * EPS * 16, inp);
                rec.check("par2eq2par:w" + reg, std::abs(ref::d(ref::angdiff(z[4], o.w))), K * EPS * 64, inp);
                rec.check("par2eq2par:f" + reg, std::abs(ref::d(ref::angdiff(z[5], o.f))), K * EPS * 128, inp);
            }
        }
    });
}

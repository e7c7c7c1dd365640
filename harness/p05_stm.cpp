// P05: state transition matrices against the derivative of the quad-precision flow.
#include "bounds.hpp"
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
using namespace vf;
using ref::M6;
using ref::Q;
using stm_t = std::array<double, 36>;

namespace
{
// Entries made dimensionless: rows by the final, columns by the initial scales.
struct Scales {
    double L, V;
};
double maxabs(const M6 &m, const Scales &s)
{
    double x = 0;
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) x = std::max(x, std::abs(ref::d(m[i][j])) * (j < 3 ? s.L : s.V) / (i < 3 ? s.L : s.V));
    return x;
}
double maxdiff(const M6 &m, const stm_t &n, const Scales &s)
{
    double x = 0;
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) {
            const double e = std::abs(ref::d(m[i][j] - n[6 * i + j])) * (j < 3 ? s.L : s.V) / (i < 3 ? s.L : s.V);
            if (!(e <= x)) x = e;
        }
    return x;
}
M6 toM(const stm_t &n)
{
    M6 m;
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) m[i][j] = n[6 * i + j];
    return m;
}
M6 mul(const M6 &a, const M6 &b)
{
    M6 m{};
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j)
            for (int k = 0; k < 6; ++k) m[i][j] += a[i][k] * b[k][j];
    return m;
}
double scale_gap(const Scales &a, const Scales &b)
{
    return std::max(a.L / b.L, b.L / a.L) * std::max(a.V / b.V, b.V / a.V);
}
// M^T J M - J, blocks made dimensionless by the initial scales.
double symplectic_defect(const M6 &m, const Scales &s)
{
    double x = 0;
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) {
            Q v = 0;
            for (int k = 0; k < 3; ++k) v += m[k][i] * m[k + 3][j] - m[k + 3][i] * m[k][j];
            if (i < 3 && j == i + 3) v -= 1;
            if (j < 3 && i == j + 3) v += 1;
            const double e = std::abs(ref::d(v)) * (i < 3 ? s.L : s.V) * (j < 3 ? s.L : s.V) / (s.L * s.V);
            if (!(e <= x)) x = e;
        }
    return x;
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 5, [](Recorder &rec, Rng &g, long) {
        Orbit o = orbit(g, true, true);
        std::string treg;
        const double tof = tof_for(g, o, treg);
        const bool calib = rec.opt.mode == "calib";
        auto in = [&] { return J().t("regime", o.regime + "/" + treg).rv("rv", o.rv).d("tof", tof).d("mu", o.mu).d("e", o.e).str(); };
        M6 M;
        const Prop p(o.rv, tof, o.mu, &M);
        if (!p.info.ok) {
            rec.ev("inconclusive:reference");
            return;
        }
        const RVB b = p.lagrange();
        const Scales s{std::sqrt(p.R0 * p.Rf), std::sqrt(p.V0 * p.Vf)};
        const double n = maxabs(M, s);
        rec.ev("regime:" + o.regime + "/" + treg);
        if (tof != 0.) rec.nontriv(hash_vec(o.rv[0], hash_vec(o.rv[1], hash_bytes(&tof, 8))));
        rec.sample(in);
        const std::string reg = calib ? ":" + o.regime + "/" + treg : "";
        const double K = calib ? 1 : 50;
        if (b.r > 1e-5 * p.Rf || b.v > 1e-5 * p.Vf) {
            rec.ev("skipped:ill-conditioned");
            return;
        }
        // amplification inside the formulas: energy cancellation, distance from the centre of the conic at both ends
        const double q = (1 + p.A / p.R0 + p.R0 / p.A + p.s0 / std::sqrt(p.A)) * (1 + p.A / p.Rf);
        const double kap = (b.r / p.Rf + b.v / p.Vf) * q;
        const double kapR = kap * (2 + 2 / std::abs(1 - o.e));
        if (K * kapR > 1e-3) {
            rec.ev("skipped:ill-conditioned");
            return;
        }
        const double frac = g.u(-0.3, 1.3);
        auto run = [&](const char *who, double kp, auto fn, auto fn2) {
            try {
                const auto with = fn(true), without = fn(false);
                rec.require(std::string(who) + ":presence", with.second.has_value() && !without.second.has_value(), in);
                double er = 0, ev = 0;
                for (int j = 0; j < 3; ++j) {
                    er = std::max(er, std::abs(with.first[0][j] - without.first[0][j]));
                    ev = std::max(ev, std::abs(with.first[1][j] - without.first[1][j]));
                }
                rec.check(std::string(who) + ":same-state", std::max(er / (2 * 50 * b.r), ev / (2 * 50 * b.v)), 1, in);
                if (!with.second) return;
                const double e = maxdiff(M, *with.second, s);
                rec.check(std::string(who) + ":derivative" + reg, e / n, K * kp, in);
                if (calib) return;
                const M6 m = toM(*with.second);
                rec.check(std::string(who) + ":symplectic", symplectic_defect(m, s), 12 * n * n * K * kp + 1e-25 * n * n, in);
                if (tof == 0.) {
                    M6 id{};
                    for (int j = 0; j < 6; ++j) id[j][j] = 1;
                    rec.check(std::string(who) + ":identity-at-zero", maxdiff(id, *with.second, s), K * kp, in);
                    return;
                }
                // two consecutive arcs, the second starting where the first arrived
                const double t1 = tof * frac, t2 = tof - t1;
                M6 M1, M2;
                const Prop p1(o.rv, t1, o.mu, &M1);
                const auto a1 = fn2(o.rv, t1);
                const Prop p2(a1.first, t2, o.mu, &M2);
                const RVB b1 = p1.lagrange(), b2 = p2.lagrange();
                const Scales s1{std::sqrt(p1.R0 * p1.Rf), std::sqrt(p1.V0 * p1.Vf)} , s2{std::sqrt(p2.R0 * p2.Rf), std::sqrt(p2.V0 * p2.Vf)};
                auto q_of = [](const Prop &x) { return (1 + x.A / x.R0 + x.R0 / x.A + x.s0 / std::sqrt(x.A)) * (1 + x.A / x.Rf); };
                const double amp = kp / kap;
                const double k1 = amp * q_of(p1) * (b1.r / p1.Rf + b1.v / p1.Vf), k2 = amp * q_of(p2) * (b2.r / p2.Rf + b2.v / p2.Vf);
                const auto a2 = fn2(a1.first, t2);
                if (!rec.require(std::string(who) + ":presence", a1.second && a2.second, in)) return;
                // norms of the two factors in the common dimensionless coordinates (mid coordinates: the same scales)
                const double n1 = maxabs(M1, s), n2 = maxabs(M2, s);
                const double tolc = K * (kp * n + 6 * n1 * n2 * (k1 * scale_gap(s1, s) + k2 * scale_gap(s2, s) + 2 * (b1.r / p1.Rf + b1.v / p1.Vf) * q_of(p2) * scale_gap(s2, s)));
                if (tolc > 1e-2 * n)
                    rec.ev("skipped:composition-ill-conditioned");
                else
                    rec.check(std::string(who) + ":composition", maxdiff(mul(toM(*a2.second), toM(*a1.second)), *with.second, s), tolc, in);
            } catch (const std::exception &e) {
                rec.violate(std::string(who) + ":throws", e.what(), in());
            }
        };
        run("lagrangian", kap, [&](bool q) { return kep3::propagate_lagrangian(o.rv, tof, o.mu, q); },
            [&](const rv_t &x, double t) { return kep3::propagate_lagrangian(x, t, o.mu, true); });
        run("reynolds", kapR, [&](bool q) { return kep3::propagate_stm_reynolds(o.rv, tof, o.mu, q); },
            [&](const rv_t &x, double t) { return kep3::propagate_stm_reynolds(x, t, o.mu, true); });
        if (calib) return;
        if (o.mu == 1. && g.p(0.5)) { // the default gravity parameter
            const auto a = kep3::propagate_stm_reynolds(o.rv, tof);
            rec.require("reynolds:no-matrix-by-default", !a.second, in);
            rec.check("reynolds:default-mu", ref::dist(p.xf.r, a.first[0]), 50 * b.r, in);
        }
        if (g.p(0.1)) {
            bool absent = !kep3::propagate_stm_reynolds(o.rv, tof, o.mu).second && !kep3::propagate_lagrangian(o.rv, tof, o.mu).second;
            for (const bool stm : {true, false})
                for (const auto &x : kep3::propagate_lagrangian_v(o.rv, {tof, tof / 2}, o.mu, stm)) absent = absent && x.second.has_value() == stm;
            for (const auto &x : kep3::propagate_lagrangian_v(o.rv, {tof, tof / 2}, o.mu)) absent = absent && !x.second;
            rec.require("present-exactly-when-asked", absent, in);
        }
        // from two given states (the final one computed elsewhere)
        const auto yf = ref::toD(p.xf);
        try {
            rec.check("from-states:derivative", maxdiff(M, kep3::stm_reynolds(o.rv, yf, tof, o.mu), s) / n, 2 * K * kapR, in);
        } catch (const std::exception &e) {
            rec.violate("from-states:throws", e.what(), in());
        }
    });
}

// P04: two-body propagation as a flow. Relations between observed calls; no reference solution is compared.
#include "bounds.hpp"
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
using namespace vf;
using ref::M6;
using ref::Q;
using ref::V3;

namespace
{
using rot_t = std::array<V3, 3>;
rot_t rotation(Rng &g)
{
    // unit quaternion
    Q q[4], n = 0;
    for (auto &x : q) {
        x = g.gauss();
        n += x * x;
    }
    n = sqrtq(n);
    for (auto &x : q) x /= n;
    const Q w = q[0], x = q[1], y = q[2], z = q[3];
    return {V3{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, V3{2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)},
            V3{2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
}
V3 apply(const rot_t &R, const V3 &v) { return {ref::dot(R[0], v), ref::dot(R[1], v), ref::dot(R[2], v)}; }
struct Inv {
    Q E;
    V3 h, e;
};
Inv invariants(const ref::RV &x, Q mu)
{
    Inv i;
    i.E = ref::dot(x.v, x.v) / 2 - mu / ref::norm(x.r);
    i.h = ref::cross(x.r, x.v);
    i.e = ref::sub(ref::mul(1 / mu, ref::cross(x.v, i.h)), ref::mul(1 / ref::norm(x.r), x.r));
    return i;
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 4, [](Recorder &rec, Rng &g, long) {
        Orbit o = orbit(g, true, true);
        std::string treg;
        const double tof = tof_for(g, o, treg);
        const bool calib = rec.opt.mode == "calib";
        const double K = calib ? 1 : 50;
        const int who = static_cast<int>(g.n(3)); // 0 lagrangian, 1 universal, 2 keplerian
        static const char *names[] = {"lagrangian", "universal", "keplerian"};
        const std::string nm = names[who];
        auto in = [&] { return J().t("propagator", nm).t("regime", o.regime + "/" + treg).rv("rv", o.rv).d("tof", tof).d("mu", o.mu).d("e", o.e).str(); };
        const Prop p(o.rv, tof, o.mu);
        if (!p.info.ok) {
            rec.ev("inconclusive:reference");
            return;
        }
        if (who == 2 && !(o.e > 1e-4 && std::sin(o.inc) > 1e-3)) {
            rec.ev("skipped:keplerian-singular");
            return;
        }
        auto fly = [&](const rv_t &x, double t, double mu) {
            return (who == 0 ? kep3::propagate_lagrangian(x, t, mu, false) : who == 1 ? kep3::propagate_lagrangian_u(x, t, mu, false) : kep3::propagate_keplerian(x, t, mu, false)).first;
        };
        auto bound = [&](const Prop &q) {
            if (who == 0) return q.lagrange();
            if (who == 1) return q.universal();
            const ref::Par e = ref::ic2par(q.x, q.mu);
            return q.elements(ref::d(e.e), ref::d(e.i), ref::d(e.w), ref::d(e.f));
        };
        auto ok = [&](const Prop &q, const RVB &b) { return q.info.ok && K * b.r < 1e-3 * q.Rf && K * b.v < 1e-3 * q.Vf; };
        const RVB b = bound(p);
        if (!ok(p, b)) {
            rec.ev("skipped:ill-conditioned");
            return;
        }
        const std::string reg = calib ? ":" + o.regime + "/" + treg : "";
        auto near = [&](const std::string &what, const rv_t &y, const ref::RV &z, double br, double bv) {
            rec.check(nm + ":" + what + ":position" + reg, ref::dist(z.r, y[0]), K * br, in);
            rec.check(nm + ":" + what + ":velocity" + reg, ref::dist(z.v, y[1]), K * bv, in);
        };
        rec.ev("regime:" + o.regime + "/" + treg);
        if (tof != 0.) rec.nontriv(hash_vec(o.rv[0], hash_vec(o.rv[1], hash_bytes(&tof, 8, static_cast<std::uint64_t>(who)))));
        rec.sample(in);
        const rv_t y = fly(o.rv, tof, o.mu);
        const ref::RV yq = ref::toQ(y);

        // conservation: phase errors do not matter here, so the bound leaves them out
        {
            const Inv a = invariants(p.x, o.mu), c = invariants(yq, o.mu);
            const double ca = 1 + (p.V0 * p.V0 / 2 + o.mu / p.R0) * p.A * 2 / o.mu;
            const double F = std::abs(ref::d(p.info.F)), G = std::abs(ref::d(p.info.G)), Ft = std::abs(ref::d(p.info.Ft)), Gt = std::abs(ref::d(p.info.Gt) - 1);
            const double sA = std::sqrt(p.A);
            const double dR = p.A + (p.R0 + p.A) * p.ch + p.s0 * sA * p.sh;
            const double dF = p.A / p.R0 * (1 + p.ch), dG = p.A * p.s0 / std::sqrt(o.mu) * (1 + p.ch) + p.R0 * std::sqrt(p.A / o.mu) * p.sh;
            const double dFt = Ft + std::sqrt(o.mu * p.A) / (p.Rf * p.R0) * p.sh + Ft * dR / p.Rf, dGt = 1 + p.A / p.Rf * (1 + p.ch) + Gt * dR / p.Rf;
            double br = EPS * ca * (p.R0 * (1 + F + dF) + p.V0 * (G + dG)), bv = EPS * ca * (p.R0 * dFt + p.V0 * (1 + dGt));
            if (who == 1 || who == 2) { // these go through the whole anomaly, or through elements
                br = b.r;
                bv = b.v;
            }
            const double h = ref::d(ref::norm(a.h));
            const double bE = p.Vf * bv + o.mu / (p.Rf * p.Rf) * br + EPS * (p.V0 * p.V0 + o.mu / p.R0), bh = p.Rf * bv + p.Vf * br + EPS * h;
            const double be = (bv * h + p.Vf * bh) / o.mu + 2 * br / p.Rf + EPS * (1 + p.V0 * h / o.mu);
            rec.check(nm + ":energy" + reg, std::abs(ref::d(c.E - a.E)), K * bE, in);
            rec.check(nm + ":angular-momentum" + reg, ref::d(ref::norm(ref::sub(c.h, a.h))), K * bh, in);
            rec.check(nm + ":eccentricity-vector" + reg, ref::d(ref::norm(ref::sub(c.e, a.e))), K * be, in);
        }
        // error of a second leg that starts from a slightly wrong state
        auto carried = [&](const Prop &second, const M6 &M, const RVB &b1, const RVB &b2) {
            double rr = 0, rv = 0, vr = 0, vv = 0;
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    rr += ref::d(M[i][j] * M[i][j]);
                    rv += ref::d(M[i][j + 3] * M[i][j + 3]);
                    vr += ref::d(M[i + 3][j] * M[i + 3][j]);
                    vv += ref::d(M[i + 3][j + 3] * M[i + 3][j + 3]);
                }
            (void)second;
            return RVB{b2.r + std::sqrt(rr) * b1.r + std::sqrt(rv) * b1.v, b2.v + std::sqrt(vr) * b1.r + std::sqrt(vv) * b1.v};
        };
        // composition with an arbitrary (also opposite) split
        {
            const double t1 = tof * g.u(-0.5, 1.5), t2 = tof - t1;
            const Prop p1(o.rv, t1, o.mu);
            const RVB b1 = bound(p1);
            if (ok(p1, b1)) {
                const rv_t m = fly(o.rv, t1, o.mu);
                M6 M;
                const Prop p2(m, t2, o.mu, &M);
                const RVB b2 = bound(p2);
                if (ok(p2, b2)) {
                    const rv_t z = fly(m, t2, o.mu);
                    const RVB cb = carried(p2, M, b1, b2);
                    if (K * cb.r < 1e-3 * p.Rf && K * cb.v < 1e-3 * p.Vf) near("composition", z, yq, cb.r + b.r + p.Vf * EPS * std::abs(tof), cb.v + b.v + o.mu / (p.Rf * p.Rf) * EPS * std::abs(tof));
                    else rec.ev("skipped:composition");
                } else rec.ev("skipped:composition");
            } else rec.ev("skipped:composition");
        }
        // there and back, and the time-reversed motion
        {
            M6 M;
            const Prop p2(y, -tof, o.mu, &M);
            const RVB b2 = bound(p2);
            if (ok(p2, b2)) {
                const RVB cb = carried(p2, M, b, b2);
                if (K * cb.r < 1e-3 * p.R0 && K * cb.v < 1e-3 * p.V0) near("there-and-back", fly(y, -tof, o.mu), p.x, cb.r, cb.v);
                else rec.ev("skipped:there-and-back");
            } else rec.ev("skipped:there-and-back");
            rv_t m = o.rv;
            for (auto &c : m[1]) c = -c;
            rv_t z = fly(m, -tof, o.mu);
            for (auto &c : z[1]) c = -c;
            near("reversed-motion", z, yq, 2 * b.r, 2 * b.v);
        }
        // no time
        near("zero-time", fly(o.rv, 0., o.mu), p.x, bound(Prop(o.rv, 0., o.mu)).r, bound(Prop(o.rv, 0., o.mu)).v);
        // whole periods
        if (p.ell) {
            const Q a = 1 / p.info.alpha, P = 2 * ref::PI * a * sqrtq(a / Q(o.mu));
            const double k = std::rint(g.logu(1, 300)) * g.sgn(), t = ref::d(k * P), res = std::abs(ref::d(t - k * P));
            const Prop pp(o.rv, t, o.mu);
            const RVB bp = bound(pp);
            if (ok(pp, bp)) near("whole-periods", fly(o.rv, t, o.mu), p.x, bp.r + p.V0 * res, bp.v + o.mu / (p.R0 * p.R0) * res);
        }
        // units: exact powers of two and arbitrary factors
        {
            const bool two = g.p(0.3);
            const double L = two ? std::ldexp(1., static_cast<int>(g.n(41)) - 20) : g.logu(1e-6, 1e6), T = two ? std::ldexp(1., static_cast<int>(g.n(41)) - 20) : g.logu(1e-6, 1e6);
            rv_t m = o.rv;
            for (auto &c : m[0]) c *= L;
            for (auto &c : m[1]) c *= L / T;
            rv_t z = fly(m, tof * T, o.mu * (L * L * L) / (T * T));
            for (auto &c : z[0]) c /= L;
            for (auto &c : z[1]) c /= L / T;
            near("units", z, yq, 2 * b.r + 4 * EPS * ref::d(p.c.r), 2 * b.v + 4 * EPS * ref::d(p.c.v));
        }
        // rotated frame
        {
            const rot_t R = rotation(g);
            const rv_t m{ref::toD(apply(R, p.x.r)), ref::toD(apply(R, p.x.v))};
            const Prop pr(m, tof, o.mu);
            const RVB br = bound(pr);
            if (ok(pr, br)) {
                const rv_t z = fly(m, tof, o.mu);
                near("rotation", z, {apply(R, yq.r), apply(R, yq.v)}, b.r + br.r + EPS * ref::d(p.c.r), b.v + br.v + EPS * ref::d(p.c.v));
            } else rec.ev("skipped:rotation");
        }
    });
}

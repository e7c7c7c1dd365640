// P19: fly-by constraints, delta-v and outgoing velocity against quad-precision patched-conic geometry.
#include "bounds.hpp"
#include "calls.hpp"
#include <kep3/core_astro/flyby.hpp>
#include <kep3/planet.hpp>
using namespace vf;
using ref::Q;
using ref::V3;
namespace
{
struct Body { // a user planet
    double mu = 1, safe = 1;
    rv_t eph(double) const { return {{{1, 0, 0}, {0, 1, 0}}}; }
    double get_mu_self() const { return mu; }
    double get_safe_radius() const { return safe; }
    double get_radius() const { return safe / 1.7; }
    double get_mu_central_body() const { return 3.3; }
    template <class A>
    void serialize(A &, unsigned)
    {
    }
};
} // namespace
TANUKI_S11N_WRAP_EXPORT(Body, kep3::detail::planet_iface)
namespace
{
// Turn at pericentre rp, and how far rounding moves it.
Q turn(Q V2, Q rp, Q mu) { return 2 * asinq(1 / (1 + rp / mu * V2)); }
double turn_err(Q V2, Q rp, Q mu)
{
    const double x = ref::d(1 / (1 + rp / mu * V2));
    const double s = std::sqrt(std::max(0., (1 - x) * (1 + x)));
    return 2 * std::min(6 * EPS * x / s, 4 * std::sqrt(EPS)) + 4 * EPS;
}
Q angle(const V3 &a, const V3 &b) { return atan2q(ref::norm(ref::cross(a, b)), ref::dot(a, b)); }
v3 scaled(const v3 &u, double k) { return {u[0] * k, u[1] * k, u[2] * k}; }
v3 toward(const v3 &u, const v3 &w, double ang) // u turned by ang in the plane of u and w
{
    const V3 i = ref::mul(1 / ref::norm(ref::toQ(u)), ref::toQ(u));
    V3 k = ref::cross(i, ref::toQ(w));
    k = ref::mul(1 / ref::norm(k), k);
    const V3 j = ref::cross(k, i);
    return ref::toD(ref::mul(ref::norm(ref::toQ(u)), ref::add(ref::mul(cosq(ang), i), ref::mul(sinq(ang), j))));
}
} // namespace
int main(int argc, char **argv)
{
    return drive(argc, argv, 19, [](Recorder &rec, Rng &g, long) {
        const double K = 40;
        // scales: speed, gravity parameter, safe radius over mu/V^2
        const double V = g.p(0.3) ? 1. : g.logu(1e-3, 1e5), mu = g.p(0.3) ? 1. : g.logu(1e-6, 1e18);
        const double x = g.p(0.1) ? g.logu(1e-12, 1e-3) : g.p(0.1) ? g.logu(1e3, 1e9) : g.logu(1e-3, 1e2);
        const double rs = x * mu / (V * V);
        const v3 u = unit(g), w = unit(g);
        v3 vin = scaled(u, V), vout;
        const Q dmax = turn(ref::dot(ref::toQ(vin), ref::toQ(vin)), rs, mu);
        std::string how;
        const double f = g.p(0.4) ? 1. : g.p(0.5) ? g.logu(0.1, 10.) : 1 + g.sgn() * g.logu(1e-16, 1e-2);
        switch (g.n(7)) {
            case 0:
                how = "parallel";
                vout = scaled(vin, f);
                break;
            case 1:
                how = "antiparallel";
                vout = scaled(vin, -f);
                break;
            case 2:
                how = "nearly-parallel";
                vout = scaled(toward(vin, w, g.logu(1e-12, 1e-4)), g.p(0.5) ? f : -f);
                break;
            case 3:
                how = "largest-turn";
                vout = scaled(toward(vin, w, ref::d(dmax) + (g.p(0.3) ? 0. : g.sgn() * g.logu(1e-17, 1e-2))), f);
                break;
            case 4:
                how = "within-largest-turn";
                vout = scaled(toward(vin, w, ref::d(dmax) * g.u()), f);
                break;
            case 5:
                how = "axis";
                vin = vout = {0, 0, 0};
                vin[g.n(3)] = g.sgn() * V;
                vout[g.n(3)] = g.sgn() * V * f;
                break;
            default:
                how = "free";
                vout = scaled(w, V * f);
        }
        auto in = [&] { return J().t("how", how).a("v_in", vin).a("v_out", vout).d("mu", mu).d("safe_radius", rs).str(); };
        rec.ev("velocities:" + how);
        const V3 a = ref::toQ(vin), b = ref::toQ(vout);
        const Q Va2 = ref::dot(a, a), Vb2 = ref::dot(b, b), Va = sqrtq(Va2), Vb = sqrtq(Vb2);
        const Q al = angle(a, b), dm = turn(Va2, rs, mu), ineq = al - dm;
        const double ei = K * (acos_err(ref::d(al), 4 * EPS) + EPS * 4) / 8 + K * turn_err(Va2, rs, mu) / 8;
        const auto con = kep3::fb_con(vin, vout, mu, rs);
        rec.check("con:speeds", std::abs(ref::d(con.first - (Va2 - Vb2))), K * EPS * ref::d(Va2 + Vb2), in);
        rec.check("con:turn", std::abs(ref::d(con.second - ineq)), ei, in);

        // the smallest correction
        const Q ex = ineq > 0 ? ineq : Q(0);
        const Q sh = sinq(ex / 2), want2 = (Va - Vb) * (Va - Vb) + 4 * Va * Vb * sh * sh, want = sqrtq(want2);
        const double dv = kep3::fb_dv(vin, vout, mu, rs);
        const double near = ineq > 0 || -ineq < ei ? 1 : 0; // rounding may leave an infinitesimal excess
        const double esq = K * EPS * ref::d(Va2 + Vb2) + near * ref::d(Va * Vb) * (2 * std::abs(ref::d(sinq(ex))) * ei + ei * ei);
        const double ed = std::min(std::sqrt(esq), want > 0 ? 2 * esq / ref::d(want) : 1e300) + K * EPS * ref::d(Va + Vb);
        rec.check("dv", std::abs(ref::d(dv - want)), ed, in, how);
        rec.require("dv:not-negative", dv >= 0, in);
        if (ineq < -ei) {
            rec.ev("feasible-turn");
            rec.check("dv:feasible-turn", std::abs(ref::d(dv - fabsq(Va - Vb))), K * EPS * ref::d(Va + Vb), in);
        } else if (ineq > ei)
            rec.ev("infeasible-turn");
        // nothing reachable is cheaper
        for (int k = 0; k < 4; ++k) {
            const v3 dir = g.p(0.5) ? vout : unit(g);
            if (ref::d(ref::norm(ref::cross(a, ref::toQ(dir)))) < 1e-6 * ref::d(Va * ref::norm(ref::toQ(dir)))) continue;
            const Q t = fminq(g.p(0.5) ? dm : dm * g.u(), g.p(0.3) ? al : Q(10));
            const v3 reach = toward(vin, dir, ref::d(t));
            const Q cost = ref::norm(ref::sub(ref::toQ(reach), b));
            rec.check("dv:nothing-cheaper", ref::d(dv - cost) + ed + 1e-14 * ref::d(Va), 2 * (ed + 1e-14 * ref::d(Va)), in);
        }
        // the same through a planet
        {
            Body bd;
            bd.mu = mu;
            bd.safe = rs;
            const kep3::planet p(bd);
            const auto c2 = kep3::fb_con(vin, vout, p);
            rec.require("planet:con", (Hash() << c2).h == (Hash() << con).h, in);
            rec.require("planet:dv", (Hash() << kep3::fb_dv(vin, vout, p)).h == (Hash() << dv).h, in);
        }

        // outgoing velocity
        const v3 vp = g.p(0.05) ? scaled(unit(g), V * 1e4) : g.p(0.05) ? scaled(unit(g), V * 1e-4) : scaled(unit(g), V * g.logu(0.1, 10.));
        v3 vabs{vin[0] + vp[0], vin[1] + vp[1], vin[2] + vp[2]};
        if (g.p(0.1)) vabs = vin; // the planet's velocity dominates
        const V3 rel = ref::sub(ref::toQ(vabs), ref::toQ(vp));
        const Q W2 = ref::dot(rel, rel), W = sqrtq(W2);
        const Q sang = ref::norm(ref::cross(rel, ref::toQ(vp))) / (W * ref::norm(ref::toQ(vp)));
        if (!(W > 0) || !(sang > 1e-9Q)) {
            rec.ev("skipped:no-plane"); // the relative velocity is along the planet's: no plane to measure the angle from
            return;
        }
        const double rp = g.p(0.4) ? rs : g.p(0.5) ? rs * g.logu(1e-3, 1e3) : g.logu(1e-6, 1e6) * mu / ref::d(W2);
        const double beta = g.p(0.2) ? static_cast<double>(g.n(9)) * M_PI / 4 - M_PI : g.u(-2 * M_PI, 2 * M_PI);
        auto inv = [&] { return J().t("call", "fb_vout").a("v_in", vabs).a("v_pla", vp).d("rp", rp).d("beta", beta).d("mu", mu).str(); };
        const auto o = kep3::fb_vout(vabs, vp, rp, beta, mu);
        const V3 i = ref::mul(1 / W, rel);
        V3 j = ref::cross(i, ref::toQ(vp));
        j = ref::mul(1 / ref::norm(j), j);
        const V3 k = ref::cross(i, j);
        const Q de = turn(W2, rp, mu);
        V3 t;
        for (int n = 0; n < 3; ++n) t[n] = vp[n] + W * (cosq(de) * i[n] + cosq(beta) * sinq(de) * j[n] + sinq(beta) * sinq(de) * k[n]);
        const double Wd = ref::d(W), P = ref::d(ref::norm(ref::toQ(vp)));
        const double eo = K * (EPS * (P + Wd * 4) + Wd * std::abs(ref::d(sinq(de))) * EPS * 2 / ref::d(sang) + Wd * turn_err(W2, rp, mu) / 4);
        rec.check("vout", ref::dist(t, o), eo, inv);
        const V3 ro = ref::sub(ref::toQ(o), ref::toQ(vp));
        rec.check("vout:speed", std::abs(ref::d(ref::norm(ro) - W)), K * EPS * (P + Wd * (2 + 2 / ref::d(sang))), inv);
        rec.check("vout:turn", std::abs(ref::d(angle(rel, ro) - de)), K * EPS * (P / Wd + 4 + 2 / ref::d(sang)) + K * turn_err(W2, rp, mu) / 4, inv);
        // and back through the constraints: feasible and free above the safe radius, excess turn below it
        {
            const v3 ri = ref::toD(rel), rr = ref::toD(ro);
            const auto c = kep3::fb_con(ri, rr, mu, rs);
            const double sp = K * EPS * (P + Wd * (2 + 2 / ref::d(sang)));
            const double el = K * (EPS * (P / Wd + 8 + 2 / ref::d(sang)) + turn_err(W2, rp, mu) + turn_err(W2, rs, mu) + acos_err(ref::d(de), EPS * (4 + P / Wd + 2 / ref::d(sang))));
            rec.check("consistent:speeds", std::abs(c.first), 2 * Wd * sp * 2, inv);
            rec.check("consistent:turn", std::abs(ref::d(c.second - (de - turn(W2, rs, mu)))), el, inv);
            const double d2 = kep3::fb_dv(ri, rr, mu, rs);
            const Q exc = fmaxq(de - turn(W2, rs, mu), Q(0));
            const double w2 = 2 * Wd * ref::d(sinq(exc / 2));
            rec.check("consistent:dv", std::abs(d2 - w2), 2 * sp + Wd * el + std::sqrt(K * EPS) * Wd * (exc > 0 || de - turn(W2, rs, mu) > -el ? 1 : 0), inv);
        }
        rec.nontriv(hash_vec(vin, hash_vec(vout, hash_vec(std::array<double, 4>{mu, rs, rp, beta}))));
        rec.sample(in);
    });
}

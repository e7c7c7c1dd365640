// P01: every Lambert solution solves the boundary value problem. P02 (mode=enum): branches, order, direction.
#include "ref_lambert.hpp"
#include <kep3/lambert_problem.hpp>
#include <memory>
using namespace vf;
using ref::Q;

namespace
{
struct LamNoise {
    double dt, dv0, dv1;
    double swing; // relative error of the transverse velocity: large for almost rectilinear passages through the centre
};
// First-order rounding model of an x-based Lambert solver (units of EPS folded in).
LamNoise lam_noise(const ref::LamGeo &G, const ref::LamSol &s, double mu)
{
    const double lam = ref::d(G.lam), al = std::abs(lam), x = ref::d(s.x), ax = std::abs(x), T = ref::d(G.T), S = ref::d(G.s), c = ref::d(G.c);
    const double R0 = ref::d(G.R0), R1 = ref::d(G.R1);
    const int N = s.revs;
    const double E = std::abs(ref::d((s.x - 1) * (s.x + 1))), z = ref::d(sqrtq(1 - G.lam * G.lam + G.lam * G.lam * s.x * s.x));
    const double DT = std::abs(ref::d(ref::lam_dT(s.x, G.lam, G.T)));
    const double dlam = EPS * std::min(2 * (R0 + R1) / S / al, 1 / std::sqrt(EPS)) + EPS;
    const Q hl = 1e-12Q;
    const double Tl = std::abs(ref::d((ref::lam_T(s.x, G.lam * (1 - hl), N) - ref::lam_T(s.x, G.lam * (1 + hl), N)) / (2 * hl * G.lam)));
    double ev;
    const double dist = std::abs(x - 1);
    auto battin = [&] {
        const double eta = z - lam * x, e3 = std::abs(eta * eta * eta);
        return EPS * (e3 + 4 * al * std::abs(eta) + 8) + 1e-13 * e3 + EPS * N * M_PI * (std::pow(E, -1.5) + 1.5 * std::pow(E, -2.5));
    };
    auto lagr = [&] {
        const double a = 1 / E, sa = std::sqrt(E), alpha = 2 * std::atan2(sa, ax), beta = 2 * std::asin(std::min(1., al * sa));
        return EPS * (1.5 * a * T + std::pow(a, 1.5) * 2 * (alpha + beta + 2 * M_PI * N));
    };
    auto lanc = [&] {
        const double y = std::sqrt(E);
        double dd, d;
        const double gm = ax * z + al * E;
        if (x < 1) {
            const double sd = std::max(y * ref::d((1 - G.lam * G.lam) / (z + fabsq(G.lam * s.x))), 1e-300);
            const double sd2 = lam * x > 0 ? sd : y * (z + al * ax);
            dd = std::min(EPS * (1 + gm) / sd2, 3 * std::sqrt(EPS * (1 + gm)));
            d = N * M_PI + M_PI;
        } else {
            const double fg = std::max(1., std::exp(ref::d(asinhq(sqrtq((s.x - 1) * (s.x + 1)) * (sqrtq(1 - G.lam * G.lam + G.lam * G.lam * s.x * s.x) - G.lam * s.x)))));
            dd = EPS * (gm + y * (z + al * ax)) / fg;
            d = std::log(fg) + 1;
        }
        return EPS * (ax + al * z + d / y) / E + dd / (y * E) + EPS * (T + d / (y * E)) / E;
    };
    // the branch is chosen on |x-1|; be generous about its exact limits
    if (dist < 0.005)
        ev = battin();
    else if (dist < 0.02)
        ev = battin() + lagr();
    else if (dist < 0.15)
        ev = lagr();
    else if (dist < 0.3)
        ev = lagr() + lanc();
    else
        ev = lanc();
    const double sc = std::min(std::min(1., std::abs(1 + x)), 1.);
    const double stop = N == 0 ? 1e-20 / (sc * sc * sc) : 0.; // last Householder step below 1e-5
    const double dT = EPS * (DT * ax + 2 * T) + DT * stop + ev + Tl * dlam;
    LamNoise n;
    n.dt = dT * S * std::sqrt(S / (2 * mu));
    const double gam = std::sqrt(mu * S / 2), rho = std::abs(R0 - R1) / c, sig = std::sqrt(std::max(0., 1 - rho * rho));
    const double drho = EPS * (1 + (R0 + R1) / c * (1 + rho)), dsig = std::min(rho * drho / std::max(sig, 1e-300), 2 * std::sqrt(drho)) + EPS * sig;
    const double vt = z + al * ax;
    const double dg = gam * (EPS * (al * z + ax) * (1 + rho) * 4 + drho * (al * z + ax) + dlam * (z + ax) * (1 + rho) + dsig * vt + sig * dlam * (1 + ax) + EPS * sig * vt * 4);
    const double st = ref::d(G.sin_theta);
    const double V0 = ref::d(ref::norm(s.v0)), V1 = ref::d(ref::norm(s.v1));
    n.dv0 = dg / R0 + V0 * EPS * 2 / st;
    n.dv1 = dg / R1 + V1 * EPS * 2 / st;
    const double tr = lam * x < 0 ? ref::d((1 - G.lam * G.lam) / (z + al * ax)) : vt;
    n.swing = EPS * vt / tr;
    return n;
}
} // namespace

int main(int argc, char **argv)
{
    const Options op = parse(argc, argv);
    const bool enumeration = op.mode == "enum";
    return drive(argc, argv, enumeration ? 2 : 1, [&](Recorder &rec, Rng &g, long) {
        const bool calib = rec.opt.extra.count("calib");
        const double K = calib ? 1 : 60;
        const LamCase c = lambert_case(g, enumeration || g.p(0.02));
        auto in = [&] { return lam_str(c); };
        const ref::V3 q0 = ref::toQ(c.r0), q1 = ref::toQ(c.r1);
        const ref::LamRef L = ref::lam_solve(q0, q1, c.tof, c.mu, c.cw, c.cap);
        if (L.g.ih[2] < 1e-9Q || L.g.sin_theta < 1e-7Q) {
            rec.ev("skipped:nearly-ill-posed");
            return;
        }
        rec.ev("regime:" + c.regime);
        if (L.margin < 1e-9) {
            rec.ev("skipped:on-a-minimum-time");
            return;
        }
        std::unique_ptr<kep3::lambert_problem> lp;
        try {
            lp = std::make_unique<kep3::lambert_problem>(c.r0, c.r1, c.tof, c.mu, c.cw, c.cap);
        } catch (const std::exception &e) {
            rec.violate("refuses-well-posed", e.what(), in());
            return;
        }
        rec.sample(in);
        const auto &v0 = lp->get_v0();
        const auto &v1 = lp->get_v1();
        const std::size_t n = v0.size();
        const std::string reg = calib ? ":" + c.regime : "";
        if (!enumeration) {
            if (!rec.require("sizes", n >= 1 && v1.size() == n, in)) return;
            bool decided = false;
            for (std::size_t i = 0; i < n; ++i) {
                bool fin = true;
                for (int j = 0; j < 3; ++j) fin = fin && std::isfinite(v0[i][j]) && std::isfinite(v1[i][j]);
                if (!rec.require("finite", fin, in, "solution " + std::to_string(i))) continue;
                if (i >= L.sol.size()) {
                    rec.violate("more-solutions-than-feasible", "solution " + std::to_string(i), in());
                    break;
                }
                const ref::RV x{q0, ref::toQ(v0[i])};
                ref::PropInfo info;
                const ref::RV xf = ref::kepler(x, c.tof, c.mu, &info);
                if (!info.ok) {
                    rec.ev("inconclusive:reference");
                    continue;
                }
                // tolerance from the reference solution, not from what was returned
                const ref::RV xr{q0, L.sol[i].v0};
                ref::M6 m;
                const ref::RV xrf = ref::kepler(xr, c.tof, c.mu);
                const ref::Cond cd = ref::cond(xr, c.tof, c.mu, xrf, &m);
                double prv = 0, pvv = 0;
                for (int a = 0; a < 3; ++a)
                    for (int b = 3; b < 6; ++b) {
                        prv += ref::d(m[a][b] * m[a][b]);
                        pvv += ref::d(m[a + 3][b] * m[a + 3][b]);
                    }
                const LamNoise ns = lam_noise(L.g, L.sol[i], c.mu);
                const double R1 = ref::d(L.g.R1), V1 = ref::d(ref::norm(L.sol[i].v1));
                const double Br = EPS * ref::d(cd.r) + V1 * ns.dt + std::sqrt(prv) * ns.dv0;
                const double Bv = EPS * ref::d(cd.v) + c.mu / (R1 * R1) * ns.dt + std::sqrt(pvv) * ns.dv0 + ns.dv1;
                if (ns.swing > 1e-8) {
                    rec.ev("skipped:almost-rectilinear-solution");
                    continue;
                }
                if (K * Br > 1e-3 * R1 || K * Bv > 1e-3 * V1) {
                    rec.ev("skipped:ill-conditioned-solution");
                    continue;
                }
                decided = true;
                const char *br = i == 0 ? "zero-rev" : i % 2 ? "left" : "right";
                auto ini = [&] { return J().raw("problem", lam_str(c)).i("solution", static_cast<long>(i)).a("v0", v0[i]).a("v1", v1[i]).str(); };
                rec.check(std::string(br) + ":arrival-position" + reg, ref::dist(xf.r, c.r1), K * Br, ini);
                rec.check(std::string(br) + ":arrival-velocity" + reg, ref::dist(xf.v, v1[i]), K * Bv, ini);
            }
            if (decided) rec.nontriv(hash_vec(c.r0, hash_vec(c.r1, hash_vec(std::array<double, 4>{c.tof, c.mu, double(c.cw), double(c.cap)}))));
            return;
        }
        // ---- P02
        rec.nontriv(hash_vec(c.r0, hash_vec(c.r1, hash_vec(std::array<double, 4>{c.tof, c.mu, double(c.cw), double(c.cap)}))));
        if (L.margin < 1e-4) rec.ev("within-1e-4-of-a-minimum-time");
        rec.ev("solutions", static_cast<long>(n));
        if (g.p(0.02)) { // arguments left out
            auto same = [](const kep3::lambert_problem &a, const kep3::lambert_problem &b) { return a.get_v0() == b.get_v0() && a.get_v1() == b.get_v1() && a.get_Nmax() == b.get_Nmax() && a.get_mu() == b.get_mu() && a.get_x() == b.get_x() && a.get_iters() == b.get_iters(); };
            try {
                using lp_t = kep3::lambert_problem;
                rec.require("default-revolutions", same(lp_t(c.r0, c.r1, c.tof, c.mu, c.cw), lp_t(c.r0, c.r1, c.tof, c.mu, c.cw, 1)), in);
                rec.require("default-direction", same(lp_t(c.r0, c.r1, c.tof, c.mu), lp_t(c.r0, c.r1, c.tof, c.mu, false, 1)), in);
                if (c.mu == 1.) rec.require("default-mu", same(lp_t(c.r0, c.r1, c.tof), lp_t(c.r0, c.r1, c.tof, 1., false, 1)), in);
            } catch (const std::domain_error &) { // (the other direction's revolutions can be beyond computing)
                rec.ev("defaults:refused");
            }
        }
        rec.require("inputs-reported", lp->get_r0() == c.r0 && lp->get_r1() == c.r1 && lp->get_tof() == c.tof && lp->get_mu() == c.mu, in);
        if (!rec.require("number-of-solutions", n == static_cast<std::size_t>(2 * L.N + 1) && lp->get_Nmax() == static_cast<unsigned>(L.N), in,
                         "got " + std::to_string(n) + " (Nmax " + std::to_string(lp->get_Nmax()) + "), feasible revolutions " + std::to_string(L.N)))
            return;
        if (!rec.require("sizes", v1.size() == n && lp->get_x().size() == n && lp->get_iters().size() == n, in)) return;
        for (std::size_t i = 0; i < n; ++i) {
            bool fin = true;
            for (int j = 0; j < 3; ++j) fin = fin && std::isfinite(v0[i][j]) && std::isfinite(v1[i][j]);
            if (!fin) {
                rec.violate("not-finite", "solution " + std::to_string(i), in());
                continue;
            }
            auto ini = [&] { return J().raw("problem", lam_str(c)).i("solution", static_cast<long>(i)).a("v0", v0[i]).d("x", lp->get_x()[i]).i("iters", lp->get_iters()[i]).str(); };
            const double xr = ref::d(L.sol[i].x), xi = lp->get_x()[i];
            // direction of motion
            const ref::V3 H = ref::cross(q0, ref::toQ(v0[i]));
            const Q hn = ref::norm(H);
            const double st = ref::d(L.g.sin_theta);
            if (hn > 1e-9Q * L.g.R0 * ref::norm(ref::toQ(v0[i]))) rec.require("direction", (H[2] > 0) == !c.cw, ini);
            // revolutions completed: along the reference trajectory of the returned departure velocity
            const ref::RV x{q0, ref::toQ(v0[i])};
            const ref::V3 ev = ref::sub(ref::mul(1 / Q(c.mu), ref::cross(x.v, H)), ref::mul(1 / L.g.R0, q0));
            const Q al = 2 / L.g.R0 - ref::dot(x.v, x.v) / c.mu;
            const int want = static_cast<int>((i + 1) / 2);
            if (al > 0) {
                // mean anomaly travelled: from eccentric anomalies at both ends
                const Q a = 1 / al, P = 2 * ref::PI * a * sqrtq(a / c.mu);
                const Q revs_time = c.tof / P;
                // eccentric anomaly difference = 2 pi revs + fraction; whole revolutions follow from the swept angle
                (void)ev;
                const ref::RV xf = ref::kepler(x, c.tof, c.mu);
                // true swept angle in [0, 2 pi) in the sense of motion
                const Q sw0 = atan2q(ref::dot(ref::cross(q0, xf.r), H) / hn, ref::dot(q0, xf.r));
                const Q sw = sw0 < 0 ? sw0 + 2 * ref::PI : sw0;
                // time to sweep that partial angle on this orbit, via eccentric anomalies
                auto ecc_anom = [&](const ref::V3 &r, const ref::V3 &v) {
                    const Q ec = 1 - ref::norm(r) * al, es = ref::dot(r, v) / sqrtq(c.mu * a);
                    return std::pair<Q, Q>(ec, es);
                };
                const auto A = ecc_anom(q0, x.v), B = ecc_anom(xf.r, xf.v);
                const Q EA = atan2q(A.second, A.first), EB = atan2q(B.second, B.first);
                Q dM = (EB - B.second) - (EA - A.second);
                dM = ref::wrap2pi(dM);
                const Q k = revs_time - dM / (2 * ref::PI);
                const double kr = std::rint(ref::d(k));
                // near a whole number of revolutions the fraction is ambiguous: partial angle close to 0 or 2 pi
                // and a trajectory that misses its target (P01's matter) or is too sensitive has no such count
                const bool arrives = ref::norm(ref::sub(xf.r, ref::toQ(c.r1))) < 1e-3Q * std::min(L.g.c, L.g.R1 * L.g.sin_theta);
                if (arrives && sw > 1e-6Q && sw < 2 * ref::PI - 1e-6Q && std::abs(ref::d(k) - kr) < 1e-3)
                    rec.require("revolutions", static_cast<int>(kr) == want, ini, "completed " + std::to_string(static_cast<int>(kr)) + ", expected " + std::to_string(want));
                else
                    rec.ev("inconclusive:revolutions");
            } else
                rec.require("revolutions", want == 0, ini, "open orbit");
            // the branch: x against the reference root
            const double DT = std::abs(ref::d(ref::lam_dT(L.sol[i].x, L.g.lam, L.g.T))), D2 = std::abs(xr) < 1e3 && i > 0 ? 1. : 0.;
            (void)D2;
            const LamNoise ns = lam_noise(L.g, L.sol[i], c.mu);
            const double dT = ns.dt / (ref::d(L.g.s) * std::sqrt(ref::d(L.g.s) / (2 * c.mu)));
            double dx = 60 * dT / std::max(DT, 1e-300);
            if (i > 0) dx = std::min(dx, 60 * std::sqrt(dT)); // close to the double root
            dx += 60 * EPS * std::abs(xr);
            if (dx < 1e-3 * std::max(1., std::abs(xr))) rec.check(i == 0 ? "x:zero-rev" : i % 2 ? "x:left" : "x:right", std::abs(xi - xr), dx, ini);
            // x describes the returned velocity: a = s/2/(1-x^2), relative to the energy scale
            const double en = ref::d(L.g.s * al / 2), sc = 1 + xi * xi + ref::d(L.g.s / L.g.R0) * 2;
            rec.check("x:energy-of-returned-velocity", std::abs(en - (1 - xi) * (1 + xi)), 60 * (EPS * sc * 8 + ns.dv0 * ref::d(ref::norm(x.v)) * ref::d(L.g.s) / c.mu) + 1e-300, ini);
            rec.require("iterations", lp->get_iters()[i] <= 1000, ini);
            if (i % 2 == 1 && i + 1 < n) rec.require("left-before-right", lp->get_x()[i] < lp->get_x()[i + 1], ini);
            (void)st;
        }
    });
}

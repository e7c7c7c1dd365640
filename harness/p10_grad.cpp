// P10: gradients of the impulsive leg against quad-precision central differences of the reference leg.
#include "ref_leg.hpp"
using namespace vf;

namespace
{
// columns of d(side state)/d(parameter), as 7 quads
using C7 = std::array<Q, 7>;
C7 vec(const QX &s) { return {s.x.r[0], s.x.r[1], s.x.r[2], s.x.v[0], s.x.v[1], s.x.v[2], s.m}; }
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 10, [](Recorder &rec, Rng &g, long) {
        const bool calib = rec.opt.mode == "calib";
        const double K = calib ? 1 : 50;
        const LegCase c = leg_case(g, 9, g.p(0.85));
        std::string route;
        auto in = [&] { return J().t("route", route).raw("leg", c.str()).str(); };
        const auto leg = leg_by_route(c, g, route);
        const unsigned n = c.nseg(), nf = leg.get_nseg_fwd(), W = 3 * n + 1;
        // throttle constraints
        {
            const auto t = leg.compute_tc_grad();
            if (rec.require("throttle:size", t.size() == std::size_t(n) * n * 3, in)) {
                double e = 0;
                for (unsigned i = 0; i < n; ++i)
                    for (unsigned j = 0; j < 3 * n; ++j) {
                        const double x = j / 3 == i ? 2 * c.u[j] : 0., d = std::abs(t[std::size_t(i) * 3 * n + j] - x);
                        if (!(d <= e)) e = d - 8 * EPS * std::abs(x) > 0 || std::isnan(d) ? d : e;
                    }
                rec.check("throttle:derivative", e, 1e-300, in);
            }
        }
        std::tuple<std::array<double, 49>, std::array<double, 49>, std::vector<double>> G;
        try {
            G = leg.compute_mc_grad();
        } catch (const std::exception &e) {
            rec.violate("throws", e.what(), in());
            return;
        }
        const auto &[Gs, Gf, Gu] = G;
        if (!rec.require("size", Gu.size() == std::size_t(7) * W, in)) return;
        bool coast = false;
        for (unsigned i = 0; i < n; ++i) coast = coast || (c.u[3 * i] == 0 && c.u[3 * i + 1] == 0 && c.u[3 * i + 2] == 0);
        bool fin = true;
        for (auto *p : {&Gs, &Gf})
            for (double x : *p) fin = fin && std::isfinite(x);
        for (double x : Gu) fin = fin && std::isfinite(x);
        const QLeg q(c, nf);
        const SideBound f = side_bound(q, true), b = side_bound(q, false);
        if (!f.ok || !b.ok) {
            rec.ev("inconclusive:reference");
            return;
        }
        auto tol_of = [&](const SideBound &s) { return K * (s.kap + 20 * EPS) * s.norm * (1 + s.dvV); };
        if (tol_of(f) > 1e-3 * f.norm || tol_of(b) > 1e-3 * b.norm) {
            rec.ev("skipped:ill-conditioned");
            return;
        }
        if (!rec.require(coast ? "finite-with-coasting" : "finite", fin, in)) return;
        rec.ev(nf == 0 ? "all-backward" : nf == n ? "all-forward" : "both-sides");
        if (coast) rec.ev("with-coasting-segments");
        if (c.tof > 0 && c.T > 0) rec.nontriv(c.hash());
        rec.sample(in);

        // one column: numerical derivative of one side, in units that make it dimensionless
        auto column = [&](const char *what, const SideBound &s, bool forward, auto perturb, Q h, double sc, auto entry, double sign) {
            QLeg a = q, d = q;
            perturb(a, h);
            perturb(d, -h);
            const C7 x = vec(forward ? a.fwd() : a.bck()), y = vec(forward ? d.fwd() : d.bck());
            double er = 0, ev = 0, em = 0, nr = 0, nv = 0, nm = 0;
            for (int i = 0; i < 7; ++i) {
                const Q w = (x[i] - y[i]) / (2 * h) * sign;
                const double dd = std::abs(ref::d(w - entry(i))) * sc, ww = std::abs(ref::d(w)) * sc;
                double &e = i < 3 ? er : i < 6 ? ev : em, &nn = i < 3 ? nr : i < 6 ? nv : nm;
                if (!(dd <= e)) e = dd;
                nn = std::max(nn, ww);
            }
            // norm of the propagation of a unit dimensionless change, this column's own size, and the sum over both
            const double own = std::max(nr / s.L, nv / s.V);
            const double base = std::string(what) == "state" ? s.norm : std::max(own, s.norm * s.dvV);
            const double rel = K * (s.kap + 20 * EPS);
            const double tol = rel * base * (1 + s.dvV) + 1e-300;
            (void)own;
            rec.check(std::string(what) + (forward ? ":fwd" : ":bck") + ":position", er / s.L, tol, in);
            rec.check(std::string(what) + (forward ? ":fwd" : ":bck") + ":velocity", ev / s.V, tol, in);
            rec.check(std::string(what) + (forward ? ":fwd" : ":bck") + ":mass", em / s.mt, K * 30 * EPS * (nm / s.mt + s.dvV * s.V / ref::d(q.isp * Q(G0_)) + (std::string(what) == "state" ? 1 : 0)) + 1e-32 / ref::d(h / Q(sc)), in);
        };
        for (int side = 0; side < 2; ++side) {
            const bool fw = side == 0;
            const SideBound &s = fw ? f : b;
            const auto &Gx = fw ? Gs : Gf;
            const double sg = fw ? 1 : -1;
            if ((fw ? nf : n - nf) == 0) { // identity
                double e = 0;
                for (int i = 0; i < 7; ++i)
                    for (int j = 0; j < 7; ++j) e = std::max(e, std::abs(Gx[7 * i + j] - (i == j ? sg : 0.)));
                rec.check(fw ? "empty-side:fwd" : "empty-side:bck", e, 1e-300, in);
            } else
                for (int j = 0; j < 7; ++j) {
                    const double sc = j < 3 ? s.L : j < 6 ? s.V : ref::d(fw ? q.ms : q.mf);
                    auto pert = [&](QLeg &l, Q h) {
                        ref::RV &x = fw ? l.xs : l.xf;
                        if (j < 3) x.r[j] += h;
                        else if (j < 6) x.v[j - 3] += h;
                        else (fw ? l.ms : l.mf) += h;
                    };
                    column(j < 6 ? "state" : "mass", s, fw, pert, Q(sc) * 1e-12Q, sc, [&](int i) { return Gx[7 * i + j]; }, sg);
                }
        }
        for (unsigned j = 0; j < 3 * n; ++j) {
            const bool fw = j / 3 < nf;
            const unsigned k = j / 3 * 3;
            const Q un = sqrtq(q.u[k] * q.u[k] + q.u[k + 1] * q.u[k + 1] + q.u[k + 2] * q.u[k + 2]);
            const Q h = (un > 0 ? un : Q(1)) * 1e-10Q;
            column("throttle", fw ? f : b, fw, [&](QLeg &l, Q d) { l.u[j] += d; }, h, 1., [&](int i) { return Gu[std::size_t(i) * W + j]; }, fw ? 1 : -1);
        }
        { // time of flight: both sides
            const double t = c.tof > 0 ? c.tof : f.L / f.V;
            const Q h = Q(t) * 1e-12Q;
            QLeg a = q, d = q;
            a.tof += h;
            if (c.tof > 0) d.tof -= h; // the time of flight is not negative: one-sided derivative at zero
            else d.tof += 2 * h;
            const auto z0 = minus(q.fwd(), q.bck());
            const auto x = minus(a.fwd(), a.bck()), y = minus(d.fwd(), d.bck());
            double e[3] = {0, 0, 0};
            for (int i = 0; i < 7; ++i) {
                const double dd = std::abs(ref::d((c.tof > 0 ? x[i] - y[i] : 4 * x[i] - y[i] - 3 * z0[i]) / (2 * h) - Gu[std::size_t(i) * W + W - 1])) * t;
                double &z = e[i < 3 ? 0 : i < 6 ? 1 : 2];
                if (!(dd <= z)) z = dd;
            }
            // dimensionless rates along both sides
            double tr = 0, tv = 0, tm = 0;
            for (const SideBound *s : {&f, &b}) {
                if (s->norm == 1 && s->kap == 0) continue;
                const double rate = t * (s->V / s->L + c.mu / (s->L * s->L * s->V)) * s->norm + s->norm * s->dvV;
                const double rel = K * (s->kap + 20 * EPS) * (1 + s->dvV);
                tr += rel * rate * s->L;
                tv += rel * rate * s->V;
                tm += K * 30 * EPS * s->mt * (s->dvV * s->V / ref::d(q.isp * Q(G0_)) + (c.tof > 0 ? 0 : ref::d(q.T * Q(t) / q.isp / Q(G0_)) / s->mt));
            }
            rec.check("tof:position", e[0], tr + 1e-300, in);
            rec.check("tof:velocity", e[1], tv + 1e-300, in);
            rec.check("tof:mass", e[2], tm + 1e-20 * (f.mt + b.mt), in);
        }
    });
}

// P09: mismatch and throttle constraints of the impulsive leg against a quad-precision leg.
#include "ref_leg.hpp"
using namespace vf;

int main(int argc, char **argv)
{
    return drive(argc, argv, 9, [](Recorder &rec, Rng &g, long) {
        const bool calib = rec.opt.mode == "calib";
        const double K = calib ? 1 : 50;
        const LegCase c = leg_case(g, 20, g.p(0.75));
        std::string route;
        auto in = [&] { return J().t("route", route).raw("leg", c.str()).str(); };
        std::unique_ptr<kep3::leg::sims_flanagan> leg;
        try {
            leg = std::make_unique<kep3::leg::sims_flanagan>(leg_by_route(c, g, route));
        } catch (const std::exception &e) {
            rec.violate("refuses-valid", e.what(), in());
            return;
        }
        const unsigned n = c.nseg();
        const unsigned lo = static_cast<unsigned>(floorq(Q(n) * Q(c.cut))), hi = static_cast<unsigned>(static_cast<double>(n) * c.cut);
        const unsigned nf = leg->get_nseg_fwd();
        if (!rec.require("segments", leg->get_nseg() == n && (nf == lo || nf == hi) && leg->get_nseg_bck() == n - nf, in,
                         "forward " + std::to_string(nf) + " of " + std::to_string(n)))
            return;
        // throttle constraints
        const auto tc = leg->compute_throttle_constraints();
        if (rec.require("throttle-constraints:size", tc.size() == n, in))
            for (unsigned i = 0; i < n; ++i) {
                Q s = 0;
                for (int j = 0; j < 3; ++j) s += Q(c.u[3 * i + j]) * c.u[3 * i + j];
                rec.check("throttle-constraints", std::abs(ref::d(s - 1 - tc[i])), 8 * EPS * (1 + ref::d(s)), in);
            }
        const QLeg q(c, nf);
        const SideBound f = side_bound(q, true), b = side_bound(q, false);
        if (!f.ok || !b.ok) {
            rec.ev("inconclusive:reference");
            return;
        }
        const QX xf = q.fwd(), xb = q.bck();
        const double br = f.r + b.r + EPS * (f.Rf + b.Rf) * 0 + EPS * ref::d(ref::norm(xf.x.r) + ref::norm(xb.x.r));
        const double bv = f.v + b.v + EPS * ref::d(ref::norm(xf.x.v) + ref::norm(xb.x.v));
        const double bm = f.m + b.m + EPS * (ref::d(xf.m) + ref::d(xb.m));
        const double sr = ref::d(ref::norm(xf.x.r) + ref::norm(xb.x.r)), sv = ref::d(ref::norm(xf.x.v) + ref::norm(xb.x.v));
        if (K * br > 1e-4 * sr || K * bv > 1e-4 * sv) {
            rec.ev("skipped:ill-conditioned");
            return;
        }
        rec.ev(nf == 0 ? "all-backward" : nf == n ? "all-forward" : "both-sides");
        rec.ev("segments", n);
        if (c.tof > 0 && c.T > 0) rec.nontriv(c.hash());
        rec.sample(in);
        std::array<double, 7> mc;
        try {
            mc = leg->compute_mismatch_constraints();
        } catch (const std::exception &e) {
            rec.violate("mismatch:throws", e.what(), in());
            return;
        }
        const auto w = minus(xf, xb);
        const std::string reg = calib ? ":" + c.regime : "";
        rec.check("mismatch:position" + reg, ref::dist({w[0], w[1], w[2]}, {mc[0], mc[1], mc[2]}), K * br, in);
        rec.check("mismatch:velocity" + reg, ref::dist({w[3], w[4], w[5]}, {mc[3], mc[4], mc[5]}), K * bv, in);
        rec.check("mismatch:mass" + reg, std::abs(ref::d(w[6] - mc[6])), K * bm, in);
    });
}

// P03: propagators against the quad-precision flow.
#include "bounds.hpp"
#include <kep3/core_astro/propagate_lagrangian.hpp>
using namespace vf;

int main(int argc, char **argv)
{
    return drive(argc, argv, 3, [](Recorder &rec, Rng &g, long i) {
        Orbit o = orbit(g, true, true);
        std::string treg;
        const double tof = tof_for(g, o, treg);
        auto in = [&](const char *who) {
            return [&, who] {
                return J().t("propagator", who).t("regime", o.regime + "/" + treg).rv("rv", o.rv).d("tof", tof).d("mu", o.mu).d("e", o.e).str();
            };
        };
        const Prop p(o.rv, tof, o.mu);
        if (!p.info.ok) {
            rec.ev("inconclusive:reference");
            return;
        }
        const RVB bl = p.lagrange(), bu = p.universal();
        if (bl.r > 1e-5 * p.Rf || bl.v > 1e-5 * p.Vf) {
            rec.ev("skipped:ill-conditioned");
            return;
        }
        rec.ev("regime:" + o.regime + "/" + treg);
        if (tof != 0.) rec.nontriv(hash_vec(o.rv[0], hash_vec(o.rv[1], hash_bytes(&tof, 8))));
        rec.sample(in("all"));
        const bool calib = rec.opt.mode == "calib";
        auto judge = [&](const char *who, const rv_t &y, RVB b, double K) {
            const std::string reg = calib ? ":" + o.regime + "/" + treg : "";
            if (calib) K = 1;
            rec.check(std::string(who) + ":position" + reg, ref::dist(p.xf.r, y[0]), K * b.r, in(who));
            rec.check(std::string(who) + ":velocity" + reg, ref::dist(p.xf.v, y[1]), K * b.v, in(who));
        };
        auto call = [&](const char *who, auto fn, RVB b, double K) {
            try {
                judge(who, fn(o.rv, tof, o.mu, false).first, b, K);
            } catch (const std::exception &e) {
                rec.violate(std::string(who) + ":throws", e.what(), in(who)());
            }
        };
        call("lagrangian", kep3::propagate_lagrangian, bl, 50);
        call("universal", kep3::propagate_lagrangian_u, bu, 50);
        if (o.e > 1e-6 && std::sin(o.inc) > 1e-4) {
            const RVB bk = p.elements(o.e, o.inc, o.w, o.f);
            if (bk.r < 1e-3 * p.Rf && bk.v < 1e-3 * p.Vf) call("keplerian", kep3::propagate_keplerian, bk, 50);
            else rec.ev("skipped:keplerian-ill-conditioned");
        }
        // vectorised: same entries, same order, every length
        if (g.p(0.3)) {
            const std::size_t n = g.n(6);
            std::vector<double> ts(n);
            for (auto &t : ts) t = tof * g.u(-1.5, 1.5);
            const bool stm = g.p(0.5);
            auto inv = [&] { return J().rv("rv", o.rv).a("tofs", ts).d("mu", o.mu).i("stm", stm).str(); };
            try {
                const auto all = kep3::propagate_lagrangian_v(o.rv, ts, o.mu, stm);
                bool absent = !kep3::propagate_lagrangian(o.rv, tof, o.mu).second && !kep3::propagate_lagrangian_u(o.rv, tof, o.mu).second;
                for (const auto &x : kep3::propagate_lagrangian_v(o.rv, ts, o.mu)) absent = absent && !x.second;
                rec.require("no-matrix-by-default", absent, inv);
                if (rec.require("vectorised:size", all.size() == n, inv))
                    for (std::size_t k = 0; k < n; ++k) {
                        const auto one = kep3::propagate_lagrangian(o.rv, ts[k], o.mu, stm);
                        double er = 0, ev = 0, nr = 0, nv = 0;
                        for (int j = 0; j < 3; ++j) {
                            er = std::max(er, std::abs(one.first[0][j] - all[k].first[0][j]));
                            ev = std::max(ev, std::abs(one.first[1][j] - all[k].first[1][j]));
                            nr = std::max(nr, std::abs(one.first[0][j]));
                            nv = std::max(nv, std::abs(one.first[1][j]));
                        }
                        // a vectorised version may legitimately round differently
                        rec.check("vectorised:position", er, 1e-9 * nr + 200 * bl.r, inv);
                        rec.check("vectorised:velocity", ev, 1e-9 * nv + 200 * bl.v, inv);
                        rec.require("vectorised:stm-presence", all[k].second.has_value() == stm && one.second.has_value() == stm, inv);
                        if (stm && all[k].second && one.second) {
                            double es = 0, ns = 0;
                            for (int b = 0; b < 4; ++b) { // per 3x3 block
                                double e2 = 0, n2 = 0;
                                for (int q = 0; q < 3; ++q)
                                    for (int w = 0; w < 3; ++w) {
                                        const int id = (b / 2 * 3 + q) * 6 + b % 2 * 3 + w;
                                        e2 = std::max(e2, std::abs((*all[k].second)[id] - (*one.second)[id]));
                                        n2 = std::max(n2, std::abs((*one.second)[id]));
                                    }
                                if (n2 > 0) es = std::max(es, e2 / n2), ns = 1;
                            }
                            // (the matrix loses more digits than the state: P05's error model, with room)
                            const double q = (1 + p.A / p.R0 + p.R0 / p.A + p.s0 / std::sqrt(p.A)) * (1 + p.A / p.Rf);
                            if (ns > 0) rec.check("vectorised:stm", es, 1e-9 + 1e4 * (bl.r / p.Rf + bl.v / p.Vf) * q, inv);
                        }
                    }
            } catch (const std::exception &e) {
                rec.violate("vectorised:throws", e.what(), inv());
            }
        }
    });
}

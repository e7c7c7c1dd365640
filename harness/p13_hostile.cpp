// P13: every public function with hostile numeric values and container sizes. The verdict is the sanitizers' (and the
// CPU watchdog's); the monitor itself only checks that nothing but standard exceptions comes out.
#include "hostile.hpp"
#include "ref_leg.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/convert_julian_dates.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/kepler_equations.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/special_functions.hpp>
#include <kep3/core_astro/stm.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sf_checks.hpp>
#include <sstream>
using namespace vf;

namespace
{
volatile double sink;
template <class C>
void use(const C &c)
{
    double s = 0;
    for (double x : c) s += x;
    sink = s;
}
void use(const rv_t &x)
{
    use(x[0]);
    use(x[1]);
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 13, [](Recorder &rec, Rng &g, long) {
        std::string desc;
        auto in = [&] { return J().t("call", desc).str(); };
        auto call = [&](const std::string &name, const std::function<void()> &f) {
            desc = name;
            try {
                f();
                rec.ev("returned:" + name);
            } catch (const std::exception &) {
                rec.ev("threw:" + name);
            } catch (...) {
                rec.violate("non-standard-exception:" + name, name, in());
            }
            ++rec.counts["decided:" + name];
        };
        const Mut m{g, g.p(0.1) ? 1. : g.p(0.2) ? 0. : g.logu(0.02, 0.6)};
        Orbit o = orbit(g, true, true);
        rv_t rv = o.rv, rv2 = orbit(g, true, true).rv;
        m.rv(rv);
        m.rv(rv2);
        std::string tr;
        const double tof = m(tof_for(g, o, tr)), mu = m(o.mu);
        const bool stm = g.p(0.5);
        rec.nontriv(hash_vec(rv[0], hash_vec(rv[1], hash_vec(std::array<double, 2>{tof, mu}))));
        rec.sample([&] { return J().rv("state", rv).d("tof", tof).d("mu", mu).str(); });

        auto useprop = [](const auto &r) {
            use(r.first);
            if (r.second) use(*r.second);
        };
        call("propagate_lagrangian", [&] { useprop(kep3::propagate_lagrangian(rv, tof, mu, stm)); });
        call("propagate_lagrangian_u", [&] { useprop(kep3::propagate_lagrangian_u(rv, tof, mu, stm)); });
        call("propagate_keplerian", [&] { useprop(kep3::propagate_keplerian(rv, tof, mu, stm)); });
        call("propagate_stm_reynolds", [&] { useprop(kep3::propagate_stm_reynolds(rv, tof, mu, stm)); });
        call("propagate_lagrangian_v", [&] {
            std::vector<double> ts(g.p(0.1) ? 0 : g.n(6));
            for (auto &t : ts) t = m(tof * g.u());
            for (const auto &r : kep3::propagate_lagrangian_v(rv, ts, mu, stm)) useprop(r);
        });
        call("stm_reynolds", [&] { use(kep3::stm_reynolds(rv, rv2, tof, mu)); });
        call("stm_lagrangian", [&] {
            use(kep3::stm_lagrangian(rv, tof, mu, m(1.), m(1.), m(-.5), m(.1), m(1.), m(.1), m(.2), m(.3), m(.9), m(.3), m(-.2), m(.9)));
        });
        for (bool retro : {false, true}) {
            call("ic2eq", [&] { use(kep3::ic2eq(rv, mu, retro)); });
            std::array<double, 6> eq{m(1.), m(.1), m(.2), m(-.3), m(.2), m(1.)}, par{m(o.a), m(o.e), m(o.inc), m(o.W), m(o.w), m(o.f)};
            call("eq2ic", [&] { use(kep3::eq2ic(eq, mu, retro)); });
            call("eq2par", [&] { use(kep3::eq2par(eq, retro)); });
            call("par2eq", [&] { use(kep3::par2eq(par, retro)); });
            call("par2ic", [&] { use(kep3::par2ic(par, mu)); });
        }
        call("ic2par", [&] { use(kep3::ic2par(rv, mu)); });
        {
            const double a = m(g.u(-10, 10)), e = m(o.e);
            call("anomalies", [&] {
                for (auto *f : {kep3::m2e, kep3::e2m, kep3::e2f, kep3::f2e, kep3::m2f, kep3::f2m, kep3::zeta2f, kep3::f2zeta, kep3::n2h, kep3::h2n, kep3::h2f, kep3::f2h, kep3::n2f, kep3::f2n}) {
                    try {
                        sink = f(a, e);
                    } catch (const std::exception &) {
                    }
                }
            });
            call("kepler-equations", [&] {
                const double x = m(.3), s = m(.1), A = m(2.), R = m(1.5);
                sink = kep3::kepE(x, a, e) + kep3::d_kepE(x, e) + kep3::dd_kepE(x, e) + kep3::kepH(x, a, e) + kep3::d_kepH(x, e) + kep3::kepDE(x, a, s, std::sqrt(std::abs(A)), A, R)
                       + kep3::d_kepDE(x, s, std::sqrt(std::abs(A)), A, R) + kep3::kepDH(x, a, s, std::sqrt(std::abs(A)), A, R) + kep3::d_kepDH(x, s, std::sqrt(std::abs(A)), A, R)
                       + kep3::kepDS(x, a, R, s, A, mu) + kep3::d_kepDS(x, R, s, A, mu) + kep3::stumpff_s(x) + kep3::stumpff_c(x);
            });
            call("julian-dates", [&] { sink = kep3::jd2mjd(a) + kep3::jd2mjd2000(a) + kep3::mjd2jd(a) + kep3::mjd2mjd2000(a) + kep3::mjd20002jd(a) + kep3::mjd20002mjd(a); });
        }
        call("lambert_problem", [&] {
            v3 r0 = rv[0], r1 = g.p(0.6) ? rv2[0] : rv[1];
            const double nt = m(std::abs(tof));
            if (g.p(0.1)) { // aligned, opposite, equal
                const double k = g.p(0.3) ? 1. : g.p(0.3) ? -1. : g.sgn() * g.logu(1e-3, 1e3);
                for (int i = 0; i < 3; ++i) r1[i] = k * r0[i];
            }
            if (g.p(0.05)) r1[0] = std::nextafter(r0[0] + (r1[0] = r0[0]) * 0, 1e300);
            // many requested revolutions only where few are feasible (memory is linear in their number)
            const double c = std::hypot(r0[0], r0[1], r0[2]) + std::hypot(r1[0], r1[1], r1[2]);
            const double revs = nt * std::sqrt(mu / c) / c;
            const unsigned cap = std::isfinite(revs) && revs < 1e3 && revs >= 0 && g.p(0.3) ? (g.p(0.5) ? 4294967295u : 2147483648u) : static_cast<unsigned>(g.n(g.p(0.1) ? 500 : 12));
            kep3::lambert_problem lp(r0, r1, nt, mu, g.p(0.5), cap);
            for (const auto &v : lp.get_v0()) use(v);
            for (const auto &v : lp.get_v1()) use(v);
            use(lp.get_x());
            std::ostringstream s;
            s << lp;
            sink = static_cast<double>(s.str().size() + lp.get_iters().size());
            kep3::lambert_problem cp(lp), as;
            as = cp;
            std::stringstream ar;
            {
                boost::archive::binary_oarchive oa(ar);
                oa << as;
            }
            kep3::lambert_problem q;
            boost::archive::binary_iarchive ia(ar);
            ia >> q;
            std::ostringstream s2;
            s2 << q;
        });
        // ---- legs
        LegCase c = leg_case(g, g.p(0.02) ? 60 : 6, true);
        c.regime = "hostile";
        m.rv(c.rvs);
        m.rv(c.rvf);
        for (auto &x : c.u) x = m(x);
        c.ms = m(c.ms);
        c.mf = m(c.mf);
        c.tof = m(c.tof);
        c.T = m(c.T);
        c.isp = m(c.isp);
        c.mu = m(c.mu);
        c.cut = m(c.cut);
        if (m.rate > 0 && g.p(0.1)) c.u.resize(g.n(8));
        auto useleg = [&](const kep3::leg::sims_flanagan &l) {
            use(l.compute_throttle_constraints());
            use(l.compute_tc_grad());
            try {
                use(l.compute_mismatch_constraints());
            } catch (const std::exception &) {
            }
            try {
                const auto [a, b, d] = l.compute_mc_grad();
                use(a);
                use(b);
                use(d);
            } catch (const std::exception &) {
            }
        };
        call("leg:constructor", [&] { useleg(c.make()); });
        call("leg:set", [&] {
            kep3::leg::sims_flanagan l;
            try {
                l.set(c.rvs, c.ms, c.u, c.rvf, c.mf, c.tof, c.T, c.isp, c.mu, c.cut);
            } catch (const std::exception &) {
                rec.ev("refused:leg:set");
            }
            useleg(l); // also after a refused set()
        });
        call("leg:setters", [&] {
            kep3::leg::sims_flanagan l;
            auto tryset = [&](const std::function<void()> &f) {
                try {
                    f();
                } catch (const std::exception &) {
                }
            };
            std::vector<std::function<void()>> ops{[&] { l.set_cut(c.cut); }, [&] { l.set_throttles(c.u); }, [&] { l.set_tof(c.tof); }, [&] { l.set_max_thrust(c.T); }, [&] { l.set_isp(c.isp); }, [&] { l.set_mu(c.mu); },
                                                   [&] { l.set_rvs(c.rvs); }, [&] { l.set_rvf(c.rvf); }, [&] { l.set_ms(c.ms); }, [&] { l.set_mf(c.mf); },
                                                   [&] {
                                                       const std::size_t a = g.n(c.u.size() + 1), b = g.n(c.u.size() + 1);
                                                       l.set_throttles(c.u.cbegin() + static_cast<long>(a), c.u.cbegin() + static_cast<long>(b));
                                                   },
                                                   [&] { l.set_throttles({}); }};
            for (int k = 0; k < 8; ++k) {
                tryset(ops[g.n(ops.size())]);
                if (g.p(0.3)) useleg(l);
            }
            useleg(l);
            std::ostringstream s;
            try {
                s << l;
            } catch (const std::exception &) {
            }
            auto cp = l;
            auto mv = std::move(cp);
            cp = mv;
            useleg(cp);
            std::stringstream ar;
            {
                boost::archive::binary_oarchive oa(ar);
                oa << l;
            }
            kep3::leg::sims_flanagan q;
            boost::archive::binary_iarchive ia(ar);
            ia >> q;
            useleg(q);
        });
        call("checks", [&] {
            for (auto *f : {kep3::leg::_check_tof, kep3::leg::_check_cut, kep3::leg::_check_isp, kep3::leg::_check_mu, kep3::leg::_check_max_thrust, kep3::leg::_check_tol}) {
                try {
                    f(m(1.));
                } catch (const std::exception &) {
                }
            }
            kep3::leg::_check_throttles(c.u);
        });
    });
}

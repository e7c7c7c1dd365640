// Calls of the parts of the library that are built against stand-ins: epochs, planets, fly-bys, constant-thrust arcs and
// high-fidelity legs (the last two carry an integrator: each call has its own).
#pragma once
#include "calls.hpp"
#include "hf.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/epoch.hpp>
#include <kep3/planet.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
namespace vf
{
// The refusal of one part is a result; the others are still asked.
template <class F>
void part(Hash &h, F f)
{
    try {
        f();
    } catch (const std::exception &e) {
        h << "refused" << std::string(e.what());
    }
}
inline Hash epoch_bits(const kep3::epoch &e, const kep3::epoch &o, double days)
{
    Hash h;
    h << e.mjd2000() << e.mjd() << e.jd();
    part(h, [&] { h << e.as_utc_string(); });
    part(h, [&] {
        std::ostringstream s;
        s << e;
        h << s.str();
    });
    h << static_cast<double>((e < o) + 2 * (e > o) + 4 * (e == o) + 8 * (e <= o) + 16 * (e >= o) + 32 * (e != o));
    part(h, [&] { h << kep3::epoch::as_sec(e - o); });
    part(h, [&] {
        auto q = e; // operator+ is not const
        q += std::chrono::duration<double, std::ratio<86400>>(days);
        h << q.mjd2000();
        q -= std::chrono::duration<double, std::ratio<1>>(days);
        h << q.mjd2000();
    });
    return h;
}
inline Hash planet_bits(const kep3::planet &p, const std::vector<double> &ts)
{
    Hash h;
    h << p.get_name() << p.get_extra_info() << p.get_mu_central_body() << p.get_mu_self() << p.get_radius() << p.get_safe_radius();
    for (double t : ts) {
        part(h, [&] { h << p.eph(t); });
        part(h, [&] { h << p.eph(kep3::epoch(t)); });
        part(h, [&] { h << p.period(t); });
        for (int k = 0; k < 5; ++k) part(h, [&] { h << p.elements(t, static_cast<kep3::elements_type>(k)); });
    }
    part(h, [&] { h << p.eph_v(ts); });
    std::ostringstream s;
    s << p;
    return h << s.str();
}
inline Hash hf_bits(const hf_t &l, bool history)
{
    Hash h;
    h << l.get_rvms() << l.get_rvmf() << l.get_throttles() << l.get_tof() << l.get_max_thrust() << l.get_isp() << l.get_mu() << l.get_cut() << l.get_tol() << static_cast<double>(l.get_nseg()) << static_cast<double>(l.get_nseg_fwd());
    part(h, [&] { h << l.compute_mismatch_constraints(); });
    part(h, [&] { h << l.compute_throttle_constraints(); });
    part(h, [&] { h << l.compute_tc_grad(); });
    part(h, [&] {
        const auto [a, b, c] = l.compute_mc_grad();
        h << a << b << c;
    });
    if (history) part(h, [&] { h << l.get_state_history(2); });
    std::ostringstream s;
    s << l;
    return h << s.str();
}
inline void shim_calls(Rng &g, std::vector<Call> &out, unsigned n, bool integrators)
{
    auto add = [&](const std::string &name, std::function<Hash()> f) { out.push_back({name, std::move(f)}); };
    std::vector<std::shared_ptr<const kep3::epoch>> eps;
    std::vector<std::shared_ptr<const kep3::planet>> pls;
    static const char *const names[] = {"mercury", "venus", "EARTH", "mars", "Jupiter", "saturn", "uranus", "neptune"};
    for (int k = 0; k < 2; ++k) {
        eps.push_back(std::make_shared<const kep3::epoch>(g.u(-20000, 20000)));
        const Orbit o = orbit(g, true, true);
        pls.push_back(std::make_shared<const kep3::planet>(kep3::udpla::keplerian(kep3::epoch(g.u(-5000, 5000)), o.rv, o.mu, "shared", {o.mu / 1e3, 1., 1.1})));
        pls.push_back(std::make_shared<const kep3::planet>(kep3::udpla::jpl_lp(names[g.n(8)])));
    }
    pls.push_back(std::make_shared<const kep3::planet>());
    for (unsigned k = 0; k < n; ++k) {
        std::vector<double> ts;
        for (int i = 0, m = 1 + static_cast<int>(g.n(3)); i < m; ++i) ts.push_back(g.p(0.2) ? std::floor(g.u(-9000, 9000)) : g.u(-9000, 9000));
        const double days = g.u(-400, 400);
        const auto e0 = eps[g.n(eps.size())], e1 = eps[g.n(eps.size())];
        const auto pl = pls[g.n(pls.size())];
        switch (g.n(integrators ? 12 : 9)) {
            case 0:
                add("shared-epoch", [=] { return epoch_bits(*e0, *e1, days); });
                break;
            case 1: {
                const int y = 1600 + static_cast<int>(g.n(800));
                const unsigned m = 1 + static_cast<unsigned>(g.n(12)), d = 1 + static_cast<unsigned>(g.n(28));
                const int hh = static_cast<int>(g.n(24)), us = static_cast<int>(g.n(1000));
                const double t = ts[0];
                add("epoch", [=] {
                    const kep3::epoch a(y, m, d, hh, 1, 2, 3, us), b(t, kep3::epoch::julian_type::MJD);
                    Hash h = epoch_bits(a, b, days);
                    return h << kep3::epoch(a.as_utc_string()).mjd2000() << epoch_bits(b, *e0, days).h;
                });
                break;
            }
            case 2:
            case 3:
                add("shared-planet", [=] { return planet_bits(*pl, ts); });
                break;
            case 4: {
                const Orbit o = orbit(g, true, true);
                const int kind = static_cast<int>(g.n(4));
                add("keplerian", [=] {
                    const kep3::planet p{kep3::udpla::keplerian(*e0, o.rv, o.mu, "own", {1., 2., 3.})};
                    Hash h = planet_bits(p, ts);
                    part(h, [&] {
                        const auto el = p.elements(ts[0], static_cast<kep3::elements_type>(kind));
                        const kep3::planet q{kep3::udpla::keplerian(*e1, el, o.mu, "own", {1., 2., 3.}, static_cast<kep3::elements_type>(kind))};
                        h << static_cast<double>(planet_bits(q, ts).h >> 12);
                    });
                    return h;
                });
                break;
            }
            case 5: {
                const std::string nm = names[g.n(8)];
                add("jpl_lp", [=] { return planet_bits(kep3::planet{kep3::udpla::jpl_lp(nm)}, ts); });
                break;
            }
            case 6:
                add("copied-planet", [=] {
                    kep3::planet c(*pl), d;
                    d = c;
                    c = kep3::planet();
                    std::stringstream s;
                    {
                        boost::archive::binary_oarchive oa(s);
                        oa << d;
                    }
                    kep3::planet r;
                    {
                        boost::archive::binary_iarchive ia(s);
                        ia >> r;
                    }
                    return planet_bits(r, ts) << static_cast<double>(planet_bits(d, ts).h >> 12);
                });
                break;
            case 7:
            case 8: {
                const Orbit o = orbit(g, false, false);
                const double s = std::sqrt(ref::d(ref::norm(ref::toQ(o.rv[1])))), rp = o.mu / (s * s * s * s) * g.u(0.1, 10), beta = g.u(-7, 7), mu = o.mu;
                v3 a = unit(g), b = unit(g), w = o.rv[1];
                for (int i = 0; i < 3; ++i) {
                    a[i] *= s * s;
                    b[i] *= s * s * (1 + i * 0.1);
                }
                add("flyby", [=] {
                    Hash h;
                    h << kep3::fb_con(a, b, mu, rp) << kep3::fb_dv(a, b, mu, rp);
                    part(h, [&] { h << kep3::fb_vout(a, w, rp, beta, mu); });
                    part(h, [&] { h << kep3::fb_con(a, b, *pl) << kep3::fb_dv(a, b, *pl); });
                    return h;
                });
                break;
            }
            case 9: {
                const auto c = hf_case(g, 4, true);
                const bool hist = g.p(0.3);
                add("hf-leg", [=] { return hf_bits(c.fresh(), hist); });
                break;
            }
            case 10: {
                const auto c = hf_case(g, 1, false);
                add("stark_problem", [=] {
                    const double T0[3] = {c.u.size() > 2 ? c.u[0] * c.T : 0, c.u.size() > 2 ? c.u[1] * c.T : c.T, c.u.size() > 2 ? c.u[2] * c.T : 0};
                    kep3::stark_problem s(c.mu, c.isp * 9.80665, c.tol);
                    Hash h;
                    part(h, [&] { h << s.propagate(c.xs, {T0[0], T0[1], T0[2]}, c.tof / 4); });
                    part(h, [&] {
                        const auto [x, M, U] = s.propagate_var(c.xs, {T0[0], T0[1], T0[2]}, c.tof / 4);
                        h << x << M << U;
                    });
                    return h;
                });
                break;
            }
            default: {
                const double tol = gen_tol(g), mu = g.u(0.001, 0.5), x0 = g.u(0.3, 0.9), t = g.u(0.1, 1.5);
                const bool var = g.p(0.5);
                add("cached-integrator", [=] {
                    auto ta = var ? kep3::ta::get_ta_cr3bp_var(tol) : kep3::ta::get_ta_cr3bp(tol);
                    const double s[6] = {x0, 0.1, 0.05, 0.1, 0.6, -0.1};
                    std::copy(s, s + 6, ta.get_state_data());
                    *ta.get_pars_data() = mu;
                    ta.set_time(0.);
                    ta.propagate_until(t);
                    return Hash() << ta.get_state() << ta.get_tol();
                });
            }
        }
    }
}
} // namespace vf

// A random pool of calls of the public interface, each a function of nothing but captured constants, returning a hash of
// the bits of everything the call answered (or of the refusal).
#pragma once
#include "ref_leg.hpp"
#include "ref_lambert.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/core_astro/stm.hpp>
#include <kep3/lambert_problem.hpp>
#include <memory>
#include <sstream>
namespace vf
{
using v3 = std::array<double, 3>;
struct Hash {
    std::uint64_t h = 1469598103934665603ULL;
    Hash &operator<<(double x)
    {
        if (std::isnan(x)) x = std::numeric_limits<double>::quiet_NaN(); // the sign of a NaN is not a result
        h = hash_bytes(&x, sizeof x, h);
        return *this;
    }
    Hash &operator<<(const std::string &s)
    {
        h = hash_bytes(s.data(), s.size(), h);
        return *this;
    }
    template <class C>
        requires requires(const C &c) { c.begin(); c.size(); }
    Hash &operator<<(const C &c)
    {
        *this << static_cast<double>(c.size());
        for (const auto &x : c) *this << x;
        return *this;
    }
    template <class A, class B>
    Hash &operator<<(const std::pair<A, B> &p)
    {
        return *this << p.first << p.second;
    }
    template <class A>
    Hash &operator<<(const std::optional<A> &p)
    {
        *this << (p ? 1. : 0.);
        if (p) *this << *p;
        return *this;
    }
};
struct Call {
    std::string name;
    std::function<Hash()> f;
    std::uint64_t operator()() const
    {
        try {
            return f().h;
        } catch (const std::exception &e) {
            return (Hash() << "refused" << std::string(e.what())).h;
        }
    }
};
inline Hash lambert_bits(const kep3::lambert_problem &lp)
{
    Hash h;
    h << lp.get_r0() << lp.get_r1() << lp.get_tof() << lp.get_mu() << lp.get_v0() << lp.get_v1() << lp.get_x() << static_cast<double>(lp.get_Nmax());
    for (auto i : lp.get_iters()) h << static_cast<double>(i);
    std::ostringstream s;
    s << lp;
    return h << s.str();
}
inline Hash leg_bits(const kep3::leg::sims_flanagan &l)
{
    Hash h;
    h << l.get_rvs() << l.get_rvf() << l.get_ms() << l.get_mf() << l.get_throttles() << l.get_tof() << l.get_max_thrust() << l.get_isp() << l.get_mu() << l.get_cut() << static_cast<double>(l.get_nseg())
      << static_cast<double>(l.get_nseg_fwd()) << static_cast<double>(l.get_nseg_bck());
    auto part = [&](const std::function<void()> &f) {
        try {
            f();
        } catch (const std::exception &e) {
            h << "refused" << std::string(e.what());
        }
    };
    part([&] { h << l.compute_mismatch_constraints(); });
    part([&] { h << l.compute_throttle_constraints(); });
    part([&] { h << l.compute_tc_grad(); });
    part([&] {
        const auto [a, b, c] = l.compute_mc_grad();
        h << a << b << c;
    });
    std::ostringstream s;
    s << l;
    return h << s.str();
}
template <class T>
std::string binary(const T &x)
{
    std::ostringstream s;
    {
        boost::archive::binary_oarchive oa(s);
        oa << x;
    }
    return s.str();
}

// Pool of calls; shared const objects are captured by shared_ptr<const>.
inline void core_calls(Rng &g, std::vector<Call> &out, unsigned n)
{
    auto add = [&](const std::string &name, std::function<Hash()> f) { out.push_back({name, std::move(f)}); };
    std::vector<std::shared_ptr<const kep3::leg::sims_flanagan>> legs;
    std::vector<std::shared_ptr<const kep3::lambert_problem>> lps;
    for (int k = 0; k < 2; ++k) {
        legs.push_back(std::make_shared<const kep3::leg::sims_flanagan>(leg_case(g, 5, true).make()));
        const auto a = orbit(g, false, false, 1);
        auto b = ref::toD(ref::kepler(ref::toQ(a.rv), period(a) * g.u(0.1, 0.9), a.mu));
        try {
            lps.push_back(std::make_shared<const kep3::lambert_problem>(a.rv[0], b[0], period(a) * g.u(0.3, 4.), a.mu, g.p(0.3), 4));
        } catch (const std::exception &) {
            lps.push_back(std::make_shared<const kep3::lambert_problem>());
        }
    }
    for (unsigned k = 0; k < n; ++k) {
        const Orbit o = orbit(g, true, true);
        const rv_t rv = o.rv;
        std::string tr;
        const double t = tof_for(g, o, tr), mu = o.mu;
        const bool st = g.p(0.5);
        switch (g.n(17)) {
            case 0:
                add("propagate_lagrangian", [=] { return Hash() << kep3::propagate_lagrangian(rv, t, mu, st); });
                break;
            case 1:
                add("propagate_lagrangian_u", [=] { return Hash() << kep3::propagate_lagrangian_u(rv, t, mu, st); });
                break;
            case 2:
                add("propagate_keplerian", [=] { return Hash() << kep3::propagate_keplerian(rv, t, mu, st); });
                break;
            case 3:
                add("propagate_stm_reynolds", [=] { return Hash() << kep3::propagate_stm_reynolds(rv, t, mu, true); });
                break;
            case 4: {
                std::vector<double> ts{t, t / 3, 0., -t};
                ts.resize(g.n(5));
                add("propagate_lagrangian_v", [=] { return Hash() << kep3::propagate_lagrangian_v(rv, ts, mu, st); });
                break;
            }
            case 5:
                add("ic2par", [=] { return Hash() << kep3::ic2par(rv, mu); });
                break;
            case 6: {
                const std::array<double, 6> p{o.a, o.e, o.inc, o.W, o.w, o.f};
                add("par2ic", [=] { return Hash() << kep3::par2ic(p, mu); });
                add("par2eq", [=] { return Hash() << kep3::par2eq(p, st); });
                break;
            }
            case 7:
                add("ic2eq", [=] {
                    const auto e = kep3::ic2eq(rv, mu, st);
                    return Hash() << e << kep3::eq2ic(e, mu, st) << kep3::eq2par(e, st);
                });
                break;
            case 8: {
                const double M = g.u(-10, 10), e = g.u(0, .99), eh = g.u(1.01, 9.);
                add("anomalies", [=] {
                    return Hash() << kep3::m2e(M, e) << kep3::m2f(M, e) << kep3::e2m(M, e) << kep3::n2h(M, eh) << kep3::n2f(M, eh) << kep3::f2zeta(M / 10, eh) << kep3::zeta2f(M / 10, eh) << kep3::f2e(M, e);
                });
                break;
            }
            case 9:
            case 10: {
                const auto b = orbit(g, false, false, 1);
                rv_t r1 = ref::toD(ref::kepler(ref::toQ(rv), t, mu));
                for (auto &x : r1[0]) x *= g.u(.8, 1.2);
                const bool cw = g.p(0.5);
                const unsigned N = static_cast<unsigned>(g.n(6));
                const double tt = o.e < 1 ? period(o) * g.u(.1, 5.) : std::abs(t);
                add("lambert_problem", [=] { return lambert_bits(kep3::lambert_problem(rv[0], r1[0], tt, mu, cw, N)); });
                break;
            }
            case 11: {
                const auto c = leg_case(g, 5, true);
                add("leg", [=] { return leg_bits(c.make()); });
                break;
            }
            case 12: {
                const auto l = legs[g.n(legs.size())];
                add("shared-leg", [=] { return leg_bits(*l); });
                break;
            }
            case 13: {
                const auto l = legs[g.n(legs.size())];
                const auto c = leg_case(g, 4, true);
                const double cut = g.u();
                add("copied-leg", [=] {
                    auto q = *l;
                    q.set_throttles(c.u);
                    q.set_cut(cut);
                    Hash h = leg_bits(q);
                    q = *l;
                    return h << static_cast<double>(leg_bits(q).h >> 12) << binary(q);
                });
                break;
            }
            case 14: {
                const auto l = lps[g.n(lps.size())];
                add("shared-lambert", [=] { return lambert_bits(*l) << binary(*l); });
                break;
            }
            case 15: {
                const auto l = lps[g.n(lps.size())];
                add("copied-lambert", [=] {
                    kep3::lambert_problem q;
                    q = *l;
                    std::istringstream s(binary(q));
                    boost::archive::binary_iarchive ia(s);
                    kep3::lambert_problem w;
                    ia >> w;
                    return lambert_bits(w);
                });
                break;
            }
            default: {
                const rv_t r2 = ref::toD(ref::kepler(ref::toQ(rv), t, mu));
                add("stm_reynolds", [=] { return Hash() << kep3::stm_reynolds(rv, r2, t, mu); });
            }
        }
    }
}
} // namespace vf

// P13: the parts built against stand-ins (epochs, planets, fly-bys, constant-thrust arcs, high-fidelity legs, VSOP2013)
// with hostile numbers, texts, sizes and histories. The verdict is the sanitizers' and the CPU watchdog's.
#include "calls_shim.hpp"
#include "hostile.hpp"
#include <kep3/udpla/vsop2013.hpp>
using namespace vf;
using namespace std::chrono;
using kep3::epoch;
using kep3::planet;
namespace
{
std::uint64_t sunk;
struct Stray { // a user type that answers whatever it is told to
    rv_t rv{{{1, 0, 0}, {0, 1, 0}}};
    double mu = 1, r = 1, p = 1;
    std::vector<double> v;
    int fail = 0;
    rv_t eph(double) const
    {
        if (fail == 1) throw std::domain_error("no state");
        if (fail == 2) throw 42;
        return rv;
    }
    std::vector<double> eph_v(const std::vector<double> &) const { return v; }
    double get_mu_central_body() const { return mu; }
    double get_mu_self() const { return mu; }
    double get_radius() const { return r; }
    double get_safe_radius() const { return r; }
    std::string get_name() const { return std::string(static_cast<std::size_t>(std::abs(fail)) * 3, '{'); }
    template <class A>
    void serialize(A &ar, unsigned)
    {
        ar &rv &mu &r &p &v &fail;
    }
};
struct Bare {
    rv_t rv{{{1, 0, 0}, {0, 1, 0}}};
    double mu = 1;
    rv_t eph(double) const { return rv; }
    double get_mu_central_body() const { return mu; }
    template <class A>
    void serialize(A &ar, unsigned)
    {
        ar &rv &mu;
    }
};
} // namespace
TANUKI_S11N_WRAP_EXPORT(Stray, kep3::detail::planet_iface)
TANUKI_S11N_WRAP_EXPORT(Bare, kep3::detail::planet_iface)
namespace
{
std::int64_t int64(Rng &g)
{
    static const std::vector<std::int64_t> sp{0, 1, -1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, INT32_MAX, INT32_MIN, UINT32_MAX, 1000000000000, -1000000000000, INT64_MAX / 24, INT64_MIN / 3600, INT64_MAX / 86400000000, INT64_MIN / 86400000000};
    if (g.p(0.6)) return g.pick(sp);
    const auto x = static_cast<std::int64_t>(g.next());
    return x >> g.n(64);
}
int int32(Rng &g, double rate, int lo, int hi)
{
    static const std::vector<int> sp{0, 1, -1, 2, 12, 13, 28, 29, 30, 31, 32, 59, 60, 255, 256, 257, 999, 1000, 1900, 2000, 32767, 32768, -32767, -32768, 65536, INT32_MAX, INT32_MIN};
    return g.p(rate) ? (g.p(0.7) ? g.pick(sp) : static_cast<int>(g.next())) : lo + static_cast<int>(g.n(static_cast<std::size_t>(hi - lo + 1)));
}
std::string text(Rng &g)
{
    static const std::vector<std::string> sp{"", "2000-01-01", "1980-10-17T11:36:21.121841", "9999-12-31T23:59:59.999999", "0000-00", "2000-13-45", "2000-01-01T99:99:99.999999", "-999-01-01", "2000-01-01T00:00:00.", "2000+01", "mars", "Earth_Moon", "{}", "%s%n", "pluto"};
    std::string s = g.pick(sp);
    if (g.p(0.3)) s.resize(std::min<std::size_t>(s.size(), 7 + g.n(20)));
    for (int k = 0, n = static_cast<int>(g.n(4)); k < n && !s.empty(); ++k) {
        const auto i = g.n(s.size());
        switch (g.n(5)) {
            case 0:
                s[i] = static_cast<char>(g.next());
                break;
            case 1:
                s[i] = "0123456789-+.:T \0xX"[g.n(19)];
                break;
            case 2:
                s.erase(i, 1);
                break;
            case 3:
                s.insert(i, 1, static_cast<char>('0' + g.n(10)));
                break;
            default:
                s += s.substr(i);
        }
    }
    if (g.p(0.02)) s = std::string(100000, '1');
    return s;
}
} // namespace

int main(int argc, char **argv)
{
    heyoka::detail::step_limit = 40; // hostile arcs are cut short: their answers are not what is decided here
    return drive(argc, argv, 1313, [](Recorder &rec, Rng &g, long) {
        std::string desc;
        auto in = [&] { return J().t("call", desc).str(); };
        auto call = [&](const std::string &name, const std::function<void()> &f) {
            desc = name;
            try {
                f();
                rec.ev("returned:" + name);
            } catch (const std::exception &) {
                rec.ev("threw:" + name);
            } catch (int) { // Stray's
                rec.ev("passed-on:" + name);
            } catch (...) {
                rec.violate("non-standard-exception:" + name, name, in());
            }
            ++rec.counts["decided:" + name];
        };
        auto tried = [&](const std::function<void()> &f) {
            try {
                f();
            } catch (const std::exception &) {
            } catch (int) {
            }
        };
        const Mut m{g, g.p(0.1) ? 1. : g.p(0.2) ? 0. : g.logu(0.02, 0.6)};
        const Orbit o = orbit(g, true, true);
        rv_t rv = o.rv, rv2 = orbit(g, true, true).rv;
        m.rv(rv);
        m.rv(rv2);
        const double mu = m(o.mu), t = m(g.u(-20000, 20000));
        rec.nontriv(hash_vec(rv[0], hash_vec(rv[1], hash_vec(std::array<double, 2>{t, mu}))));
        rec.sample([&] { return J().rv("state", rv).d("t", t).d("mu", mu).str(); });
        std::vector<double> ts(g.p(0.1) ? 0 : 1 + g.n(4));
        for (auto &x : ts) x = m(g.u(-9000, 9000));
        epoch e0(0.), e1(0.);
        tried([&] { e0 = epoch(t); });

        // ---- epochs
        call("epoch:number", [&] {
            const auto ty = static_cast<epoch::julian_type>(g.p(0.9) ? g.n(3) : g.next());
            e1 = epoch(t, ty);
            sunk ^= epoch_bits(e1, e0, g.u(-400, 400)).h;
        });
        call("epoch:date", [&] {
            e1 = epoch(int32(g, m.rate / 2, 1900, 2100), static_cast<unsigned>(int32(g, m.rate / 2, 1, 12)), static_cast<unsigned>(int32(g, m.rate / 2, 1, 31)), int32(g, m.rate / 2, 0, 23), int32(g, m.rate / 2, 0, 59), int32(g, m.rate / 2, 0, 59), int32(g, m.rate / 2, 0, 999), int32(g, m.rate / 2, 0, 999));
            sunk ^= epoch_bits(e1, e0, g.u(-400, 400)).h;
        });
        call("epoch:text", [&] {
            const std::string s = text(g);
            e1 = g.p(0.95) ? epoch(s) : epoch(s, static_cast<epoch::string_format>(g.next()));
            sunk ^= epoch_bits(e1, e0, g.u(-400, 400)).h;
        });
        call("epoch:time-point", [&] {
            e1 = epoch(kep3::time_point(microseconds(int64(g))));
            sunk ^= epoch_bits(e1, e0, g.u(-400, 400)).h;
        });
        call("epoch:duration", [&] {
            switch (g.n(6)) {
                case 0: e1 = epoch(hours(int64(g))); break;
                case 1: e1 = epoch(microseconds(int64(g))); break;
                case 2: e1 = epoch(nanoseconds(int64(g))); break;
                case 3: e1 = epoch(duration<std::int64_t, std::ratio<86400>>(int64(g))); break;
                case 4: e1 = epoch(duration<double>(hostile(g))); break;
                default: e1 = epoch(duration<float, std::ratio<86400>>(static_cast<float>(g.u(-1e6, 1e6))));
            }
            sunk ^= epoch_bits(e1, e0, g.u(-400, 400)).h;
        });
        call("epoch:arithmetic", [&] {
            auto q = e1;
            for (int k = 0; k < 4; ++k)
                tried([&] {
                    switch (g.n(8)) {
                        case 0: q += hours(int64(g)); break;
                        case 1: q -= microseconds(int64(g)); break;
                        case 2: q = q + nanoseconds(int64(g)); break;
                        case 3: q = q - milliseconds(int64(g)); break;
                        case 4: q += duration<double, std::ratio<86400>>(hostile(g)); break;
                        case 5: q = q - epoch::days(hostile(g)); break;
                        case 6: q += epoch::sec(hostile(g)); break;
                        default: q -= minutes(int64(g));
                    }
                });
            sunk ^= epoch_bits(q, e1, hostile(g)).h;
            tried([&] { sunk ^= static_cast<std::uint64_t>((q - e0).count()); });
        });
        // ---- planets
        auto ask = [&](const planet &p) {
            std::vector<double> tt(ts);
            if (tt.empty()) tt.push_back(t);
            sunk ^= planet_bits(p, tt).h;
            tried([&] { sunk ^= (Hash() << p.eph_v(ts)).h; });
            tried([&] { sunk ^= (Hash() << p.elements(t, static_cast<kep3::elements_type>(g.n(7)))).h; });
            tried([&] { sunk ^= (Hash() << p.elements(e0, static_cast<kep3::elements_type>(g.n(5)))).h; });
            tried([&] { sunk ^= (Hash() << p.period(e1)).h; });
            tried([&] {
                planet c(p), d;
                std::stringstream s;
                {
                    boost::archive::binary_oarchive oa(s);
                    oa << c;
                }
                boost::archive::binary_iarchive ia(s);
                ia >> d;
                d = d;
                c = std::move(d);
                std::ostringstream out;
                out << c;
                sunk ^= out.str().size();
            });
        };
        const std::array<double, 3> added{m(1.), m(1.), m(1.)};
        call("keplerian:state", [&] { ask(planet{kep3::udpla::keplerian(e0, rv, mu, text(g), added)}); });
        call("keplerian:elements", [&] {
            std::array<double, 6> el{m(o.a), m(o.e), m(o.inc), m(o.W), m(o.w), m(o.f)};
            ask(planet{kep3::udpla::keplerian(e0, el, mu, "x", added, static_cast<kep3::elements_type>(g.p(0.9) ? g.n(5) : g.next()))});
        });
        call("jpl_lp", [&] {
            static const std::vector<std::string> names{"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"};
            ask(planet{kep3::udpla::jpl_lp(g.p(0.8) ? g.pick(names) : text(g))});
        });
        call("user-type", [&] {
            Stray s;
            s.rv = rv;
            s.mu = mu;
            s.r = m(1.);
            s.fail = g.p(0.7) ? 0 : static_cast<int>(g.n(3));
            s.v.resize(g.p(0.6) ? 6 * ts.size() : g.n(20), 1.);
            Bare b{rv, mu};
            if (g.p(0.5))
                ask(planet{s});
            else
                ask(planet{b});
        });
        call("vsop2013", [&] {
            static const std::vector<std::string> names{"mercury", "venus", "earth_moon", "mars", "jupiter", "PLUTO"};
            static const std::vector<double> th{1e-5, 1e-3, 0., 1., 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -1., -0., std::numeric_limits<double>::denorm_min()};
            const kep3::udpla::vsop2013 v(g.p(0.8) ? g.pick(names) : text(g), g.pick(th));
            ask(planet{v});
            auto w = v;
            w = v;
            auto x = std::move(w);
            w = std::move(x);
            sunk ^= (Hash() << w.eph(t)).h;
        });
        // ---- fly-bys
        call("flyby", [&] {
            const double rp = m(1.), beta = m(1.);
            Hash h;
            h << kep3::fb_con(rv[0], rv2[0], mu, rp) << kep3::fb_dv(rv[0], rv2[0], mu, rp);
            tried([&] { h << kep3::fb_vout(rv[0], rv2[0], rp, beta, mu); });
            tried([&] { h << kep3::fb_vout(rv[0], rv[0], rp, beta, mu); });
            Stray s;
            s.mu = mu;
            s.r = rp;
            const planet p{s};
            tried([&] { h << kep3::fb_con(rv[0], rv2[0], p) << kep3::fb_dv(rv[0], rv2[0], p); });
            sunk ^= h.h;
        });
        if (!g.p(0.25)) return; // integrators are slow
        // ---- thrust arcs and high-fidelity legs
        auto tol = [&] {
            static const std::vector<double> sp{1e-16, 1e-8, 0., -1., 1., 2., 1e-300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
            return g.p(m.rate) ? g.pick(sp) : 1e-16;
        };
        HfCase c = hf_case(g, 4, true);
        for (auto &x : c.xs) x = m(x);
        for (auto &x : c.xf) x = m(x);
        for (auto &x : c.u) x = m(x);
        c.tof = m(c.tof);
        c.T = m(c.T);
        c.isp = m(c.isp);
        c.mu = m(c.mu);
        c.cut = m(c.cut);
        c.tol = tol();
        if (m.rate > 0 && g.p(0.1)) c.u.resize(g.n(8));
        call("stark_problem", [&] {
            kep3::stark_problem s(c.mu, m(1.), c.tol);
            for (int k = 0; k < 2; ++k) {
                const std::array<double, 3> th{m(0.1), m(0.), m(0.)};
                tried([&] { sunk ^= (Hash() << s.propagate(c.xs, th, c.tof)).h; });
                tried([&] {
                    const auto [x, M, U] = s.propagate_var(c.xs, th, c.tof);
                    sunk ^= (Hash() << x << M << U).h;
                });
                s.set_mu(m(1.));
                s.set_veff(m(1.));
            }
            auto q = s;
            s = q;
            std::ostringstream out;
            out << s;
        });
        call("hf:constructor", [&] {
            const auto l = c.fresh();
            sunk ^= hf_bits(l, true).h;
        });
        call("hf:history", [&] { tried([&] { sunk ^= c.fresh().get_state_history(static_cast<unsigned>(g.n(5))).size(); }); });
        call("hf:setters", [&] {
            hf_t l;
            std::vector<std::function<void()>> ops{[&] { l.set_cut(c.cut); }, [&] { l.set_throttles(c.u); }, [&] { l.set_tof(c.tof); }, [&] { l.set_max_thrust(c.T); }, [&] { l.set_isp(c.isp); }, [&] { l.set_mu(c.mu); },
                                                   [&] { l.set_rvs(split(c.xs)); }, [&] { l.set_rvf(split(c.xf)); }, [&] { l.set_ms(c.xs[6]); }, [&] { l.set_mf(c.xf[6]); }, [&] { l.set_rvms(c.xs); },
                                                   [&] { l.set_rvmf(c.xf); }, [&] { l.set_tol(c.tol); }, [&] { l.set_throttles({}); },
                                                   [&] {
                                                       const std::size_t a = g.n(c.u.size() + 1), b = g.n(c.u.size() + 1);
                                                       l.set_throttles(c.u.cbegin() + static_cast<long>(a), c.u.cbegin() + static_cast<long>(b));
                                                   },
                                                   [&] { l.set(c.xs, c.u, c.xf, c.tof, c.T, c.isp, c.mu, c.cut, c.tol); }, [&] { l.set(c.xs, c.u, c.xf, c.tof); }};
            for (int k = 0; k < 8; ++k) tried(ops[g.n(ops.size())]);
            sunk ^= hf_bits(l, false).h;
            auto cp = l;
            auto mv = std::move(cp);
            cp = mv;
            std::stringstream ar;
            {
                boost::archive::binary_oarchive oa(ar);
                oa << cp;
            }
            hf_t q;
            boost::archive::binary_iarchive ia(ar);
            ia >> q;
            std::ostringstream out;
            out << q;
            tried([&] { sunk ^= (Hash() << q.compute_throttle_constraints() << q.compute_tc_grad()).h; });
            tried([&] { sunk ^= (Hash() << q.compute_mismatch_constraints()).h; });
        });
        call("cached-integrators", [&] {
            const double x = tol();
            tried([&] { sunk ^= static_cast<std::uint64_t>(kep3::ta::get_ta_cr3bp(x).get_dim()); });
            tried([&] { sunk ^= static_cast<std::uint64_t>(kep3::ta::get_ta_cr3bp_var(x).get_dim()); });
            tried([&] { sunk ^= static_cast<std::uint64_t>(kep3::ta::get_ta_stark(x).get_dim()); });
            tried([&] { sunk ^= static_cast<std::uint64_t>(kep3::ta::get_ta_stark_var(x).get_dim()); });
        });
    });
}

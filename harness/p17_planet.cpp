// P17: any user type behind the planet interface. A family of user types with every combination of optional methods is
// observed side by side with the planets made of them.
#include "calls.hpp"
#include "eq.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/core/demangle.hpp>
#include <boost/serialization/string.hpp>
#include <kep3/planet.hpp>
using namespace vf;
using kep3::planet;
namespace
{
struct user_error {
    int code;
};
enum { MU = 1, SELF = 2, RADIUS = 4, SAFE = 8, NAME = 16, INFO = 32, EPHV = 64, PERIOD = 128, ELEMENTS = 256 };
constexpr unsigned NM = 512;

// What a user may write: state kept in the object, every method distinct from every default.
struct Data {
    Orbit o;
    double mu = 1, self = 2, radius = 3, safe = 4, wob = 0, bad_after = 1e300;
    std::string name, info;
    long *calls = nullptr; // counts of eph calls; not serialized
    template <class A>
    void serialize(A &ar, unsigned)
    {
        ar & o.mu & o.a & o.e & o.inc & o.W & o.w & o.f & mu & self & radius & safe & wob & bad_after & name & info;
    }
    rv_t state(double t) const
    {
        if (t > bad_after) throw user_error{static_cast<int>(bad_after)};
        // moves along the orbit, back and forth (valid for hyperbolas as well)
        const double f = o.f > M_PI ? o.f - 2 * M_PI : o.f;
        return ref::toD(ref::par2ic(o.a, o.e, o.inc, o.W, o.w, wob == 0 ? f : f * std::cos(wob * t), o.mu));
    }
};
template <unsigned M>
struct U {
    Data d;
    rv_t eph(double t) const
    {
        if (d.calls) ++*d.calls;
        return d.state(t);
    }
    double get_mu_central_body() const
        requires((M & MU) != 0)
    {
        return d.mu;
    }
    double get_mu_self() const
        requires((M & SELF) != 0)
    {
        return d.self;
    }
    double get_radius() const
        requires((M & RADIUS) != 0)
    {
        return d.radius;
    }
    double get_safe_radius() const
        requires((M & SAFE) != 0)
    {
        return d.safe;
    }
    std::string get_name() const
        requires((M & NAME) != 0)
    {
        return d.name;
    }
    std::string get_extra_info() const
        requires((M & INFO) != 0)
    {
        return d.info;
    }
    std::vector<double> eph_v(const std::vector<double> &t) const
        requires((M & EPHV) != 0)
    {
        std::vector<double> r;
        for (double x : t) {
            r.push_back(-x);
            r.push_back(d.self + x); // deliberately not the scalar ephemeris, nor of its size
        }
        return r;
    }
    double period(double t) const
        requires((M & PERIOD) != 0)
    {
        return d.radius * 7 + t;
    }
    std::array<double, 6> elements(double t, kep3::elements_type k) const
        requires((M & ELEMENTS) != 0)
    {
        return {t, static_cast<double>(k), d.self, d.mu, d.radius, d.safe};
    }
    template <class A>
    void serialize(A &ar, unsigned)
    {
        ar & d;
    }
};
} // namespace
#ifdef __SANITIZE_ADDRESS__ // fewer types: they take long to compile there
#define ALL(X) X(0) X(1) X(64) X(385) X(511) X(63)
#else
#define ALL(X) X(0) X(1) X(2) X(4) X(8) X(16) X(32) X(64) X(128) X(256) X(129) X(257) X(65) X(511) X(510) X(447) X(383) X(255) X(127) X(63) X(170) X(341)
#endif
namespace
{
#define T(m) using U##m = U<m>;
ALL(T)
#undef T
} // namespace
#define T(m) TANUKI_S11N_WRAP_EXPORT(U##m, kep3::detail::planet_iface)
ALL(T)
#undef T
namespace
{
using In = std::function<std::string()>;
Hash bits(const rv_t &x) { return Hash() << x[0] << x[1]; }
// The answer of a call, or how it was refused.
template <class F>
std::pair<std::string, std::uint64_t> answer(F &&f)
{
    try {
        return {"", f().h};
    } catch (const user_error &e) {
        return {"user", static_cast<std::uint64_t>(e.code)};
    } catch (const kep3::not_implemented_error &) {
        return {"not-implemented", 0};
    } catch (const std::logic_error &) {
        return {"logic", 0};
    } catch (const std::exception &) {
        return {"other", 0};
    }
}
template <unsigned M>
std::uint64_t everything(const planet &p, const std::vector<double> &ts)
{
    Hash h;
    h << p.get_mu_central_body() << p.get_mu_self() << p.get_radius() << p.get_safe_radius() << p.get_name() << p.get_extra_info();
    auto put = [&](auto f) {
        auto a = answer(f);
        h << a.first << static_cast<double>(a.second >> 32) << static_cast<double>(a.second & 0xffffffff);
    };
    put([&] { return Hash() << p.eph_v(ts); });
    for (double t : ts) {
        put([&] { return bits(p.eph(t)); });
        put([&] { return Hash() << p.period(t); });
        for (int k = 0; k < 5; ++k) put([&] { return Hash() << p.elements(t, static_cast<kep3::elements_type>(k)); });
    }
    std::ostringstream s;
    kep3::detail::operator<<(s, p);
    h << s.str();
    return h.h;
}
template <unsigned M>
void one(Recorder &rec, Rng &g)
{
    using UD = U<M>;
    UD u;
    const bool hyper = g.p(0.35), singular = !hyper && g.p(0.12);
    u.d.o = tame(g, hyper);
    if (singular) { // circular and equatorial: equinoctial elements still exist
        u.d.o.e = g.p(0.6) ? 0. : u.d.o.e;
        if (u.d.o.e == 0) u.d.o.w = 0;
        if (g.p(0.6)) {
            u.d.o.W = 0;
            u.d.o.inc = g.p(0.5) ? 0. : M_PI;
        }
    }
    u.d.mu = u.d.o.mu;
    u.d.self = g.logu(1e-5, 1e15);
    u.d.radius = g.logu(1e-5, 1e9);
    u.d.safe = u.d.radius * g.u(1, 10);
    u.d.wob = g.p(0.2) ? 0. : g.logu(1e-4, 1.);
    u.d.name = "planet-" + std::to_string(g.n(100000)) + (g.p(0.2) ? std::string(300, 'x') : "");
    u.d.info = g.p(0.1) ? "" : "info\n" + std::to_string(g.n(100000));
    std::vector<double> ts;
    for (auto n = g.p(0.1) ? 0 : 1 + g.n(6); n-- > 0;) ts.push_back(g.p(0.1) ? 0. : g.u(-40000, 40000));
    if (g.p(0.15)) u.d.bad_after = g.u(-1000, 20000);
    const auto mask = M;
    auto in = [&, mask] { return J().i("methods", mask).rv("rv", u.d.o.rv).d("mu", u.d.o.mu).a("times", ts).t("orbit", u.d.o.regime).str(); };
    const planet p(u);
    const std::string tname = boost::core::demangle(typeid(UD).name());
    rec.ev(hyper ? "hyperbolic" : singular ? "circular-or-equatorial" : "elliptic");
    rec.ev("methods:" + std::to_string(M));

    // 1 - getters
    rec.require("mu-central-body", p.get_mu_central_body() == ((M & MU) ? u.d.mu : -1.), in);
    rec.require("mu-self", p.get_mu_self() == ((M & SELF) ? u.d.self : -1.), in);
    rec.require("radius", p.get_radius() == ((M & RADIUS) ? u.d.radius : -1.), in);
    rec.require("safe-radius", p.get_safe_radius() == ((M & SAFE) ? u.d.safe : -1.), in);
    rec.require("name", p.get_name() == ((M & NAME) ? u.d.name : tname), in, p.get_name());
    rec.require("extra-info", p.get_extra_info() == ((M & INFO) ? u.d.info : ""), in);

    // 2 - ephemerides
    for (double t : ts) {
        const auto want = answer([&] { return bits(u.d.state(t)); });
        rec.require("eph", answer([&] { return bits(p.eph(t)); }) == want, in);
        const kep3::epoch ep(t);
        const auto te = ep.mjd2000();
        rec.require("eph:epoch", answer([&] { return bits(p.eph(ep)); }) == answer([&] { return bits(u.d.state(te)); }), in);
    }
    const auto vec = answer([&] { return Hash() << p.eph_v(ts); });
    if constexpr ((M & EPHV) != 0)
        rec.require("eph_v:user", vec == answer([&] { return Hash() << u.eph_v(ts); }), in);
    else
        rec.require("eph_v:default", vec == answer([&] {
                                         std::vector<double> r;
                                         for (double t : ts) {
                                             const auto s = u.d.state(t);
                                             for (auto &x : s) r.insert(r.end(), x.begin(), x.end());
                                         }
                                         return Hash() << r;
                                     }),
                    in);

    // 3 - period and elements
    if (g.p(0.3)) ts.push_back(0.);
    for (double t : ts) {
        const kep3::epoch ep(t);
        const double te = ep.mjd2000();
        const bool fails = t > u.d.bad_after;
        if constexpr ((M & PERIOD) != 0)
            rec.require("period:user", p.period(t) == u.period(t) && p.period(ep) == u.period(te), in);
        else if constexpr ((M & MU) == 0) {
            rec.require("period:not-implemented", answer([&] { return Hash() << p.period(t); }).first == "not-implemented", in);
            rec.require("period:not-implemented", answer([&] { return Hash() << p.period(ep); }).first == "not-implemented", in);
        } else if (fails)
            rec.require("period:user-error", answer([&] { return Hash() << p.period(t); }).first == "user", in);
        else {
            const double P = p.period(t);
            const rv_t s = u.d.state(t);
            const ref::RV x = ref::toQ(s);
            const ref::Q R = ref::norm(x.r), al = 2 / R - ref::dot(x.v, x.v) / u.d.mu, a = 1 / al;
            if (hyper)
                rec.require("period:hyperbola-is-nan", std::isnan(P), in);
            else {
                const double want = ref::d(2 * ref::PI * a * sqrtq(a / u.d.mu));
                rec.check("period", std::abs(P - want), want * 40 * ref::EPS * (1 + ref::d(a * 4 / R)), in);
            }
            if (te == t || u.d.wob == 0) rec.require("period:epoch", (Hash() << p.period(ep)).h == (Hash() << P).h, in);
        }
        for (int k = 0; k < 5; ++k) {
            const auto kt = static_cast<kep3::elements_type>(k);
            const std::string kn = kind_name(k);
            auto got = answer([&] { return Hash() << p.elements(t, kt); });
            if constexpr ((M & ELEMENTS) != 0) {
                rec.require("elements:user", got == answer([&] { return Hash() << u.elements(t, kt); }), in);
                rec.require("elements:user", answer([&] { return Hash() << p.elements(ep, kt); }) == answer([&] { return Hash() << u.elements(te, kt); }), in);
                if (k == 1) {
                    rec.require("elements:defaults", p.elements(t) == u.elements(t, kt) && p.elements(ep) == u.elements(te, kt), in);
                    rec.require("elements:defaults", p.elements() == u.elements(0., kt), in);
                }
            } else if constexpr ((M & MU) == 0)
                rec.require("elements:not-implemented", got.first == "not-implemented", in);
            else if (fails)
                rec.require("elements:user-error", got.first == "user", in);
            else if (k == kep3::elements_type::POSVEL || (hyper && k == kep3::elements_type::KEP_M))
                rec.require("elements:refuses-" + kn, got.first == "logic", in);
            else if (singular && k < 2)
                rec.ev("skipped:singular-kind"); // node or pericentre do not exist
            else if ((k == kep3::elements_type::MEQ_R && u.d.o.inc == 0) || (k == kep3::elements_type::MEQ && u.d.o.inc == M_PI))
                rec.ev("skipped:singular-kind"); // the set that is singular here
            else {
                const rv_t s = u.d.state(t);
                const ref::RV x = ref::toQ(s);
                if (!singular && k < 2) { // inverse cosines lose digits next to apses and nodes
                    const ref::Par q = ref::ic2par(x, u.d.mu);
                    if (std::abs(ref::d(sinq(q.f))) < 1e-4 || std::abs(ref::d(sinq(q.w))) < 1e-4 || std::abs(ref::d(sinq(q.W))) < 1e-4) {
                        rec.ev("skipped:apse");
                        continue;
                    }
                }
                if (hyper && 1 + u.d.o.e * std::cos(u.d.o.f) < 1e-2) continue;
                const auto e = p.elements(t, kt);
                const ref::RV y = ref_elements2ic(k, e, u.d.mu);
                const double R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v));
                rec.check("elements:" + kn + ":position", ref::d(ref::norm(ref::sub(x.r, y.r))), 1e-9 * R, in);
                rec.check("elements:" + kn + ":velocity", ref::d(ref::norm(ref::sub(x.v, y.v))), 1e-9 * V, in);
                if (te == t || u.d.wob == 0) rec.require("elements:epoch", (Hash() << p.elements(ep, kt)).h == (Hash() << e).h, in);
                if (k == 1) rec.require("elements:defaults", (Hash() << p.elements(t)).h == (Hash() << e).h, in);
            }
        }
    }

    // 4 - the value inside, copies, moves, archives
    const auto all = everything<M>(p, ts);
    rec.require("value", value_isa<UD>(p) && value_ptr<UD>(p) != nullptr && !value_isa<kep3::detail::null_udpla>(p) && value_type_index(p) == typeid(UD), in);
    planet q(p);
    rec.require("copy", everything<M>(q, ts) == all, in);
    auto *v = q.extract<UD>();
    rec.require("extract", v != nullptr && v == value_ptr<UD>(q) && q.template extract<kep3::detail::null_udpla>() == nullptr, in);
    if (v) {
        v->d.self += 1;
        v->d.name += "*";
        v->d.o.a *= 1.5;
        rec.require("copy:independent", everything<M>(p, ts) == all, in);
        if (!ts.empty() && ts[0] <= v->d.bad_after) rec.require("extract:same-object", bits(q.eph(ts[0])).h == bits(v->eph(ts[0])).h && bits(q.eph(ts[0])).h != bits(p.eph(ts[0])).h, in);
    }
    q = p;
    rec.require("copy-assignment", everything<M>(q, ts) == all, in);
    planet m(std::move(q));
    rec.require("move", everything<M>(m, ts) == all, in);
    planet w;
    w = std::move(m);
    rec.require("move-assignment", everything<M>(w, ts) == all, in);
    planet other;
    swap(w, other);
    rec.require("swap", everything<M>(other, ts) == all && value_isa<kep3::detail::null_udpla>(w), in);
    auto archive = [&]<class OA, class IA>(const char *name) {
        std::stringstream ss;
        {
            OA oa(ss);
            oa << p;
            oa << p;
        }
        planet a, b(u);
        {
            IA ia(ss);
            ia >> a;
            ia >> b;
        }
        rec.require(std::string("archive:") + name, everything<M>(a, ts) == all && everything<M>(b, ts) == all, in);
    };
    archive.template operator()<boost::archive::binary_oarchive, boost::archive::binary_iarchive>("binary");
    archive.template operator()<boost::archive::text_oarchive, boost::archive::text_iarchive>("text");

    // 5 - the printed form states what the getters say
    std::ostringstream s;
    kep3::detail::operator<<(s, p);
    const std::string txt = s.str();
    auto has = [&](const std::string &x) { return txt.find(x) != std::string::npos; };
    rec.require("printed", has("Planet name: " + p.get_name()) && has("C++ class name: " + tname) && has(fmt::format("mu body (-1 if not defined): {}\n", p.get_mu_self()))
                               && has(fmt::format("mu central body (-1 if not defined): {}\n", p.get_mu_central_body())) && has(fmt::format("\nradius body (-1 if not defined): {}\n", p.get_radius()))
                               && has(fmt::format("safe body radius (-1 if not defined): {}\n", p.get_safe_radius())) && has("Extra info") == !p.get_extra_info().empty() && has(p.get_extra_info()),
                in, txt);
    rec.nontriv(hash_vec(u.d.o.rv[0], hash_vec(u.d.o.rv[1], M)));
    rec.sample(in);
}
} // namespace
int main(int argc, char **argv)
{
    return drive(argc, argv, 17, [](Recorder &rec, Rng &g, long i) {
        int k = 0;
        static int n = 0;
        if (!n) {
#define T(m) ++n;
            ALL(T)
#undef T
        }
        const int w = static_cast<int>(i % n);
#define T(m)                                                                                                                                                                                       \
    if (k++ == w) one<m>(rec, g);
        ALL(T)
#undef T
        // the planet nobody provided
        if (i % 50 == 0) {
            const planet p;
            auto in = [] { return J().t("planet", "default").str(); };
            rec.require("null", p.get_mu_self() == -1 && p.get_radius() == -1 && p.get_mu_central_body() == -1 && p.get_safe_radius() == -1 && p.get_extra_info().empty(), in);
            rec.require("null", answer([&] { return Hash() << p.period(); }).first == "not-implemented" && answer([&] { return Hash() << p.elements(); }).first == "not-implemented", in);
            std::stringstream ss;
            {
                boost::archive::binary_oarchive oa(ss);
                oa << p;
            }
            planet q(U1{});
            {
                boost::archive::binary_iarchive ia(ss);
                ia >> q;
            }
            rec.require("null", value_isa<kep3::detail::null_udpla>(q), in);
        }
    });
}

// P15, second half: planets of all kinds, high-fidelity legs and constant-thrust problems out of archives: alone, in
// containers, through pointers, into used objects, and in another process (which has none of this one's caches).
#include "calls_shim.hpp"
#include <boost/serialization/unique_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <fstream>
#include <kep3/udpla/vsop2013.hpp>
#include <unistd.h>
using namespace vf;
using kep3::planet;
using In = std::function<std::string()>;
namespace
{
struct Mine { // a user type with a state of its own
    rv_t rv{{{1, 0, 0}, {0, 1, 0}}};
    double mu = 1;
    std::string name = "mine";
    std::vector<double> more;
    rv_t eph(double t) const
    {
        auto x = rv;
        x[0][0] += t;
        return x;
    }
    double get_mu_central_body() const { return mu; }
    std::string get_name() const { return name; }
    std::string get_extra_info() const { return std::to_string(more.size()) + (more.empty() ? "" : std::to_string(more.back())); }
    template <class A>
    void serialize(A &ar, unsigned)
    {
        ar &rv &mu &name &more;
    }
};
} // namespace
TANUKI_S11N_WRAP_EXPORT(Mine, kep3::detail::planet_iface)
namespace
{
struct Any {
    int k = 0; // 0 hf leg, 1 stark, 2 planet, 3 planets in containers, 4 bare udplas
    hf_t l;
    std::unique_ptr<kep3::stark_problem> s = std::make_unique<kep3::stark_problem>(1., 1., 1e-16);
    planet p;
    std::vector<planet> v;
    std::unique_ptr<planet> up, none;
    kep3::udpla::keplerian uk;
    kep3::udpla::jpl_lp uj;
    kep3::udpla::vsop2013 uv;
    // what to ask of it
    std::vector<double> ts;
    HfCase c;
    template <class A>
    void serialize(A &ar, unsigned)
    {
        ar &k &ts &c.xs &c.u &c.tof &c.mu;
        payload(ar);
    }
    template <class A>
    void payload(A &ar)
    {
        constexpr bool bin = std::is_same_v<A, boost::archive::binary_oarchive> || std::is_same_v<A, boost::archive::binary_iarchive>;
        if (k == 0) ar &l;
        if (k == 1) ar &*s;
        if constexpr (bin) {
            if (k == 2) ar &p;
            if (k == 3) ar &v &up &none;
            if (k == 4) ar &uk &uj &uv;
        }
    }
};
static const char *const names[] = {"mercury", "venus", "EARTH", "mars", "Jupiter", "saturn", "uranus", "neptune"};
std::string label(Rng &g)
{
    std::string s;
    for (auto n = g.n(12); n-- > 0;) s += static_cast<char>(g.p(0.8) ? ' ' + g.n(95) : g.next());
    return g.p(0.05) ? s + std::string("\0end", 4) : s;
}
kep3::udpla::keplerian kep(Rng &g)
{
    const Orbit o = orbit(g, true, true);
    return kep3::udpla::keplerian(kep3::epoch(g.u(-5000, 5000)), o.rv, o.mu, label(g), {g.u(0.1, 5), g.u(0.1, 5), g.u(5, 9)});
}
kep3::udpla::vsop2013 vsop(Rng &g)
{
    static const char *const n[] = {"mercury", "venus", "earth_moon", "MARS", "jupiter", "Pluto"};
    static const double th[] = {1e-5, 1e-3, 1e-4, 0.};
    return kep3::udpla::vsop2013(n[g.n(6)], th[g.n(4)]);
}
planet make_planet(Rng &g)
{
    switch (g.n(5)) {
        case 0: return planet{kep(g)};
        case 1: return planet{kep3::udpla::jpl_lp(names[g.n(8)])};
        case 2: return planet{vsop(g)};
        case 3: {
            Mine m;
            m.rv = orbit(g, false, false).rv;
            m.mu = g.logu(0.1, 10);
            m.name = label(g);
            for (auto n = g.n(4); n-- > 0;) m.more.push_back(g.gauss());
            return planet{m};
        }
        default: return planet();
    }
}
void fill(Any &a, Rng &g)
{
    a.ts.clear();
    for (int i = 0, n = 1 + static_cast<int>(g.n(3)); i < n; ++i) a.ts.push_back(g.u(-9000, 9000));
    a.c = hf_case(g, 3, true);
    switch (a.k) {
        case 0: {
            std::string route;
            a.l = hf_build(a.c, g, route);
            if (g.p(0.3)) (void)hf_bits(a.l, false); // its integrators are not where they started
            if (g.p(0.3)) a.l.set_cut(gen_cut(g, a.c.nseg()));
            if (g.p(0.2)) a.l.set_throttles(gen_throttles(g, 1 + static_cast<unsigned>(g.n(4))));
            break;
        }
        case 1:
            a.s = std::make_unique<kep3::stark_problem>(a.c.mu, a.c.isp * 9.80665, a.c.tol);
            if (g.p(0.3)) {
                a.s->set_mu(a.c.mu * 1.1);
                a.s->set_veff(a.c.isp * 9);
            }
            break;
        case 2:
            a.p = make_planet(g);
            break;
        case 3:
            a.v.clear();
            for (auto n = g.n(4); n-- > 0;) a.v.push_back(make_planet(g));
            a.up = g.p(0.8) ? std::make_unique<planet>(make_planet(g)) : nullptr;
            break;
        default:
            a.uk = kep(g);
            a.uj = kep3::udpla::jpl_lp(names[g.n(8)]);
            a.uv = vsop(g);
    }
}
Hash bits(kep3::stark_problem &s, const Any &a)
{
    Hash h;
    h << s.get_mu() << s.get_veff() << s.get_tol();
    const std::array<double, 3> T{a.c.u[0] * 0.01, a.c.u[1] * 0.01, a.c.u[2] * 0.01};
    part(h, [&] { h << s.propagate(a.c.xs, T, a.c.tof / 4); });
    part(h, [&] {
        const auto [x, M, U] = s.propagate_var(a.c.xs, T, a.c.tof / 4);
        h << x << M << U;
    });
    std::ostringstream o;
    o << s;
    return h << o.str() << s.get_ta().get_pars() << s.get_ta_var().get_pars() << s.get_ta().get_tol();
}
// Everything it answers, part by part.
std::vector<std::pair<std::string, std::uint64_t>> answers(Any &a)
{
    std::vector<std::pair<std::string, std::uint64_t>> r;
    auto q = [&](const std::string &n, Hash h) { r.emplace_back(n, h.h); };
    switch (a.k) {
        case 0: {
            const hf_t &l = a.l;
            q("hf:state", Hash() << l.get_rvms() << l.get_rvmf() << l.get_rvs() << l.get_rvf() << l.get_ms() << l.get_mf());
            q("hf:throttles", Hash() << l.get_throttles());
            q("hf:settings", Hash() << l.get_tof() << l.get_max_thrust() << l.get_isp() << l.get_mu() << l.get_cut() << l.get_tol());
            q("hf:segments", Hash() << static_cast<double>(l.get_nseg()) << static_cast<double>(l.get_nseg_fwd()) << static_cast<double>(l.get_nseg_bck()));
            q("hf:results", hf_bits(l, true));
            break;
        }
        case 1:
            q("stark", bits(*a.s, a));
            break;
        case 2:
            q("planet", planet_bits(a.p, a.ts));
            q("planet:type", Hash() << (tanuki::value_isa<Mine>(a.p) ? 1. : tanuki::value_isa<kep3::udpla::keplerian>(a.p) ? 2. : tanuki::value_isa<kep3::udpla::jpl_lp>(a.p) ? 3. : tanuki::value_isa<kep3::udpla::vsop2013>(a.p) ? 4. : 5.));
            if (auto *m = tanuki::value_ptr<Mine>(a.p)) q("planet:user", Hash() << m->rv << m->mu << m->name << m->more);
            break;
        case 3: {
            Hash h;
            h << static_cast<double>(a.v.size());
            q("planets:count", h);
            for (auto &p : a.v) q("planets:in-vector", planet_bits(p, a.ts));
            q("planets:pointer", a.up ? planet_bits(*a.up, a.ts) : Hash());
            q("planets:null", Hash() << (a.none ? 1. : 0.));
            break;
        }
        default:
            q("keplerian", planet_bits(planet{a.uk}, a.ts));
            q("jpl_lp", planet_bits(planet{a.uj}, a.ts));
            q("vsop2013", Hash() << a.uv.eph(a.ts[0]) << a.uv.get_name());
    }
    return r;
}
void same(Recorder &rec, const std::string &how, Any &a, Any &b, const In &in)
{
    const auto x = answers(a), y = answers(b);
    for (std::size_t i = 0; i < x.size(); ++i)
        rec.require(x[i].first, i < y.size() && x[i] == y[i], in, how);
}
void later(Recorder &rec, Rng &g, const std::string &how, Any &a, Any &b, const In &in)
{
    if (a.k == 0) {
        const auto u = gen_throttles(g, g.p(0.5) ? static_cast<unsigned>(a.l.get_nseg()) : 1 + static_cast<unsigned>(g.n(5)));
        const double cut = gen_cut(g, 4), f = g.u(0.5, 1.5);
        const auto which = g.n(5);
        for (hf_t *l : {&a.l, &b.l}) {
            if (which == 0) l->set_throttles(u);
            if (which == 1) l->set_cut(cut);
            if (which == 2) l->set_tof(l->get_tof() * f + 1e-3);
            if (which == 3) l->set_max_thrust(l->get_max_thrust() * f);
            if (which == 4) l->set_mu(l->get_mu() * f);
        }
        rec.require("hf:after-a-setter", hf_bits(a.l, false).h == hf_bits(b.l, false).h, in, how);
    } else if (a.k == 1) {
        const double f = g.u(0.5, 1.5);
        for (auto *s : {a.s.get(), b.s.get()}) {
            s->set_mu(s->get_mu() * f);
            s->set_veff(s->get_veff() * f);
        }
        rec.require("stark:after-a-setter", bits(*a.s, a).h == bits(*b.s, a).h, in, how);
    } else if (a.k == 2) {
        const planet p(a.p), q(b.p);
        rec.require("planet:copied-after", planet_bits(p, a.ts).h == planet_bits(q, a.ts).h, in, how);
    }
}
template <class O, class I>
void through(const Any &a, Any &b, bool used, Rng &g)
{
    std::stringstream s;
    {
        O oa(s);
        auto &x = const_cast<Any &>(a);
        x.payload(oa);
    }
    b.k = a.k;
    if (used) {
        fill(b, g);
        (void)answers(b);
    }
    {
        I ia(s);
        b.payload(ia);
    }
    b.ts = a.ts;
    b.c = a.c;
}
int child(const std::string &file)
{
    // (not on the standard output: the library prints there when an integration fails)
    FILE *out = std::fopen((file + ".read").c_str(), "w");
    if (!out) return 3;
    std::ifstream f(file, std::ios::binary);
    boost::archive::binary_iarchive ia(f);
    std::size_t n = 0;
    ia >> n;
    for (std::size_t i = 0; i < n; ++i) {
        Any a;
        ia >> a;
        for (auto &[k, h] : answers(a)) std::fprintf(out, "%zu %s %llx\n", i, k.c_str(), static_cast<unsigned long long>(h));
    }
    return std::fclose(out) == 0 ? 0 : 4;
}
void other_process(Recorder &rec, Rng &g)
{
    const std::string file = (rec.opt.out.empty() ? "/tmp/p15." + std::to_string(getpid()) : rec.opt.out) + ".archive";
    std::vector<Any> v(4 + g.n(12));
    {
        std::ofstream f(file, std::ios::binary);
        boost::archive::binary_oarchive oa(f);
        const std::size_t n = v.size();
        oa << n;
        for (auto &a : v) {
            a.k = static_cast<int>(g.n(5));
            fill(a, g);
            oa << const_cast<const Any &>(a);
        }
    }
    std::string want, got;
    for (std::size_t i = 0; i < v.size(); ++i)
        for (auto &[k, h] : answers(v[i])) {
            char b[200];
            std::snprintf(b, sizeof b, "%zu %s %llx\n", i, k.c_str(), static_cast<unsigned long long>(h));
            want += b;
        }
    char exe[4096];
    const auto len = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[len > 0 ? len : 0] = 0;
    const int rc = std::system(("'" + std::string(exe) + "' mode=read file='" + file + "' > /dev/null").c_str());
    {
        std::ifstream f(file + ".read");
        std::ostringstream o;
        o << f.rdbuf();
        got = o.str();
    }
    std::remove((file + ".read").c_str());
    std::remove(file.c_str());
    auto in = [&] { return J().t("this process", want).t("other process", got).i("exit", rc).str(); };
    rec.require("other-process", rc == 0 && want == got, in, "an archive read by another process");
    rec.ev("archives:other-process");
}
} // namespace
int main(int argc, char **argv)
{
    heyoka::detail::step_limit = 400; // arcs that hit a singularity end there, in the original and in the restored alike
    {
        const auto o = parse(argc, argv);
        if (o.mode == "read") return child(o.extra.at("file"));
    }
    return drive(argc, argv, 1515, [](Recorder &rec, Rng &g, long) {
        Any a;
        a.k = static_cast<int>(g.p(0.8) ? g.n(5) : g.n(2));
        fill(a, g);
        {
            Hash h;
            for (auto &[k, x] : answers(a)) h << k << static_cast<double>(x >> 12);
            rec.nontriv(h.h);
        }
        static const char *const kinds[] = {"high-fidelity leg", "thrust problem", "planet", "planets in containers", "user-defined planets"};
        rec.sample([&] { return J().t("object", kinds[a.k]).str(); });
        const bool used = g.p(0.5);
        const std::string how = used ? "into a used object" : "into a fresh object";
        auto in = [&] { return J().t("object", kinds[a.k]).t("leg", a.c.str()).a("epochs", a.ts).str(); };
        {
            Any b;
            through<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(a, b, used, g);
            same(rec, "binary, " + how, a, b, in);
            later(rec, g, "binary, " + how, a, b, in);
        }
        if (a.k < 2) {
            Any b;
            bool finite = true;
            try {
                if (a.k == 0)
                    for (double x : a.l.compute_mismatch_constraints()) finite = finite && std::isfinite(x);
                else
                    (void)bits(*a.s, a);
                // text archives cannot hold what is not a number
                if (a.k == 1)
                    for (const auto &st : {a.s->get_ta().get_state(), a.s->get_ta_var().get_state()})
                        for (double x : st) finite = finite && std::isfinite(x);
                if (a.k == 0) {
                    (void)a.l.compute_mc_grad();
                }
            } catch (const std::exception &) {
                finite = false;
            }
            if (finite) {
                through<boost::archive::text_oarchive, boost::archive::text_iarchive>(a, b, used, g);
                same(rec, "text, " + how, a, b, in);
                rec.ev("archives:text");
            }
        }
        if (g.p(0.01)) other_process(rec, g);
    });
}

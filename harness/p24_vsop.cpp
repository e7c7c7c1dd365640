// P24: what kep3 makes of the VSOP2013 theory (the theory itself is a stand-in): time scale, units, names, thresholds, ownership of the compiled functions, shared cache.
#include "calls.hpp"
#include <atomic>
#include <barrier>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <heyoka/model/vsop2013.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/vsop2013.hpp>
#include <thread>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/lsan_interface.h>
#endif
using namespace vf;
using kep3::planet;
using kep3::udpla::vsop2013;
namespace
{
using In = std::function<std::string()>;
using Q = __float128;
const std::vector<std::string> names{"", "mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"};
using E = std::array<std::array<double, 3>, 2>;

// The state that the theory gives: time in thousands of Julian years from J2000 (noon), AU and AU/day, to SI.
void truth(unsigned p, double thresh, double t, E &x, E &tol)
{
    const Q T = (static_cast<Q>(t) - static_cast<Q>(0.5)) / 365250;
    for (unsigned c = 0; c < 6; ++c) {
        Q s = 0, a = 0, w = 1;
        for (unsigned k = 0; k < 4; ++k) {
            const Q y = static_cast<Q>(heyoka::model::vf_coefficient(p, c, k, thresh)) * w;
            s += y;
            a += y < 0 ? -y : y;
            w *= T;
        }
        const Q unit = c < 3 ? static_cast<Q>(149597870700.0) : static_cast<Q>(149597870700.0) / 86400;
        x[c / 3][c % 3] = static_cast<double>(s * unit);
        tol[c / 3][c % 3] = static_cast<double>(a * unit) * 1e-14 + 1e-300;
    }
}
std::string cased(Rng &g, std::string s)
{
    const auto how = g.n(4);
    for (auto &c : s)
        if (how == 1 || (how == 2 && g.p(0.5))) c = static_cast<char>(std::toupper(c));
    if (how == 3) s[0] = static_cast<char>(std::toupper(s[0]));
    return s;
}
// Few thresholds a process: the cache keeps every compiled function for ever.
double threshold(Rng &g, Rng &own)
{
    static const auto pool = [&] {
        std::vector<double> v{0., 1e-5, 1e-9, 1., 0.5, 1e-2, 5e-324, std::nextafter(1e-5, 1.), std::nextafter(1e-5, 0.), 10.};
        for (int i = 0; i < 30; ++i) v.push_back(own.logu(1e-12, 1.));
        return v;
    }();
    return g.pick(pool);
}
struct Made {
    unsigned p;
    double thresh;
};
template <class V>
bool says(const V &v, const Made &m, const std::vector<double> &ts)
{
    for (double t : ts) {
        E x, tol;
        truth(m.p, m.thresh, t, x, tol);
        const auto s = v.eph(t);
        for (int c = 0; c < 6; ++c)
            if (!(std::abs(s[c / 3][c % 3] - x[c / 3][c % 3]) <= tol[c / 3][c % 3])) return false;
    }
    const std::string n = v.get_name();
    return n.find(names[m.p]) != std::string::npos;
}
double epoch_of(Rng &g)
{
    switch (g.n(6)) {
        case 0: return static_cast<double>(static_cast<long>(g.n(40000)) - 10000);
        case 1: return 0.5;
        case 2: return 0.;
        case 3: return g.sgn() * g.logu(1e-9, 1e7);
        default: return g.u(-1e5, 1e5);
    }
}
void single(Recorder &rec, Rng &g, Rng &own)
{
    Made m{1 + static_cast<unsigned>(g.n(9)), threshold(g, own)};
    std::string name = cased(g, names[m.p]), route = "constructor";
    std::vector<double> ts;
    for (int i = 0; i < 4; ++i) ts.push_back(epoch_of(g));
    std::vector<std::string> log;
    In in = [&] {
        std::string l;
        for (auto &x : log) l += x + " ";
        return J().t("name", name).d("threshold", m.thresh).a("epochs", ts).t("route", route).t("history", l).str();
    };
    std::unique_ptr<vsop2013> v;
    const auto how = g.n(8);
    if (how == 0) {
        route = "default constructor";
        m = {1, 1e-5};
        v = std::make_unique<vsop2013>();
    } else if (how == 1) {
        route = "default threshold";
        m.thresh = 1e-5;
        v = std::make_unique<vsop2013>(name);
    } else {
        v = std::make_unique<vsop2013>(name, m.thresh);
    }
    E x, tol;
    for (double t : ts) {
        truth(m.p, m.thresh, t, x, tol);
        const auto s = v->eph(t);
        for (int c = 0; c < 6; ++c) rec.check(c < 3 ? "eph:position" : "eph:velocity", std::abs(s[c / 3][c % 3] - x[c / 3][c % 3]), tol[c / 3][c % 3], in);
    }
    rec.require("name", v->get_name().find(names[m.p]) != std::string::npos && v->get_name().find("vsop2013") != std::string::npos, in, v->get_name());
    {
        const auto n = v->get_name();
        const auto k = n.find("threshold=");
        rec.require("name:threshold", k != std::string::npos && std::strtod(n.c_str() + k + 10, nullptr) == m.thresh, in, n);
    }
    // as a planet
    planet pl{*v};
    rec.require("planet:state", says(pl, m, ts), in);
    rec.require("planet:is", pl.extract<vsop2013>() != nullptr && says(*pl.extract<vsop2013>(), m, ts), in);
    rec.require("planet:parameters", pl.get_mu_central_body() == -1 && pl.get_mu_self() == -1 && pl.get_radius() == -1 && pl.get_safe_radius() == -1, in);
    {
        const auto all = pl.eph_v(ts);
        bool ok = all.size() == 6 * ts.size();
        for (std::size_t i = 0; ok && i < ts.size(); ++i) {
            const auto s = pl.eph(ts[i]);
            for (int c = 0; c < 6; ++c) ok = ok && all[6 * i + c] == s[c / 3][c % 3];
        }
        rec.require("planet:eph_v", ok, in);
        const kep3::epoch ep(ts[0]);
        const auto a = pl.eph(ep), b = pl.eph(ep.mjd2000());
        rec.require("planet:epoch", a == b, in);
    }
    for (int k = 0; k < 2; ++k) {
        bool refused = false;
        try {
            if (k) (void)pl.period(0.);
            else (void)pl.elements(0.);
        } catch (const kep3::not_implemented_error &) {
            refused = true;
        }
        rec.require(k ? "planet:refuses-period" : "planet:refuses-elements", refused, in);
    }
    // any history of copies, moves, assignments, archives and destructions: those alive answer as their origin
    struct Alive {
        std::unique_ptr<vsop2013> v;
        Made m;
    };
    std::vector<Alive> alive;
    alive.push_back({std::move(v), m});
    for (int i = 0, n = 2 + static_cast<int>(g.n(10)); i < n; ++i) {
        const auto k = g.n(alive.size());
        const auto op = g.n(10);
        log.push_back(std::to_string(op) + "/" + std::to_string(k));
        switch (op) {
            case 0: {
                Made o{1 + static_cast<unsigned>(g.n(9)), threshold(g, own)};
                alive.push_back({std::make_unique<vsop2013>(cased(g, names[o.p]), o.thresh), o});
                break;
            }
            case 1: alive.push_back({std::make_unique<vsop2013>(*alive[k].v), alive[k].m}); break;
            case 2: {
                auto q = std::make_unique<vsop2013>(std::move(*alive[k].v));
                alive[k].v = std::move(q); // the moved-from one goes
                break;
            }
            case 3: {
                const auto j = g.n(alive.size());
                *alive[j].v = *alive[k].v; // to itself, too
                alive[j].m = alive[k].m;
                break;
            }
            case 4: {
                vsop2013 t(*alive[k].v);
                const auto j = g.n(alive.size());
                *alive[j].v = std::move(t);
                alive[j].m = alive[k].m;
                break;
            }
            case 5:
                if (alive.size() > 1) alive.erase(alive.begin() + static_cast<long>(k));
                break;
            case 6: {
                std::stringstream ss;
                {
                    boost::archive::binary_oarchive oa(ss);
                    oa << *alive[k].v;
                }
                const auto j = g.n(alive.size());
                const auto mk = alive[k].m;
                {
                    boost::archive::binary_iarchive ia(ss);
                    ia >> *alive[j].v;
                }
                alive[j].m = mk;
                break;
            }
            case 7: {
                std::stringstream ss;
                {
                    boost::archive::binary_oarchive oa(ss);
                    const planet a{*alive[k].v};
                    oa << a;
                }
                planet b;
                {
                    boost::archive::binary_iarchive ia(ss);
                    ia >> b;
                }
                rec.require("archive:planet", b.extract<vsop2013>() != nullptr && says(b, alive[k].m, ts), in);
                break;
            }
            case 8: { // an archive that ends early is refused and leaves something that works
                std::stringstream ss;
                {
                    boost::archive::binary_oarchive oa(ss);
                    oa << *alive[k].v;
                }
                const std::string s = ss.str();
                std::stringstream cut(s.substr(0, s.size() / 2 + g.n(s.size() / 2 - 8)));
                vsop2013 t(*alive[k].v);
                bool refused = false;
#ifdef __SANITIZE_ADDRESS__
                __lsan_disable(); // Boost frees, but does not destroy, what it was loading through a pointer
#endif
                try {
                    boost::archive::binary_iarchive ia(cut);
                    ia >> t;
                } catch (const std::exception &) {
                    refused = true;
                }
#ifdef __SANITIZE_ADDRESS__
                __lsan_enable();
#endif
                rec.require("archive:refuses-truncated", refused, in);
                rec.require("archive:usable-after-refusal", says(t, alive[k].m, ts) || says(t, {1, 1e-5}, ts), in);
                break;
            }
            default: {
                planet a{*alive[k].v};
                planet b(a);
                a = planet{};
                rec.require("planet:copy", says(b, alive[k].m, ts), in);
            }
        }
        for (auto &a : alive) rec.require("history:state", says(*a.v, a.m, ts), in);
    }
    rec.nontriv(hash_vec(ts, hash_bytes(&m.thresh, sizeof m.thresh, m.p)));
    rec.sample(in);
}
void refusals(Recorder &rec, Rng &g)
{
    const std::string good = names[1 + g.n(9)];
    std::string name = good;
    double th = g.logu(1e-9, 1.);
    if (g.p(0.5)) {
        switch (g.n(5)) {
            case 0: th = std::numeric_limits<double>::quiet_NaN(); break;
            case 1: th = std::numeric_limits<double>::infinity(); break;
            case 2: th = -std::numeric_limits<double>::infinity(); break;
            case 3: th = -5e-324; break;
            default: th = -g.logu(1e-9, 10.);
        }
    } else {
        const std::vector<std::string> bad{"", " ", "earth", "moon", "sun", good + " ", " " + good, good + "x", good.substr(1), "earth moon", "earth-moon", std::string(good) + std::string(1, '\0'), "ceres", "1", std::string(100000, 'a')};
        name = g.pick(bad);
    }
    In in = [&] { return J().t("name", name.substr(0, 60)).d("threshold", th).str(); };
    bool refused = false;
    try {
        vsop2013 v(name, th);
    } catch (const std::invalid_argument &) {
        refused = true;
    }
    rec.require(name == good ? "refuses:threshold" : "refuses:name", refused, in);
    // the cache is as it was
    vsop2013 v(good, 1e-5);
    rec.require("refusal:leaves-others", says(v, {static_cast<unsigned>(std::find(names.begin(), names.end(), good) - names.begin()), 1e-5}, {0., 1.5, 1e4}), in);
    rec.nontriv(hash_bytes(name.data(), name.size(), hash_bytes(&th, sizeof th)));
}
void threads(Recorder &rec, Rng &g)
{
    const unsigned T = 2 + static_cast<unsigned>(g.n(7));
    std::vector<Made> keys;
    for (int i = 0, n = 1 + static_cast<int>(g.n(3)); i < n; ++i) keys.push_back({1 + static_cast<unsigned>(g.n(9)), g.logu(1e-12, 1.)}); // new ones: two threads miss together
    keys.push_back({1 + static_cast<unsigned>(g.n(9)), 1e-5});
    std::vector<double> ts{epoch_of(g), epoch_of(g), epoch_of(g)};
    std::vector<std::vector<unsigned>> ops(T);
    for (auto &o : ops)
        for (int i = 0, n = 2 + static_cast<int>(g.n(6)); i < n; ++i) o.push_back(static_cast<unsigned>(g.next()));
    const vsop2013 shared(names[keys.back().p], 1e-5);
    In in = [&] { return J().i("threads", T).i("keys", static_cast<long>(keys.size())).a("epochs", ts).str(); };
    std::atomic<int> wrong{0}, made{0};
    std::barrier bar(T);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            bar.arrive_and_wait();
            for (auto o : ops[t]) {
                const auto &k = keys[o / 8 % keys.size()];
                try {
                    switch (o % 4) {
                        case 0: {
                            const vsop2013 v(names[k.p], k.thresh);
                            if (!says(v, k, ts)) ++wrong;
                            ++made;
                            break;
                        }
                        case 1: {
                            vsop2013 v(names[k.p], k.thresh);
                            const planet p{std::move(v)};
                            if (!says(p, k, ts)) ++wrong;
                            ++made;
                            break;
                        }
                        case 2: { // one object read by all
                            if (!says(shared, keys.back(), ts)) ++wrong;
                            break;
                        }
                        default: {
                            const vsop2013 v(shared);
                            if (!says(v, keys.back(), ts)) ++wrong;
                        }
                    }
                } catch (const std::exception &) {
                    ++wrong;
                }
            }
        });
    for (auto &y : th) y.join();
    rec.ev("threads", T);
    rec.ev("threads:made", made.load());
    rec.require("threads:state", wrong.load() == 0, in, std::to_string(wrong.load()) + " wrong answers");
    rec.nontriv(hash_vec(ts, T));
    rec.sample(in);
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 24, [](Recorder &rec, Rng &g, long i) {
        static Rng own(rec.opt.seed * 1000003u + 24u);
        if (rec.opt.mode == "threads")
            threads(rec, g);
        else if (i % 8 == 7)
            refusals(rec, g);
        else
            single(rec, g, own);
    });
}

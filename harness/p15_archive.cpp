// P15: what comes out of an archive is what went in. Objects are written alone and in sequences, in binary and text
// archives, and read back into fresh and into already used objects.
#include "calls.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <kep3/epoch.hpp>
using namespace vf;
namespace
{
using LP = kep3::lambert_problem;
using LEG = kep3::leg::sims_flanagan;
using EP = kep3::epoch;
Hash bits(const LP &x) { return lambert_bits(x); }
Hash bits(const LEG &x) { return leg_bits(x); }
Hash bits(const EP &x)
{
    Hash h;
    const auto c = x.get_tp().time_since_epoch().count();
    h << static_cast<double>(c >> 32) << static_cast<double>(c & 0xffffffff) << x.mjd2000() << x.mjd() << x.jd() << x.as_utc_string();
    std::ostringstream s;
    s << x;
    return h << s.str();
}
// Accessor by accessor, so that a report names what was lost.
void same(Recorder &rec, const std::string &how, const LP &a, const LP &b, const std::function<std::string()> &in)
{
    auto q = [&](const char *n, bool ok) { rec.require("lambert:" + std::string(n), ok, in, how); };
    q("r0", a.get_r0() == b.get_r0());
    q("r1", a.get_r1() == b.get_r1());
    q("tof", a.get_tof() == b.get_tof());
    q("mu", a.get_mu() == b.get_mu());
    q("v0", (Hash() << a.get_v0()).h == (Hash() << b.get_v0()).h);
    q("v1", (Hash() << a.get_v1()).h == (Hash() << b.get_v1()).h);
    q("x", (Hash() << a.get_x()).h == (Hash() << b.get_x()).h);
    q("iters", a.get_iters() == b.get_iters());
    q("Nmax", a.get_Nmax() == b.get_Nmax());
    std::ostringstream s, t;
    s << a;
    t << b;
    q("text", s.str() == t.str());
}
void same(Recorder &rec, const std::string &how, const LEG &a, const LEG &b, const std::function<std::string()> &in)
{
    auto q = [&](const char *n, bool ok) { rec.require("leg:" + std::string(n), ok, in, how); };
    q("rvs", a.get_rvs() == b.get_rvs());
    q("ms", a.get_ms() == b.get_ms());
    q("throttles", a.get_throttles() == b.get_throttles());
    q("rvf", a.get_rvf() == b.get_rvf());
    q("mf", a.get_mf() == b.get_mf());
    q("tof", a.get_tof() == b.get_tof());
    q("max_thrust", a.get_max_thrust() == b.get_max_thrust());
    q("isp", a.get_isp() == b.get_isp());
    q("mu", a.get_mu() == b.get_mu());
    q("cut", a.get_cut() == b.get_cut());
    q("nseg", a.get_nseg() == b.get_nseg());
    q("nseg_fwd", a.get_nseg_fwd() == b.get_nseg_fwd());
    q("nseg_bck", a.get_nseg_bck() == b.get_nseg_bck());
    q("results", leg_bits(a).h == leg_bits(b).h);
}
void same(Recorder &rec, const std::string &how, const EP &a, const EP &b, const std::function<std::string()> &in)
{
    rec.require("epoch:instant", a == b && a.get_tp() == b.get_tp(), in, how);
    rec.require("epoch:numbers", a.mjd2000() == b.mjd2000() && a.mjd() == b.mjd() && a.jd() == b.jd(), in, how);
    rec.require("epoch:text", bits(a).h == bits(b).h, in, how);
}
LP lambert(Rng &g)
{
    for (;;) {
        try {
            const auto a = orbit(g, true, false, g.p(0.8) ? 1 : -1);
            const auto b = orbit(g, true, false, 1);
            auto r1 = b.rv[0];
            const double k = std::hypot(a.rv[0][0], a.rv[0][1], a.rv[0][2]) / std::hypot(r1[0], r1[1], r1[2]) * g.logu(.3, 3);
            for (auto &x : r1) x *= k;
            const double R = std::hypot(a.rv[0][0], a.rv[0][1], a.rv[0][2]);
            return LP(a.rv[0], r1, 2 * M_PI * std::sqrt(R * R * R / a.mu) * (g.p(0.1) ? g.logu(10., 100.) : g.logu(1e-3, 10.)), a.mu, g.p(0.5), static_cast<unsigned>(g.n(g.p(0.1) ? 40 : 6)));
        } catch (const std::exception &) {
        }
    }
}
LEG leg(Rng &g)
{
    auto c = leg_case(g, g.p(0.05) ? 60 : 6, true);
    if (g.p(0.05)) return LEG();
    LEG l = c.make();
    if (g.p(0.3)) l.set_cut(gen_cut(g, c.nseg()));
    if (g.p(0.2)) l.set_throttles(gen_throttles(g, 1 + static_cast<unsigned>(g.n(6))));
    if (g.p(0.2)) l.set_tof(c.tof * 0.7);
    if (g.p(0.2)) l.set_max_thrust(c.T * 1.3);
    return l;
}
EP ep(Rng &g)
{
    if (g.p(0.05)) return EP();
    if (g.p(0.3)) return EP(std::chrono::duration_cast<kep3::microseconds>(std::chrono::duration<std::int64_t, std::micro>(static_cast<std::int64_t>(g.next() >> (1 + g.n(55))) % 8000000000000000000LL)));
    return EP(g.u(-1e5, 1e5));
}
struct Binary {
    using O = boost::archive::binary_oarchive;
    using I = boost::archive::binary_iarchive;
    static constexpr const char *name = "binary";
};
struct Text {
    using O = boost::archive::text_oarchive;
    using I = boost::archive::text_iarchive;
    static constexpr const char *name = "text";
};
struct Any { // 0 lambert, 1 leg, 2 epoch, 3 vector of legs
    int k;
    LP lp;
    LEG l;
    EP e;
    std::vector<LEG> v;
    std::vector<EP> ve;
};
Any any(Rng &g)
{
    Any a;
    a.k = static_cast<int>(g.n(4));
    switch (a.k) {
        case 0:
            a.lp = lambert(g);
            break;
        case 1:
            a.l = leg(g);
            break;
        case 2:
            a.e = ep(g);
            break;
        default:
            for (auto n = g.n(3); n-- > 0;) {
                a.v.push_back(leg(g));
                a.ve.push_back(ep(g));
            }
    }
    return a;
}
template <class A, class X>
void io(A &ar, X &a)
{
    switch (a.k) {
        case 0:
            ar & a.lp;
            break;
        case 1:
            ar & a.l;
            break;
        case 2:
            ar & a.e;
            break;
        default:
            ar & a.v;
            ar & a.ve;
    }
}
template <class K>
void sequence(Recorder &rec, Rng &g, const std::vector<Any> &objs, bool used)
{
    std::string how = std::string(K::name) + (used ? ", into used objects" : ", into fresh objects") + (objs.size() > 1 ? ", in sequence" : ", alone");
    auto in = [&] {
        std::string s;
        for (auto &o : objs) s += std::to_string(o.k);
        return J().t("how", how).t("kinds", s).str();
    };
    std::stringstream s;
    {
        typename K::O oa(s);
        for (const auto &o : objs) io(oa, o);
    }
    std::vector<Any> back(objs.size());
    if (used) {
        for (auto &b : back) {
            b.lp = lambert(g);
            b.l = leg(g);
            (void)leg_bits(b.l); // whatever it may have computed and kept
            b.e = ep(g);
            b.v = {leg(g)};
            b.ve = {ep(g), ep(g)};
        }
    }
    for (std::size_t i = 0; i < objs.size(); ++i) back[i].k = objs[i].k;
    {
        typename K::I ia(s);
        for (auto &b : back) io(ia, b);
    }
    rec.ev(std::string("archives:") + how);
    for (std::size_t i = 0; i < objs.size(); ++i) {
        switch (objs[i].k) {
            case 0:
                same(rec, how, objs[i].lp, back[i].lp, in);
                break;
            case 1: {
                same(rec, how, objs[i].l, back[i].l, in);
                // the restored leg lives on as the original would
                LEG a = objs[i].l, &b = back[i].l;
                const auto n = a.get_nseg();
                const auto u = gen_throttles(g, g.p(0.5) ? static_cast<unsigned>(n) : 1 + static_cast<unsigned>(g.n(5)));
                const double cut = gen_cut(g, 4), tof = a.get_tof() * g.u(.5, 1.5) + 1e-3, T = a.get_max_thrust() * 2 + 1e-3;
                const auto which = g.n(4);
                for (LEG *l : {&a, &b}) {
                    if (which == 0) l->set_throttles(u);
                    if (which == 1) l->set_cut(cut);
                    if (which == 2) l->set_tof(tof);
                    if (which == 3) l->set_max_thrust(T);
                }
                rec.require("leg:after-a-setter", leg_bits(a).h == leg_bits(b).h, in, how);
                break;
            }
            case 2:
                same(rec, how, objs[i].e, back[i].e, in);
                break;
            default: {
                rec.require("vector:size", objs[i].v.size() == back[i].v.size() && objs[i].ve.size() == back[i].ve.size(), in, how);
                for (std::size_t k = 0; k < std::min(objs[i].v.size(), back[i].v.size()); ++k) same(rec, how, objs[i].v[k], back[i].v[k], in);
                for (std::size_t k = 0; k < std::min(objs[i].ve.size(), back[i].ve.size()); ++k) same(rec, how, objs[i].ve[k], back[i].ve[k], in);
            }
        }
    }
    // writing what was read gives the same archive
    if (std::string(K::name) == "text") {
        std::ostringstream s2, s3;
        {
            typename K::O oa(s2);
            for (const auto &o : objs) io(oa, o);
        }
        std::vector<Any> b2(objs.size());
        for (std::size_t i = 0; i < objs.size(); ++i) b2[i].k = objs[i].k;
        std::istringstream is(s2.str());
        {
            typename K::I ia(is);
            for (auto &b : b2) io(ia, b);
        }
        {
            typename K::O oa(s3);
            for (const auto &o : b2) io(oa, o);
        }
        rec.require("rewritten-archive", s2.str() == s3.str(), in, how);
    }
}
} // namespace
int main(int argc, char **argv)
{
    return drive(argc, argv, 15, [](Recorder &rec, Rng &g, long) {
        std::vector<Any> objs(1 + (g.p(0.5) ? 0 : g.n(5)));
        for (auto &o : objs) o = any(g);
        const bool used = g.p(0.5);
        sequence<Binary>(rec, g, objs, used);
        sequence<Text>(rec, g, objs, used);
        std::uint64_t h = 7;
        for (auto &o : objs) {
            const auto x = o.k == 0 ? bits(o.lp).h : o.k == 1 ? bits(o.l).h : o.k == 2 ? bits(o.e).h : o.v.size();
            h = hash_bytes(&x, 8, h);
        }
        rec.nontriv(h);
        rec.sample([&] {
            std::string s;
            for (auto &o : objs) s += "LSEV"[o.k];
            return J().t("kinds (Lambert, Sims-flanagan, Epoch, Vectors)", s).t("read", used ? "into used objects" : "into fresh objects").str();
        });
    });
}

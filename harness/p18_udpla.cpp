// P18: Keplerian and low-precision planets against quad-precision models of the orbits they declare.
#include "bounds.hpp"
#include "calls.hpp"
#include "eq.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <kep3/planet.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
using namespace vf;
using kep3::planet;
using kep3::udpla::jpl_lp;
using kep3::udpla::keplerian;
using ref::Q;
namespace
{
using In = std::function<std::string()>;
using E6 = std::array<double, 6>;
// Everything a planet answers, as bits.
template <class P>
std::uint64_t everything(const P &p, const std::vector<double> &ts)
{
    Hash h;
    h << p.get_mu_central_body() << p.get_mu_self() << p.get_radius() << p.get_safe_radius() << p.get_name() << p.get_extra_info();
    for (double t : ts) {
        try {
            const auto s = p.eph(t);
            h << s[0] << s[1];
        } catch (const std::exception &e) {
            h << std::string(e.what());
        }
        for (int k = 0; k < 5; ++k) {
            try {
                h << p.elements(t, static_cast<kep3::elements_type>(k));
            } catch (const std::exception &e) {
                h << std::string(e.what());
            }
        }
    }
    return h.h;
}
template <class X>
void archives(Recorder &rec, const std::string &what, const X &x, const X &used, const std::vector<double> &ts, bool text, const In &in)
{
    const auto all = everything(x, ts);
    auto run = [&]<class OA, class IA>(const char *n) {
        std::stringstream ss;
        {
            OA oa(ss);
            oa << x;
        }
        X y(used);
        {
            IA ia(ss);
            ia >> y;
        }
        rec.require(what + ":archive:" + n, everything(y, ts) == all, in);
    };
    run.template operator()<boost::archive::binary_oarchive, boost::archive::binary_iarchive>("binary");
    if (text) run.template operator()<boost::archive::text_oarchive, boost::archive::text_iarchive>("text");
    X c(x);
    X d(std::move(c));
    c = d;
    rec.require(what + ":copies", everything(c, ts) == all && everything(d, ts) == all, in);
}
// The kinds of elements must describe the state x.
template <class P>
void kinds(Recorder &rec, const std::string &what, const P &p, double t, const ref::RV &x, double mu, bool hyper, bool singular, double tol, const In &in)
{
    const double R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v));
    for (int k = 0; k < 4; ++k) {
        const auto kt = static_cast<kep3::elements_type>(k);
        if (hyper && k == kep3::elements_type::KEP_M) continue;
        if (singular && k < 2) continue;
        try {
            const E6 e = p.elements(t, kt);
            const ref::RV y = ref_elements2ic(k, e, mu);
            rec.check(what + ":elements:" + kind_name(k), ref::d(ref::norm(ref::sub(x.r, y.r))), tol * R, in, "position");
            rec.check(what + ":elements:" + kind_name(k), ref::d(ref::norm(ref::sub(x.v, y.v))), tol * V, in, "velocity");
        } catch (const std::exception &e) {
            rec.violate(what + ":elements:refused:" + kind_name(k), e.what(), in());
        }
    }
    bool thrown = false;
    try {
        (void)p.elements(t, kep3::elements_type::POSVEL);
    } catch (const std::logic_error &) {
        thrown = true;
    }
    rec.require(what + ":elements:refuses-POSVEL", thrown, in);
    if (hyper) {
        thrown = false;
        try {
            (void)p.elements(t, kep3::elements_type::KEP_M);
        } catch (const std::logic_error &) {
            thrown = true;
        }
        rec.require(what + ":elements:refuses-KEP_M", thrown, in);
    }
}
void kepler_case(Recorder &rec, Rng &g)
{
    const bool hyper = g.p(0.35);
    Orbit o = tame(g, hyper);
    const int kind = static_cast<int>(g.n(5)); // POSVEL: from the state
    if (kind == 4 && g.p(0.5)) o = orbit(g, true, true);
    const bool wild = kind == 4 && o.regime != "ellipse" && o.regime != "hyperbola";
    const bool hyp = o.e > 1;
    const double when = g.p(0.2) ? 0. : g.p(0.8) ? g.u(-20000, 20000) : g.sgn() * g.logu(1e-6, 5e6);
    const kep3::epoch ep(when);
    const double r0 = ep.mjd2000();
    const std::string name = "k" + std::to_string(g.n(1000));
    const std::array<double, 3> par{g.logu(1e-3, 1e20), g.logu(1e-3, 1e10), g.logu(1e-3, 1e10)};
    E6 el{};
    ref::RV x0 = ref::toQ(o.rv);
    const double mu = o.mu;
    if (kind < 4) {
        el = {o.a, o.e, o.inc, o.W, o.w, o.f};
        if (kind == kep3::elements_type::KEP_M) {
            if (hyp) { // not available
                bool thrown = false;
                el[5] = g.u(-1, 1);
                try {
                    (void)keplerian(ep, el, mu, name, par, kep3::elements_type::KEP_M);
                } catch (const std::logic_error &) {
                    thrown = true;
                }
                rec.require("keplerian:refuses-KEP_M-hyperbola", thrown, [&] { return J().a("elements", el).d("mu", mu).str(); });
                return;
            }
            const double E = 2 * std::atan2(std::sqrt(1 - o.e) * std::sin(o.f / 2), std::sqrt(1 + o.e) * std::cos(o.f / 2));
            el[5] = E - o.e * std::sin(E);
            if (g.p(0.2)) el[5] += 2 * M_PI * static_cast<double>(g.n(5)) - 4 * M_PI;
        } else if (kind >= 2) {
            const int I = kind == kep3::elements_type::MEQ ? 1 : -1;
            const double t = I == 1 ? std::tan(o.inc / 2) : 1 / std::tan(o.inc / 2), lp = o.w + I * o.W;
            el = {o.a * (1 - o.e * o.e), o.e * std::cos(lp), o.e * std::sin(lp), t * std::cos(o.W), t * std::sin(o.W), o.f + lp};
            if (g.p(0.15)) { // circular, equatorial
                if (g.p(0.7) && !hyp) el[1] = el[2] = 0;
                if (g.p(0.7)) el[3] = el[4] = 0;
            }
        } else if (g.p(0.15)) {
            el[2] = g.p(0.5) ? 0. : el[2];
            if (!hyp) el[1] = g.p(0.5) ? 0. : el[1];
        }
        x0 = ref_elements2ic(kind, el, mu);
    }
    const double R0 = ref::d(ref::norm(x0.r)), V0 = ref::d(ref::norm(x0.v));
    auto in = [&] { return J().t("from", kind_name(kind)).a("elements", el).rv("rv", ref::toD(x0)).d("mu", mu).d("ref", when).t("orbit", o.regime).str(); };
    std::optional<keplerian> kk;
    try {
        if (kind == 4)
            kk.emplace(ep, o.rv, mu, name, par);
        else
            kk.emplace(ep, el, mu, name, par, static_cast<kep3::elements_type>(kind));
    } catch (const std::exception &e) {
        rec.violate(std::string("keplerian:constructor-refuses:") + kind_name(kind), e.what(), in());
        return;
    }
    const keplerian &k = *kk;
    const planet p(k);
    rec.ev(std::string("keplerian-from:") + kind_name(kind));
    rec.require("keplerian:getters", k.get_name() == name && k.get_mu_central_body() == mu && k.get_mu_self() == par[0] && k.get_radius() == par[1] && k.get_safe_radius() == par[2] && k.get_ref_epoch() == ep, in);
    rec.require("keplerian:planet-getters", p.get_name() == name && p.get_mu_central_body() == mu && p.get_mu_self() == par[0] && p.get_radius() == par[1] && p.get_safe_radius() == par[2], in);

    // the state at the reference epoch, and at others
    const double base = kind == 4 ? 0. : 1e-10; // conversion of the elements
    std::vector<double> ts{r0};
    for (int i = 0; i < 2; ++i) {
        std::string reg;
        const double t = r0 + tof_for(g, o, reg) / 86400;
        if (std::abs(t) < 9e7) ts.push_back(t); // epochs that exist
    }
    for (double t : ts) {
        const double dt = ref::d((Q(t) - Q(r0)) * 86400);
        const rv_t s0 = ref::toD(x0);
        const Prop P(s0, dt, mu);
        const RVB b = P.lagrange();
        const double st = ref::EPS * (std::abs(t) + std::abs(r0)) * 86400 * (dt == 0 ? 0 : 1);
        const double br = 60 * b.r + ref::d(P.c.r) * base + 2 * P.Vf * st, bv = 60 * b.v + ref::d(P.c.v) * base + 2 * mu / (P.Rf * P.Rf) * st;
        if (!(br < 1e-3 * P.Rf && bv < 1e-3 * P.Vf) || (std::abs(1 - o.e) < 1e-4)) {
            rec.ev("skipped:ill-conditioned");
            continue;
        }
        const auto s = k.eph(t);
        const std::string w = t == r0 ? "keplerian:eph-at-reference" : "keplerian:eph";
        rec.check(w, ref::dist(P.xf.r, s[0]), br, in, "position at " + num(t));
        rec.check(w, ref::dist(P.xf.v, s[1]), bv, in, "velocity at " + num(t));
        rec.require("keplerian:planet-eph", (Hash() << p.eph(t)[0] << p.eph(t)[1]).h == (Hash() << s[0] << s[1]).h, in);
        const kep3::epoch te(t);
        const auto a = p.eph(te), bb = k.eph(te.mjd2000());
        rec.require("keplerian:eph-epoch", (Hash() << a[0] << a[1]).h == (Hash() << bb[0] << bb[1]).h, in);
    }
    {
        const auto v = p.eph_v(ts);
        Hash a, b;
        a << v;
        std::vector<double> want;
        for (double t : ts) {
            const auto s = k.eph(t);
            for (auto &c : s) want.insert(want.end(), c.begin(), c.end());
        }
        b << want;
        rec.require("keplerian:eph_v", a.h == b.h, in);
    }
    // period
    {
        const Q al = 2 / ref::norm(x0.r) - ref::dot(x0.v, x0.v) / mu;
        const double P = k.period(ts.back());
        if (std::abs(1 - o.e) > 1e-4) {
            if (al < 0)
                rec.require("keplerian:period:hyperbola", std::isnan(P) && std::isnan(p.period(ts.back())), in);
            else {
                const double a = ref::d(1 / al), want = ref::d(2 * ref::PI / al * sqrtq(1 / al / mu));
                rec.check("keplerian:period", std::abs(P - want), want * (base * 3 * a * (2 / R0 + V0 * V0 / mu) + 60 * ref::EPS * (2 + a * (2 / R0 + V0 * V0 / mu))), in);
                rec.require("keplerian:planet-period", p.period() == P && p.period(ts.back()) == P && p.period(ep) == P, in);
            }
        }
    }
    // elements of every kind, at any epoch, are those of the reference state
    const ref::Par q = ref::ic2par(x0, mu);
    const bool tight = !wild && std::abs(ref::d(sinq(q.f))) > 1e-4 && std::abs(ref::d(sinq(q.w))) > 1e-4 && std::abs(ref::d(sinq(q.W))) > 1e-4 && ref::d(q.e) > 1e-3 && ref::d(sinq(q.i)) > 1e-2;
    const double tb = g.p(0.5) ? r0 : ts.back();
    if (tight || kind == 0 || kind == 1) {
        const double inc = kind < 2 ? el[2] : ref::d(q.i);
        if (inc > 0.05 && inc < 3.05) kinds(rec, "keplerian", k, tb, x0, mu, hyp, false, 1e-9, in);
    } else if (!wild && (kind == 2 || kind == 3)) { // circular or equatorial equinoctial elements
        const auto e = k.elements(tb, static_cast<kep3::elements_type>(kind));
        const ref::RV y = ref_elements2ic(kind, e, mu);
        rec.check("keplerian:elements:singular-orbit", ref::d(ref::norm(ref::sub(x0.r, y.r))), 1e-9 * R0, in);
        rec.check("keplerian:elements:singular-orbit", ref::d(ref::norm(ref::sub(x0.v, y.v))), 1e-9 * V0, in);
    }
    if (kind == 1) {
        const auto e = k.elements(tb, kep3::elements_type::KEP_F);
        bool same = std::abs(e[0] - el[0]) <= 1e-12 * std::abs(el[0]) && std::abs(e[1] - el[1]) <= 1e-12 * (1 + el[1]) && std::abs(e[2] - el[2]) <= 1e-12;
        for (int j = 3; j < 6; ++j) same = same && std::abs(ref::d(ref::angdiff(e[j], el[j]))) <= 1e-12;
        rec.require("keplerian:keeps-its-elements", same, in);
    }
    // the text
    {
        std::ostringstream s;
        s << k;
        const auto t = s.str();
        const auto e = k.elements(0., kep3::elements_type::KEP_F);
        auto has = [&](const std::string &x) { return t.find(x) != std::string::npos; };
        rec.require("keplerian:text", has(fmt::format("Semi major axis: {}\n", e[0])) && has(fmt::format("Eccentricity: {}\n", e[1])) && has(fmt::format("(MJD2000): {}\n", r0))
                                          && (hyp || std::abs(1 - o.e) < 1e-9 || has("Mean anomly")) && p.get_extra_info() == k.get_extra_info(),
                    in, t);
    }
    bool fin = true;
    for (double x : k.elements(0., kep3::elements_type::KEP_F)) fin = fin && std::isfinite(x);
    archives(rec, "keplerian", k, keplerian(), ts, fin && !hyp, in);
    archives(rec, "keplerian-planet", p, g.p(0.5) ? planet() : planet(jpl_lp("mars")), ts, fin && !hyp, in);
    // inconsistent elements
    {
        E6 bad{hyp ? -o.a : -o.a, o.e, o.inc, o.W, o.w, o.f};
        for (auto kt : {kep3::elements_type::KEP_F, kep3::elements_type::KEP_M}) {
            bool thrown = false;
            try {
                (void)keplerian(ep, bad, mu, name, par, kt);
            } catch (const std::logic_error &) {
                thrown = true;
            }
            rec.require("keplerian:refuses-wrong-conic", thrown, in);
        }
        bool thrown = false;
        try {
            (void)keplerian(ep, E6{o.a, o.e, o.inc, o.W, o.w, o.f}, mu, name, par, kep3::elements_type::POSVEL);
        } catch (const std::logic_error &) {
            thrown = true;
        }
        rec.require("keplerian:refuses-POSVEL", thrown, in);
    }
    if (g.p(0.1)) { // arguments left out
        const std::vector<double> ts{r0, r0 + g.u(-100, 100)};
        const std::array<double, 3> none{-1., -1., -1.};
        const rv_t circle{{{1., 0., 0.}, {0., 1., 0.}}};
        const E6 e1{o.a, o.e, o.inc, o.W, o.w, o.f};
        auto same = [&](const keplerian &x, const keplerian &y) { return everything(x, ts) == everything(y, ts); };
        bool ok = same(keplerian(ep, o.rv, mu, name), keplerian(ep, o.rv, mu, name, none)) && same(keplerian(ep, o.rv, mu), keplerian(ep, o.rv, mu, "Unknown", none));
        ok = ok && same(keplerian(ep, e1, mu, name, par), keplerian(ep, e1, mu, name, par, kep3::elements_type::KEP_F)) && same(keplerian(ep, e1, mu, name), keplerian(ep, e1, mu, name, none, kep3::elements_type::KEP_F))
             && same(keplerian(ep, e1), keplerian(ep, e1, 1., "Unknown", none, kep3::elements_type::KEP_F)) && same(keplerian(ep), keplerian(ep, circle, 1., "Unknown", none))
             && same(keplerian(), keplerian(kep3::epoch(0.), circle, 1., "Unknown", none));
        if (mu == 1.) ok = ok && same(keplerian(ep, o.rv), keplerian(ep, o.rv, 1., "Unknown", none));
        rec.require("keplerian:default-arguments", ok, in);
    }
    rec.nontriv(hash_vec(o.rv[0], hash_vec(o.rv[1], static_cast<std::uint64_t>(kind))));
    rec.sample(in);
}

// Keplerian elements and their rates for approximate positions of the major planets, valid 1800-2050 (JPL, Standish): a
// [au], e, I, mean longitude, longitude of perihelion, longitude of node [deg], and rates per century.
struct Lp {
    const char *name;
    double e[6], r[6];
    double radius, mu; // of the body
};
const Lp LP[] = {
    {"mercury", {0.38709927, 0.20563593, 7.00497902, 252.25032350, 77.45779628, 48.33076593}, {0.00000037, 0.00001906, -0.00594749, 149472.67411175, 0.16047689, -0.12534081}, 2.4397e6, 2.2032e13},
    {"venus", {0.72333566, 0.00677672, 3.39467605, 181.97909950, 131.60246718, 76.67984255}, {0.00000390, -0.00004107, -0.00078890, 58517.81538729, 0.00268329, -0.27769418}, 6.0518e6, 3.24859e14},
    {"earth", {1.00000261, 0.01671123, -0.00001531, 100.46457166, 102.93768193, 0.0}, {0.00000562, -0.00004392, -0.01294668, 35999.37244981, 0.32327364, 0.0}, 6.371e6, 3.986e14},
    {"mars", {1.52371034, 0.09339410, 1.84969142, -4.55343205, -23.94362959, 49.55953891}, {0.00001847, 0.00007882, -0.00813131, 19140.30268499, 0.44441088, -0.29257343}, 3.3895e6, 4.2828e13},
    {"jupiter", {5.20288700, 0.04838624, 1.30439695, 34.39644051, 14.72847983, 100.47390909}, {-0.00011607, -0.00013253, -0.00183714, 3034.74612775, 0.21252668, 0.20469106}, 7.1492e7, 1.26687e17},
    {"saturn", {9.53667594, 0.05386179, 2.48599187, 49.95424423, 92.59887831, 113.66242448}, {-0.00125060, -0.00050991, 0.00193609, 1222.49362201, -0.41897216, -0.28867794}, 6.0268e7, 3.7931e16},
    {"uranus", {19.18916464, 0.04725744, 0.77263783, 313.23810451, 170.95427630, 74.01692503}, {-0.00196176, -0.00004397, -0.00242939, 428.48202785, 0.40805281, 0.04240589}, 2.5559e7, 5.794e15},
    {"neptune", {30.06992276, 0.00859048, 1.77004347, -55.12002969, 44.96476227, 131.78422574}, {0.00026291, 0.00005105, 0.00035372, 218.45945325, -0.32241464, -0.00508664}, 2.4764e7, 6.8365e15},
};
constexpr double AU = 149597870700., GM_SUN = 1.32712440041279419e20;
void jpl_case(Recorder &rec, Rng &g, long i)
{
    const Lp &L = LP[i % 8];
    std::string name = L.name;
    for (auto &c : name)
        if (g.p(0.3)) c = static_cast<char>(std::toupper(c));
    std::vector<double> ts;
    for (int n = 0; n < 4; ++n) ts.push_back(g.p(0.1) ? 0. : g.p(0.1) ? -73047.999 + g.u() : g.p(0.1) ? 18262.999 - g.u() : g.u(-73047.9, 18262.9));
    auto in = [&] { return J().t("planet", name).a("epochs", ts).str(); };
    const jpl_lp u(name);
    const planet p(u);
    rec.ev(std::string("jpl_lp:") + L.name);
    rec.require("jpl_lp:name", u.get_name() == std::string(L.name) + " - jpl_lp" && p.get_name() == u.get_name(), in, u.get_name());
    rec.require("jpl_lp:sun", u.get_mu_central_body() == GM_SUN && p.get_mu_central_body() == GM_SUN, in);
    rec.check("jpl_lp:mu", std::abs(u.get_mu_self() / L.mu - 1), 0.01, in);
    rec.check("jpl_lp:radius", std::abs(u.get_radius() / L.radius - 1), 0.02, in);
    rec.require("jpl_lp:safe-radius", u.get_safe_radius() >= u.get_radius() && u.get_safe_radius() < 20 * u.get_radius(), in);
    rec.require("jpl_lp:planet-constants", p.get_mu_self() == u.get_mu_self() && p.get_radius() == u.get_radius() && p.get_safe_radius() == u.get_safe_radius(), in);
    const Q deg = ref::PI / 180;
    for (double t : ts) {
        const Q T = (Q(t) - 0.5Q) / 36525;
        Q c[6];
        for (int j = 0; j < 6; ++j) c[j] = Q(L.e[j]) + Q(L.r[j]) * T;
        const Q f = ref_m2f((c[3] - c[4]) * deg, c[1]);
        const ref::RV x = ref::par2ic(c[0] * AU, c[1], c[2] * deg, c[5] * deg, (c[4] - c[5]) * deg, f, GM_SUN);
        const double R = ref::d(ref::norm(x.r)), V = ref::d(ref::norm(x.v));
        const auto s = u.eph(t);
        rec.check("jpl_lp:eph", ref::dist(x.r, s[0]), 2e-11 * R, in, "position");
        rec.check("jpl_lp:eph", ref::dist(x.v, s[1]), 2e-11 * V, in, "velocity");
        kinds(rec, "jpl_lp", u, t, x, GM_SUN, false, false, 2e-11, in);
        kinds(rec, "jpl_lp-planet", p, t, x, GM_SUN, false, false, 2e-11, in);
        const auto e = u.elements(t, kep3::elements_type::KEP_F);
        const auto m = u.elements(t, kep3::elements_type::KEP_M);
        rec.check("jpl_lp:elements", std::abs(ref::d(Q(e[0]) / (c[0] * AU) - 1)) + std::abs(ref::d(e[1] - c[1])) + std::abs(ref::d(e[2] - c[2] * deg)), 1e-13, in);
        for (int j = 3; j < 6; ++j) rec.check("jpl_lp:elements", std::abs(ref::d(ref::angdiff(e[j], j == 3 ? c[5] * deg : j == 4 ? (c[4] - c[5]) * deg : f))), 2e-11, in);
        rec.check("jpl_lp:mean-anomaly", std::abs(ref::d(ref::angdiff(m[5], (c[3] - c[4]) * deg))), 2e-11, in);
        const double P = ref::d(2 * ref::PI * c[0] * AU * sqrtq(c[0] * AU / GM_SUN));
        rec.check("jpl_lp:period", std::abs(p.period(t) - P), 1e-11 * P, in);
        const auto w = p.eph(t);
        rec.require("jpl_lp:planet-eph", w == s, in);
        const kep3::epoch ep(t);
        rec.require("jpl_lp:eph-epoch", p.eph(ep) == u.eph(ep.mjd2000()) && p.elements(ep) == u.elements(ep.mjd2000()), in);
    }
    {
        std::vector<double> want;
        for (double t : ts) {
            const auto s = u.eph(t);
            for (auto &c : s) want.insert(want.end(), c.begin(), c.end());
        }
        rec.require("jpl_lp:eph_v", p.eph_v(ts) == want, in);
    }
    // out of range
    for (int n = 0; n < 3; ++n) {
        const double t = g.p(0.3) ? std::nextafter(-73048., -1e9) - (g.p(0.5) ? 0 : 1) : g.p(0.5) ? 18263. + g.logu(1e-6, 1e7) : -73048. - g.logu(1e-6, 1e7);
        auto refused = [&](auto f) {
            try {
                f();
            } catch (const std::exception &) {
                return true;
            }
            return false;
        };
        auto it = [&] { return J().t("planet", name).d("epoch", t).str(); };
        rec.require("jpl_lp:refuses-epoch", refused([&] { (void)u.eph(t); }), it);
        rec.require("jpl_lp:refuses-epoch", refused([&] { (void)p.eph(t); }) && refused([&] { (void)p.eph_v(std::vector<double>{0., t}); }) && refused([&] { (void)u.elements(t); }) && refused([&] { (void)p.period(t); }), it);
    }
    // unknown names
    {
        static const std::vector<std::string> bad{"pluto", "sun", "moon", "", "earth ", " earth", "ear", "earthh", "marss", "earth - jpl_lp", "neptune\n", "Plut0", "EARTH-MOON", "vulcan"};
        const std::string b = g.pick(bad);
        bool thrown = false;
        try {
            (void)jpl_lp(b);
        } catch (const std::exception &) {
            thrown = true;
        }
        rec.require("jpl_lp:refuses-name", thrown, [&] { return J().t("name", b).str(); });
    }
    {
        std::ostringstream s;
        s << u;
        const auto e = u.elements(0.);
        rec.require("jpl_lp:text", s.str().find(fmt::format("Eccentricity: {}\n", e[1])) != std::string::npos && s.str().find(fmt::format("Semi major axis (AU): {}\n", e[0] / AU)) != std::string::npos
                                       && p.get_extra_info() == u.get_extra_info(),
                    in, s.str());
        rec.require("jpl_lp:default-is-earth", everything(jpl_lp(), {ts[0]}) == everything(jpl_lp("earth"), {ts[0]}), in);
    }
    archives(rec, "jpl_lp", u, jpl_lp(LP[g.n(8)].name), ts, true, in);
    archives(rec, "jpl_lp-planet", p, g.p(0.5) ? planet() : planet(keplerian()), ts, true, in);
    rec.nontriv(hash_vec(ts, static_cast<std::uint64_t>(i % 8)));
    rec.sample(in);
}
} // namespace
int main(int argc, char **argv)
{
    return drive(argc, argv, 18, [](Recorder &rec, Rng &g, long i) {
        if (i % 3 == 0)
            jpl_case(rec, g, i / 3);
        else
            kepler_case(rec, g);
    });
}

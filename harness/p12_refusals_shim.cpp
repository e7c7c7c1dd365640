// P12, second half: epochs, high-fidelity legs, planets and thrust arcs: what is malformed throws and leaves what it was asked of as it was; what is well-posed is answered.
#include "hf.hpp"
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/epoch.hpp>
#include <kep3/leg/sf_checks.hpp>
#include <kep3/planet.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>
#include <kep3/udpla/vsop2013.hpp>
using namespace vf;
using In = std::function<std::string()>;
using E6 = std::array<double, 6>;
using kep3::elements_type;
using kep3::epoch;
using kep3::planet;
namespace
{
constexpr double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
int outcome(const std::function<void()> &f, std::string &what) // 0 returned, 1 std exception, 2 something else
{
    try {
        f();
    } catch (const std::exception &e) {
        what = e.what();
        return 1;
    } catch (...) {
        return 2;
    }
    return 0;
}
struct Judge {
    Recorder &rec;
    std::string what{};
    void operator()(const std::string &kind, bool refuse, const std::function<void()> &f, const In &in)
    {
        what.clear();
        const int o = outcome(f, what);
        if (refuse)
            rec.require(kind, o == 1, in, o == 0 ? "answered" : "not a standard exception");
        else
            rec.require(kind, o == 0, in, what);
    }
};
double negative(Rng &g)
{
    switch (g.n(5)) {
        case 0: return -Inf;
        case 1: return NaN;
        case 2: return -g.logu(1e-300, 1e20);
        case 3: return -std::numeric_limits<double>::denorm_min();
        default: return -g.u(0, 10) - 1e-9;
    }
}
bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int mdays(int y, int m)
{
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
void epochs(Judge &judge, Recorder &rec, Rng &g)
{
    static const epoch::julian_type types[] = {epoch::julian_type::MJD2000, epoch::julian_type::MJD, epoch::julian_type::JD};
    static const double shift[] = {0., 51544., 2451544.5};
    {
        const auto k = g.n(3);
        const bool bad = g.p(0.5);
        const double far[] = {NaN, Inf, -Inf, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), 1.1e8, -1.1e8, 9.3e18, -9.3e18, 1.1e8 + g.logu(1, 1e300), -1.1e8 - g.logu(1, 1e300)};
        const double near[] = {0., -0., 1e-300, std::numeric_limits<double>::denorm_min(), 9e7, -9e7, g.u(-1e5, 1e5), g.sgn() * g.logu(1e-9, 9e7)};
        const double x = (bad ? far[g.n(11)] : near[g.n(8)]) + shift[k];
        auto in = [&] { return J().d("days", x).i("type", static_cast<long>(k)).str(); };
        judge(bad ? "epoch:refuses:number" : "epoch:accepts:number", bad, [&] { (void)epoch(x, types[k]).mjd2000(); }, in);
        judge("epoch:refuses:type", true, [&] { (void)epoch(0., static_cast<epoch::julian_type>(3 + g.n(200))); }, in);
    }
    const int y = g.p(0.5) ? 1900 + static_cast<int>(g.n(200)) : 1 + static_cast<int>(g.n(9999));
    const int m = 1 + static_cast<int>(g.n(12)), d = g.p(0.3) ? mdays(y, m) : 1 + static_cast<int>(g.n(static_cast<unsigned>(mdays(y, m))));
    {
        unsigned mm = static_cast<unsigned>(m), d2 = static_cast<unsigned>(d);
        int yy = y;
        const auto k = g.n(5);
        if (k == 0) mm = g.p(0.3) ? 0 : g.p(0.5) ? 13 : 13 + static_cast<unsigned>(g.n(1000)) * (g.p(0.5) ? 256 : 1); // (256: fields are kept in a byte)
        if (k == 1) d2 = g.p(0.3) ? 0 : g.p(0.5) ? 32 : 32 + static_cast<unsigned>(g.n(1000)) * (g.p(0.5) ? 256 : 1);
        if (k == 2) yy = static_cast<int>(g.sgn()) * (32768 + static_cast<int>(g.n(g.p(0.5) ? 200000 : 2000000000)));
        auto in = [&] { return J().i("year", yy).i("month", mm).i("day", d2).str(); };
        judge(k < 3 ? "epoch:refuses:date" : "epoch:accepts:date", k < 3, [&] { (void)epoch(yy, mm, d2, 1, 2, 3); }, in);
    }
    {
        static const int lens[] = {7, 10, 13, 16, 19, 21, 22, 23, 24, 25, 26};
        char b[64];
        std::snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%06d", y, m, d, static_cast<int>(g.n(24)), static_cast<int>(g.n(60)), static_cast<int>(g.n(60)), static_cast<int>(g.n(1000000)));
        std::string s = std::string(b).substr(0, static_cast<std::size_t>(lens[g.n(11)]));
        std::string kind = "valid";
        switch (g.n(6)) {
            case 0: {
                kind = "length";
                std::size_t n;
                do n = g.n(27);
                while (std::find(std::begin(lens), std::end(lens), static_cast<int>(n)) != std::end(lens));
                s = g.p(0.8) ? std::string(b).substr(0, n) : std::string(b) + std::string(1 + g.n(4), '0');
                break;
            }
            case 1: {
                static const int pos[] = {0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25};
                std::size_t p;
                do p = static_cast<std::size_t>(pos[g.n(20)]);
                while (p >= s.size());
                kind = "field";
                s[p] = "-+ xTZ:.eO/\t"[g.n(12)];
                break;
            }
            case 2:
                kind = "month";
                s.replace(5, 2, g.p(0.5) ? "00" : std::to_string(13 + g.n(87)));
                break;
            case 3:
                if (s.size() < 10) break;
                kind = "day";
                s.replace(8, 2, g.p(0.5) ? "00" : std::to_string(32 + g.n(68)));
                break;
            default:;
        }
        auto in = [&] { return J().t("string", s).t("kind", kind).str(); };
        const bool bad = kind != "valid";
        judge(bad ? "epoch:refuses:string:" + kind : std::string("epoch:accepts:string"), bad, [&] { (void)epoch(s); }, in);
        judge("epoch:refuses:format", true, [&] { (void)epoch(std::string(b), static_cast<epoch::string_format>(1 + g.n(200))); }, in);
    }
    { // durations that lead out of the range, and stay within it
        const double d0 = g.u(-9e7, 9e7);
        const bool bad = g.p(0.5);
        const double step = bad ? (g.p(0.3) ? g.sgn() * Inf : g.p(0.3) ? NaN : d0 > 0 ? 3e8 : -3e8) : g.u(-1e6, 1e6);
        auto in = [&] { return J().d("from", d0).d("days", step).str(); };
        using days = std::chrono::duration<double, std::ratio<86400>>;
        epoch e(d0);
        const double t0 = e.mjd2000();
        judge(bad ? "epoch:refuses:duration" : "epoch:accepts:duration", bad, [&] { e += days(step); }, in);
        rec.require(bad ? "epoch:after-refusal" : "epoch:after-step", bad ? e.mjd2000() == t0 : std::abs(e.mjd2000() - (d0 + step)) < 1e-7, in);
    }
}
void legs(Judge &judge, Recorder &rec, Rng &g)
{
    const HfCase c = hf_case(g, 6, true);
    HfCase b = c;
    std::string kind = "valid";
    switch (g.n(9)) {
        case 0: b.tof = negative(g); kind = "tof"; break;
        case 1: b.T = negative(g); kind = "max_thrust"; break;
        case 2: b.isp = negative(g); kind = "isp"; break;
        case 3: b.mu = negative(g); kind = "mu"; break;
        case 4: b.cut = g.p(0.5) ? negative(g) : g.p(0.3) ? std::nextafter(1., 2.) : g.p(0.2) ? Inf : 1 + g.logu(1e-12, 1e12); kind = "cut"; break;
        case 5: b.tol = g.p(0.4) ? negative(g) : g.p(0.3) ? 0. : g.p(0.3) ? std::nextafter(1., 2.) : g.p(0.3) ? Inf : 1 + g.logu(1e-12, 1e12); kind = "tol"; break;
        case 6:
            kind = "throttles";
            if (g.p(0.3)) b.u.clear();
            else b.u.resize(b.u.size() - 1 - g.n(2));
            break;
        default:
            if (g.p(0.1)) b.tof = 0;
            if (g.p(0.1)) b.T = 0;
            if (g.p(0.2)) b.cut = g.p(0.5) ? 0 : 1;
            if (g.p(0.2)) b.tol = g.p(0.5) ? 1e-300 : 1.;
    }
    const bool bad = kind != "valid";
    auto in = [&] { return b.str(); };
    auto name = [&](const char *how) { return std::string("hf:") + how + (bad ? ":refuses:" + kind : std::string(":accepts")); };
    judge(name("constructor"), bad, [&] { (void)b.fresh(); }, in);
    judge(name("constructor(rv,m)"), bad, [&] { (void)hf_t(split(b.xs), b.xs[6], b.u, split(b.xf), b.xf[6], b.tof, b.T, b.isp, b.mu, b.cut, b.tol); }, in);
    auto used = [&](const char *how, const std::function<void(hf_t &)> &f) {
        hf_t l = c.fresh();
        const hf_t before(l);
        judge(name(how), bad, [&] { f(l); }, in);
        if (bad)
            rec.require("hf:after-refusal",
                        l.get_rvms() == before.get_rvms() && l.get_rvmf() == before.get_rvmf() && l.get_throttles() == before.get_throttles() && l.get_tof() == before.get_tof() && l.get_max_thrust() == before.get_max_thrust()
                            && l.get_isp() == before.get_isp() && l.get_mu() == before.get_mu() && l.get_cut() == before.get_cut() && l.get_tol() == before.get_tol() && l.get_nseg() == before.get_nseg()
                            && l.get_nseg_fwd() == before.get_nseg_fwd() && l.get_nseg_bck() == before.get_nseg_bck(),
                        in, how);
    };
    HfCase x = b; // other acceptable settings at the same time
    if (bad && g.p(0.5)) {
        for (auto &v : x.xs) v *= 1.01;
        if (kind != "tof") x.tof *= 1.01;
        if (kind != "mu") x.mu *= 1.01;
        if (kind != "throttles") x.u.insert(x.u.end(), {0.1, 0.2, 0.3});
    }
    used("set", [&](hf_t &l) { l.set(x.xs, x.u, x.xf, x.tof, x.T, x.isp, x.mu, x.cut, x.tol); });
    used("set(rv,m)", [&](hf_t &l) { l.set(split(x.xs), x.xs[6], x.u, split(x.xf), x.xf[6], x.tof, x.T, x.isp, x.mu, x.cut, x.tol); });
    if (kind == "tof" || kind == "throttles" || !bad) used("set(short)", [&](hf_t &l) { l.set(x.xs, x.u, x.xf, x.tof); });
    used("setter", [&](hf_t &l) {
        if (kind == "tof" || !bad) l.set_tof(b.tof);
        if (kind == "max_thrust" || !bad) l.set_max_thrust(b.T);
        if (kind == "isp" || !bad) l.set_isp(b.isp);
        if (kind == "mu" || !bad) l.set_mu(b.mu);
        if (kind == "cut" || !bad) l.set_cut(b.cut);
        if (kind == "tol" || !bad) l.set_tol(b.tol);
        if (kind == "throttles" || !bad) {
            if (g.p(0.5)) l.set_throttles(b.u);
            else l.set_throttles(b.u.cbegin(), b.u.cend());
        }
    });
    // the checks themselves
    judge(bad ? "checks:refuse:" + kind : std::string("checks:accept"), bad,
          [&] {
              kep3::leg::_check_tof(b.tof);
              kep3::leg::_check_max_thrust(b.T);
              kep3::leg::_check_isp(b.isp);
              kep3::leg::_check_mu(b.mu);
              kep3::leg::_check_cut(b.cut);
              kep3::leg::_check_tol(b.tol);
              kep3::leg::_check_throttles(b.u);
          },
          in);
    {
        const unsigned n = 1 + static_cast<unsigned>(g.n(9)), f = static_cast<unsigned>(g.n(n + 1)), bk = n - f;
        const bool wrong = g.p(0.5);
        const unsigned off = 1 + static_cast<unsigned>(g.n(3));
        judge(wrong ? "checks:refuse:nseg" : "checks:accept:nseg", wrong, [&] { kep3::leg::_check_nseg(n, f, wrong ? bk + off : bk); }, [&] { return J().i("nseg", n).i("fwd", f).i("bck", bk).str(); });
        const unsigned k = c.nseg(), kf = static_cast<unsigned>(k * c.cut);
        using V = std::vector<double>;
        const V u(b.u);
        const unsigned nb = kind == "throttles" ? 1u : static_cast<unsigned>(u.size() / 3);
        (void)k, (void)kf;
        judge(bad ? "checks:refuse-together:" + kind : std::string("checks:accept-together"), bad, [&] { kep3::leg::_sanity_checks(u, b.tof, b.T, b.isp, b.mu, b.cut, b.tol, nb, nb, 0u); }, in);
        if (kind != "tol")
            judge(bad ? "checks:refuse-together:" + kind : std::string("checks:accept-together"), bad, [&] { kep3::leg::_sanity_checks(u, b.tof, b.T, b.isp, b.mu, b.cut, nb, nb, 0u); }, in);
    }
    // chromosomes of another size, histories without a grid
    {
        hf_t l = c.fresh();
        std::vector<double> ch(7 + 3 * c.nseg() + 7 + 1, 1.);
        std::copy(c.xs.begin(), c.xs.end(), ch.begin());
        std::copy(c.u.begin(), c.u.end(), ch.begin() + 7);
        std::copy(c.xf.begin(), c.xf.end(), ch.end() - 8);
        ch.back() = negative(g);
        if (g.p(0.5)) {
            ch.back() = c.tof;
            if (g.p(0.5)) ch.push_back(1.);
            else ch.resize(g.n(ch.size()));
        }
        judge("hf:refuses:chromosome", true, [&] { (void)l.set_and_compute_constraints(ch); }, in);
        judge("hf:refuses:grid", true, [&] { (void)l.get_state_history(static_cast<unsigned>(g.n(2))); }, in);
    }
}
bool finite(const rv_t &x)
{
    for (auto &v : x)
        for (double y : v)
            if (!std::isfinite(y)) return false;
    return true;
}
struct NoMu {
    rv_t rv{{{1, 0.1, 0}, {0, 1, 0.2}}};
    rv_t eph(double) const { return rv; }
};
struct WithMu : NoMu {
    double mu = 1;
    double get_mu_central_body() const { return mu; }
};
void planets(Judge &judge, Recorder &rec, Rng &g)
{
    const Orbit o = orbit(g, false, false);
    const bool hyp = o.e > 1;
    E6 el{o.a, o.e, o.inc, o.W, o.w, o.f};
    using kep3::udpla::keplerian;
    std::string kind = "valid";
    auto type = elements_type::KEP_F;
    if (std::abs(1 - o.e) > 1e-6) {
        const double fl = hyp ? std::acos(-1 / o.e) : M_PI;
        switch (g.n(6)) {
            case 0: el[0] = -el[0]; kind = "sign-of-a"; break;
            case 1: el[1] = hyp ? g.u(0, 0.999999) : 1. + g.logu(1e-6, 1e3); kind = "conic-of-e"; break;
            case 2:
                if (!hyp) break;
                el[5] = fl + (2 * M_PI - 2 * fl) * (g.p(0.5) ? g.u(0.001, 0.999) : g.p(0.5) ? 1e-6 : 1 - 1e-6);
                kind = "beyond-asymptote";
                break;
            case 3:
                type = elements_type::KEP_M;
                if (hyp) kind = "mean-anomaly-of-hyperbola";
                break;
            case 4: type = elements_type::POSVEL; kind = "POSVEL"; break;
            default:;
        }
    } else
        return;
    const bool bad = kind != "valid";
    auto in = [&] { return J().t("kind", kind).a("elements", el).d("mu", o.mu).i("type", static_cast<long>(type)).str(); };
    planet p;
    judge(bad ? "keplerian:refuses:" + kind : std::string("keplerian:accepts"), bad, [&] { p = planet{keplerian(epoch(g.u(-1e4, 1e4)), el, o.mu, "p", {1., 2., 3.}, type)}; }, in);
    if (!bad) {
        rec.require("keplerian:finite", finite(p.eph(0.)), in);
        judge(hyp ? "planet:refuses:mean-anomaly-of-hyperbola" : "planet:accepts:elements", hyp, [&] { (void)p.elements(0., elements_type::KEP_M); }, in);
        judge("planet:accepts:elements", false, [&] { (void)p.elements(0., elements_type::KEP_F), (void)p.elements(0., elements_type::MEQ), (void)p.elements(0., elements_type::MEQ_R); }, in);
        judge("planet:refuses:POSVEL", true, [&] { (void)p.elements(0., elements_type::POSVEL); }, in);
        judge("planet:accepts:period", false, [&] { (void)p.period(0.); }, in);
    }
    // what a planet does not know
    const planet q{NoMu{}}, r{WithMu{}};
    judge("planet:refuses:period-without-mu", true, [&] { (void)q.period(g.u(-1, 1)); }, in);
    judge("planet:refuses:elements-without-mu", true, [&] { (void)q.elements(g.u(-1, 1), g.p(0.5) ? elements_type::KEP_F : elements_type::MEQ); }, in);
    judge("planet:accepts:derived", false, [&] { (void)r.period(g.u(-1, 1)), (void)r.elements(0., elements_type::KEP_M), (void)r.elements(0., elements_type::MEQ_R); }, in);
    judge("planet:refuses:POSVEL", true, [&] { (void)r.elements(0., elements_type::POSVEL); }, in);
    // names, epochs, thresholds
    static const char *const names[] = {"mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune"};
    std::string n = names[g.n(8)];
    {
        std::string s = n;
        const bool wrong = g.p(0.5);
        if (wrong) {
            const std::string alt[] = {"", "pluto", "moon", n + " ", " " + n, n.substr(1), n + n, n.substr(0, n.size() - 1), n + std::string(1, '\0'), std::string(1000, 'a')};
            s = alt[g.n(10)];
        } else
            for (auto &ch : s)
                if (g.p(0.3)) ch = static_cast<char>(std::toupper(ch));
        auto i2 = [&] { return J().t("name", s).str(); };
        judge(wrong ? "jpl_lp:refuses:name" : "jpl_lp:accepts:name", wrong, [&] { (void)kep3::udpla::jpl_lp(s); }, i2);
        const bool far = g.p(0.5);
        const double t = far ? (g.p(0.3) ? std::nextafter(-73048., -1e9) : g.p(0.3) ? NaN : g.p(0.5) ? 18263. + g.logu(1e-6, 1e7) : -73048. - g.logu(1e-6, 1e7)) : g.p(0.2) ? -73047.999 : g.p(0.2) ? 18262.999 : g.u(-73048., 18263.);
        if (!std::isnan(t)) {
            const planet j{kep3::udpla::jpl_lp(n)};
            auto i3 = [&] { return J().t("planet", n).d("epoch", t).str(); };
            judge(far ? "jpl_lp:refuses:epoch" : "jpl_lp:accepts:epoch", far, [&] { (void)j.eph(t); }, i3);
            judge(far ? "jpl_lp:refuses:epoch" : "jpl_lp:accepts:epoch", far, [&] { (void)j.eph_v(std::vector<double>{1., t, 2.}); }, i3);
            judge(far ? "jpl_lp:refuses:epoch" : "jpl_lp:accepts:epoch", far, [&] { (void)j.elements(t); }, i3);
            judge("jpl_lp:refuses:POSVEL", true, [&] { (void)j.elements(t, elements_type::POSVEL); }, i3);
        }
    }
    {
        static const char *const vn[] = {"mercury", "venus", "earth_moon", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"};
        std::string s = vn[g.n(9)];
        double th = 1e-3;
        const auto k = g.n(4);
        if (k == 0) {
            const std::string alt[] = {"", "earth", "moon", s + " ", s.substr(1), s + std::string(1, '\0')};
            s = alt[g.n(6)];
        } else if (k == 1)
            th = g.p(0.2) ? Inf : negative(g);
        auto i2 = [&] { return J().t("name", s).d("threshold", th).str(); };
        judge(k < 2 ? (k ? "vsop2013:refuses:threshold" : "vsop2013:refuses:name") : "vsop2013:accepts", k < 2, [&] { (void)kep3::udpla::vsop2013(s, th); }, i2);
    }
}
void arcs(Judge &judge, Rng &g)
{
    const HfCase c = hf_case(g, 1, true);
    S7 x = c.xs;
    const bool bad = g.p(0.5);
    if (bad) x[6] = g.p(0.5) ? 0. : -0.;
    kep3::stark_problem s(c.mu, c.isp * 9.80665, c.tol);
    auto in = [&] { return c.str(); };
    const double dt = c.tof / 100;
    // a hundredth of the time: the mass lasts (checked) and the arc ends
    if (!(c.T * dt / (c.isp * 9.80665) < 0.1 * c.xs[6])) return;
    judge(bad ? "stark:refuses:no-mass" : "stark:accepts", bad, [&] { (void)s.propagate(x, {c.T * 0.1, 0., c.T * 0.1}, dt); }, in);
    if (bad || c.T > 0) // (without thrust its derivatives do not exist)
        judge(bad ? "stark:refuses:no-mass" : "stark:accepts", bad, [&] { (void)s.propagate_var(x, {c.T * 0.1, 1e-9 * c.T, c.T * 0.1}, dt); }, in);
}
} // namespace
int main(int argc, char **argv)
{
    heyoka::detail::step_limit = 20000;
    return drive(argc, argv, 1212, [](Recorder &rec, Rng &g, long) {
        Judge judge{rec};
        const auto salt = g.next();
        epochs(judge, rec, g);
        legs(judge, rec, g);
        planets(judge, rec, g);
        arcs(judge, g);
        rec.nontriv(hash_bytes(&salt, sizeof salt));
        rec.sample([&] { return J().i("salt", static_cast<long>(salt)).str(); });
    });
}

// P12: ill-posed requests throw, well-posed ones are answered with finite numbers.
#include "ref_leg.hpp"
#include "ref_lambert.hpp"
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/lambert_problem.hpp>
#include <memory>
using namespace vf;
using v3 = std::array<double, 3>;

namespace
{
template <class F>
int outcome(F f, std::string &what) // 0 returned, 1 std exception, 2 something else
{
    try {
        f();
    } catch (const std::exception &e) {
        what = e.what();
        return 1;
    } catch (...) {
        return 2;
    }
    return 0;
}
double nonpositive(Rng &g)
{
    switch (g.n(6)) {
        case 0:
            return 0.;
        case 1:
            return -0.;
        case 2:
            return -g.logu(1e-300, 1e20);
        case 3:
            return -std::numeric_limits<double>::infinity();
        case 4:
            return std::numeric_limits<double>::quiet_NaN();
        default:
            return -g.u(0, 10) - 1e-9;
    }
}
double small_int(Rng &g) { return static_cast<double>(static_cast<long>(g.n(2001)) - 1000); }
double pow2(Rng &g) { return std::ldexp(1., static_cast<int>(g.n(81)) - 40); }
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 12, [](Recorder &rec, Rng &g, long) {
        std::string what;
        // ---- Lambert
        {
            v3 r0, r1;
            double mu = 1, L = 1;
            units(g, mu, L);
            for (auto &x : r0) x = L * g.u(-2, 2);
            for (auto &x : r1) x = L * g.u(-2, 2);
            double tof = g.logu(1e-3, 1e3) * std::sqrt(L * L * L / mu);
            const bool cw = g.p(0.5);
            const unsigned revs = g.p(0.5) ? 0u : static_cast<unsigned>(g.n(20));
            std::string kind;
            bool refuse = true;
            switch (g.n(8)) {
                case 0:
                    kind = "tof";
                    tof = nonpositive(g);
                    break;
                case 1:
                    kind = "mu";
                    mu = nonpositive(g);
                    break;
                case 2: { // exactly collinear: integer direction, exactly representable multiples
                    kind = "collinear";
                    v3 d{small_int(g), small_int(g), small_int(g)};
                    const double a = (1 + static_cast<double>(g.n(1000))) * g.sgn(), b = (1 + static_cast<double>(g.n(1000))) * g.sgn(), s = pow2(g);
                    for (int i = 0; i < 3; ++i) {
                        r0[i] = d[i] * a * s;
                        r1[i] = d[i] * b * s;
                    }
                    break;
                }
                case 3: {
                    kind = "collinear-same-or-opposite";
                    const double k = g.p(0.5) ? 1. : -1.;
                    const double s = g.p(0.5) ? 1. : std::ldexp(1., static_cast<int>(g.n(9)) - 4);
                    for (int i = 0; i < 3; ++i) r1[i] = k * s * r0[i];
                    break;
                }
                case 4: { // a plane that contains the z axis
                    kind = "z-in-plane";
                    const double p = small_int(g), q = small_int(g), a = (1 + static_cast<double>(g.n(1000))) * g.sgn(), b = (1 + static_cast<double>(g.n(1000))) * g.sgn(), s = pow2(g);
                    r0 = {p * a * s, q * a * s, s * g.u(-1e5, 1e5)};
                    r1 = {p * b * s, q * b * s, s * g.u(-1e5, 1e5)};
                    if (g.p(0.3)) { // a coordinate plane
                        const int i = static_cast<int>(g.n(2));
                        r0[i] = r1[i] = 0.;
                    }
                    break;
                }
                case 5: {
                    kind = "zero-position";
                    (g.p(0.5) ? r0 : r1) = {0., 0., 0.};
                    break;
                }
                default: {
                    refuse = false;
                    kind = "well-posed";
                    const double r = g.u();
                    if (r < 0.3) { // close to collinear
                        const auto w = unit(g);
                        const double k = g.sgn() * g.logu(0.2, 5.), e = g.logu(1e-5, 1e-1);
                        double n = 0;
                        for (double x : r0) n += x * x;
                        n = std::sqrt(n);
                        for (int i = 0; i < 3; ++i) r1[i] = k * (r0[i] + e * n * w[i]);
                    } else if (r < 0.5) { // almost a plane containing the z axis
                        const double k = g.sgn() * g.logu(0.2, 5.), e = g.sgn() * g.logu(1e-9, 1e-2);
                        r1[0] = k * (r0[0] - e * r0[1]);
                        r1[1] = k * (r0[1] + e * r0[0]);
                    } else if (r < 0.6) {
                        tof *= g.p(0.5) ? 1e-6 : 1e3;
                    }
                    // the exact geometry decides that the problem is well posed
                    const ref::Q c0 = ref::Q(r0[1]) * r1[2] - ref::Q(r0[2]) * r1[1], c1 = ref::Q(r0[2]) * r1[0] - ref::Q(r0[0]) * r1[2],
                                 c2 = ref::Q(r0[0]) * r1[1] - ref::Q(r0[1]) * r1[0];
                    const double n0 = std::hypot(r0[0], r0[1], r0[2]), n1 = std::hypot(r1[0], r1[1], r1[2]);
                    const double sn = ref::d(sqrtq(c0 * c0 + c1 * c1 + c2 * c2)) / n0 / n1, z = ref::d(fabsq(c2)) / n0 / n1;
                    if (!(sn > 1e-7 && z > 1e-11)) kind = "";
                }
            }
            auto in = [&] { return J().t("call", "lambert_problem").t("kind", kind).a("r0", r0).a("r1", r1).d("tof", tof).d("mu", mu).i("cw", cw).i("revs", revs).str(); };
            if (!kind.empty()) {
                std::unique_ptr<kep3::lambert_problem> lp;
                const int o = outcome([&] { lp = std::make_unique<kep3::lambert_problem>(r0, r1, tof, mu, cw, revs); }, what);
                rec.nontriv(hash_vec(r0, hash_vec(r1, hash_vec(std::array<double, 2>{tof, mu}))));
                rec.sample(in);
                if (refuse)
                    rec.require("lambert:refuses:" + kind, o == 1, in, o == 0 ? "answered" : "non-standard exception");
                else if (rec.require("lambert:answers", o == 0, in, what)) {
                    bool fin = lp->get_v0().size() == 2u * lp->get_Nmax() + 1 && lp->get_v1().size() == lp->get_v0().size();
                    for (const auto &s : {lp->get_v0(), lp->get_v1()})
                        for (const auto &v : s)
                            for (double x : v) fin = fin && std::isfinite(x);
                    rec.require("lambert:finite", fin, in);
                }
            }
        }
        // ---- Keplerian elements to a state
        {
            const Orbit o = orbit(g, true, true);
            std::array<double, 6> el{o.a, o.e, o.inc, o.W, o.w, o.f};
            std::string kind;
            bool refuse = true;
            if (std::abs(1 - o.e) > 1e-6) {
                const double fl = o.e > 1 ? std::acos(-1 / o.e) : M_PI;
                switch (g.n(4)) {
                    case 0:
                        kind = "sign-of-a";
                        el[0] = -el[0];
                        break;
                    case 1:
                        kind = "conic-of-e";
                        if (o.e > 1)
                            el[1] = g.p(0.1) ? 0. : g.u(0, 0.999999);
                        else
                            el[1] = 1. + g.logu(1e-6, 1e3);
                        break;
                    case 2:
                        if (o.e < 1) break;
                        kind = "beyond-asymptote";
                        el[5] = fl + (2 * M_PI - 2 * fl) * (g.p(0.5) ? g.u(0.001, 0.999) : g.p(0.5) ? 1e-6 : 1 - 1e-6);
                        el[5] += 2 * M_PI * static_cast<double>(static_cast<long>(g.n(5)) - 2);
                        break;
                    default:
                        refuse = false;
                        kind = "valid";
                        if (o.e > 1) {
                            el[5] = g.p(0.5) ? g.u(-1, 1) * fl * 0.9999 : g.sgn() * fl * (1 - g.logu(1e-7, 1e-2));
                            if (g.p(0.5)) el[5] += 2 * M_PI;
                        }
                }
            }
            if (!kind.empty()) {
                auto in = [&] { return J().t("call", "par2ic").t("kind", kind).a("elements", el).d("mu", o.mu).str(); };
                rv_t s{};
                const int oc = outcome([&] { s = kep3::par2ic(el, o.mu); }, what);
                if (refuse)
                    rec.require("par2ic:refuses:" + kind, oc == 1, in, oc == 0 ? "answered" : "non-standard exception");
                else if (rec.require("par2ic:answers", oc == 0, in, what)) {
                    bool fin = true;
                    for (const auto &v : s)
                        for (double x : v) fin = fin && std::isfinite(x);
                    rec.require("par2ic:finite", fin, in);
                }
            }
        }
        // ---- legs
        {
            LegCase c = leg_case(g, 6, true);
            std::string kind;
            bool refuse = true;
            auto neg = [&] {
                double x;
                do x = nonpositive(g);
                while (x == 0);
                return x;
            };
            switch (g.n(8)) {
                case 0:
                    kind = "tof";
                    c.tof = neg();
                    break;
                case 1:
                    kind = "max_thrust";
                    c.T = neg();
                    break;
                case 2:
                    kind = "isp";
                    c.isp = neg();
                    break;
                case 3:
                    kind = "mu";
                    c.mu = neg();
                    break;
                case 4:
                    kind = "cut";
                    c.cut = g.p(0.5) ? neg() : g.p(0.3) ? std::nextafter(1., 2.) : g.p(0.2) ? std::numeric_limits<double>::infinity() : 1 + g.logu(1e-12, 1e12);
                    break;
                case 5:
                    kind = "throttles";
                    if (g.p(0.3))
                        c.u.clear();
                    else
                        c.u.resize(c.u.size() - 1 - g.n(2));
                    break;
                default:
                    refuse = false;
                    kind = "valid";
                    if (g.p(0.1)) c.tof = 0.;
                    if (g.p(0.1)) c.T = 0.;
                    if (g.p(0.2)) c.cut = g.p(0.5) ? 0. : 1.;
            }
            auto in = [&] { return c.str(); };
            const int oc = outcome([&] { (void)c.make(); }, what);
            if (refuse)
                rec.require("leg:refuses:" + kind, oc == 1, in, oc == 0 ? "accepted" : "non-standard exception");
            else
                rec.require("leg:accepts", oc == 0, in, what);
            // the same through set() and the single setters of an existing leg
            kep3::leg::sims_flanagan l;
            const int os = outcome([&] { l.set(c.rvs, c.ms, c.u, c.rvf, c.mf, c.tof, c.T, c.isp, c.mu, c.cut); }, what);
            rec.require(refuse ? "leg-set:refuses:" + kind : std::string("leg-set:accepts"), os == (refuse ? 1 : 0), in, what);
            kep3::leg::sims_flanagan m;
            const int o1 = outcome(
                [&] {
                    m.set_rvs(c.rvs);
                    m.set_ms(c.ms);
                    m.set_throttles(c.u);
                    m.set_rvf(c.rvf);
                    m.set_mf(c.mf);
                    m.set_tof(c.tof);
                    m.set_max_thrust(c.T);
                    m.set_isp(c.isp);
                    m.set_mu(c.mu);
                    m.set_cut(c.cut);
                },
                what);
            rec.require(refuse ? "leg-setters:refuse:" + kind : std::string("leg-setters:accept"), o1 == (refuse ? 1 : 0), in, what);
        }
    });
}

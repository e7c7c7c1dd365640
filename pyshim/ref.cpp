// The C++ library as the monitors of the Python interface see it: called directly, with no binding in between.
// Linked into the extension module itself, so that both sides run the very same object code.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

#include <fmt/chrono.h>

#include <kep3/core_astro/constants.hpp>
#include <kep3/core_astro/convert_anomalies.hpp>
#include <kep3/core_astro/eq2par2eq.hpp>
#include <kep3/core_astro/flyby.hpp>
#include <kep3/core_astro/ic2eq2ic.hpp>
#include <kep3/core_astro/ic2par2ic.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/epoch.hpp>
#include <kep3/lambert_problem.hpp>
#include <kep3/leg/sims_flanagan.hpp>
#include <kep3/leg/sims_flanagan_hf.hpp>
#include <kep3/planet.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <kep3/udpla/jpl_lp.hpp>
#include <kep3/udpla/keplerian.hpp>

namespace
{
using a3 = std::array<double, 3>;
using a6 = std::array<double, 6>;
using a7 = std::array<double, 7>;
using rv = std::array<a3, 2>;

struct in_t {
    const double *p;
    long n, k = 0;
    double d()
    {
        if (k >= n) throw std::logic_error("vf_ref: too few inputs");
        return p[k++];
    }
    a3 v()
    {
        a3 r;
        for (auto &x : r) x = d();
        return r;
    }
    rv s()
    {
        const auto a = v();
        const auto b = v();
        return {a, b};
    }
    template <std::size_t N>
    std::array<double, N> a()
    {
        std::array<double, N> r;
        for (auto &x : r) x = d();
        return r;
    }
    std::vector<double> vec()
    {
        const auto m = static_cast<std::size_t>(d());
        std::vector<double> r(m);
        for (auto &x : r) x = d();
        return r;
    }
};
struct out_t {
    std::vector<double> o;
    std::string t;
    void d(double x)
    {
        o.push_back(x);
    }
    template <typename C>
    void r(const C &c)
    {
        for (auto x : c) o.push_back(static_cast<double>(x));
    }
    void s(const rv &x)
    {
        r(x[0]);
        r(x[1]);
    }
    template <typename T>
    void text(const T &x)
    {
        std::ostringstream q;
        q << x;
        t = q.str();
    }
};

kep3::epoch mkepoch(in_t &in, const std::string &text)
{
    const auto kind = static_cast<int>(in.d());
    switch (kind) {
        case 0:
            return kep3::epoch(in.d(), kep3::epoch::julian_type::MJD2000);
        case 1:
            return kep3::epoch(in.d(), kep3::epoch::julian_type::MJD);
        case 2:
            return kep3::epoch(in.d(), kep3::epoch::julian_type::JD);
        case 3:
            return kep3::epoch(text);
        default: {
            const auto f = in.a<7>();
            return kep3::epoch(static_cast<int>(f[0]), static_cast<unsigned>(f[1]), static_cast<unsigned>(f[2]), static_cast<int>(f[3]),
                               static_cast<int>(f[4]), static_cast<int>(f[5]), static_cast<int>(f[6]) / 1000, static_cast<int>(f[6]) % 1000);
        }
    }
}

kep3::planet mkplanet(in_t &in, const std::string &text)
{
    const auto kind = static_cast<int>(in.d());
    if (kind == 0) return kep3::planet{};
    if (kind == 1) return kep3::planet{kep3::udpla::jpl_lp(text)};
    const auto when = kep3::epoch(in.d());
    const auto e = in.a<6>();
    const auto mu = in.d();
    const auto params = in.v();
    if (kind == 2) return kep3::planet{kep3::udpla::keplerian(when, {{{e[0], e[1], e[2]}, {e[3], e[4], e[5]}}}, mu, text, params)};
    return kep3::planet{kep3::udpla::keplerian(when, e, mu, text, params, static_cast<kep3::elements_type>(kind - 3))};
}

template <typename L>
L mkleg(in_t &in)
{
    const auto rvs = in.s();
    const auto ms = in.d();
    const auto th = in.vec();
    const auto rvf = in.s();
    const auto mf = in.d();
    const auto tof = in.d();
    const auto mt = in.d();
    const auto isp = in.d();
    const auto mu = in.d();
    const auto cut = in.d();
    return L(rvs, ms, th, rvf, mf, tof, mt, isp, mu, cut);
}

template <typename L>
void leg(const std::string &op, const L &l, out_t &o, in_t &in)
{
    if (op == "mc") {
        o.r(l.compute_mismatch_constraints());
    } else if (op == "tc") {
        o.r(l.compute_throttle_constraints());
    } else if (op == "mcg") {
        const auto [a, b, c] = l.compute_mc_grad();
        o.r(a);
        o.r(b);
        o.r(c);
    } else if (op == "tcg") {
        o.r(l.compute_tc_grad());
    } else if (op == "counts") {
        o.d(l.get_nseg());
        o.d(l.get_nseg_fwd());
        o.d(l.get_nseg_bck());
    } else if (op == "repr") {
        o.text(l);
    } else if (op == "history") {
        if constexpr (requires { l.get_state_history(1u); }) {
            for (const auto &h : l.get_state_history(static_cast<unsigned>(in.d()))) {
                o.d(static_cast<double>(h.size()));
                o.r(h);
            }
        }
    } else {
        throw std::logic_error("vf_ref: no such operation: " + op);
    }
}

void run(const std::string &name, const std::string &text, in_t &in, out_t &o)
{
    const auto c = name.find(':');
    const auto what = name.substr(0, c), op = c == std::string::npos ? std::string{} : name.substr(c + 1);
    if (what == "constant") {
#define VF(n)                                                                                                          \
    if (op == #n) o.d(kep3::n);
        VF(AU) VF(CAVENDISH) VF(MU_SUN) VF(MU_EARTH) VF(EARTH_VELOCITY) VF(EARTH_J2) VF(EARTH_RADIUS) VF(RAD2DEG) VF(DEG2RAD) VF(DAY2SEC) VF(SEC2DAY) VF(DAY2YEAR) VF(G0) VF(CR3BP_EARTH_MOON)
#undef VF
    } else if (what == "anomaly") {
        const auto x = in.d(), y = in.d();
#define VF(n)                                                                                                          \
    if (op == #n) o.d(kep3::n(x, y));
        VF(m2e) VF(e2m) VF(m2f) VF(f2m) VF(e2f) VF(f2e) VF(n2h) VF(h2n) VF(n2f) VF(f2n) VF(h2f) VF(f2h) VF(zeta2f) VF(f2zeta)
#undef VF
    } else if (what == "elements") {
        if (op == "ic2par") {
            const auto s = in.s();
            o.r(kep3::ic2par(s, in.d()));
        } else if (op == "par2ic") {
            const auto s = in.a<6>();
            o.s(kep3::par2ic(s, in.d()));
        } else if (op == "ic2eq") {
            const auto s = in.s();
            const auto mu = in.d();
            o.r(kep3::ic2eq(s, mu, in.d() != 0));
        } else if (op == "eq2ic") {
            const auto s = in.a<6>();
            const auto mu = in.d();
            o.s(kep3::eq2ic(s, mu, in.d() != 0));
        } else if (op == "par2eq") {
            const auto s = in.a<6>();
            o.r(kep3::par2eq(s, in.d() != 0));
        } else if (op == "eq2par") {
            const auto s = in.a<6>();
            o.r(kep3::eq2par(s, in.d() != 0));
        } else if (op == "posvel") { // the documented default of planet.elements()
            const auto s = in.s();
            const auto mu = in.d();
            o.r(kep3::detail::elements_from_posvel(s, mu, static_cast<kep3::elements_type>(static_cast<int>(in.d()))));
        }
    } else if (what == "epoch") {
        auto e = mkepoch(in, text);
        if (op == "days+") e = e + std::chrono::duration<double, std::ratio<86400>>(in.d());
        if (op == "days-") e = e - std::chrono::duration<double, std::ratio<86400>>(in.d());
        if (op == "secs+") e = e + std::chrono::duration<double, std::ratio<1>>(in.d());
        if (op == "secs-") e = e - std::chrono::duration<double, std::ratio<1>>(in.d());
        o.d(e.mjd2000());
        o.d(e.mjd());
        o.d(e.jd());
        o.text(e);
    } else if (what == "planet") {
        auto p = mkplanet(in, text);
        if (op == "eph") {
            o.s(p.eph(in.d()));
        } else if (op == "eph:epoch") {
            o.s(p.eph(mkepoch(in, text)));
        } else if (op == "eph_v") {
            o.r(p.eph_v(in.vec()));
        } else if (op == "period") {
            o.d(p.period(in.d()));
        } else if (op == "elements") {
            const auto t = in.d();
            o.r(p.elements(t, static_cast<kep3::elements_type>(static_cast<int>(in.d()))));
        } else if (op == "getters") {
            o.d(p.get_mu_central_body());
            o.d(p.get_mu_self());
            o.d(p.get_radius());
            o.d(p.get_safe_radius());
        } else if (op == "name") {
            o.t = p.get_name();
        } else if (op == "info") {
            o.t = p.get_extra_info();
        } else if (op == "repr") {
            o.text(p);
        } else if (op == "udpla") {
            if (auto *k = p.extract<kep3::udpla::keplerian>()) o.text(*k);
            if (auto *k = p.extract<kep3::udpla::jpl_lp>()) o.text(*k);
        } else if (op == "fb_con") {
            const auto a = in.v(), b = in.v();
            const auto r = kep3::fb_con(a, b, p);
            o.d(r.first);
            o.d(r.second);
        } else if (op == "fb_dv") {
            const auto a = in.v(), b = in.v();
            o.d(kep3::fb_dv(a, b, p));
        }
    } else if (what == "lambert") {
        const auto r0 = in.v(), r1 = in.v();
        const auto tof = in.d(), mu = in.d();
        const bool cw = in.d() != 0;
        const kep3::lambert_problem l(r0, r1, tof, mu, cw, static_cast<unsigned>(in.d()));
        o.d(l.get_Nmax());
        o.d(static_cast<double>(l.get_v0().size()));
        for (const auto &v : l.get_v0()) o.r(v);
        for (const auto &v : l.get_v1()) o.r(v);
        o.r(l.get_x());
        o.r(l.get_iters());
        o.text(l);
    } else if (what == "lagrangian") {
        const auto s = in.s();
        const auto mu = in.d();
        const bool stm = in.d() != 0;
        const auto t = in.vec();
        if (op == "v") {
            for (const auto &r : kep3::propagate_lagrangian_v(s, t, mu, stm)) {
                o.s(r.first);
                if (r.second) o.r(*r.second);
            }
        } else {
            const auto r = kep3::propagate_lagrangian(s, t.at(0), mu, stm);
            o.s(r.first);
            if (r.second) o.r(*r.second);
        }
    } else if (what == "stark") {
        const auto mu = in.d(), veff = in.d(), tol = in.d();
        kep3::stark_problem p(mu, veff, tol);
        if (op == "repr") {
            o.text(p);
            return;
        }
        const auto x = in.a<7>();
        const auto u = in.v();
        const auto t = in.d();
        if (op == "var") {
            const auto [a, b, d] = p.propagate_var(x, u, t);
            o.r(a);
            o.r(b);
            o.r(d);
        } else {
            o.r(p.propagate(x, u, t));
        }
    } else if (what == "flyby") {
        const auto a = in.v(), b = in.v();
        const auto x = in.d(), y = in.d();
        if (op == "con") {
            const auto r = kep3::fb_con(a, b, x, y);
            o.d(r.first);
            o.d(r.second);
        } else if (op == "dv") {
            o.d(kep3::fb_dv(a, b, x, y));
        } else {
            o.r(kep3::fb_vout(a, b, x, y, in.d()));
        }
    } else if (what == "sf") {
        const auto l = mkleg<kep3::leg::sims_flanagan>(in);
        leg(op, l, o, in);
    } else if (what == "hf") {
        auto l = mkleg<kep3::leg::sims_flanagan_hf>(in);
        l.set_tol(in.d());
        leg(op, l, o, in);
    } else if (what == "integrator") {
        const auto tol = in.d();
        const auto put = [&](const heyoka::taylor_adaptive<double> &t) {
            o.d(static_cast<double>(t.get_dim()));
            o.d(t.get_tol());
            o.d(static_cast<double>(t.get_pars().size()));
        };
        if (op == "stark") put(kep3::ta::get_ta_stark(tol));
        if (op == "stark_var") put(kep3::ta::get_ta_stark_var(tol));
        if (op == "cr3bp") put(kep3::ta::get_ta_cr3bp(tol));
        if (op == "cr3bp_var") put(kep3::ta::get_ta_cr3bp_var(tol));
    } else {
        throw std::logic_error("vf_ref: no such function: " + name);
    }
}
} // namespace

// The number of values written; -1 invalid argument, -2 domain error, -3 out of range, -4 anything else, -9 misuse.
extern "C" __attribute__((visibility("default"))) long vf_ref(const char *name, const char *text, const double *in, long nin, double *out, long nout, char *tout, long ntout)
{
    out_t o;
    try {
        in_t i{in, nin};
        run(name, text, i, o);
    } catch (const std::invalid_argument &e) {
        std::strncpy(tout, e.what(), static_cast<std::size_t>(ntout - 1));
        return -1;
    } catch (const std::domain_error &e) {
        std::strncpy(tout, e.what(), static_cast<std::size_t>(ntout - 1));
        return -2;
    } catch (const std::out_of_range &e) {
        std::strncpy(tout, e.what(), static_cast<std::size_t>(ntout - 1));
        return -3;
    } catch (const std::logic_error &e) {
        std::strncpy(tout, e.what(), static_cast<std::size_t>(ntout - 1));
        return std::strncmp(e.what(), "vf_ref", 6) == 0 ? -9 : -4;
    } catch (const std::exception &e) {
        std::strncpy(tout, e.what(), static_cast<std::size_t>(ntout - 1));
        return -4;
    }
    if (static_cast<long>(o.o.size()) > nout || static_cast<long>(o.t.size()) >= ntout) return -9;
    std::copy(o.o.begin(), o.o.end(), out);
    std::memcpy(tout, o.t.c_str(), o.t.size() + 1);
    return static_cast<long>(o.o.size());
}

// P20: the high-fidelity leg against an independent integration of its thrust arcs, and against legs with other histories.
#include "hf.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <iterator>
#include <sstream>
using namespace vf;

namespace
{
bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
template <class A, class B>
bool same_seq(const A &a, const B &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
std::vector<double> results(const hf_t &l, bool grads, unsigned grid, std::string &thrown)
{
    std::vector<double> r;
    thrown.clear();
    auto add = [&](const auto &c) {
        r.push_back(static_cast<double>(c.size()));
        r.insert(r.end(), c.begin(), c.end());
    };
    try {
        add(l.compute_throttle_constraints());
        add(l.compute_tc_grad());
        add(l.compute_mismatch_constraints());
        add(l.compute_constraints());
        if (grid)
            for (const auto &s : l.get_state_history(grid)) add(s);
    } catch (const std::exception &e) {
        thrown = e.what();
    }
    if (grads) try {
            const auto [a, b, c] = l.compute_mc_grad();
            add(a);
            add(b);
            add(c);
        } catch (const std::exception &e) {
            thrown += std::string(" gradients: ") + e.what();
        }
    return r;
}
std::string getters_differ(const hf_t &l, const HfCase &m)
{
    const double G0v = kep3::G0;
    if (!same_seq(l.get_rvms(), m.xs)) return "rvms";
    if (!same_seq(l.get_rvmf(), m.xf)) return "rvmf";
    if (!same_seq(join(l.get_rvs(), l.get_ms()), m.xs)) return "rvs/ms";
    if (!same_seq(join(l.get_rvf(), l.get_mf()), m.xf)) return "rvf/mf";
    if (!same(l.get_tof(), m.tof)) return "tof";
    if (!same(l.get_max_thrust(), m.T)) return "max_thrust";
    if (!same(l.get_isp(), m.isp)) return "isp";
    if (!same(l.get_mu(), m.mu)) return "mu";
    if (!same(l.get_cut(), m.cut)) return "cut";
    if (!same(l.get_tol(), m.tol)) return "tol";
    if (!same_seq(l.get_throttles(), m.u)) return "throttles";
    for (const auto *t : {&l.get_tas(), &l.get_tas_var()}) {
        if (!same(t->get_tol(), m.tol)) return "tolerance of an integrator";
        if (!same(t->get_pars()[0], m.mu)) return "gravity parameter of an integrator";
        if (std::abs(t->get_pars()[1] - m.isp * G0v) > 4 * EPS * std::abs(m.isp * G0v)) return "exhaust velocity of an integrator";
    }
    return "";
}

void oracle(Recorder &rec, Rng &g)
{
    const bool calib = rec.opt.mode == "calib";
    const double K = calib ? 1 : 30;
    const bool coasting = g.p(0.3);
    const HfCase c = hf_case(g, 8, coasting);
    std::string route;
    auto in = [&] { return J().t("route", route).raw("leg", c.str()).str(); };
    std::unique_ptr<hf_t> lp;
    try {
        lp = std::make_unique<hf_t>(hf_build(c, g, route));
    } catch (const std::exception &e) {
        rec.violate("refuses-valid", e.what(), in());
        return;
    }
    const hf_t &l = *lp;
    const unsigned n = c.nseg();
    const unsigned lo = static_cast<unsigned>(floorq(Q(n) * Q(c.cut))), hi = static_cast<unsigned>(static_cast<double>(n) * c.cut);
    const unsigned nf = l.get_nseg_fwd();
    if (!rec.require("segments", l.get_nseg() == n && (nf == lo || nf == hi) && l.get_nseg_bck() == n - nf, in, "forward " + std::to_string(nf) + " of " + std::to_string(n))) return;
    {
        const auto w = getters_differ(l, c);
        if (!rec.require("built-settings", w.empty(), in, w)) return;
    }
    const auto tc = l.compute_throttle_constraints();
    const auto tg = l.compute_tc_grad();
    if (rec.require("throttle-constraints:size", tc.size() == n && tg.size() == std::size_t(n) * n * 3, in)) {
        double worst = 0;
        for (unsigned i = 0; i < n; ++i) {
            Q s = 0;
            for (int j = 0; j < 3; ++j) s += Q(c.u[3 * i + j]) * c.u[3 * i + j];
            rec.check("throttle-constraints", std::abs(ref::d(s - 1 - tc[i])), 8 * EPS * (1 + ref::d(s)), in);
            for (unsigned j = 0; j < 3 * n; ++j) {
                const double d = std::abs(tg[std::size_t(i) * 3 * n + j] - (j / 3 == i ? 2 * c.u[j] : 0.));
                if (!(d <= 4 * EPS * std::abs(c.u[j]))) worst = std::max(worst, std::isnan(d) ? 1e300 : d);
            }
        }
        rec.check("throttle-gradient", worst, 1e-300, in);
    }
    bool coast = c.T == 0;
    for (unsigned i = 0; i < n; ++i) coast = coast || (c.u[3 * i] * c.T == 0 && c.u[3 * i + 1] * c.T == 0 && c.u[3 * i + 2] * c.T == 0);
    const HfSide f = hf_side(c, nf, true, !coast), b = hf_side(c, nf, false, !coast);
    if (!f.ok || !b.ok) {
        rec.ev("inconclusive:reference");
        return;
    }
    if (K * f.e > 1e-3 || K * b.e > 1e-3) {
        rec.ev("skipped:ill-conditioned");
        return;
    }
    rec.ev(nf == 0 ? "all-backward" : nf == n ? "all-forward" : "both-sides");
    rec.ev("segments", n);
    if (c.tof > 0 && c.T > 0) rec.nontriv(c.hash());
    rec.sample(in);
    const std::string reg = calib ? (c.tol < 1e-15 ? ":16" : c.tol < 1e-11 ? ":12" : ":8") : std::string();
    S7 mc;
    std::vector<double> cc;
    try {
        mc = l.compute_mismatch_constraints();
        cc = l.compute_constraints();
    } catch (const std::exception &e) {
        rec.violate("mismatch:throws", e.what(), in());
        return;
    }
    {
        double er = 0, ev = 0;
        for (int i = 0; i < 3; ++i) {
            er = std::max(er, static_cast<double>(std::abs(f.end[i] - b.end[i] - mc[i])));
            ev = std::max(ev, static_cast<double>(std::abs(f.end[i + 3] - b.end[i + 3] - mc[i + 3])));
        }
        for (int i = 0; i < 6; ++i)
            if (std::isnan(mc[i])) er = NAN;
        rec.check("mismatch:position" + reg, er, K * (f.e * f.L + b.e * b.L), in);
        rec.check("mismatch:velocity" + reg, ev, K * (f.e * f.V + b.e * b.V), in);
        // the mass is linear in time: exact up to rounding
        const double mt = std::max({f.m, b.m, static_cast<double>(f.end[6]), static_cast<double>(b.end[6])});
        rec.check("mismatch:mass" + reg, static_cast<double>(std::abs(f.end[6] - b.end[6] - mc[6])), 400 * EPS * mt * (1 + n), in);
        bool cat = cc.size() == 7 + tc.size();
        for (std::size_t i = 0; cat && i < 7; ++i) cat = same(cc[i], mc[i]);
        for (std::size_t i = 0; cat && i < tc.size(); ++i) cat = same(cc[7 + i], tc[i]);
        rec.require("constraints-vector", cat, in);
    }
    // state derivative
    {
        S7 x;
        std::array<double, 3> u;
        for (int i = 0; i < 7; ++i) x[i] = i < 6 ? c.xs[i] * g.u(0.5, 2) : c.xs[i];
        for (auto &y : u) y = g.p(0.2) ? 0. : g.u(-1, 1);
        const auto d = l.get_state_derivative(x, u);
        const Q r2 = Q(x[0]) * x[0] + Q(x[1]) * x[1] + Q(x[2]) * x[2], r3 = r2 * sqrtq(r2);
        Q un = 0;
        double e = 0;
        for (int i = 0; i < 3; ++i) {
            const Q k = -Q(c.mu) * x[i] / r3, t = Q(u[i]) * c.T / x[6];
            un += Q(u[i]) * u[i];
            e = std::max(e, std::abs(ref::d((k + t - d[i + 3]) / (fabsq(k) + fabsq(t) + Q(1e-300)))));
            if (d[i] != x[i + 3]) e = 1;
        }
        const Q md = -sqrtq(un) * c.T / (Q(c.isp) * Q(G0_));
        e = std::max(e, std::abs(ref::d((md - d[6]) / (fabsq(md) + Q(1e-300)))));
        for (double y : d)
            if (std::isnan(y)) e = NAN;
        rec.check("state-derivative", e, 60 * EPS, in);
    }
    // history
    if (c.tof > 0 && g.p(0.4)) { // (heyoka refuses a grid of equal times)
        const unsigned gp = 2 + static_cast<unsigned>(g.n(g.p(0.3) ? 12 : 4));
        std::vector<std::vector<double>> H;
        try {
            H = l.get_state_history(gp);
        } catch (const std::exception &e) {
            rec.violate("history:throws", e.what(), in());
            return;
        }
        bool sz = H.size() == n;
        for (auto &h : H) sz = sz && h.size() == std::size_t(7) * gp;
        if (rec.require("history:size", sz, in)) {
            for (const HfSide *s : {&f, &b})
                for (std::size_t k = 0; k < s->seg.size(); ++k) {
                    const auto &h = H[s->index[k]];
                    auto x = s->seg[k].x0;
                    const LD dt = static_cast<LD>(c.tof) / n / (gp - 1) * (s == &f ? 1 : -1);
                    const double rel = K * (s->es[k] + 10 * EPS * n * gp * (c.tof * (s->V / s->L + c.mu / (s->L * s->L * s->V)) * s->nM[k]));
                    for (unsigned p = 0; p < gp; ++p) {
                        if (p) x = stark_segment(x, s->thrust[k], c.mu, static_cast<LD>(c.isp) * 9.80665L, dt, false).x1;
                        double e = 0;
                        for (int i = 0; i < 7; ++i) {
                            const double d = static_cast<double>(std::abs(x[i] - h[7 * p + i])) / s->sc(i);
                            if (!(d <= e)) e = d;
                        }
                        rec.check(s == &f ? "history:forward" : "history:backward", e, rel, in, "segment " + std::to_string(s->index[k]) + " point " + std::to_string(p));
                    }
                }
        }
    }
    // gradients
    std::tuple<std::array<double, 49>, std::array<double, 49>, std::vector<double>> G;
    try {
        G = l.compute_mc_grad();
    } catch (const std::exception &e) {
        if (coast)
            rec.ev("gradient-with-coasting:refused");
        else
            rec.violate("gradient:throws", e.what(), in());
        return;
    }
    if (coast) {
        rec.ev("gradient-with-coasting:returned");
        return;
    }
    // Loose tolerances bound the error relative to the largest of the 77 variables only.
    const double KG = calib || c.tol < 1e-15 ? K : 60 * K;
    const auto &[Gs, Gf, Gu] = G;
    const unsigned W = 3 * n + 1;
    if (!rec.require("gradient:size", Gu.size() == std::size_t(7) * W, in)) return;
    if (KG * f.kap > 1e-3 || KG * b.kap > 1e-3) {
        rec.ev("skipped:ill-conditioned-gradient");
        return;
    }
    std::vector<std::array<LD, 7>> cols(W); // d(mismatch)/d(throttles, tof)
    for (auto &x : cols) x = {};
    std::vector<std::array<double, 2>> size(W, {0., 0.}); // scaled sizes by side
    for (int side = 0; side < 2; ++side) {
        const HfSide &s = side ? b : f;
        const auto &Gx = side ? Gf : Gs;
        const LD sg = side ? -1 : 1;
        std::array<std::array<LD, 7>, 7> P{};
        for (int i = 0; i < 7; ++i) P[i][i] = 1;
        std::array<LD, 7> tg2{};
        double tsz = 0;
        for (std::size_t k = s.seg.size(); k-- > 0;) { // P: from the end of segment k to the match point
            const auto &q = s.seg[k];
            const unsigned id = s.index[k];
            double after = 1;
            for (std::size_t z = k + 1; z < s.seg.size(); ++z) after *= s.nM[z];
            for (int j = 0; j < 3; ++j) {
                double sz = 0;
                for (int i = 0; i < 7; ++i) {
                    LD y = 0;
                    for (int m = 0; m < 7; ++m) y += P[i][m] * q.U[m][j];
                    cols[3 * id + j][i] = sg * y * c.T;
                    sz = std::max(sz, static_cast<double>(std::abs(q.U[i][j]) * c.T) / s.sc(i));
                }
                size[3 * id + j][side] = sz * after;
            }
            double fz = 0;
            for (int i = 0; i < 7; ++i) {
                LD y = 0;
                for (int m = 0; m < 7; ++m) y += P[i][m] * q.f1[m];
                tg2[i] += y / n * (side ? -1 : 1);
                fz = std::max(fz, static_cast<double>(std::abs(q.f1[i])) / s.sc(i));
            }
            tsz += fz / n * after * s.nM[k];
            std::array<std::array<LD, 7>, 7> N{};
            for (int i = 0; i < 7; ++i)
                for (int j = 0; j < 7; ++j)
                    for (int m = 0; m < 7; ++m) N[i][j] += P[i][m] * q.M[m][j];
            P = N;
        }
        for (int i = 0; i < 7; ++i) cols[W - 1][i] += sg * tg2[i];
        size[W - 1][side] = tsz;
        double e = 0;
        for (int i = 0; i < 7; ++i)
            for (int j = 0; j < 7; ++j) {
                const double d = static_cast<double>(std::abs(sg * P[i][j] - Gx[7 * i + j])) * s.sc(j) / s.sc(i);
                if (!(d <= e)) e = d;
            }
        if (s.seg.empty())
            rec.check("gradient:empty-side", e, 1e-300, in);
        else
            rec.check(std::string(side ? "gradient:final-state" : "gradient:initial-state") + reg, e, KG * (s.kap + 4 * EPS) * s.norm, in);
    }
    double et = 0, eT = 0, bT = 0;
    for (unsigned j = 0; j < W; ++j) {
        double worst = 0;
        for (int i = 0; i < 7; ++i) {
            const double d = static_cast<double>(std::abs(cols[j][i] - Gu[std::size_t(i) * W + j]));
            double bound = 1e-300;
            for (int side = 0; side < 2; ++side) bound += KG * ((side ? b : f).kap + 10 * EPS) * size[j][side] * (side ? b : f).sc(i);
            const double r = d / bound;
            if (!(r <= worst)) worst = r;
        }
        if (j + 1 < W) {
            if (!(worst <= et)) et = worst;
        } else
            eT = worst;
    }
    (void)bT;
    rec.check("gradient:throttles" + reg, et, 1., in);
    rec.check("gradient:tof" + reg, eT, 1., in);
}

double bad_nonneg(Rng &g)
{
    switch (g.n(4)) {
        case 0:
            return -g.logu(1e-300, 1e3);
        case 1:
            return -std::numeric_limits<double>::infinity();
        case 2:
            return std::numeric_limits<double>::quiet_NaN();
        default:
            return -g.u(0, 2) - 1e-3;
    }
}
double bad_cut(Rng &g)
{
    switch (g.n(5)) {
        case 0:
            return -g.logu(1e-300, 1.);
        case 1:
            return std::nextafter(1., 2.);
        case 2:
            return 1. + g.logu(1e-10, 1e10);
        case 3:
            return std::numeric_limits<double>::quiet_NaN();
        default:
            return std::numeric_limits<double>::infinity();
    }
}
template <class OA, class IA>
hf_t through(const hf_t &a)
{
    std::stringstream s;
    {
        OA o(s);
        o << a;
    }
    hf_t r;
    IA i(s);
    i >> r;
    return r;
}

// The arcs can be integrated in a moderate number of steps (no collision, no depletion).
bool tractable(const HfCase &c)
{
    const unsigned nf = static_cast<unsigned>(c.nseg() * c.cut);
    return hf_side(c, nf, true, false).ok && hf_side(c, nf, false, false).ok;
}

void history(Recorder &rec, Rng &g)
{
    std::string trace;
    auto in = [&] { return J().t("history", trace).str(); };
    auto fmt = [](double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return std::string(b); };
    HfCase base = hf_case(g, 6, true);
    base.tol = 1e-16;
    static const double tols[] = {1e-16, 1e-12, 1e-9};
    auto jig = [&](double x) { return x * g.u(0.8, 1.25); };
    auto fresh_case = [&] {
        HfCase m = base;
        for (auto &x : m.xs) x = jig(x);
        for (auto &x : m.xf) x = jig(x);
        m.tof = jig(m.tof);
        m.T = g.p(0.05) ? 0. : jig(m.T);
        m.isp = jig(m.isp);
        m.mu = jig(m.mu);
        m.u = gen_throttles(g, 1 + static_cast<unsigned>(g.n(6)));
        m.cut = gen_cut(g, m.nseg());
        m.tol = tols[g.n(3)];
        return m;
    };
    std::vector<hf_t> legs;
    std::vector<HfCase> mod;
    legs.reserve(4);
    for (unsigned k = 0, p = 1 + static_cast<unsigned>(g.n(2)); k < p; ++k) {
        if (g.p(0.25)) {
            hf_t l;
            mod.push_back(HfCase{l.get_rvms(), l.get_rvmf(), l.get_throttles(), l.get_tof(), l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut(), l.get_tol()});
            legs.push_back(l);
            trace += "default; ";
        } else {
            HfCase m = fresh_case();
            while (!tractable(m)) {
                base = hf_case(g, 6, true);
                m = fresh_case();
            }
            std::string route;
            legs.push_back(hf_build(m, g, route));
            mod.push_back(m);
            trace += route + "(" + std::to_string(m.nseg()) + " segments); ";
        }
    }
    for (int op = 0, nops = 3 + static_cast<int>(g.n(8)); op < nops; ++op) {
        const std::size_t k = g.n(legs.size());
        hf_t &l = legs[k];
        HfCase &m = mod[k];
        const HfCase before = m;
        bool refuse = g.p(0.3);
        std::string name;
        std::function<void()> act;
        switch (g.n(16)) {
            case 0:
                m.tof = refuse ? bad_nonneg(g) : g.p(0.1) ? 0. : jig(base.tof);
                name = "set_tof(" + fmt(m.tof) + ")";
                act = [&l, v = m.tof] { l.set_tof(v); };
                break;
            case 1:
                m.T = refuse ? bad_nonneg(g) : g.p(0.1) ? 0. : jig(base.T);
                name = "set_max_thrust(" + fmt(m.T) + ")";
                act = [&l, v = m.T] { l.set_max_thrust(v); };
                break;
            case 2:
                m.isp = refuse ? bad_nonneg(g) : jig(base.isp);
                name = "set_isp(" + fmt(m.isp) + ")";
                act = [&l, v = m.isp] { l.set_isp(v); };
                break;
            case 3:
                m.mu = refuse ? bad_nonneg(g) : jig(base.mu);
                name = "set_mu(" + fmt(m.mu) + ")";
                act = [&l, v = m.mu] { l.set_mu(v); };
                break;
            case 4:
                m.cut = refuse ? bad_cut(g) : gen_cut(g, m.nseg());
                name = "set_cut(" + fmt(m.cut) + ")";
                act = [&l, v = m.cut] { l.set_cut(v); };
                break;
            case 5: {
                static const double bad[] = {0., -1e-16, 1.5, -1, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()};
                m.tol = refuse ? bad[g.n(6)] : tols[g.n(3)];
                name = "set_tol(" + fmt(m.tol) + ")";
                act = [&l, v = m.tol] { l.set_tol(v); };
                break;
            }
            case 6:
                refuse = false;
                for (auto &x : m.xs) x = jig(x);
                name = "set_rvms";
                act = [&l, v = m.xs, w = g.n(3)] {
                    if (w == 0) l.set_rvms(v);
                    else { l.set_rvs(split(v)); l.set_ms(v[6]); }
                };
                break;
            case 7:
                refuse = false;
                for (auto &x : m.xf) x = jig(x);
                name = "set_rvmf";
                act = [&l, v = m.xf, w = g.n(3)] {
                    if (w == 0) l.set_rvmf(v);
                    else { l.set_mf(v[6]); l.set_rvf(split(v)); }
                };
                break;
            case 8: {
                m.u = gen_throttles(g, 1 + static_cast<unsigned>(g.n(6)));
                if (refuse) {
                    if (g.p(0.3)) m.u.clear();
                    else m.u.resize(m.u.size() - 1 - g.n(2));
                }
                name = "set_throttles(size " + std::to_string(m.u.size()) + ")";
                act = [&l, v = m.u] { l.set_throttles(v); };
                break;
            }
            case 9: { // iterators, some into the leg's own throttles
                const bool own = g.p(0.5);
                const auto big = own ? m.u : gen_throttles(g, 2 + static_cast<unsigned>(g.n(6)));
                long a = 0, b = static_cast<long>(big.size());
                if (refuse) {
                    const double r = g.u();
                    if (r < 0.3) a = b;
                    else if (r < 0.5) std::swap(a, b);
                    else b -= 1 + static_cast<long>(g.n(2));
                } else {
                    a = static_cast<long>(g.n(static_cast<std::uint64_t>(b) - 2));
                    b = a + 3 * (1 + static_cast<long>(g.n(static_cast<std::uint64_t>((b - a) / 3))));
                    m.u.assign(big.begin() + a, big.begin() + b);
                }
                name = std::string("set_throttles(iterators ") + (own ? "into its own, " : "") + std::to_string(a) + ".." + std::to_string(b) + ")";
                if (own) act = [&l, a, b] { l.set_throttles(l.get_throttles().cbegin() + a, l.get_throttles().cbegin() + b); };
                else act = [&l, big, a, b] { l.set_throttles(big.cbegin() + a, big.cbegin() + b); };
                break;
            }
            case 10:
            case 11: { // set, constructors
                HfCase q = fresh_case();
                const int form = static_cast<int>(g.n(4));
                name = form < 2 ? "set" : "ctor";
                if (refuse) switch (g.n(7)) {
                        case 0: q.tof = bad_nonneg(g); name += " tof"; break;
                        case 1: q.T = bad_nonneg(g); name += " max_thrust"; break;
                        case 2: q.isp = bad_nonneg(g); name += " isp"; break;
                        case 3: q.mu = bad_nonneg(g); name += " mu"; break;
                        case 4: q.u.resize(g.p(0.3) ? 0 : q.u.size() - 1 - g.n(2)); name += " throttles"; break;
                        case 5: q.tol = g.p(0.5) ? 0. : -1.; name += " tol"; break;
                        default: q.cut = bad_cut(g); name += " cut";
                    }
                m = q;
                act = [&, k, q, form] {
                    if (form == 0) legs[k].set(q.xs, q.u, q.xf, q.tof, q.T, q.isp, q.mu, q.cut, q.tol);
                    else if (form == 1) legs[k].set(split(q.xs), q.xs[6], q.u, split(q.xf), q.xf[6], q.tof, q.T, q.isp, q.mu, q.cut, q.tol);
                    else if (form == 2) legs[k] = q.fresh();
                    else legs[k] = hf_t(split(q.xs), q.xs[6], q.u, split(q.xf), q.xf[6], q.tof, q.T, q.isp, q.mu, q.cut, q.tol);
                };
                break;
            }
            case 12: { // set of four
                HfCase q = fresh_case();
                if (refuse) {
                    if (g.p(0.5)) q.tof = bad_nonneg(g);
                    else q.u.resize(q.u.size() - 1);
                }
                m.xs = q.xs;
                m.u = q.u;
                m.xf = q.xf;
                m.tof = q.tof;
                name = "set(rvm, throttles, rvm, tof)";
                act = [&l, q] { l.set(q.xs, q.u, q.xf, q.tof); };
                break;
            }
            case 13: { // chromosome: initial state, throttles, final state, time of flight
                const auto q = fresh_case();
                const auto u = gen_throttles(g, m.nseg());
                std::vector<double> x(q.xs.begin(), q.xs.end());
                x.insert(x.end(), u.begin(), u.end());
                x.insert(x.end(), q.xf.begin(), q.xf.end());
                x.push_back(refuse && g.p(0.4) ? bad_nonneg(g) : q.tof);
                if (refuse && !(x.back() < 0 || std::isnan(x.back()))) {
                    if (g.p(0.3)) x.clear();
                    else if (g.p(0.5)) x.resize(x.size() - 1 - g.n(std::min<std::size_t>(x.size() - 1, 20)));
                    else x.push_back(1.);
                    // any longer multiple of three would be a longer leg: only sizes that are not a leg's are refused
                }
                name = "set_and_compute_constraints(size " + std::to_string(x.size()) + ")";
                m.xs = q.xs;
                m.u = u;
                m.xf = q.xf;
                m.tof = q.tof;
                act = [&, k, x, refuse] {
                    std::vector<double> r, w;
                    std::string a, b;
                    if (!refuse) try {
                            w = mod[k].fresh().compute_constraints();
                        } catch (const std::exception &e) {
                            b = e.what();
                        }
                    try {
                        r = legs[k].set_and_compute_constraints(x);
                    } catch (const std::exception &e) {
                        if (refuse || b.empty()) throw;
                        a = e.what();
                    }
                    if (!refuse) rec.require("chromosome", a == b && same_seq(r, w), in);
                };
                break;
            }
            case 14: { // copies and archives
                refuse = false;
                const std::size_t q = g.n(legs.size());
                switch (g.n(6)) {
                    case 0:
                        name = "copy-assign";
                        m = HfCase(mod[q]);
                        act = [&, k, q] { legs[k] = legs[q]; };
                        break;
                    case 1:
                        name = "copy and move";
                        act = [&, k] { hf_t t(legs[k]); legs[k] = hf_t(); legs[k] = std::move(t); };
                        break;
                    case 2:
                        name = "swap";
                        std::swap(mod[k], mod[q]);
                        act = [&, k, q] { std::swap(legs[k], legs[q]); };
                        break;
                    case 3: {
                        bool fin = true; // the text format cannot hold what is not finite
                        for (const auto *t : {&l.get_tas(), &l.get_tas_var()})
                            for (double x : t->get_state()) fin = fin && std::isfinite(x);
                        if (!fin) break;
                        name = "text archive";
                        act = [&, k] { legs[k] = through<boost::archive::text_oarchive, boost::archive::text_iarchive>(legs[k]); };
                        break;
                    }
                    case 4:
                        name = "binary archive";
                        act = [&, k] { legs[k] = through<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(legs[k]); };
                        break;
                    default:
                        name = "set from its own values";
                        act = [&l] { l.set(l.get_rvms(), l.get_throttles(), l.get_rvmf(), l.get_tof(), l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut(), l.get_tol()); };
                }
                break;
            }
            default:
                refuse = g.p(0.3);
                if (refuse) {
                    name = "history of less than two points";
                    act = [&l, w = g.n(2)] { (void)l.get_state_history(static_cast<unsigned>(w)); };
                } else {
                    name = "query";
                    act = [&l] { std::string t; (void)results(l, true, 3, t); };
                }
        }
        if (!act) continue;
        if (!refuse && !tractable(m)) {
            m = before;
            rec.ev("operations:intractable");
            continue;
        }
        trace += std::to_string(k) + ":" + name + "; ";
        bool threw = false;
        std::string what;
        try {
            act();
        } catch (const std::exception &e) {
            threw = true;
            what = e.what();
        }
        rec.ev(refuse ? "operations:unacceptable" : "operations:acceptable");
        if (refuse) {
            m = before;
            if (!rec.require("refused", threw, in, "accepted by " + name)) return;
        } else if (!rec.require("accepted", !threw, in, name + " threw " + what))
            return;
        for (std::size_t i = 0; i < legs.size(); ++i) {
            const auto w = getters_differ(legs[i], mod[i]);
            if (!rec.require(refuse ? "settings-after-refusal" : "settings", w.empty(), in, w + " of leg " + std::to_string(i) + " after " + name)) return;
        }
        const hf_t fr = mod[k].fresh();
        const bool ns = legs[k].get_nseg() == fr.get_nseg() && legs[k].get_nseg_fwd() == fr.get_nseg_fwd() && legs[k].get_nseg_bck() == fr.get_nseg_bck();
        if (!rec.require("segments:history", ns, in, "after " + name)) return;
        const bool grads = g.p(0.3);
        const unsigned grid = g.p(0.3) ? 2 + static_cast<unsigned>(g.n(3)) : 0;
        std::string t1, t2;
        const auto r1 = results(legs[k], grads, grid, t1), r2 = results(fr, grads, grid, t2);
        if (!rec.require(refuse ? "results-after-refusal" : "results", t1 == t2 && same_seq(r1, r2), in, "after " + name + " " + t1)) return;
        if (grads) rec.ev("compared:gradients");
    }
    rec.nontriv(hash_bytes(trace.data(), trace.size()));
    rec.sample(in);
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 20, [](Recorder &rec, Rng &g, long i) {
        if (i % 3 == 2)
            history(rec, g);
        else
            oracle(rec, g);
    });
}

// P11: an impulsive leg after any history equals a leg freshly built from the last accepted values.
#include "ref_leg.hpp"
#include <iterator>
using namespace vf;
using leg_t = kep3::leg::sims_flanagan;

namespace
{
struct Model {
    rv_t rvs, rvf;
    double ms, mf, tof, T, isp, mu, cut;
    std::vector<double> u;
    leg_t fresh() const { return leg_t(rvs, ms, u, rvf, mf, tof, T, isp, mu, cut); }
};
bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
template <class A, class B>
bool same_seq(const A &a, const B &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
bool same_rv(const rv_t &a, const rv_t &b) { return same_seq(a[0], b[0]) && same_seq(a[1], b[1]); }

// Everything a leg computes, as one vector (or the exception it throws).
std::vector<double> results(const leg_t &l, bool grads, std::string &thrown)
{
    std::vector<double> r;
    thrown.clear();
    try {
        auto add = [&](const auto &c) {
            r.push_back(static_cast<double>(c.size()));
            r.insert(r.end(), c.begin(), c.end());
        };
        add(l.compute_throttle_constraints());
        add(l.compute_tc_grad());
        add(l.compute_mismatch_constraints());
        if (grads) {
            const auto [a, b, c] = l.compute_mc_grad();
            add(a);
            add(b);
            add(c);
        }
    } catch (const std::exception &e) {
        thrown = std::string("threw: ") + e.what();
    }
    return r;
}
std::string getters_differ(const leg_t &l, const Model &m)
{
    if (!same_rv(l.get_rvs(), m.rvs)) return "rvs";
    if (!same_rv(l.get_rvf(), m.rvf)) return "rvf";
    if (!same(l.get_ms(), m.ms)) return "ms";
    if (!same(l.get_mf(), m.mf)) return "mf";
    if (!same(l.get_tof(), m.tof)) return "tof";
    if (!same(l.get_max_thrust(), m.T)) return "max_thrust";
    if (!same(l.get_isp(), m.isp)) return "isp";
    if (!same(l.get_mu(), m.mu)) return "mu";
    if (!same(l.get_cut(), m.cut)) return "cut";
    if (!same_seq(l.get_throttles(), m.u)) return "throttles";
    return "";
}
double bad_nonneg(Rng &g)
{
    switch (g.n(4)) {
        case 0:
            return -g.logu(1e-300, 1e3);
        case 1:
            return -std::numeric_limits<double>::infinity();
        case 2:
            return std::numeric_limits<double>::quiet_NaN();
        default:
            return -g.u(0, 2) - 1e-3;
    }
}
double bad_cut(Rng &g)
{
    switch (g.n(6)) {
        case 0:
            return -g.logu(1e-300, 1.);
        case 1:
            return std::nextafter(1., 2.);
        case 2:
            return 1. + g.logu(1e-10, 1e10);
        case 3:
            return std::numeric_limits<double>::quiet_NaN();
        case 4:
            return std::numeric_limits<double>::infinity();
        default:
            return -std::numeric_limits<double>::infinity();
    }
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 11, [](Recorder &rec, Rng &g, long) {
        std::string trace; // the operations so far
        auto in = [&] { return J().t("history", trace).str(); };
        auto fmt = [](double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return std::string(b); };
        // A pool of values that go together, so that results are mostly finite.
        const LegCase c1 = leg_case(g, 8, true);
        auto jig = [&](double x) { return x * g.u(0.7, 1.4); };
        auto from_case = [&](const LegCase &c) { return Model{c.rvs, c.rvf, c.ms, c.mf, c.tof, c.T, c.isp, c.mu, c.cut, c.u}; };
        auto new_u = [&] {
            const unsigned n = g.p(0.4) ? 1u + static_cast<unsigned>(g.n(3)) : g.p(0.05) ? 30u + static_cast<unsigned>(g.n(30)) : 1u + static_cast<unsigned>(g.n(12));
            return gen_throttles(g, n);
        };
        auto new_rv = [&](const rv_t &b) {
            rv_t r = b;
            for (auto &v : r)
                for (auto &x : v) x *= g.u(0.8, 1.2);
            return r;
        };
        auto nonneg = [&](double scale) { return g.p(0.1) ? 0. : g.p(0.02) ? -0. : jig(scale); };
        auto new_model = [&] {
            Model m = from_case(c1);
            m.rvs = new_rv(c1.rvs);
            m.rvf = new_rv(c1.rvf);
            m.ms = jig(c1.ms);
            m.mf = jig(c1.mf);
            m.tof = nonneg(c1.tof);
            m.T = nonneg(c1.T);
            m.isp = jig(c1.isp);
            m.mu = jig(c1.mu);
            m.u = new_u();
            m.cut = gen_cut(g, static_cast<unsigned>(m.u.size() / 3));
            return m;
        };

        std::vector<leg_t> legs;
        std::vector<Model> mod;
        legs.reserve(8);
        // initial population
        const unsigned pop = 1 + static_cast<unsigned>(g.n(3));
        for (unsigned k = 0; k < pop; ++k) {
            if (g.p(0.3)) {
                leg_t l;
                legs.push_back(l);
                mod.push_back(Model{l.get_rvs(), l.get_rvf(), l.get_ms(), l.get_mf(), l.get_tof(), l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut(), l.get_throttles()});
                trace += "default; ";
            } else {
                Model m = new_model();
                if (g.p(0.2)) { // cut defaults to one half
                    m.cut = 0.5;
                    legs.emplace_back(m.rvs, m.ms, m.u, m.rvf, m.mf, m.tof, m.T, m.isp, m.mu);
                } else
                    legs.push_back(m.fresh());
                mod.push_back(m);
                trace += "ctor(" + std::to_string(m.u.size() / 3) + " segments, cut " + fmt(m.cut) + "); ";
            }
        }
        const int nops = 4 + static_cast<int>(g.n(20));
        for (int op = 0; op < nops; ++op) {
            const std::size_t k = g.n(legs.size());
            leg_t &l = legs[k];
            Model &m = mod[k];
            const Model before = m;
            bool refuse = false;
            std::string name;
            std::function<void()> act;
            switch (g.n(19)) {
                case 0: {
                    const double v = (refuse = g.p(0.3)) ? bad_nonneg(g) : nonneg(c1.tof);
                    name = "set_tof(" + fmt(v) + ")";
                    m.tof = v;
                    act = [&l, v] { l.set_tof(v); };
                    break;
                }
                case 1: {
                    const auto v = new_rv(c1.rvs);
                    name = "set_rvs";
                    m.rvs = v;
                    act = [&l, v] { l.set_rvs(v); };
                    break;
                }
                case 2: {
                    const auto v = new_rv(c1.rvf);
                    name = "set_rvf";
                    m.rvf = v;
                    act = [&l, v] { l.set_rvf(v); };
                    break;
                }
                case 3: {
                    const double v = jig(c1.ms);
                    name = "set_ms";
                    m.ms = v;
                    act = [&l, v] { l.set_ms(v); };
                    break;
                }
                case 4: {
                    const double v = jig(c1.mf);
                    name = "set_mf";
                    m.mf = v;
                    act = [&l, v] { l.set_mf(v); };
                    break;
                }
                case 5: {
                    const double v = (refuse = g.p(0.3)) ? bad_nonneg(g) : nonneg(c1.T);
                    name = "set_max_thrust(" + fmt(v) + ")";
                    m.T = v;
                    act = [&l, v] { l.set_max_thrust(v); };
                    break;
                }
                case 6: {
                    const double v = (refuse = g.p(0.3)) ? bad_nonneg(g) : nonneg(c1.isp);
                    name = "set_isp(" + fmt(v) + ")";
                    m.isp = v;
                    act = [&l, v] { l.set_isp(v); };
                    break;
                }
                case 7: {
                    const double v = (refuse = g.p(0.3)) ? bad_nonneg(g) : nonneg(c1.mu);
                    name = "set_mu(" + fmt(v) + ")";
                    m.mu = v;
                    act = [&l, v] { l.set_mu(v); };
                    break;
                }
                case 8:
                case 9: {
                    const double v = (refuse = g.p(0.3)) ? bad_cut(g) : gen_cut(g, static_cast<unsigned>(m.u.size() / 3));
                    name = "set_cut(" + fmt(v) + ")";
                    m.cut = v;
                    act = [&l, v] { l.set_cut(v); };
                    break;
                }
                case 10:
                case 11: {
                    auto v = new_u();
                    if ((refuse = g.p(0.3))) {
                        if (g.p(0.3))
                            v.clear();
                        else
                            for (auto q = 1 + g.n(2); q-- > 0;) v.pop_back();
                    }
                    name = "set_throttles(size " + std::to_string(v.size()) + ")";
                    m.u = v;
                    act = [&l, v] { l.set_throttles(v); };
                    break;
                }
                case 12:
                case 13: {
                    const bool own = g.p(0.3); // iterators into the throttles of the leg itself
                    const auto big = own ? m.u : new_u();
                    long a = 0, b = static_cast<long>(big.size());
                    const double r = g.u();
                    if (r < 0.15) { // empty
                        a = b = static_cast<long>(g.n(big.size() + 1));
                        refuse = true;
                    } else if (r < 0.3) { // reversed
                        a = 3;
                        b = 0;
                        refuse = true;
                    } else if (r < 0.5) { // not a multiple of three
                        b -= 1 + static_cast<long>(g.n(2));
                        refuse = true;
                    } else if (big.size() > 3) {
                        a = static_cast<long>(g.n(static_cast<std::uint64_t>(b) - 3));
                        b = a + 3 * (1 + static_cast<long>(g.n(static_cast<std::uint64_t>((b - a) / 3))));
                    }
                    name = std::string("set_throttles(iterators ") + (own ? "into its own, " : "") + std::to_string(a) + ".." + std::to_string(b) + ")";
                    if (!refuse) m.u.assign(big.begin() + a, big.begin() + b);
                    if (own)
                        act = [&l, a, b] { l.set_throttles(l.get_throttles().cbegin() + a, l.get_throttles().cbegin() + b); };
                    else
                        act = [&l, big, a, b] { l.set_throttles(big.cbegin() + a, big.cbegin() + b); };
                    break;
                }
                case 14:
                case 15: { // all at once
                    Model n = new_model();
                    const bool dflt = g.p(0.15);
                    if (dflt) n.cut = 0.5;
                    name = "set(" + std::to_string(n.u.size() / 3) + " segments, cut " + fmt(n.cut) + ")";
                    if ((refuse = g.p(0.45))) {
                        switch (g.n(dflt ? 5 : 6)) {
                            case 0:
                                n.tof = bad_nonneg(g);
                                name = "set(tof " + fmt(n.tof) + ")";
                                break;
                            case 1:
                                n.T = bad_nonneg(g);
                                name = "set(max_thrust " + fmt(n.T) + ")";
                                break;
                            case 2:
                                n.isp = bad_nonneg(g);
                                name = "set(isp " + fmt(n.isp) + ")";
                                break;
                            case 3:
                                n.mu = bad_nonneg(g);
                                name = "set(mu " + fmt(n.mu) + ")";
                                break;
                            case 4:
                                if (g.p(0.3))
                                    n.u.clear();
                                else
                                    n.u.resize(n.u.size() - 1 - g.n(2));
                                name = "set(throttles of size " + std::to_string(n.u.size()) + ")";
                                break;
                            default:
                                n.cut = bad_cut(g);
                                name = "set(cut " + fmt(n.cut) + ")";
                        }
                    }
                    m = n;
                    if (dflt)
                        act = [&l, n] { l.set(n.rvs, n.ms, n.u, n.rvf, n.mf, n.tof, n.T, n.isp, n.mu); };
                    else
                        act = [&l, n] { l.set(n.rvs, n.ms, n.u, n.rvf, n.mf, n.tof, n.T, n.isp, n.mu, n.cut); };
                    break;
                }
                case 16: { // copies and moves between the legs of the population
                    const std::size_t q = g.n(legs.size());
                    const Model mq = mod[q];
                    switch (g.n(5)) {
                        case 0:
                            name = "copy-assign";
                            m = mq;
                            act = [&, k, q] { legs[k] = legs[q]; };
                            break;
                        case 1:
                            name = "copy-construct";
                            m = mq;
                            act = [&, k, q] { leg_t t(legs[q]); legs[k] = std::move(t); };
                            break;
                        case 2:
                            name = "move-construct";
                            act = [&, k] { leg_t t(std::move(legs[k])); legs[k] = t; };
                            break;
                        case 3:
                            name = "swap";
                            std::swap(mod[k], mod[q]);
                            act = [&, k, q] { std::swap(legs[k], legs[q]); };
                            break;
                        default:
                            name = "set from its own values";
                            act = [&l] { l.set(l.get_rvs(), l.get_ms(), l.get_throttles(), l.get_rvf(), l.get_mf(), l.get_tof(), l.get_max_thrust(), l.get_isp(), l.get_mu(), l.get_cut()); };
                    }
                    break;
                }
                case 17: { // constructor, mostly refused
                    Model n = new_model();
                    refuse = true;
                    switch (g.n(6)) {
                        case 0:
                            n.tof = bad_nonneg(g);
                            name = "ctor(tof " + fmt(n.tof) + ")";
                            break;
                        case 1:
                            n.T = bad_nonneg(g);
                            name = "ctor(max_thrust " + fmt(n.T) + ")";
                            break;
                        case 2:
                            n.isp = bad_nonneg(g);
                            name = "ctor(isp " + fmt(n.isp) + ")";
                            break;
                        case 3:
                            n.mu = bad_nonneg(g);
                            name = "ctor(mu " + fmt(n.mu) + ")";
                            break;
                        case 4:
                            if (g.p(0.3))
                                n.u.clear();
                            else
                                n.u.resize(n.u.size() - 1 - g.n(2));
                            name = "ctor(throttles of size " + std::to_string(n.u.size()) + ")";
                            break;
                        default:
                            n.cut = bad_cut(g);
                            name = "ctor(cut " + fmt(n.cut) + ")";
                    }
                    act = [&, k, n] { legs[k] = n.fresh(); };
                    m = n;
                    break;
                }
                default: { // a query in between must not change anything
                    name = "query";
                    act = [&l] { std::string t; (void)results(l, true, t); };
                }
            }
            trace += std::to_string(k) + ":" + name + "; ";
            bool threw = false;
            std::string what;
            try {
                act();
            } catch (const std::exception &e) {
                threw = true;
                what = e.what();
            }
            rec.ev(refuse ? "operations:unacceptable" : "operations:acceptable");
            if (refuse) {
                m = before;
                if (!rec.require("refused", threw, in, "unacceptable value accepted by " + name)) return;
            } else if (!rec.require("accepted", !threw, in, name + " threw " + what))
                return;
            // every leg must report its own settings (no aliasing between copies)
            for (std::size_t i = 0; i < legs.size(); ++i) {
                const auto w = getters_differ(legs[i], mod[i]);
                if (!rec.require(refuse ? "settings-after-refusal" : "settings", w.empty(), in, w + " of leg " + std::to_string(i) + " after " + name)) return;
            }
            const Model &mk = mod[k];
            leg_t fr;
            try {
                fr = mk.fresh();
            } catch (const std::exception &e) {
                rec.violate("fresh-refused", std::string("values accepted by the setters are refused by the constructor: ") + e.what(), in());
                return;
            }
            const bool ns = legs[k].get_nseg() == fr.get_nseg() && legs[k].get_nseg_fwd() == fr.get_nseg_fwd() && legs[k].get_nseg_bck() == fr.get_nseg_bck();
            if (!rec.require(refuse ? "segments-after-refusal" : "segments", ns && fr.get_nseg() == mk.u.size() / 3 && fr.get_nseg_fwd() + fr.get_nseg_bck() == fr.get_nseg(), in, "after " + name)) return;
            const bool grads = g.p(0.25);
            std::string t1, t2;
            const auto r1 = results(legs[k], grads, t1), r2 = results(fr, grads, t2);
            if (!rec.require(refuse ? "results-after-refusal" : "results", t1 == t2 && same_seq(r1, r2), in, "after " + name + " " + t1)) return;
            if (grads) rec.ev("compared:gradients");
            bool fin = t1.empty();
            for (double x : r1) fin = fin && std::isfinite(x);
            rec.ev(fin ? "compared:finite" : "compared:nonfinite");
        }
        rec.nontriv(hash_bytes(trace.data(), trace.size()));
        rec.sample(in);
    });
}

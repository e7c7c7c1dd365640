// High-fidelity low-thrust leg: cases, routes that build a leg, reference values and rounding bounds.
#pragma once
#include "ref_leg.hpp"
#include "ref_stark.hpp"
#include <kep3/leg/sims_flanagan_hf.hpp>
namespace vf
{
using hf_t = kep3::leg::sims_flanagan_hf;
using S7 = std::array<double, 7>;
inline S7 join(const rv_t &a, double m) { return {a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], m}; }
inline rv_t split(const S7 &x) { return {{{x[0], x[1], x[2]}, {x[3], x[4], x[5]}}}; }

struct HfCase {
    S7 xs, xf;
    std::vector<double> u;
    double tof, T, isp, mu, cut, tol;
    unsigned nseg() const { return static_cast<unsigned>(u.size() / 3); }
    hf_t fresh() const { return hf_t(xs, u, xf, tof, T, isp, mu, cut, tol); }
    std::string str() const
    {
        return J().a("xs", xs).a("throttles", u).a("xf", xf).d("tof", tof).d("max_thrust", T).d("isp", isp).d("mu", mu).d("cut", cut).d("tol", tol).str();
    }
    std::uint64_t hash() const { return hash_vec(u, hash_vec(xs, hash_vec(xf, hash_vec(std::array<double, 6>{tof, T, isp, mu, cut, tol})))); }
};
inline double gen_tol(Rng &g)
{
    static const double t[] = {1e-16, 1e-16, 1e-16, 1e-14, 1e-12, 1e-10, 1e-8};
    return t[g.n(7)];
}
inline HfCase hf_case(Rng &g, unsigned maxseg, bool coasting)
{
    LegCase c;
    double tau; // time unit: powers of it up to the order of the expansions are Taylor coefficients, and must not underflow
    do {
        c = leg_case(g, maxseg, g.p(0.85));
        tau = ref::d(ref::norm(ref::toQ(c.rvs[0])) / ref::norm(ref::toQ(c.rvs[1])));
    } while (!(tau > 1e-8 && tau < 1e8));
    HfCase h;
    h.xs = join(c.rvs, c.ms);
    h.xf = join(c.rvf, c.mf);
    h.u = c.u;
    h.tof = c.tof;
    h.T = c.T;
    h.isp = c.isp;
    h.mu = c.mu;
    h.cut = c.cut;
    h.tol = gen_tol(g);
    if (g.p(0.1)) { // what an argument left out means
        h.cut = 0.5;
        h.tol = 1e-16;
    }
    if (!coasting)
        for (unsigned i = 0; i < h.nseg(); ++i)
            if (h.u[3 * i] == 0 && h.u[3 * i + 1] == 0 && h.u[3 * i + 2] == 0) {
                const auto d = unit(g);
                const double r = g.u();
                for (int j = 0; j < 3; ++j) h.u[3 * i + j] = r * d[j];
            }
    return h;
}
// A leg with these settings, made in one of many ways.
inline hf_t hf_build(const HfCase &c, Rng &g, std::string &route)
{
    if (c.tol == 1e-16 && g.p(0.3)) {
        route = "tolerance left out";
        const bool both = c.cut == 0.5;
        hf_t l;
        switch (g.n(3)) {
            case 0:
                if (both) return hf_t(split(c.xs), c.xs[6], c.u, split(c.xf), c.xf[6], c.tof, c.T, c.isp, c.mu);
                return hf_t(c.xs, c.u, c.xf, c.tof, c.T, c.isp, c.mu, c.cut);
            case 1:
                if (both) l.set(c.xs, c.u, c.xf, c.tof, c.T, c.isp, c.mu);
                else l.set(c.xs, c.u, c.xf, c.tof, c.T, c.isp, c.mu, c.cut);
                return l;
            default:
                if (both) l.set(split(c.xs), c.xs[6], c.u, split(c.xf), c.xf[6], c.tof, c.T, c.isp, c.mu);
                else l.set(split(c.xs), c.xs[6], c.u, split(c.xf), c.xf[6], c.tof, c.T, c.isp, c.mu, c.cut);
                return l;
        }
    }
    switch (g.n(7)) {
        case 0:
            route = "ctor(rvm)";
            return c.fresh();
        case 1:
            route = "ctor(rv,m)";
            return hf_t(split(c.xs), c.xs[6], c.u, split(c.xf), c.xf[6], c.tof, c.T, c.isp, c.mu, c.cut, c.tol);
        case 2: {
            route = "set(rvm)";
            hf_t l;
            l.set(c.xs, c.u, c.xf, c.tof, c.T, c.isp, c.mu, c.cut, c.tol);
            return l;
        }
        case 3: {
            route = "set(rv,m)";
            hf_t l;
            l.set(split(c.xs), c.xs[6], c.u, split(c.xf), c.xf[6], c.tof, c.T, c.isp, c.mu, c.cut, c.tol);
            return l;
        }
        case 4: {
            route = "set(rvm,throttles,rvm,tof) and setters";
            hf_t l;
            l.set_cut(c.cut);
            l.set_tol(c.tol);
            l.set_max_thrust(c.T);
            l.set(c.xs, c.u, c.xf, c.tof);
            l.set_mu(c.mu);
            l.set_isp(c.isp);
            return l;
        }
        default: {
            route = "setters:";
            hf_t l;
            std::vector<int> o{0, 1, 2, 3, 4, 5, 6, 7, 8};
            for (std::size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.n(i)]);
            for (int k : o) {
                route += std::to_string(k);
                switch (k) {
                    case 0:
                        if (g.p(0.5))
                            l.set_rvms(c.xs);
                        else {
                            l.set_rvs(split(c.xs));
                            l.set_ms(c.xs[6]);
                        }
                        break;
                    case 1:
                        if (g.p(0.5))
                            l.set_rvmf(c.xf);
                        else {
                            l.set_mf(c.xf[6]);
                            l.set_rvf(split(c.xf));
                        }
                        break;
                    case 2:
                        if (g.p(0.5))
                            l.set_throttles(c.u);
                        else
                            l.set_throttles(c.u.cbegin(), c.u.cend());
                        break;
                    case 3:
                        l.set_tof(c.tof);
                        break;
                    case 4:
                        l.set_max_thrust(c.T);
                        break;
                    case 5:
                        l.set_isp(c.isp);
                        break;
                    case 6:
                        l.set_mu(c.mu);
                        break;
                    case 7:
                        l.set_cut(c.cut);
                        break;
                    default:
                        l.set_tol(c.tol);
                }
            }
            return l;
        }
    }
}
inline double norm3(const LD *x) { return static_cast<double>(std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2])); }

// One side of a leg: the reference segments in the order they are flown, and bounds.
struct HfSide {
    std::vector<StarkSeg> seg;
    std::vector<std::array<LD, 3>> thrust;
    std::vector<unsigned> index;
    std::array<LD, 7> end;
    double L = 0, V = 0, m = 1;    // scales
    std::vector<double> nM;        // scaled matrix norms
    double e = 0;                  // scaled state error bound at the end
    std::vector<double> es;        // ... after each segment
    double kap = 0, norm = 1;      // matrix relative error, product of the norms
    bool ok = true;
    double sc(int i) const { return i < 3 ? L : i < 6 ? V : m; }
};
inline HfSide hf_side(const HfCase &c, unsigned nf, bool fwd, bool derivatives)
{
    HfSide s;
    const unsigned n = c.nseg(), k = fwd ? nf : n - nf;
    const LD dt = static_cast<LD>(c.tof) / n, veff = static_cast<LD>(c.isp) * 9.80665L;
    std::array<LD, 7> x;
    for (int i = 0; i < 7; ++i) x[i] = fwd ? c.xs[i] : c.xf[i];
    s.end = x;
    double Lm = norm3(&x[0]), LM = Lm, Vm = norm3(&x[3]), VM = Vm;
    s.m = static_cast<double>(x[6]);
    for (unsigned i = 0; i < k; ++i) {
        const unsigned q = fwd ? i : n - 1 - i;
        const std::array<LD, 3> u{static_cast<LD>(c.u[3 * q]) * c.T, static_cast<LD>(c.u[3 * q + 1]) * c.T, static_cast<LD>(c.u[3 * q + 2]) * c.T};
        const bool z = u[0] == 0 && u[1] == 0 && u[2] == 0;
        s.seg.push_back(stark_segment(x, u, c.mu, veff, fwd ? dt : -dt, derivatives && !z));
        s.thrust.push_back(u);
        s.index.push_back(q);
        StarkSeg &g = s.seg.back();
        if (!g.t.ok || g.t.mmin < 0.05 * s.m || g.t.steps > 300) {
            s.ok = false;
            return s;
        }
        if (z) { // derivatives w.r.t. the state still exist
            StarkSeg d = stark_segment(x, {1e-4000L, 0, 0}, c.mu, veff, fwd ? dt : -dt, true);
            g.M = d.M;
            for (auto &r : g.U) r = {0, 0, 0};
        } else if (!derivatives) {
            g.M = stark_segment(x, u, c.mu, veff, fwd ? dt : -dt, true).M;
        }
        x = g.x1;
        Lm = std::min(Lm, g.t.rmin);
        LM = std::max(LM, g.t.rmax);
        VM = std::max(VM, g.t.vmax);
        Vm = std::min(Vm, norm3(&x[3]));
    }
    s.end = x;
    s.L = std::sqrt(Lm * LM);
    s.V = std::sqrt(Vm * VM);
    if (!(s.L > 0 && s.V > 0)) {
        s.ok = false;
        return s;
    }
    s.e = 2 * EPS;
    for (auto &g : s.seg) {
        double nm = 0, big = 1, bigk = std::max(LM, VM);
        for (int i = 0; i < 7; ++i)
            for (int j = 0; j < 7; ++j) {
                const double y = static_cast<double>(g.M[i][j]);
                nm += std::pow(y * s.sc(j) / s.sc(i), 2);
                big = std::max(big, std::abs(y));
                if (i < 6) bigk = std::max(bigk, std::abs(y));
            }
        for (int i = 0; i < 7 && derivatives; ++i)
            for (int j = 0; j < 3; ++j) {
                const double y = std::abs(static_cast<double>(g.U[i][j]));
                big = std::max(big, y);
                if (i < 6) bigk = std::max(bigk, y);
            }
        nm = std::sqrt(nm);
        s.nM.push_back(nm);
        const double N = std::max({LM, VM, s.m});
        const double st = g.t.steps + 1;
        const double te = c.tol * std::max(1., N) / std::max(s.L, s.V);
        const double tv = c.tol * std::max(1., std::max(N, big)) / bigk;
        const double h = static_cast<double>(c.tof) / c.nseg();
        // time of flight and thrust enter rounded
        const double f = h * (s.V / s.L + c.mu / (s.L * s.L * s.V)) + std::abs(norm3(&s.thrust[s.nM.size() - 1][0])) * h / s.m / s.V;
        const double shape = (LM / Lm) * (VM / Vm) * std::max(1., s.L / (s.V * g.t.hmin));
        const double d = st * shape * (EPS + te) + EPS * f * c.nseg();
        s.kap += st * shape * (EPS + tv) + nm * shape * 3 * s.e + EPS * f * c.nseg();
        s.e = nm * (s.e + d);
        s.es.push_back(s.e);
        s.norm *= nm;
    }
    return s;
}
} // namespace vf

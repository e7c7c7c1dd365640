// Impulsive low-thrust leg: generator, quad-precision reference and rounding bounds.
#pragma once
#include "bounds.hpp"
#include <kep3/leg/sims_flanagan.hpp>
namespace vf
{
using ref::M6;
using ref::Q;
constexpr double G0_ = 9.80665;

struct LegCase {
    rv_t rvs, rvf;
    double ms, mf, tof, T, isp, mu, cut;
    std::vector<double> u;
    std::string regime;
    unsigned nseg() const { return static_cast<unsigned>(u.size() / 3); }
    kep3::leg::sims_flanagan make() const { return kep3::leg::sims_flanagan(rvs, ms, u, rvf, mf, tof, T, isp, mu, cut); }
    std::string str() const
    {
        return J().t("regime", regime).rv("rvs", rvs).d("ms", ms).a("throttles", u).rv("rvf", rvf).d("mf", mf).d("tof", tof).d("max_thrust", T).d("isp", isp).d("mu", mu).d("cut", cut).str();
    }
    std::uint64_t hash() const
    {
        return hash_vec(u, hash_vec(rvs[0], hash_vec(rvf[1], hash_vec(std::array<double, 5>{ms, tof, T, isp, cut}))));
    }
};
inline double gen_cut(Rng &g, unsigned n)
{
    const double r = g.u();
    if (r < 0.2) return 0.5;
    if (r < 0.3) return 0.;
    if (r < 0.4) return 1.;
    if (r < 0.5) return static_cast<double>(g.n(n + 1)) / n;
    if (r < 0.65) { // just below or above a boundary between segment counts
        const double k = static_cast<double>(1 + g.n(n));
        return std::min(1., std::max(0., (k - (g.p(0.7) ? 1 : -1) * g.logu(1e-15, 1e-1)) / n));
    }
    return g.u();
}
inline std::vector<double> gen_throttles(Rng &g, unsigned n)
{
    std::vector<double> u(3 * n);
    const double zero = g.p(0.4) ? g.u() : 0.;
    for (unsigned i = 0; i < n; ++i) {
        if (g.p(zero)) continue; // coasting
        const auto d = unit(g);
        const double r = g.p(0.15) ? 1. : g.p(0.1) ? g.u(1, 1.5) : g.p(0.05) ? g.logu(1e-6, 1e-3) : g.u();
        for (int j = 0; j < 3; ++j) u[3 * i + j] = r * d[j];
        if (g.p(0.1)) u[3 * i + g.n(3)] = 0.;
        if (g.p(0.05)) u[3 * i + g.n(3)] = u[3 * i + g.n(3)] = 0.;
    }
    return u;
}
inline LegCase leg_case(Rng &g, unsigned maxseg, bool benign)
{
    LegCase c;
    Orbit a;
    do {
        a = orbit(g, true, true, benign ? (g.p(0.15) ? 4 : g.p(0.2) ? 0 : 1) : -1);
    } while (std::abs(1 - a.e) < 1e-3);
    c.rvs = a.rv;
    c.mu = a.mu;
    c.regime = a.regime;
    const double P = period(a);
    c.tof = g.p(0.03) ? 0. : P * (a.e < 1 ? (g.p(0.8) ? g.u(0.02, 1.) : g.u(1., 3.)) : g.u(0.02, 1.) * (g.p(0.8) ? 1. : 3.));
    const double r = g.u();
    const double V = ref::d(ref::norm(ref::toQ(c.rvs[1]))), R = ref::d(ref::norm(ref::toQ(c.rvs[0])));
    (void)R;
    if (r < 0.5) { // ends near where ballistic motion would
        ref::RV y = ref::kepler(ref::toQ(c.rvs), c.tof, c.mu);
        c.rvf = ref::toD(y);
        for (int i = 0; i < 3; ++i) {
            c.rvf[0][i] *= 1 + 0.1 * g.gauss();
            c.rvf[1][i] *= 1 + 0.1 * g.gauss();
        }
    } else { // any other orbit of that size
        const double e = g.p(0.15) ? g.u(1.1, 3.) : g.u(0, 0.85);
        const double p = R * g.logu(0.3, 3.);
        const double fm = e < 1 ? M_PI : 0.8 * std::acos(-1 / e);
        c.rvf = ref::toD(ref::par2ic(p / (1 - e * e), e, std::acos(g.u(-1, 1)), angle(g), angle(g), g.u(-fm, fm), c.mu));
    }
    unsigned n = g.p(0.1) ? 1u : g.p(0.5) ? 1u + static_cast<unsigned>(g.n(5)) : 1u + static_cast<unsigned>(g.n(maxseg));
    c.u = gen_throttles(g, n);
    c.ms = g.logu(0.1, 1e4);
    c.mf = g.p(0.5) ? c.ms * g.u(0.3, 1.) : c.ms * g.u(0.5, 2);
    // total delta v / V at full throttle, and exhaust velocity / V
    const double dv = g.logu(1e-4, 1.);
    const double m = std::min(c.ms, c.mf);
    c.T = g.p(0.04) ? 0. : c.tof > 0 ? dv * V * m / c.tof : m * V / P;
    const double ve = V * (g.p(0.7) ? g.logu(0.3, 30.) : g.logu(30., 1e3)) * std::max(dv, 0.05) * 3;
    c.isp = ve / G0_;
    c.cut = gen_cut(g, n);
    return c;
}

// A leg with these settings, made in one of several ways.
inline kep3::leg::sims_flanagan leg_by_route(const LegCase &c, Rng &g, std::string &route)
{
    using leg_t = kep3::leg::sims_flanagan;
    const double r = g.u();
    if (r < 0.35) {
        route = "constructor";
        return c.make();
    }
    leg_t l;
    if (r < 0.55) {
        route = "set";
        if (g.p(0.5)) l.set_throttles(std::vector<double>(9, 0.1));
        l.set(c.rvs, c.ms, c.u, c.rvf, c.mf, c.tof, c.T, c.isp, c.mu, c.cut);
        return l;
    }
    std::vector<int> o{0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    for (std::size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.n(i)]);
    route = "setters:";
    for (int k : o) {
        route += std::to_string(k);
        switch (k) {
            case 0: l.set_rvs(c.rvs); break;
            case 1: l.set_rvf(c.rvf); break;
            case 2: l.set_ms(c.ms); break;
            case 3: l.set_mf(c.mf); break;
            case 4: l.set_tof(c.tof); break;
            case 5: l.set_max_thrust(c.T); break;
            case 6: l.set_isp(c.isp); break;
            case 7: l.set_mu(c.mu); break;
            case 8: l.set_cut(c.cut); break;
            default:
                if (g.p(0.5)) l.set_throttles(c.u);
                else l.set_throttles(c.u.cbegin(), c.u.cend());
        }
    }
    return l;
}

// ---- reference
struct QX {
    ref::RV x;
    Q m;
};
struct QLeg {
    ref::RV xs, xf;
    Q ms, mf, tof, T, isp, mu;
    std::vector<Q> u;
    unsigned nf;
    explicit QLeg(const LegCase &c, unsigned nf_)
        : xs(ref::toQ(c.rvs)), xf(ref::toQ(c.rvf)), ms(c.ms), mf(c.mf), tof(c.tof), T(c.T), isp(c.isp), mu(c.mu), u(c.u.begin(), c.u.end()), nf(nf_)
    {
    }
    unsigned n() const { return static_cast<unsigned>(u.size() / 3); }
    static QX burn(QX s, const Q *u, Q k, Q ve, Q sg)
    {
        Q nn = 0;
        for (int j = 0; j < 3; ++j) {
            const Q dv = k * u[j] / s.m;
            s.x.v[j] += sg * dv;
            nn += dv * dv;
        }
        s.m *= expq(-sg * sqrtq(nn) / ve);
        return s;
    }
    QX fwd() const
    {
        const Q dt = tof / n(), k = T * dt, ve = isp * Q(G0_);
        QX s{xs, ms};
        for (unsigned i = 0; i < nf; ++i) {
            s.x = ref::kepler(s.x, dt / 2, mu);
            s = burn(s, &u[3 * i], k, ve, 1);
            s.x = ref::kepler(s.x, dt / 2, mu);
        }
        return s;
    }
    QX bck() const
    {
        const Q dt = tof / n(), k = T * dt, ve = isp * Q(G0_);
        QX s{xf, mf};
        for (unsigned i = n(); i > nf; --i) {
            s.x = ref::kepler(s.x, -dt / 2, mu);
            s = burn(s, &u[3 * (i - 1)], k, ve, -1);
            s.x = ref::kepler(s.x, -dt / 2, mu);
        }
        return s;
    }
};
inline std::array<Q, 7> minus(const QX &a, const QX &b)
{
    return {a.x.r[0] - b.x.r[0], a.x.r[1] - b.x.r[1], a.x.r[2] - b.x.r[2], a.x.v[0] - b.x.v[0], a.x.v[1] - b.x.v[1], a.x.v[2] - b.x.v[2], a.m - b.m};
}
// Bounds of one side of the leg: state rounding error at the match point, matrix error and matrix norm (dimensionless).
struct SideBound {
    double r = 0, v = 0, m = 0; // state, mass
    double kap = 0, norm = 1;   // sum of relative matrix errors, product of matrix norms
    double L = 0, V = 0, dvV = 0; // length, speed, delta-v over speed
    double Rf = 0, Vf = 0, mt = 0; // magnitudes at the match point
    bool ok = true;
};
inline SideBound side_bound(const QLeg &q, bool forward)
{
    const double dt = ref::d(q.tof) / q.n(), mu = ref::d(q.mu);
    const Q k = q.T * q.tof / q.n(), ve = q.isp * Q(G0_);
    const double sg = forward ? 1 : -1;
    QX s = forward ? QX{q.xs, q.ms} : QX{q.xf, q.mf};
    SideBound b;
    const unsigned ns = forward ? q.nf : q.n() - q.nf;
    b.L = ref::d(ref::norm(s.x.r));
    b.V = ref::d(ref::norm(s.x.v));
    double Lm = b.L, LM = b.L, Vm = b.V, VM = b.V;
    struct Arc {
        M6 M;
        Q R0, V0, Rf, Vf;
    };
    std::vector<Arc> arcs;
    double mrel = 0;
    for (unsigned i = 0; i < ns + 1 && ns > 0; ++i) {
        const double d = (i == 0 || i == ns ? dt / 2 : dt) * sg;
        const rv_t xd = ref::toD(s.x);
        M6 M;
        const Prop p(xd, d, mu, &M);
        if (!p.info.ok) {
            b.ok = false;
            return b;
        }
        const RVB e = p.lagrange();
        double rr = 0, rv = 0, vr = 0, vv = 0;
        for (int a = 0; a < 3; ++a)
            for (int c = 0; c < 3; ++c) {
                rr += ref::d(M[a][c] * M[a][c]);
                rv += ref::d(M[a][c + 3] * M[a][c + 3]);
                vr += ref::d(M[a + 3][c] * M[a + 3][c]);
                vv += ref::d(M[a + 3][c + 3] * M[a + 3][c + 3]);
            }
        const double nr = e.r + std::sqrt(rr) * b.r + std::sqrt(rv) * b.v, nv = e.v + std::sqrt(vr) * b.r + std::sqrt(vv) * b.v;
        b.r = nr;
        b.v = nv;
        const double qq = (1 + p.A / p.R0 + p.R0 / p.A + p.s0 / std::sqrt(p.A)) * (1 + p.A / p.Rf);
        b.kap += (e.r / p.Rf + e.v / p.Vf) * qq + (b.r / p.Rf + b.v / p.Vf) * qq;
        s.x = p.xf;
        arcs.push_back({M, 0, 0, 0, 0});
        Lm = std::min({Lm, p.R0, p.Rf});
        LM = std::max({LM, p.R0, p.Rf});
        Vm = std::min({Vm, p.V0, p.Vf});
        VM = std::max({VM, p.V0, p.Vf});
        if (i < ns) {
            const unsigned seg = forward ? i : q.n() - 1 - i;
            const QX s2 = QLeg::burn(s, &q.u[3 * seg], k, ve, static_cast<Q>(sg));
            const double dv = ref::d(ref::norm(ref::sub(s2.x.v, s.x.v)));
            mrel += EPS * (3 + 4 * std::abs(dv / ref::d(ve))) + std::abs(dv / ref::d(ve)) * mrel;
            b.v += dv * (mrel + 4 * EPS) + EPS * ref::d(ref::norm(s2.x.v));
            b.dvV += dv;
            s = s2;
        }
    }
    b.L = std::sqrt(Lm * LM);
    b.V = std::sqrt(Vm * VM);
    b.dvV /= b.V;
    for (auto &a : arcs) {
        double x = 0;
        for (int i = 0; i < 6; ++i) {
            double y = 0;
            for (int j = 0; j < 6; ++j) y += std::abs(ref::d(a.M[i][j])) * (j < 3 ? b.L : b.V) / (i < 3 ? b.L : b.V);
            x = std::max(x, y);
        }
        b.norm *= x;
    }
    b.m = ref::d(s.m) * (mrel + EPS);
    b.Rf = ref::d(ref::norm(s.x.r));
    b.Vf = ref::d(ref::norm(s.x.v));
    b.mt = ref::d(s.m);
    return b;
}
} // namespace vf

// P21: low-thrust and three-body dynamics, their variations, and the integrator caches.
#include "hf.hpp"
#include <atomic>
#include <barrier>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <kep3/core_astro/propagate_lagrangian.hpp>
#include <kep3/stark_problem.hpp>
#include <kep3/ta/cr3bp.hpp>
#include <kep3/ta/stark.hpp>
#include <set>
#include <sstream>
#include <thread>
using namespace vf;

namespace
{
bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }
template <class A, class B>
bool same_seq(const A &a, const B &b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
// Every tolerance this process has asked each of the four caches for.
std::set<double> asked[4];

void stark(Recorder &rec, Rng &g)
{
    const bool calib = rec.opt.mode == "calib";
    HfCase c = hf_case(g, 1, g.p(0.2));
    c.u.resize(3);
    c.cut = 1;
    if (g.p(0.5)) c.tof = -c.tof;
    const S7 x = c.xs;
    const std::array<double, 3> u{c.u[0] * c.T, c.u[1] * c.T, c.u[2] * c.T};
    const double veff = c.isp * G0_;
    const bool coast = u[0] == 0 && u[1] == 0 && u[2] == 0;
    std::string route;
    auto in = [&] { return J().t("route", route).a("state", x).a("thrust", u).d("tof", c.tof).d("mu", c.mu).d("veff", veff).d("tol", c.tol).str(); };
    std::unique_ptr<kep3::stark_problem> sp;
    if (g.p(0.5)) {
        route = "constructor";
        sp = std::make_unique<kep3::stark_problem>(c.mu, veff, c.tol);
    } else {
        route = "setters";
        sp = std::make_unique<kep3::stark_problem>(g.u(0.1, 2), g.u(0.1, 2), c.tol);
        if (g.p(0.5)) { // used before
            const S7 y{1, 0, 0.1, 0, 1, 0, 1};
            (void)sp->propagate(y, {0.01, 0.02, 0.}, 1.);
            (void)sp->propagate_var(y, {0.01, 0.02, 0.}, 1.);
            route += " after use";
        }
        sp->set_veff(veff);
        sp->set_mu(c.mu);
    }
    asked[0].insert(c.tol);
    asked[1].insert(c.tol);
    if (g.p(0.2)) {
        route += ", archived";
        std::stringstream s;
        if (g.p(0.5)) {
            {
                boost::archive::binary_oarchive o(s);
                o << *sp;
            }
            boost::archive::binary_iarchive i(s);
            kep3::stark_problem t(1., 2., 1e-16);
            i >> t;
            *sp = t;
        } else {
            {
                boost::archive::text_oarchive o(s);
                o << *sp;
            }
            boost::archive::text_iarchive i(s);
            kep3::stark_problem t(1., 2., 1e-16);
            i >> t;
            *sp = t;
        }
        asked[0].insert(1e-16);
        asked[1].insert(1e-16);
    }
    rec.require("stark:getters", same(sp->get_mu(), c.mu) && same(sp->get_veff(), veff) && same(sp->get_tol(), c.tol) && same(sp->get_ta().get_tol(), c.tol) && same(sp->get_ta_var().get_tol(), c.tol), in);
    { // no mass
        S7 y = x;
        y[6] = g.p(0.5) ? 0. : -0.;
        int n = 0;
        try {
            (void)sp->propagate(y, u, c.tof);
        } catch (const std::domain_error &) {
            ++n;
        }
        try {
            (void)sp->propagate_var(y, u, c.tof);
        } catch (const std::domain_error &) {
            ++n;
        }
        rec.require("stark:refuses-no-mass", n == 2, in);
    }
    const HfSide s = hf_side(c, 1, true, true);
    if (!s.ok) {
        rec.ev("inconclusive:reference");
        return;
    }
    const double K = calib ? 1 : 30, KG = calib || c.tol < 1e-15 ? K : 60 * K;
    if (K * s.e > 1e-3) {
        rec.ev("skipped:ill-conditioned");
        return;
    }
    if (c.tof != 0) rec.nontriv(hash_vec(x, hash_vec(u, hash_vec(std::array<double, 3>{c.tof, c.mu, veff}))));
    rec.sample(in);
    const std::string reg = calib ? (c.tol < 1e-15 ? ":16" : c.tol < 1e-11 ? ":12" : ":8") : std::string();
    S7 y;
    try {
        y = sp->propagate(x, u, c.tof);
    } catch (const std::exception &e) {
        rec.violate("stark:throws", e.what(), in());
        return;
    }
    auto cmp = [&](const S7 &z, const char *what) {
        double e = 0;
        for (int i = 0; i < 6; ++i) {
            const double d = static_cast<double>(std::abs(s.end[i] - z[i])) / s.sc(i);
            if (!(d <= e)) e = d;
        }
        rec.check(std::string(what) + ":state" + reg, e, K * s.e, in);
        rec.check(std::string(what) + ":mass", static_cast<double>(std::abs(s.end[6] - z[6])), 400 * EPS * std::max(x[6], static_cast<double>(s.end[6])), in);
    };
    cmp(y, "stark");
    if (coast) { // two-body motion at constant mass
        const ref::RV k = ref::kepler(ref::toQ(split(x)), c.tof, c.mu);
        double e = 0;
        for (int i = 0; i < 3; ++i) {
            e = std::max(e, std::abs(ref::d(k.r[i] - y[i])) / s.L);
            e = std::max(e, std::abs(ref::d(k.v[i] - y[3 + i])) / s.V);
        }
        rec.check("stark:two-body", e, K * s.e, in);
        rec.require("stark:mass-kept", y[6] == x[6], in);
    }
    try {
        const auto [z, M, U] = sp->propagate_var(x, u, c.tof);
        if (coast) {
            rec.ev("variations-without-thrust:returned");
        } else {
            cmp(z, "stark-variational");
            if (KG * s.kap < 1e-3) {
                const auto &q = s.seg[0];
                double e = 0, f = 0, us = 0;
                for (int i = 0; i < 7; ++i)
                    for (int j = 0; j < 7; ++j) {
                        const double d = static_cast<double>(std::abs(q.M[i][j] - M[7 * i + j])) * s.sc(j) / s.sc(i);
                        if (!(d <= e)) e = d;
                    }
                rec.check("stark:d-state" + reg, e, KG * (s.kap + 4 * EPS) * s.norm, in);
                for (int i = 0; i < 7; ++i)
                    for (int j = 0; j < 3; ++j) {
                        const double d = static_cast<double>(std::abs(q.U[i][j] - U[3 * i + j])) / s.sc(i);
                        if (!(d <= f)) f = d;
                        us = std::max(us, static_cast<double>(std::abs(q.U[i][j])) / s.sc(i));
                    }
                rec.check("stark:d-thrust" + reg, f, KG * (s.kap + 10 * EPS) * us + 1e-300, in);
            } else
                rec.ev("skipped:ill-conditioned-variations");
        }
    } catch (const std::exception &e) {
        if (coast)
            rec.ev("variations-without-thrust:refused");
        else
            rec.violate("stark:variations-throw", e.what(), in());
    }
    // the same again, after the variational propagation
    rec.require("stark:repeatable", same_seq(sp->propagate(x, u, c.tof), y), in);
}

void cr3bp(Recorder &rec, Rng &g)
{
    const bool calib = rec.opt.mode == "calib";
    const double K = 1; // about 5000 times the largest ratio seen: the bound is loose where the third body is near
    const double tol = gen_tol(g), mu = g.p(0.1) ? 0.5 : g.p(0.1) ? 0. : g.p(0.5) ? g.logu(1e-7, 0.5) : g.u(0, 0.5);
    std::array<double, 6> x;
    for (int i = 0; i < 3; ++i) x[i] = g.u(-1.5, 1.5);
    for (int i = 3; i < 6; ++i) x[i] = g.u(-1, 1);
    if (g.p(0.2)) x[2] = x[5] = 0;
    if (g.p(0.1)) { // near a libration point of the equal or general problem
        x = {0.5 - mu + 1e-3 * g.gauss(), (g.sgn()) * std::sqrt(3.) / 2, 0, 0, 0, 0};
    }
    const double tof = g.p(0.02) ? 0. : g.sgn() * (g.p(0.7) ? g.u(0, 4) : g.logu(1e-6, 20));
    auto in = [&] { return J().a("state", x).d("mu", mu).d("tof", tof).d("tol", tol).str(); };
    // reference in sub-arcs
    using D = Dual<6>;
    const int parts = 8;
    std::array<LD, 6> y;
    for (int i = 0; i < 6; ++i) y[i] = x[i];
    std::array<std::array<LD, 6>, 6> M{};
    for (int i = 0; i < 6; ++i) M[i][i] = 1;
    double e = 2 * EPS, kap = 0, norm = 1, big = 1;
    double N = 1;
    for (double q : x) N = std::max(N, std::abs(q));
    for (int p = 0; p < parts; ++p) {
        std::array<D, 6> w;
        for (int i = 0; i < 6; ++i) w[i] = D::var(y[i], i);
        Trip t;
        Cr3bpRhs<D> f{D(mu)};
        const auto z = integrate(f, w, static_cast<LD>(tof) / parts, t);
        if (!t.ok || t.steps > 200) {
            rec.ev("inconclusive:reference");
            return;
        }
        double nm = 0;
        std::array<std::array<LD, 6>, 6> P{};
        for (int i = 0; i < 6; ++i)
            for (int j = 0; j < 6; ++j) {
                nm += std::pow(static_cast<double>(z[i].d[j]), 2);
                for (int k = 0; k < 6; ++k) P[i][j] += z[i].d[k] * M[k][j];
            }
        M = P;
        for (int i = 0; i < 6; ++i) {
            y[i] = z[i].v;
            N = std::max(N, static_cast<double>(std::abs(y[i])));
            for (int j = 0; j < 6; ++j) big = std::max(big, static_cast<double>(std::abs(M[i][j])));
        }
        nm = std::sqrt(nm);
        const double h = std::abs(tof) / parts;
        const double shape = std::max(1., t.rmax / t.rmin) * std::max(1., t.vmax) * std::max(1., 1 / t.hmin);
        const double d = (t.steps + 1) * shape * (EPS + tol * N);
        kap += (t.steps + 1) * shape * (EPS + tol * std::max(N, big)) + nm * shape * shape * 3 * e * (1 + h);
        e = nm * (e + d);
        norm *= nm;
    }
    auto ta = kep3::ta::get_ta_cr3bp(tol);
    auto tv = kep3::ta::get_ta_cr3bp_var(tol);
    asked[2].insert(tol);
    asked[3].insert(tol);
    if (K * e > 1e-3) {
        rec.ev("skipped:ill-conditioned");
        return;
    }
    if (tof != 0) rec.nontriv(hash_vec(x, hash_vec(std::array<double, 3>{mu, tof, tol})));
    rec.sample(in);
    const std::string reg = calib ? (tol < 1e-15 ? ":16" : tol < 1e-11 ? ":12" : ":8") : std::string();
    auto run = [&](heyoka::taylor_adaptive<double> &q) {
        *q.get_pars_data() = mu;
        q.set_time(0.);
        std::copy(x.begin(), x.end(), q.get_state_data());
        const auto o = q.propagate_until(tof);
        return std::get<0>(o) == heyoka::taylor_outcome::time_limit;
    };
    if (!rec.require("cr3bp:reaches", run(ta) && run(tv), in)) return;
    for (auto *q : {&ta, &tv}) {
        double d = 0;
        for (int i = 0; i < 6; ++i) {
            const double w = static_cast<double>(std::abs(y[i] - q->get_state()[i]));
            if (!(w <= d)) d = w;
        }
        rec.check(q == &ta ? "cr3bp:state" + reg : "cr3bp:variational-state" + reg, d, K * e, in);
    }
    // Jacobi constant
    auto jac = [&](const double *s, Q &size) {
        const Q m = mu, r1 = sqrtq((s[0] + m) * (s[0] + m) + Q(s[1]) * s[1] + Q(s[2]) * s[2]), r2 = sqrtq((s[0] + m - 1) * (s[0] + m - 1) + Q(s[1]) * s[1] + Q(s[2]) * s[2]);
        Q v2 = 0;
        for (int i = 3; i < 6; ++i) v2 += Q(s[i]) * s[i];
        size = sqrtq(v2) * 2 + Q(4) + 2 * (1 - m) / (r1 * r1) + 2 * m / (r2 * r2) + 2 * (fabsq(s[0]) + fabsq(s[1]));
        return Q(s[0]) * s[0] + Q(s[1]) * s[1] + 2 * (1 - m) / r1 + 2 * m / r2 - v2;
    };
    Q s0, s1;
    const Q j0 = jac(x.data(), s0), j1 = jac(ta.get_state().data(), s1);
    rec.check("cr3bp:jacobi", std::abs(ref::d(j1 - j0)), K * e * ref::d(s1), in);
    const double KG = K;
    if (KG * kap < 1e-3) {
        double d = 0;
        for (int i = 0; i < 6; ++i)
            for (int j = 0; j < 6; ++j) {
                const double w = static_cast<double>(std::abs(M[i][j] - tv.get_state()[6 + 6 * i + j]));
                if (!(w <= d)) d = w;
            }
        rec.check("cr3bp:d-state" + reg, d, KG * kap * norm, in);
    } else
        rec.ev("skipped:ill-conditioned-variations");
}

const heyoka::taylor_adaptive<double> &get(int k, double tol)
{
    switch (k) {
        case 0:
            return kep3::ta::get_ta_stark(tol);
        case 1:
            return kep3::ta::get_ta_stark_var(tol);
        case 2:
            return kep3::ta::get_ta_cr3bp(tol);
        default:
            return kep3::ta::get_ta_cr3bp_var(tol);
    }
}
std::size_t dim(int k)
{
    switch (k) {
        case 0:
            return kep3::ta::get_ta_stark_cache_dim();
        case 1:
            return kep3::ta::get_ta_stark_var_cache_dim();
        case 2:
            return kep3::ta::get_ta_cr3bp_cache_dim();
        default:
            return kep3::ta::get_ta_cr3bp_var_cache_dim();
    }
}
const char *names[] = {"stark", "stark-var", "cr3bp", "cr3bp-var"};
const unsigned dims[] = {7, 77, 6, 42};

std::map<std::pair<int, double>, const void *> where;

// Caches from many threads.
void caches(Recorder &rec, Rng &g)
{
    const unsigned T = 2 + static_cast<unsigned>(g.n(7));
    // new tolerances and known ones; the four caches live as long as the process
    std::vector<double> tols;
    for (int i = 0; i < 4; ++i) {
        if (g.p(0.5)) tols.push_back(g.logu(1e-16, 1e-5));
        else tols.push_back(gen_tol(g));
    }
    if (g.p(0.3)) tols.push_back(std::nextafter(tols[0], 1.)); // another tolerance
    struct Op {
        int k, t, what;
    };
    std::vector<std::vector<Op>> ops(T);
    for (auto &o : ops)
        for (int i = 0, n = 3 + static_cast<int>(g.n(10)); i < n; ++i) o.push_back({static_cast<int>(g.n(4)), static_cast<int>(g.n(tols.size())), static_cast<int>(g.n(5))});
    struct Seen {
        int k;
        double tol;
        const void *p;
        double got;
        std::size_t dim, state;
    };
    std::vector<std::vector<Seen>> seen(T);
    std::array<std::size_t, 4> before{dim(0), dim(1), dim(2), dim(3)};
    auto in = [&] { return J().a("tolerances", tols).i("threads", T).str(); };
    for (int k = 0; k < 4; ++k) rec.require(std::string("cache:dimension:") + names[k], before[k] == asked[k].size(), in, std::to_string(before[k]) + " integrators for " + std::to_string(asked[k].size()) + " tolerances");
    const S7 x{1, 0.1, -0.2, 0.1, 1, 0.2, 10.};
    kep3::stark_problem alone(1.1, 2.2, 1e-16);
    asked[0].insert(1e-16);
    asked[1].insert(1e-16);
    const auto want = alone.propagate(x, {0.1, 0.2, 0.3}, 0.7);
    std::atomic<int> wrong{0};
    std::barrier bar(T);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            bar.arrive_and_wait();
            std::size_t low[4] = {0, 0, 0, 0};
            for (const auto &o : ops[t]) {
                if (o.what == 4) { // every thread with a problem of its own
                    kep3::stark_problem mine(1.1, 2.2, 1e-16);
                    if (!same_seq(mine.propagate(x, {0.1, 0.2, 0.3}, 0.7), want)) ++wrong;
                    continue;
                }
                if (o.what == 3) {
                    const std::size_t d = dim(o.k);
                    if (d < low[o.k]) ++wrong;
                    low[o.k] = d;
                    continue;
                }
                const auto &a = get(o.k, tols[o.t]);
                seen[t].push_back({o.k, tols[o.t], &a, a.get_tol(), static_cast<std::size_t>(a.get_dim()), a.get_state().size()});
            }
        });
    for (auto &y : th) y.join();
    rec.ev("cache:threads", T);
    rec.require("cache:concurrent-results", wrong.load() == 0, in, std::to_string(wrong.load()) + " wrong results or shrinking caches");
    for (auto &v : seen)
        for (auto &s : v) {
            asked[s.k].insert(s.tol);
            auto [it, fresh] = where.emplace(std::make_pair(s.k, s.tol), s.p);
            rec.require(std::string("cache:one-per-tolerance:") + names[s.k], it->second == s.p, in);
            rec.require(std::string("cache:tolerance:") + names[s.k], same(s.got, s.tol), in, "asked for " + num(s.tol) + ", got " + num(s.got));
            rec.require(std::string("cache:kind:") + names[s.k], s.dim == dims[s.k] && s.state == dims[s.k], in);
        }
    std::map<std::pair<int, const void *>, double> back;
    for (auto &[k, p] : where) {
        auto [it, fresh] = back.emplace(std::make_pair(k.first, p), k.second);
        rec.require("cache:distinct", it->second == k.second, in, "one integrator for two tolerances");
    }
    for (int k = 0; k < 4; ++k) rec.require(std::string("cache:dimension:") + names[k], dim(k) == asked[k].size(), in, std::to_string(dim(k)) + " integrators for " + std::to_string(asked[k].size()) + " tolerances");
    rec.nontriv(hash_vec(tols, T));
    rec.sample(in);
}
} // namespace

int main(int argc, char **argv)
{
    return drive(argc, argv, 21, [](Recorder &rec, Rng &g, long i) {
        if (rec.opt.mode == "caches" || i % 10 == 9)
            caches(rec, g);
        else if (i % 2)
            cr3bp(rec, g);
        else
            stark(rec, g);
    });
}

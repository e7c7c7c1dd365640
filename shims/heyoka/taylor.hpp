// A small stand-in for heyoka's adaptive Taylor integrator: same interface (what kep3 uses), same order and step selection rules, evaluated by an
// interpreter of Taylor recurrences instead of compiled code.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include <boost/serialization/access.hpp>
#include <boost/serialization/vector.hpp>

#include <heyoka/expression.hpp>
#include <heyoka/kw.hpp>

namespace heyoka
{
enum class taylor_outcome : std::int64_t {
    success = -4294967296ll - 1,
    step_limit = -4294967296ll - 2,
    time_limit = -4294967296ll - 3,
    err_nf_state = -4294967296ll - 4,
    cb_stop = -4294967296ll - 5
};
struct step_callback_t {
};
struct continuous_output_t {
};

namespace detail
{
inline std::size_t step_limit = 200000; // of one propagation: no hang for singular arcs (heyoka itself has none unless asked)
struct ins {
    int o = 0, a = -1, b = -1, c = -1;
    double v = 0;
    template <class Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar & o;
        ar & a;
        ar & b;
        ar & c;
        ar & v;
    }
};
struct program {
    std::vector<ins> code; // the first dim entries are the state variables
    std::vector<int> rhs;
    unsigned npars = 0;
    template <class Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar & code;
        ar & rhs;
        ar & npars;
    }
};
struct compiler {
    program p;
    std::map<std::tuple<int, int, int, int, double>, int> known;
    std::map<std::string, int> vars;
    std::unordered_map<const node *, int> memo;
    int emit(const ins &i)
    {
        const auto key = std::make_tuple(i.o, i.a, i.b, i.c, i.v);
        if (auto it = known.find(key); it != known.end()) return it->second;
        p.code.push_back(i);
        return known[key] = static_cast<int>(p.code.size()) - 1;
    }
    int walk(const nptr &n)
    {
        if (auto it = memo.find(n.get()); it != memo.end()) return it->second;
        ins i;
        i.o = static_cast<int>(n->o);
        int r = -1;
        if (n->o == op::var) {
            auto it = vars.find(n->name);
            if (it == vars.end()) throw std::invalid_argument("mini-heyoka: the right-hand side contains the unknown variable " + n->name);
            r = it->second;
        } else {
            i.v = n->v;
            if (n->o == op::par) {
                i.a = static_cast<int>(n->idx);
                p.npars = std::max(p.npars, n->idx + 1);
            } else {
                if (n->a) i.a = walk(n->a);
                if (n->b) i.b = walk(n->b);
                if (n->c) i.c = walk(n->c);
            }
            r = emit(i);
        }
        memo[n.get()] = r;
        return r;
    }
};
} // namespace detail

template <typename T>
class taylor_adaptive;

template <>
class taylor_adaptive<double>
{
    std::shared_ptr<const detail::program> m_p;
    std::vector<double> m_state, m_pars;
    std::vector<expression> m_vargs; // not archived
    std::size_t m_dim = 1;
    unsigned m_norig = 1, m_vorder = 0, m_nvargs = 0, m_order = 0;
    double m_tol = 0, m_hi = 0, m_lo = 0, m_last_h = 0;

    void build(const std::vector<std::pair<expression, expression>> &sys)
    {
        detail::compiler c;
        for (const auto &e : sys) {
            if (e.first.ptr()->o != detail::op::var) throw std::invalid_argument("mini-heyoka: the left-hand side must be a variable");
            detail::ins i;
            i.o = static_cast<int>(detail::op::var);
            i.a = static_cast<int>(c.p.code.size());
            c.p.code.push_back(i);
            if (!c.vars.emplace(e.first.ptr()->name, i.a).second) throw std::invalid_argument("mini-heyoka: duplicate variable");
        }
        for (const auto &e : sys) c.p.rhs.push_back(c.walk(e.second.ptr()));
        m_p = std::make_shared<const detail::program>(std::move(c.p));
        m_dim = sys.size();
    }
    void finish(const std::vector<double> &st, double tol, std::vector<double> pars, bool)
    {
        if (tol == 0) tol = std::numeric_limits<double>::epsilon();
        if (!(tol > 0) || !std::isfinite(tol)) throw std::invalid_argument("mini-heyoka: the tolerance must be finite and positive");
        m_tol = tol;
        m_order = static_cast<unsigned>(std::max(2., std::ceil(-std::log(tol) / 2 + 1)));
        if (pars.size() < m_p->npars) pars.resize(m_p->npars, 0.);
        m_pars = std::move(pars);
        m_state = st;
        if (m_state.size() == m_norig && m_dim != m_norig) {
            m_state.resize(m_dim, 0.);
            for (std::size_t i = 0; i < m_norig; ++i)
                for (std::size_t j = 0; j < m_nvargs; ++j)
                    if (m_vargs[j].ptr()->o == detail::op::var && m_vargs[j].ptr()->name == m_names[i]) m_state[m_norig + i * m_nvargs + j] = 1.;
        }
        if (m_state.size() != m_dim) throw std::invalid_argument("mini-heyoka: inconsistent sizes of the state and of the system");
        for (double x : m_state)
            if (!std::isfinite(x)) throw std::invalid_argument("mini-heyoka: a non-finite value in the initial state");
    }
    std::vector<std::string> m_names;

    struct kws {
        double tol = 0, time = 0;
        std::vector<double> pars;
    };
    static void apply(kws &k, const kw::tol_v &v) { k.tol = v.v; }
    static void apply(kws &k, const kw::pars_v &v) { k.pars = v.v; }
    static void apply(kws &k, const kw::time_v &v) { k.time = v.v; }
    static void apply(kws &, const kw::bool_v &) {}

    // One step of at most max_h (signed). False: the step or the state became non finite.
    std::pair<bool, bool> step_impl(double max_h) // (finite, clamped)
    {
        using detail::op;
        const auto &code = m_p->code;
        const std::size_t N = code.size(), P = m_order;
        thread_local std::vector<double> w; // w[k*N + i]: order k of node i
        w.assign((P + 1) * N, 0.);
        for (std::size_t i = 0; i < m_dim; ++i) w[i] = m_state[i];
        for (std::size_t n = 0; n <= P; ++n) {
            double *cur = &w[n * N];
            if (n)
                for (std::size_t i = 0; i < m_dim; ++i) cur[i] = w[(n - 1) * N + static_cast<std::size_t>(m_p->rhs[i])] / static_cast<double>(n);
            if (n == P) break;
            const auto at = [&](std::size_t k, int i) { return w[k * N + static_cast<std::size_t>(i)]; };
            for (std::size_t q = m_dim; q < N; ++q) {
                const auto &I = code[q];
                double r = 0;
                switch (static_cast<op>(I.o)) {
                    case op::var: break;
                    case op::num: r = n ? 0 : I.v; break;
                    case op::par: r = n ? 0 : m_pars[static_cast<std::size_t>(I.a)]; break;
                    case op::add: r = at(n, I.a) + at(n, I.b); break;
                    case op::sub: r = at(n, I.a) - at(n, I.b); break;
                    case op::mul:
                        if (code[static_cast<std::size_t>(I.a)].o == static_cast<int>(op::num) || code[static_cast<std::size_t>(I.a)].o == static_cast<int>(op::par))
                            r = at(0, I.a) * at(n, I.b);
                        else
                            for (std::size_t j = 0; j <= n; ++j) r += at(j, I.a) * at(n - j, I.b);
                        break;
                    case op::div:
                        r = at(n, I.a);
                        for (std::size_t j = 1; j <= n; ++j) r -= at(j, I.b) * at(n - j, static_cast<int>(q));
                        r /= at(0, I.b);
                        break;
                    case op::pow:
                        if (!n)
                            r = std::pow(at(0, I.a), I.v);
                        else {
                            for (std::size_t j = 0; j < n; ++j)
                                r += (static_cast<double>(n) * I.v - static_cast<double>(j) * (I.v + 1)) * at(n - j, I.a) * at(j, static_cast<int>(q));
                            r /= static_cast<double>(n) * at(0, I.a);
                        }
                        break;
                    case op::sqrt:
                        if (!n)
                            r = std::sqrt(at(0, I.a));
                        else {
                            r = at(n, I.a);
                            for (std::size_t j = 1; j < n; ++j) r -= at(j, static_cast<int>(q)) * at(n - j, static_cast<int>(q));
                            r /= 2 * at(0, static_cast<int>(q));
                        }
                        break;
                    case op::eq: r = n ? 0 : static_cast<double>(at(0, I.a) == at(0, I.b)); break;
                    case op::select: r = at(0, I.a) != 0 ? at(n, I.b) : at(n, I.c); break;
                }
                cur[q] = r;
            }
        }
        // Step size as heyoka's (Jorba and Zou, relative or absolute by the size of the state)
        double n0 = 0, n1 = 0, n2 = 0;
        for (std::size_t i = 0; i < m_dim; ++i) {
            n0 = std::max(n0, std::abs(w[i]));
            n1 = std::max(n1, std::abs(w[(P - 1) * N + i]));
            n2 = std::max(n2, std::abs(w[P * N + i]));
            if (std::isnan(w[P * N + i]) || std::isnan(w[(P - 1) * N + i])) return {false, false};
        }
        const double num = n0 <= 1 ? 1. : n0;
        const double r1 = std::pow(num / n1, 1. / static_cast<double>(P - 1)), r2 = std::pow(num / n2, 1. / static_cast<double>(P));
        double h = std::min(r1, r2) * std::exp(-0.7 / static_cast<double>(P - 1)) / (std::exp(1.) * std::exp(1.));
        bool clamped = false;
        if (!(h < std::abs(max_h))) {
            h = std::abs(max_h);
            clamped = true;
        }
        h = std::copysign(h, max_h);
        for (std::size_t i = 0; i < m_dim; ++i) {
            double s = w[P * N + i];
            for (std::size_t k = P; k-- > 0;) s = s * h + w[k * N + i];
            m_state[i] = s;
        }
        m_last_h = h;
        // time in double-double
        const double s = m_hi + h, bb = s - m_hi, e = (m_hi - (s - bb)) + (h - bb) + m_lo;
        m_hi = s + e;
        m_lo = e - (m_hi - s);
        bool fin = std::isfinite(m_hi) && h != 0;
        for (double x : m_state) fin = fin && std::isfinite(x);
        return {fin, clamped};
    }
    double remaining(double t) const { return (t - m_hi) - m_lo; }

public:
    taylor_adaptive()
    {
        // as heyoka: a trivial system
        build({{expression(std::string("x")), expression(0.)}});
        m_names = {"x"};
        finish({0.}, 0., {}, true);
    }
    template <typename... K>
    explicit taylor_adaptive(const std::vector<std::pair<expression, expression>> &sys, const std::vector<double> &state, const K &...k)
    {
        kws a;
        (apply(a, k), ...);
        build(sys);
        m_norig = static_cast<unsigned>(m_dim);
        for (const auto &e : sys) m_names.push_back(e.first.ptr()->name);
        m_hi = a.time;
        finish(state, a.tol, a.pars, false);
    }
    template <typename... K>
    explicit taylor_adaptive(const var_ode_sys &v, const std::vector<double> &state, const K &...k)
    {
        kws a;
        (apply(a, k), ...);
        build(v.get_sys());
        m_norig = static_cast<unsigned>(v.get_n_orig_sv());
        m_vargs = v.get_vargs();
        m_nvargs = static_cast<unsigned>(m_vargs.size());
        m_vorder = v.get_order();
        for (const auto &e : v.get_sys()) m_names.push_back(e.first.ptr()->name);
        m_hi = a.time;
        finish(state, a.tol, a.pars, true);
    }

    const std::vector<double> &get_state() const { return m_state; }
    double *get_state_data() { return m_state.data(); }
    const double *get_state_data() const { return m_state.data(); }
    const std::vector<double> &get_pars() const { return m_pars; }
    double *get_pars_data() { return m_pars.data(); }
    const double *get_pars_data() const { return m_pars.data(); }
    double get_time() const { return m_hi; }
    void set_time(double t)
    {
        m_hi = t;
        m_lo = 0;
    }
    double get_tol() const { return m_tol; }
    unsigned get_order() const { return m_order; }
    std::size_t get_dim() const { return m_dim; }
    bool is_variational() const { return m_vorder > 0; }
    unsigned get_vorder() const { return m_vorder; }
    unsigned get_n_orig_sv() const { return m_norig; }
    const std::vector<expression> &get_vargs() const { return m_vargs; }
    double get_last_h() const { return m_last_h; }

    std::tuple<taylor_outcome, double, double, std::size_t, std::optional<continuous_output_t>, step_callback_t> propagate_until(double t)
    {
        if (!std::isfinite(m_hi)) throw std::invalid_argument("Cannot invoke propagate_until() of an adaptive Taylor integrator if the current time is not finite");
        if (!std::isfinite(t)) throw std::invalid_argument("A non-finite time was passed to the propagate_until() function of an adaptive Taylor integrator");
        if (!std::isfinite(remaining(t))) throw std::invalid_argument("The final time passed to propagate_until() results in an overflow condition");
        std::size_t n = 0;
        double lo = std::numeric_limits<double>::infinity(), hi = 0;
        while (true) {
            const double rem = remaining(t);
            if (rem == 0) return {taylor_outcome::time_limit, lo, hi, n, {}, {}};
            const auto [fin, clamped] = step_impl(rem);
            if (!fin) return {taylor_outcome::err_nf_state, lo, hi, n, {}, {}};
            ++n;
            lo = std::min(lo, std::abs(m_last_h));
            hi = std::max(hi, std::abs(m_last_h));
            if (clamped) {
                m_hi = t;
                m_lo = 0;
                return {taylor_outcome::time_limit, lo, hi, n, {}, {}};
            }
            if (n > detail::step_limit) return {taylor_outcome::step_limit, lo, hi, n, {}, {}};
        }
    }
    std::tuple<taylor_outcome, double, double, std::size_t, step_callback_t, std::vector<double>> propagate_grid(const std::vector<double> &g)
    {
        if (!std::isfinite(m_hi)) throw std::invalid_argument("Cannot invoke propagate_grid() in an adaptive Taylor integrator if the current time is not finite");
        if (g.empty()) throw std::invalid_argument("Cannot invoke propagate_grid() in an adaptive Taylor integrator if the time grid is empty");
        for (double x : g)
            if (!std::isfinite(x)) throw std::invalid_argument("A non-finite time value was passed to propagate_grid() in an adaptive Taylor integrator");
        if (g.size() > 1) {
            if (g[1] == g[0]) throw std::invalid_argument("A non-monotonic time grid was passed to propagate_grid() in an adaptive Taylor integrator");
            for (std::size_t i = 2; i < g.size(); ++i)
                if (!(g[i] != g[i - 1] && (g[i] > g[i - 1]) == (g[1] > g[0])))
                    throw std::invalid_argument("A non-monotonic time grid was passed to propagate_grid() in an adaptive Taylor integrator");
        }
        if (m_hi != g[0]) throw std::invalid_argument("When invoking propagate_grid(), the first element of the time grid must match the current time coordinate");
        std::vector<double> out(m_state);
        std::size_t n = 0;
        double lo = std::numeric_limits<double>::infinity(), hi = 0;
        for (std::size_t i = 1; i < g.size(); ++i) {
            const auto r = propagate_until(g[i]);
            n += std::get<3>(r);
            lo = std::min(lo, std::get<1>(r));
            hi = std::max(hi, std::get<2>(r));
            if (std::get<0>(r) != taylor_outcome::time_limit) return {std::get<0>(r), lo, hi, n, {}, out};
            out.insert(out.end(), m_state.begin(), m_state.end());
        }
        return {taylor_outcome::time_limit, lo, hi, n, {}, out};
    }

private:
    friend class boost::serialization::access;
    template <class Archive>
    void serialize(Archive &ar, unsigned)
    {
        if constexpr (Archive::is_saving::value) {
            detail::program p(*m_p);
            ar & p;
        } else {
            detail::program p;
            ar & p;
            m_p = std::make_shared<const detail::program>(std::move(p));
        }
        ar & m_state;
        ar & m_pars;
        ar & m_dim;
        ar & m_norig;
        ar & m_vorder;
        ar & m_nvargs;
        ar & m_order;
        ar & m_tol;
        ar & m_hi;
        ar & m_lo;
        ar & m_last_h;
    }
};
} // namespace heyoka

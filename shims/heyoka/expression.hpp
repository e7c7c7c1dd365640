// A small stand-in for heyoka's expressions (the library is not in this sandbox): the operations kep3's dynamics use, with exact symbolic differentiation.
#pragma once
#include <array>
#include <cstdint>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace heyoka
{
namespace detail
{
enum class op : int { num, var, par, add, sub, mul, div, pow, sqrt, select, eq };
struct node;
using nptr = std::shared_ptr<const node>;
struct node {
    op o = op::num;
    double v = 0;         // num: value; pow: exponent
    unsigned idx = 0;     // par
    std::string name;     // var
    nptr a, b, c;
};
inline nptr mk(op o, nptr a, nptr b = nullptr, nptr c = nullptr, double v = 0)
{
    auto n = std::make_shared<node>();
    n->o = o;
    n->a = std::move(a);
    n->b = std::move(b);
    n->c = std::move(c);
    n->v = v;
    return n;
}
inline nptr mknum(double v)
{
    auto n = std::make_shared<node>();
    n->v = v;
    return n;
}
inline bool isnum(const nptr &p, double v) { return p->o == op::num && p->v == v; }
} // namespace detail

class expression
{
    detail::nptr m_p;

public:
    expression() : m_p(detail::mknum(0)) {}
    expression(double v) : m_p(detail::mknum(v)) {}
    explicit expression(std::string s)
    {
        auto n = std::make_shared<detail::node>();
        n->o = detail::op::var;
        n->name = std::move(s);
        m_p = n;
    }
    explicit expression(detail::nptr p) : m_p(std::move(p)) {}
    const detail::nptr &ptr() const { return m_p; }
};

namespace detail
{
inline expression bin(op o, const expression &x, const expression &y)
{
    const auto &a = x.ptr(), &b = y.ptr();
    if (a->o == op::num && b->o == op::num) {
        switch (o) {
            case op::add: return a->v + b->v;
            case op::sub: return a->v - b->v;
            case op::mul: return a->v * b->v;
            default: return a->v / b->v;
        }
    }
    if (o == op::add && isnum(a, 0)) return y;
    if ((o == op::add || o == op::sub) && isnum(b, 0)) return x;
    if (o == op::mul && (isnum(a, 0) || isnum(b, 0))) return 0.;
    if (o == op::mul && isnum(a, 1)) return y;
    if ((o == op::mul || o == op::div) && isnum(b, 1)) return x;
    if (o == op::div && isnum(a, 0)) return 0.;
    return expression(mk(o, a, b));
}
} // namespace detail
inline expression operator+(const expression &a, const expression &b) { return detail::bin(detail::op::add, a, b); }
inline expression operator-(const expression &a, const expression &b) { return detail::bin(detail::op::sub, a, b); }
inline expression operator*(const expression &a, const expression &b) { return detail::bin(detail::op::mul, a, b); }
inline expression operator/(const expression &a, const expression &b) { return detail::bin(detail::op::div, a, b); }
inline expression operator-(const expression &a) { return expression(-1.) * a; }
inline expression operator+(const expression &a) { return a; }
inline expression &operator+=(expression &a, const expression &b) { return a = a + b; }
inline expression &operator-=(expression &a, const expression &b) { return a = a - b; }
inline expression &operator*=(expression &a, const expression &b) { return a = a * b; }
inline expression &operator/=(expression &a, const expression &b) { return a = a / b; }

inline expression sqrt(const expression &a) { return expression(detail::mk(detail::op::sqrt, a.ptr())); }
inline expression pow(const expression &a, double e)
{
    if (e == 0) return 1.;
    if (e == 0.5) return sqrt(a);
    if (e > 0 && e <= 16 && e == static_cast<int>(e)) { // small integer powers are products
        expression r = a;
        for (int i = 1; i < static_cast<int>(e); ++i) r = r * a;
        return r;
    }
    if (e < 0 && e >= -16 && e == static_cast<int>(e)) return expression(1.) / pow(a, -e);
    return expression(detail::mk(detail::op::pow, a.ptr(), nullptr, nullptr, e));
}
inline expression pow(const expression &a, const expression &e)
{
    if (e.ptr()->o != detail::op::num) throw std::invalid_argument("mini-heyoka: only constant exponents");
    return pow(a, e.ptr()->v);
}
inline expression sum(const std::vector<expression> &v)
{
    expression r = 0.;
    for (const auto &x : v) r = r + x;
    return r;
}
inline expression prod(const std::vector<expression> &v)
{
    expression r = 1.;
    for (const auto &x : v) r = r * x;
    return r;
}
inline expression eq(const expression &a, const expression &b) { return expression(detail::mk(detail::op::eq, a.ptr(), b.ptr())); }
inline expression select(const expression &c, const expression &t, const expression &f)
{
    return expression(detail::mk(detail::op::select, c.ptr(), t.ptr(), f.ptr()));
}

struct par_impl {
    expression operator[](unsigned i) const
    {
        auto n = std::make_shared<detail::node>();
        n->o = detail::op::par;
        n->idx = i;
        return expression(detail::nptr(n));
    }
};
inline constexpr par_impl par{};

template <typename... T>
std::array<expression, sizeof...(T)> make_vars(const T &...s)
{
    return {expression(std::string(s))...};
}

namespace detail
{
struct prime_wrapper {
    expression x;
    std::pair<expression, expression> operator=(const expression &rhs) && { return {x, rhs}; }
};
} // namespace detail
inline detail::prime_wrapper prime(const expression &x) { return {x}; }

namespace detail
{
// d(e)/d(x), x a variable or a parameter.
inline expression diff(const nptr &e, const node &x, std::unordered_map<const node *, expression> &memo)
{
    auto it = memo.find(e.get());
    if (it != memo.end()) return it->second;
    const auto E = [](const nptr &p) { return expression(p); };
    expression r = 0.;
    switch (e->o) {
        case op::num:
        case op::eq: break;
        case op::var: r = (x.o == op::var && x.name == e->name) ? 1. : 0.; break;
        case op::par: r = (x.o == op::par && x.idx == e->idx) ? 1. : 0.; break;
        case op::add: r = diff(e->a, x, memo) + diff(e->b, x, memo); break;
        case op::sub: r = diff(e->a, x, memo) - diff(e->b, x, memo); break;
        case op::mul: r = diff(e->a, x, memo) * E(e->b) + E(e->a) * diff(e->b, x, memo); break;
        case op::div: r = (diff(e->a, x, memo) - E(e) * diff(e->b, x, memo)) / E(e->b); break;
        case op::pow: r = expression(e->v) * pow(E(e->a), e->v - 1) * diff(e->a, x, memo); break;
        case op::sqrt: r = diff(e->a, x, memo) / (expression(2.) * E(e)); break;
        // As heyoka: both branches enter, so that a singular one shows even where it is not selected.
        case op::select:
            r = select(E(e->a), 1., 0.) * diff(e->b, x, memo) + select(E(e->a), 0., 1.) * diff(e->c, x, memo);
            break;
    }
    memo.emplace(e.get(), r);
    return r;
}
} // namespace detail
inline expression diff(const expression &e, const expression &x)
{
    std::unordered_map<const detail::node *, expression> memo;
    return detail::diff(e.ptr(), *x.ptr(), memo);
}

class var_ode_sys
{
    std::vector<std::pair<expression, expression>> m_sys;
    std::vector<expression> m_vargs;
    std::size_t m_n;
    unsigned m_order;

public:
    var_ode_sys(const std::vector<std::pair<expression, expression>> &sys, const std::vector<expression> &args, unsigned order = 1)
        : m_sys(sys), m_vargs(args), m_n(sys.size()), m_order(order)
    {
        if (order != 1) throw std::invalid_argument("mini-heyoka: first-order variational equations only");
        // phi_ij = dx_i/da_j, d(phi_ij)/dt = sum_k df_i/dx_k phi_kj + df_i/da_j (parameters only)
        const auto nm = [](std::size_t i, std::size_t j) { return "phi_" + std::to_string(i) + "_" + std::to_string(j); };
        for (std::size_t i = 0; i < m_n; ++i) {
            std::vector<expression> J;
            for (std::size_t k = 0; k < m_n; ++k) J.push_back(diff(sys[i].second, sys[k].first));
            for (std::size_t j = 0; j < args.size(); ++j) {
                expression r = 0.;
                for (std::size_t k = 0; k < m_n; ++k) r = r + J[k] * expression(nm(k, j));
                if (args[j].ptr()->o == detail::op::par) r = r + diff(sys[i].second, args[j]);
                m_sys.emplace_back(expression(nm(i, j)), r);
            }
        }
    }
    const auto &get_sys() const { return m_sys; }
    const auto &get_vargs() const { return m_vargs; }
    std::size_t get_n_orig_sv() const { return m_n; }
    unsigned get_order() const { return m_order; }
};
} // namespace heyoka

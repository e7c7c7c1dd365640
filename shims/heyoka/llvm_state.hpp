// A stand-in for heyoka's llvm_state: add_cfunc() "compiles" expressions of one variable into a function reached through a plain function pointer.
// As with the real one, every object (copies too) owns the code behind the pointers its jit_lookup() returns: it dies with the object, and
// calling it afterwards is reported (abort).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

#include <heyoka/expression.hpp>
#include <heyoka/taylor.hpp>

namespace heyoka
{
namespace detail
{
struct cfunc {
    std::string name;
    program p; // node 0 is the variable
    template <class Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar & name;
        ar & p;
    }
    void operator()(double *out, const double *in) const
    {
        std::vector<double> w(p.code.size());
        w[0] = in[0];
        for (std::size_t q = 1; q < w.size(); ++q) {
            const auto &I = p.code[q];
            const double a = I.a >= 0 ? w[static_cast<std::size_t>(I.a)] : 0, b = I.b >= 0 ? w[static_cast<std::size_t>(I.b)] : 0;
            switch (static_cast<op>(I.o)) {
                case op::num: w[q] = I.v; break;
                case op::add: w[q] = a + b; break;
                case op::sub: w[q] = a - b; break;
                case op::mul: w[q] = a * b; break;
                case op::div: w[q] = a / b; break;
                case op::pow: w[q] = std::pow(a, I.v); break;
                case op::sqrt: w[q] = std::sqrt(a); break;
                default: w[q] = std::nan(""); break;
            }
        }
        for (std::size_t i = 0; i < p.rhs.size(); ++i) out[i] = w[static_cast<std::size_t>(p.rhs[i])];
    }
};
constexpr std::size_t n_slots = 1024;
struct slots {
    std::array<std::shared_ptr<const cfunc>, n_slots> f;
    std::vector<std::size_t> used = std::vector<std::size_t>(n_slots, 0);
    std::mutex m;
    static slots &get()
    {
        static auto *s = new slots;
        return *s;
    }
    std::size_t take(std::shared_ptr<const cfunc> c)
    {
        std::lock_guard l(m);
        for (std::size_t i = 0; i < n_slots; ++i) {
            const auto k = (next + i) % n_slots;
            if (!f[k]) {
                f[k] = std::move(c);
                next = k + 1; // slots are not reused at once: a stale pointer shows
                return k;
            }
        }
        throw std::runtime_error("mini-heyoka: too many llvm_states");
    }
    void drop(std::size_t k)
    {
        std::shared_ptr<const cfunc> c;
        std::lock_guard l(m);
        std::swap(c, f[k]);
    }
    std::size_t next = 0;
};
template <std::size_t I>
void trampoline(double *out, const double *in, const double *, const double *) noexcept
{
    std::shared_ptr<const cfunc> c;
    {
        std::lock_guard l(slots::get().m);
        c = slots::get().f[I];
    }
    if (!c) {
        std::fprintf(stderr, "mini-heyoka: a compiled function was called after the llvm_state that owns it was destroyed\n");
        std::abort();
    }
    (*c)(out, in);
}
using tramp_t = void (*)(double *, const double *, const double *, const double *) noexcept;
template <std::size_t... I>
std::array<tramp_t, n_slots> tramps(std::index_sequence<I...>)
{
    return {&trampoline<I>...};
}
inline tramp_t tramp(std::size_t i)
{
    static const auto t = tramps(std::make_index_sequence<n_slots>{});
    return t[i];
}
} // namespace detail

class llvm_state
{
    std::vector<std::shared_ptr<const detail::cfunc>> m_f;
    std::vector<std::size_t> m_slot; // once compiled
    bool m_compiled = false;

    void place()
    {
        for (const auto &c : m_f) m_slot.push_back(detail::slots::get().take(c));
    }
    void release()
    {
        for (auto k : m_slot) detail::slots::get().drop(k);
        m_slot.clear();
        m_f.clear();
        m_compiled = false;
    }

public:
    llvm_state() = default;
    llvm_state(const llvm_state &o) : m_f(o.m_f), m_compiled(o.m_compiled)
    {
        if (m_compiled) place();
    }
    llvm_state(llvm_state &&o) noexcept : m_f(std::move(o.m_f)), m_slot(std::move(o.m_slot)), m_compiled(std::exchange(o.m_compiled, false))
    {
        o.m_f.clear();
        o.m_slot.clear();
    }
    llvm_state &operator=(const llvm_state &o)
    {
        if (this != &o) *this = llvm_state(o);
        return *this;
    }
    llvm_state &operator=(llvm_state &&o) noexcept
    {
        if (this != &o) {
            release();
            m_f = std::move(o.m_f);
            m_slot = std::move(o.m_slot);
            m_compiled = std::exchange(o.m_compiled, false);
            o.m_f.clear();
            o.m_slot.clear();
        }
        return *this;
    }
    ~llvm_state() { release(); }

    void vf_add(detail::cfunc c)
    {
        if (m_compiled) throw std::invalid_argument("mini-heyoka: add_cfunc() on a compiled llvm_state");
        m_f.push_back(std::make_shared<const detail::cfunc>(std::move(c)));
    }
    void compile()
    {
        if (m_compiled) throw std::invalid_argument("mini-heyoka: compile() on a compiled llvm_state");
        m_compiled = true;
        place();
    }
    std::uintptr_t jit_lookup(const std::string &name)
    {
        if (!m_compiled) throw std::invalid_argument("mini-heyoka: jit_lookup() on an llvm_state that is not compiled");
        for (std::size_t i = 0; i < m_f.size(); ++i)
            if (m_f[i]->name == name) return reinterpret_cast<std::uintptr_t>(detail::tramp(m_slot[i]));
        throw std::invalid_argument("mini-heyoka: no function " + name);
    }

private:
    friend class boost::serialization::access;
    void save(boost::archive::binary_oarchive &ar, unsigned) const
    {
        std::vector<detail::cfunc> v;
        for (const auto &c : m_f) v.push_back(*c);
        ar << v;
        ar << m_compiled;
    }
    void load(boost::archive::binary_iarchive &ar, unsigned)
    {
        std::vector<detail::cfunc> v;
        bool c = false;
        ar >> v;
        ar >> c;
        llvm_state s;
        for (auto &x : v) s.vf_add(std::move(x));
        if (c) s.compile();
        *this = std::move(s);
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()
};

template <typename T>
void add_cfunc(llvm_state &s, const std::string &name, const std::vector<expression> &fn, const std::vector<expression> &vars)
{
    if (vars.size() != 1 || vars[0].ptr()->o != detail::op::var) throw std::invalid_argument("mini-heyoka: add_cfunc() takes one variable");
    detail::compiler c;
    detail::ins i;
    i.o = static_cast<int>(detail::op::var);
    i.a = 0;
    c.p.code.push_back(i);
    c.vars.emplace(vars[0].ptr()->name, 0);
    for (const auto &e : fn) c.p.rhs.push_back(c.walk(e.ptr()));
    detail::cfunc f;
    f.name = name;
    f.p = std::move(c.p);
    s.vf_add(std::move(f));
}
} // namespace heyoka

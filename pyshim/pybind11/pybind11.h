// A stand-in for the part of pybind11 that kep3's Python module uses, with pybind11's rules: overloads tried in order without
// and then with implicit conversions, the same accepted argument types, the same Python types of results, the same
// translation of exceptions, shared (not copied) numpy buffers. Used to run the real pykep sources in this sandbox.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <structmember.h>
#include <array>
#include <chrono>
#include <complex>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>

#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 12

namespace pybind11
{
using ssize_t = Py_ssize_t;
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

class object;
class str;
template <typename T>
object cast(T &&x, return_value_policy = return_value_policy::automatic);
template <typename T>
T cast(const object &o);
template <typename T>
T cast_handle(PyObject *o);

struct error_already_set : std::runtime_error {
    PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    error_already_set() : std::runtime_error("Python exception") { PyErr_Fetch(&t, &v, &b); }
    error_already_set(const error_already_set &o) : std::runtime_error(o), t(o.t), v(o.v), b(o.b)
    {
        Py_XINCREF(t);
        Py_XINCREF(v);
        Py_XINCREF(b);
    }
    ~error_already_set() override
    {
        Py_XDECREF(t);
        Py_XDECREF(v);
        Py_XDECREF(b);
    }
    void restore()
    {
        PyErr_Restore(t, v, b);
        t = v = b = nullptr;
    }
};
struct cast_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

class handle
{
protected:
    PyObject *m_ptr = nullptr;

public:
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {}
    PyObject *ptr() const { return m_ptr; }
    bool is_none() const { return m_ptr == Py_None; }
    explicit operator bool() const { return m_ptr != nullptr; }
};

class accessor;
struct steal_t {
};
struct borrow_t {
};

class object : public handle
{
public:
    object() = default;
    object(PyObject *p, steal_t) : handle(p)
    {
        if (!p) throw error_already_set();
    }
    object(PyObject *p, borrow_t) : handle(p) { Py_XINCREF(p); }
    object(handle h) : handle(h) { Py_XINCREF(m_ptr); }
    object(const object &o) : handle(o) { Py_XINCREF(m_ptr); }
    object(object &&o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
    object &operator=(const object &o)
    {
        if (this != &o) {
            PyObject *q = m_ptr;
            m_ptr = o.m_ptr;
            Py_XINCREF(m_ptr);
            Py_XDECREF(q);
        }
        return *this;
    }
    object &operator=(object &&o) noexcept
    {
        if (this != &o) {
            PyObject *q = m_ptr;
            m_ptr = o.m_ptr;
            o.m_ptr = nullptr;
            Py_XDECREF(q);
        }
        return *this;
    }
    ~object() { Py_XDECREF(m_ptr); }
    handle release()
    {
        handle h(m_ptr);
        m_ptr = nullptr;
        return h;
    }
    accessor attr(const char *) const;
    accessor attr(const std::string &s) const;
    template <typename... A>
    object operator()(A &&...a) const
    {
        object t(PyTuple_New(sizeof...(A)), steal_t{});
        std::size_t i = 0;
        ((PyTuple_SET_ITEM(t.ptr(), i++, pybind11::cast(std::forward<A>(a)).release().ptr())), ...);
        return object(PyObject_Call(m_ptr, t.ptr(), nullptr), steal_t{});
    }
    bool equal(const object &o) const
    {
        const int r = PyObject_RichCompareBool(m_ptr, o.m_ptr, Py_EQ);
        if (r < 0) throw error_already_set();
        return r == 1;
    }
    bool is(const object &o) const { return m_ptr == o.m_ptr; }
    template <typename T>
    T cast() const
    {
        return cast_handle<T>(m_ptr);
    }
    template <typename I>
        requires std::is_integral_v<I>
    object operator[](I i) const
    {
        return object(PySequence_GetItem(m_ptr, static_cast<Py_ssize_t>(i)), steal_t{});
    }
    object operator[](const char *k) const { return object(PyMapping_GetItemString(m_ptr, k), steal_t{}); }
};

class accessor
{
    object m_o;
    std::string m_k;

public:
    accessor(object o, std::string k) : m_o(std::move(o)), m_k(std::move(k)) {}
    object get() const { return object(PyObject_GetAttrString(m_o.ptr(), m_k.c_str()), steal_t{}); }
    operator object() const { return get(); }
    template <typename T>
    accessor &operator=(T &&v)
    {
        const object x = pybind11::cast(std::forward<T>(v));
        if (PyObject_SetAttrString(m_o.ptr(), m_k.c_str(), x.ptr())) throw error_already_set();
        return *this;
    }
    template <typename... A>
    object operator()(A &&...a) const
    {
        return get()(std::forward<A>(a)...);
    }
    accessor attr(const char *k) const { return accessor(get(), k); }
    template <typename T>
    T cast() const
    {
        return get().template cast<T>();
    }
    bool is_none() const { return get().is_none(); }
    bool equal(const object &o) const { return get().equal(o); }
};
inline accessor object::attr(const char *k) const
{
    return accessor(*this, k);
}
inline accessor object::attr(const std::string &k) const
{
    return accessor(*this, k);
}

class none : public object
{
public:
    none() : object(Py_None, borrow_t{}) {}
};
class str : public object
{
public:
    str(const char *s = "") : object(PyUnicode_FromString(s), steal_t{}) {}
    str(const std::string &s) : object(PyUnicode_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size())), steal_t{}) {}
    explicit str(const object &o) : object(PyObject_Str(o.ptr()), steal_t{}) {}
    operator std::string() const { return cast_handle<std::string>(m_ptr); }
};
class bytes : public object
{
public:
    bytes() : object(PyBytes_FromString(""), steal_t{}) {}
    bytes(const std::string &s) : object(PyBytes_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size())), steal_t{}) {}
};
class float_ : public object
{
public:
    float_(double d = 0) : object(PyFloat_FromDouble(d), steal_t{}) {}
};
class int_ : public object
{
public:
    int_(long d = 0) : object(PyLong_FromLong(d), steal_t{}) {}
};
class bool_ : public object
{
public:
    bool_(bool d = false) : object(PyBool_FromLong(d), steal_t{}) {}
};
class tuple : public object
{
public:
    tuple() : object(PyTuple_New(0), steal_t{}) {}
    tuple(PyObject *p, steal_t s) : object(p, s) {}
    tuple(PyObject *p, borrow_t s) : object(p, s) {}
    std::size_t size() const { return static_cast<std::size_t>(PyTuple_Size(m_ptr)); }
};
class list : public object
{
public:
    list() : object(PyList_New(0), steal_t{}) {}
    list(PyObject *p, steal_t s) : object(p, s) {}
    list(PyObject *p, borrow_t s) : object(p, s) {}
    template <typename T>
    void append(T &&x)
    {
        PyList_Append(m_ptr, pybind11::cast(std::forward<T>(x)).ptr());
    }
};
class dict : public object
{
public:
    dict() : object(PyDict_New(), steal_t{}) {}
    dict(PyObject *p, borrow_t s) : object(p, s) {}
};
class capsule : public object
{
    static void destroy(PyObject *c)
    {
        auto f = reinterpret_cast<void (*)(void *)>(PyCapsule_GetContext(c));
        if (f) f(PyCapsule_GetPointer(c, PyCapsule_GetName(c)));
    }

public:
    capsule(const void *p, void (*f)(void *)) : object(PyCapsule_New(const_cast<void *>(p), nullptr, destroy), steal_t{})
    {
        PyCapsule_SetContext(m_ptr, reinterpret_cast<void *>(f));
    }
};
inline ssize_t len(const object &o)
{
    const auto n = PyObject_Length(o.ptr());
    if (n < 0) throw error_already_set();
    return n;
}
inline bool hasattr(const object &o, const char *s)
{
    return PyObject_HasAttrString(o.ptr(), s) == 1;
}
inline bool isinstance(const object &o, const object &t)
{
    const int r = PyObject_IsInstance(o.ptr(), t.ptr());
    if (r < 0) throw error_already_set();
    return r == 1;
}
template <typename... A>
tuple make_tuple(A &&...a)
{
    tuple t(PyTuple_New(sizeof...(A)), steal_t{});
    std::size_t i = 0;
    ((PyTuple_SET_ITEM(t.ptr(), i++, pybind11::cast(std::forward<A>(a)).release().ptr())), ...);
    return t;
}

// ------------------------------------------------------------------ functions
struct arg_v;
struct arg {
    const char *name;
    bool conv = true;
    constexpr explicit arg(const char *n) : name(n) {}
    arg &noconvert()
    {
        conv = false;
        return *this;
    }
    template <typename T>
    arg_v operator=(T &&) const;
};
struct arg_v : arg {
    object value;
    arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
};
template <typename T>
arg_v arg::operator=(T &&v) const
{
    return arg_v(*this, pybind11::cast(std::forward<T>(v)));
}

namespace detail
{
struct instance {
    PyObject_HEAD void *value;
    void (*del)(void *);
    PyObject *parent;
    PyObject *dict;
};
inline std::map<std::type_index, PyTypeObject *> &types()
{
    static auto *m = new std::map<std::type_index, PyTypeObject *>;
    return *m;
}
struct try_next {
};

struct arg_rec {
    std::string name;
    object def;
    bool conv = true;
};
struct overload {
    std::function<PyObject *(std::vector<PyObject *> &, const std::vector<bool> &)> call; // throws try_next
    std::vector<arg_rec> args;
    std::size_t n = 0; // parameters, self included
    bool method = false;
};
struct func {
    std::string name, doc, scope;
    std::vector<overload> ov;
    PyMethodDef def{};
};
inline std::map<std::pair<PyObject *, std::string>, func *> &siblings()
{
    static auto *m = new std::map<std::pair<PyObject *, std::string>, func *>;
    return *m;
}

inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kw)
{
    auto *f = static_cast<func *>(PyCapsule_GetPointer(self, "vf.func"));
    const auto na = static_cast<std::size_t>(PyTuple_GET_SIZE(args));
    const auto nk = kw ? static_cast<std::size_t>(PyDict_Size(kw)) : 0;
    try {
        for (int pass = 0; pass < 2; ++pass) {
            if (pass == 0 && f->ov.size() == 1) continue; // pybind11: a single overload goes straight to conversions
            for (auto &o : f->ov) {
                if (na > o.n) continue;
                std::vector<PyObject *> v(o.n, nullptr);
                std::vector<bool> conv(o.n, pass == 1);
                for (std::size_t i = 0; i < na; ++i) v[i] = PyTuple_GET_ITEM(args, i);
                std::size_t used = 0;
                bool ok = true;
                const std::size_t off = o.method ? 1 : 0;
                for (std::size_t i = 0; i < o.n && ok; ++i) {
                    if (i >= off && i - off < o.args.size()) {
                        auto &a = o.args[i - off];
                        if (!a.conv) conv[i] = false;
                        if (kw && nk) {
                            PyObject *k = PyDict_GetItemString(kw, a.name.c_str());
                            if (k) {
                                if (v[i]) {
                                    ok = false; // given twice
                                    break;
                                }
                                v[i] = k;
                                ++used;
                            }
                        }
                        if (!v[i] && a.def.ptr()) v[i] = a.def.ptr();
                    }
                    if (!v[i]) ok = false;
                }
                if (!ok || used != nk) continue;
                try {
                    return o.call(v, conv);
                } catch (const try_next &) {
                    PyErr_Clear();
                }
            }
        }
    } catch (error_already_set &e) {
        e.restore();
        return nullptr;
    } catch (const cast_error &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    } catch (const std::bad_alloc &e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
        return nullptr;
    } catch (const std::domain_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
        return nullptr;
    } catch (const std::invalid_argument &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
        return nullptr;
    } catch (const std::length_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
        return nullptr;
    } catch (const std::out_of_range &e) {
        PyErr_SetString(PyExc_IndexError, e.what());
        return nullptr;
    } catch (const std::range_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
        return nullptr;
    } catch (const std::overflow_error &e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
        return nullptr;
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
        return nullptr;
    }
    PyErr_SetString(PyExc_TypeError, (f->name + "(): incompatible function arguments. The following argument types are supported: (" + std::to_string(f->ov.size()) + " overloads)").c_str());
    return nullptr;
}

// ------------------------------------------------------------------ casters
template <typename T, typename = void>
struct caster; // value casters: T value; bool load(PyObject*, bool convert); static PyObject *to(const T&, policy, parent)

template <typename T>
struct is_value : std::false_type {
};

template <typename T>
PyObject *make_instance(T *p, bool own, PyObject *parent)
{
    const auto it = types().find(typeid(T));
    if (it == types().end()) {
        if (own) delete p;
        PyErr_SetString(PyExc_TypeError, (std::string("Unregistered type : ") + typeid(T).name()).c_str());
        throw error_already_set();
    }
    auto *i = reinterpret_cast<instance *>(it->second->tp_alloc(it->second, 0));
    if (!i) throw error_already_set();
    i->value = const_cast<std::remove_const_t<T> *>(p);
    i->del = own ? +[](void *q) { delete static_cast<T *>(q); } : nullptr;
    i->parent = parent;
    Py_XINCREF(parent);
    return reinterpret_cast<PyObject *>(i);
}

// registered classes and enumerations
template <typename T, typename>
struct caster {
    T *p = nullptr;
    bool load(PyObject *h, bool)
    {
        const auto it = types().find(typeid(T));
        if (it == types().end() || !PyObject_TypeCheck(h, it->second)) return false;
        p = static_cast<T *>(reinterpret_cast<instance *>(h)->value);
        return p != nullptr;
    }
};

template <typename T>
struct vcaster {
    T value{};
};
#define VF_VALUE(...)                                                                                                  \
    template <>                                                                                                        \
    struct is_value<__VA_ARGS__> : std::true_type {                                                                    \
    }
template <typename T>
    requires std::is_floating_point_v<T>
struct is_value<T> : std::true_type {
};
template <typename T>
    requires(std::is_integral_v<T>)
struct is_value<T> : std::true_type {
};
template <typename T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> : vcaster<T> {
    bool load(PyObject *h, bool convert)
    {
        if (!convert && !PyFloat_Check(h)) return false;
        double d = PyFloat_AsDouble(h);
        if (d == -1 && PyErr_Occurred()) {
            const bool te = PyErr_ExceptionMatches(PyExc_TypeError);
            PyErr_Clear();
            if (te && convert && PyNumber_Check(h)) {
                PyObject *q = PyNumber_Float(h);
                if (!q) {
                    PyErr_Clear();
                    return false;
                }
                d = PyFloat_AsDouble(q);
                Py_DECREF(q);
            } else
                return false;
        }
        this->value = static_cast<T>(d);
        return true;
    }
    static PyObject *to(T v, return_value_policy, PyObject *) { return PyFloat_FromDouble(static_cast<double>(v)); }
};
template <>
struct caster<bool> : vcaster<bool> {
    bool load(PyObject *h, bool convert)
    {
        if (h == Py_True) {
            value = true;
            return true;
        }
        if (h == Py_False) {
            value = false;
            return true;
        }
        const char *n = Py_TYPE(h)->tp_name;
        if (convert || !std::strcmp(n, "numpy.bool_") || !std::strcmp(n, "numpy.bool")) {
            if (h == Py_None) {
                value = false;
                return true;
            }
            if (Py_TYPE(h)->tp_as_number && Py_TYPE(h)->tp_as_number->nb_bool) {
                const int r = Py_TYPE(h)->tp_as_number->nb_bool(h);
                if (r == 0 || r == 1) {
                    value = r == 1;
                    return true;
                }
                PyErr_Clear();
            }
        }
        return false;
    }
    static PyObject *to(bool v, return_value_policy, PyObject *) { return PyBool_FromLong(v); }
};
template <typename T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> : vcaster<T> {
    bool load(PyObject *h, bool convert)
    {
        if (PyFloat_Check(h)) return false;
        if (!convert && !PyLong_Check(h) && !PyIndex_Check(h)) return false;
        PyObject *q = PyNumber_Index(h);
        if (!q) {
            PyErr_Clear();
            if (!convert || !PyNumber_Check(h)) return false;
            q = PyNumber_Long(h);
            if (!q) {
                PyErr_Clear();
                return false;
            }
        }
        bool ok = true;
        if constexpr (std::is_unsigned_v<T>) {
            const unsigned long long x = PyLong_AsUnsignedLongLong(q);
            ok = !PyErr_Occurred() && x <= static_cast<unsigned long long>(std::numeric_limits<T>::max());
            this->value = static_cast<T>(x);
        } else {
            const long long x = PyLong_AsLongLong(q);
            ok = !PyErr_Occurred() && x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max();
            this->value = static_cast<T>(x);
        }
        PyErr_Clear();
        Py_DECREF(q);
        return ok;
    }
    static PyObject *to(T v, return_value_policy, PyObject *)
    {
        if constexpr (std::is_unsigned_v<T>) return PyLong_FromUnsignedLongLong(v);
        else return PyLong_FromLongLong(v);
    }
};
VF_VALUE(std::string);
template <>
struct caster<std::string> : vcaster<std::string> {
    bool load(PyObject *h, bool)
    {
        Py_ssize_t n = 0;
        if (PyUnicode_Check(h)) {
            const char *s = PyUnicode_AsUTF8AndSize(h, &n);
            if (!s) {
                PyErr_Clear();
                return false;
            }
            value.assign(s, static_cast<std::size_t>(n));
            return true;
        }
        if (PyBytes_Check(h)) {
            value.assign(PyBytes_AS_STRING(h), static_cast<std::size_t>(PyBytes_GET_SIZE(h)));
            return true;
        }
        return false;
    }
    static PyObject *to(const std::string &s, return_value_policy, PyObject *)
    {
        PyObject *r = PyUnicode_DecodeUTF8(s.data(), static_cast<Py_ssize_t>(s.size()), nullptr);
        if (!r) throw error_already_set();
        return r;
    }
};

template <typename T>
PyObject *to_py(T &&x, return_value_policy pol, PyObject *parent);

inline bool is_seq(PyObject *h)
{
    return PySequence_Check(h) && !PyUnicode_Check(h) && !PyBytes_Check(h);
}
template <typename T>
bool load_into(PyObject *h, bool convert, T &out);

template <typename T, std::size_t N>
struct is_value<std::array<T, N>> : std::true_type {
};
template <typename T, std::size_t N>
struct caster<std::array<T, N>> : vcaster<std::array<T, N>> {
    bool load(PyObject *h, bool convert)
    {
        if (!is_seq(h)) return false;
        const auto n = PySequence_Size(h);
        if (n != static_cast<Py_ssize_t>(N)) {
            PyErr_Clear();
            return false;
        }
        for (std::size_t i = 0; i < N; ++i) {
            PyObject *q = PySequence_GetItem(h, static_cast<Py_ssize_t>(i));
            if (!q) throw error_already_set();
            const bool ok = load_into(q, convert, this->value[i]);
            Py_DECREF(q);
            if (!ok) return false;
        }
        return true;
    }
    static PyObject *to(const std::array<T, N> &v, return_value_policy p, PyObject *par)
    {
        PyObject *l = PyList_New(N);
        for (std::size_t i = 0; i < N; ++i) PyList_SET_ITEM(l, static_cast<Py_ssize_t>(i), to_py(v[i], p, par));
        return l;
    }
};
template <typename T>
struct is_value<std::vector<T>> : std::true_type {
};
template <typename T>
struct caster<std::vector<T>> : vcaster<std::vector<T>> {
    bool load(PyObject *h, bool convert)
    {
        if (!is_seq(h)) return false;
        const auto n = PySequence_Size(h);
        if (n < 0) {
            PyErr_Clear();
            return false;
        }
        this->value.clear();
        for (Py_ssize_t i = 0; i < n; ++i) {
            PyObject *q = PySequence_GetItem(h, i);
            if (!q) throw error_already_set();
            T x{};
            const bool ok = load_into(q, convert, x);
            Py_DECREF(q);
            if (!ok) return false;
            this->value.push_back(std::move(x));
        }
        return true;
    }
    static PyObject *to(const std::vector<T> &v, return_value_policy p, PyObject *par)
    {
        PyObject *l = PyList_New(static_cast<Py_ssize_t>(v.size()));
        Py_ssize_t i = 0;
        for (const auto &x : v) PyList_SET_ITEM(l, i++, to_py(x, p, par));
        return l;
    }
};
template <typename A, typename B>
struct is_value<std::pair<A, B>> : std::true_type {
};
template <typename A, typename B>
struct caster<std::pair<A, B>> : vcaster<std::pair<A, B>> {
    bool load(PyObject *h, bool convert)
    {
        if (!is_seq(h) || PySequence_Size(h) != 2) {
            PyErr_Clear();
            return false;
        }
        object a(PySequence_GetItem(h, 0), steal_t{}), b(PySequence_GetItem(h, 1), steal_t{});
        return load_into(a.ptr(), convert, this->value.first) && load_into(b.ptr(), convert, this->value.second);
    }
    static PyObject *to(const std::pair<A, B> &v, return_value_policy p, PyObject *par)
    {
        PyObject *t = PyTuple_New(2);
        PyTuple_SET_ITEM(t, 0, to_py(v.first, p, par));
        PyTuple_SET_ITEM(t, 1, to_py(v.second, p, par));
        return t;
    }
};
template <typename... A>
struct is_value<std::tuple<A...>> : std::true_type {
};
template <typename... A>
struct caster<std::tuple<A...>> : vcaster<std::tuple<A...>> {
    bool load(PyObject *h, bool convert)
    {
        if (!is_seq(h) || PySequence_Size(h) != static_cast<Py_ssize_t>(sizeof...(A))) {
            PyErr_Clear();
            return false;
        }
        return std::apply(
            [&](auto &...x) {
                Py_ssize_t i = 0;
                return (... && [&](auto &y) {
                    object q(PySequence_GetItem(h, i++), steal_t{});
                    return load_into(q.ptr(), convert, y);
                }(x));
            },
            this->value);
    }
    static PyObject *to(const std::tuple<A...> &v, return_value_policy p, PyObject *par)
    {
        PyObject *t = PyTuple_New(sizeof...(A));
        std::apply(
            [&](const auto &...x) {
                Py_ssize_t i = 0;
                ((PyTuple_SET_ITEM(t, i++, to_py(x, p, par))), ...);
            },
            v);
        return t;
    }
};
template <typename T>
struct is_value<std::optional<T>> : std::true_type {
};
template <typename T>
struct caster<std::optional<T>> : vcaster<std::optional<T>> {
    bool load(PyObject *h, bool convert)
    {
        if (h == Py_None) {
            this->value.reset();
            return true;
        }
        T x{};
        if (!load_into(h, convert, x)) return false;
        this->value = std::move(x);
        return true;
    }
    static PyObject *to(const std::optional<T> &v, return_value_policy p, PyObject *par)
    {
        if (!v) {
            Py_INCREF(Py_None);
            return Py_None;
        }
        return to_py(*v, p, par);
    }
};
template <typename... A>
struct is_value<std::variant<A...>> : std::true_type {
};
template <typename... A>
struct caster<std::variant<A...>> : vcaster<std::variant<A...>> {
    template <typename T>
    bool alt(PyObject *h, bool convert)
    {
        T x{};
        if (!load_into(h, convert, x)) return false;
        this->value = std::move(x);
        return true;
    }
    bool load(PyObject *h, bool convert)
    {
        if (convert && (... || alt<A>(h, false))) return true;
        return (... || alt<A>(h, convert));
    }
    static PyObject *to(const std::variant<A...> &v, return_value_policy p, PyObject *par)
    {
        return std::visit([&](const auto &x) { return to_py(x, p, par); }, v);
    }
};
template <typename R, typename P>
struct is_value<std::chrono::duration<R, P>> : std::true_type {
};
template <typename R, typename P>
struct caster<std::chrono::duration<R, P>> : vcaster<std::chrono::duration<R, P>> {
    bool load(PyObject *h, bool)
    {
        using D = std::chrono::duration<R, P>;
        if (PyFloat_Check(h)) {
            this->value = std::chrono::duration_cast<D>(std::chrono::duration<double>(PyFloat_AsDouble(h)));
            return true;
        }
        static PyObject *dt = PyObject_GetAttrString(PyImport_ImportModule("datetime"), "timedelta");
        if (PyObject_IsInstance(h, dt) != 1) {
            PyErr_Clear();
            return false;
        }
        const object o(h, borrow_t{});
        using days = std::chrono::duration<int, std::ratio<86400>>;
        this->value = std::chrono::duration_cast<D>(days(o.attr("days").cast<int>()) + std::chrono::seconds(o.attr("seconds").cast<int>())
                                                    + std::chrono::microseconds(o.attr("microseconds").cast<int>()));
        return true;
    }
    static PyObject *to(const std::chrono::duration<R, P> &d, return_value_policy, PyObject *)
    {
        const auto us = std::chrono::duration_cast<std::chrono::microseconds>(d).count();
        static PyObject *dt = PyObject_GetAttrString(PyImport_ImportModule("datetime"), "timedelta");
        return PyObject_CallFunction(dt, "iiL", 0, 0, static_cast<long long>(us));
    }
};
// Python objects
template <typename T>
inline constexpr bool is_pyobj = std::is_base_of_v<handle, T>;
template <typename T>
    requires is_pyobj<T>
struct is_value<T> : std::true_type {
};
template <typename T>
struct caster<T, std::enable_if_t<is_pyobj<T>>> : vcaster<T> {
    bool load(PyObject *h, bool)
    {
        if constexpr (std::is_same_v<T, tuple>) {
            if (!PyTuple_Check(h)) return false;
        }
        if constexpr (std::is_same_v<T, dict>) {
            if (!PyDict_Check(h)) return false;
        }
        if constexpr (std::is_same_v<T, list>) {
            if (!PyList_Check(h)) return false;
        }
        if constexpr (std::is_same_v<T, bytes>) {
            if (!PyBytes_Check(h)) return false;
        }
        if constexpr (std::is_same_v<T, str>) {
            if (!PyUnicode_Check(h)) return false;
        }
        static_cast<object &>(this->value) = object(h, borrow_t{});
        return true;
    }
    static PyObject *to(const T &v, return_value_policy, PyObject *)
    {
        Py_XINCREF(v.ptr());
        return v.ptr();
    }
};

template <typename T>
PyObject *to_py(T &&x, return_value_policy pol, PyObject *parent)
{
    using U = std::remove_cvref_t<T>;
    if constexpr (std::is_same_v<U, accessor>) {
        return x.get().release().ptr();
    } else if constexpr (std::is_same_v<U, const char *> || std::is_same_v<U, char *> || (std::is_array_v<U>)) {
        return PyUnicode_FromString(x);
    } else if constexpr (std::is_pointer_v<U>) {
        if (!x) {
            Py_INCREF(Py_None);
            return Py_None;
        }
        using V = std::remove_pointer_t<U>;
        if constexpr (is_value<std::remove_cv_t<V>>::value) {
            return caster<std::remove_cv_t<V>>::to(*x, pol, parent);
        } else {
            if (pol == return_value_policy::reference_internal) return make_instance<V>(x, false, parent);
            if (pol == return_value_policy::reference || pol == return_value_policy::automatic_reference) return make_instance<V>(x, false, nullptr);
            if (pol == return_value_policy::copy) return make_instance<V>(new V(*x), true, nullptr);
            return make_instance<V>(x, true, nullptr);
        }
    } else if constexpr (is_value<U>::value) {
        return caster<U>::to(x, pol, parent);
    } else {
        if constexpr (std::is_lvalue_reference_v<T>) {
            if (pol == return_value_policy::reference_internal) return make_instance<U>(const_cast<U *>(&x), false, parent);
        }
        return make_instance<U>(new U(std::forward<T>(x)), true, nullptr);
    }
}
template <typename T>
bool load_into(PyObject *h, bool convert, T &out)
{
    caster<T> c;
    if (!c.load(h, convert)) return false;
    if constexpr (is_value<T>::value) out = std::move(c.value);
    else out = *c.p;
    return true;
}

// The caster's value as the parameter type A.
template <typename A>
decltype(auto) as(caster<std::remove_cv_t<std::remove_pointer_t<std::remove_cvref_t<A>>>> &c)
{
    using U = std::remove_cv_t<std::remove_pointer_t<std::remove_cvref_t<A>>>;
    if constexpr (std::is_pointer_v<std::remove_cvref_t<A>>) {
        return c.p;
    } else if constexpr (is_value<U>::value) {
        if constexpr (std::is_lvalue_reference_v<A>) return static_cast<U &>(c.value);
        else return static_cast<U &&>(c.value);
    } else
        return static_cast<U &>(*c.p);
}

template <typename... A>
struct loader {
    std::tuple<caster<std::remove_cv_t<std::remove_pointer_t<std::remove_cvref_t<A>>>>...> cs;
    void load(std::vector<PyObject *> &v, const std::vector<bool> &conv, std::size_t off = 0)
    {
        load_(v, conv, off, std::index_sequence_for<A...>{});
    }
    template <std::size_t... I>
    void load_(std::vector<PyObject *> &v, const std::vector<bool> &conv, std::size_t off, std::index_sequence<I...>)
    {
        if (!(... && std::get<I>(cs).load(v[I + off], conv[I + off]))) throw try_next{};
    }
    template <typename F>
    decltype(auto) apply(F &&f)
    {
        return apply_(f, std::index_sequence_for<A...>{});
    }
    template <typename F, std::size_t... I>
    decltype(auto) apply_(F &f, std::index_sequence<I...>)
    {
        return f(as<A>(std::get<I>(cs))...);
    }
};

template <typename R, typename... A>
struct sig {
};
template <typename F>
struct sig_of;
template <typename R, typename... A>
struct sig_of<R (*)(A...)> {
    using type = sig<R, A...>;
};
template <typename R, typename... A>
struct sig_of<R (*)(A...) noexcept> {
    using type = sig<R, A...>;
};
#define VF_MEM(...)                                                                                                    \
    template <typename R, typename C, typename... A>                                                                   \
    struct sig_of<R (C::*)(A...) __VA_ARGS__> {                                                                        \
        using type = sig<R, A...>;                                                                                     \
        using cls = C;                                                                                                 \
    }
VF_MEM();
VF_MEM(const);
VF_MEM(noexcept);
VF_MEM(const noexcept);
VF_MEM(&);
VF_MEM(const &);
VF_MEM(& noexcept);
VF_MEM(const & noexcept);

struct extras {
    std::vector<arg_rec> args;
    std::string doc;
    return_value_policy pol = return_value_policy::automatic;
    void add(const arg_v &a) { args.push_back({a.name, a.value, a.conv}); }
    void add(const arg &a) { args.push_back({a.name, object(), a.conv}); }
    void add(const char *d) { doc = d; }
    void add(const std::string &d) { doc = d; }
    void add(return_value_policy p) { pol = p; }
};

template <typename F, typename R, typename... A>
overload make_overload(F f, sig<R, A...>, const extras &x, bool method)
{
    overload o;
    o.args = x.args;
    o.n = sizeof...(A);
    o.method = method;
    const auto pol = x.pol;
    o.call = [f, pol](std::vector<PyObject *> &v, const std::vector<bool> &conv) -> PyObject * {
        loader<A...> l;
        l.load(v, conv);
        if constexpr (std::is_void_v<R>) {
            l.apply(f);
            Py_INCREF(Py_None);
            return Py_None;
        } else {
            return to_py<R>(l.apply(f), pol, v.empty() ? nullptr : v[0]);
        }
    };
    return o;
}
// any callable; T is the class for methods (member functions of a base are called on T)
template <typename T, typename F>
overload any_overload(F f, const extras &x, bool method)
{
    if constexpr (std::is_member_function_pointer_v<F>) {
        return [&]<typename R, typename... A>(sig<R, A...> *) {
            if constexpr (std::is_invocable_v<F, const T &, A...>) {
                auto g = [f](const T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
                return make_overload(g, sig<R, const T &, A...>{}, x, true);
            } else {
                auto g = [f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
                return make_overload(g, sig<R, T &, A...>{}, x, true);
            }
        }(static_cast<typename sig_of<F>::type *>(nullptr));
    } else if constexpr (std::is_pointer_v<F>) {
        return make_overload(f, typename sig_of<F>::type{}, x, method);
    } else {
        return make_overload(f, typename sig_of<decltype(&F::operator())>::type{}, x, method);
    }
}

inline PyObject *function_object(func *f)
{
    f->def.ml_name = f->name.c_str();
    f->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void *>(dispatch));
    f->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    f->def.ml_doc = f->doc.c_str();
    PyObject *cap = PyCapsule_New(f, "vf.func", nullptr);
    PyObject *r = PyCFunction_NewEx(&f->def, cap, nullptr);
    Py_DECREF(cap);
    return r;
}
enum class where { module, method, statik };
inline void add_function(PyObject *scope, const char *name, overload o, const std::string &doc, where w)
{
    auto &f = siblings()[{scope, name}];
    if (f) {
        f->ov.push_back(std::move(o));
        return;
    }
    f = new func;
    f->name = name;
    f->doc = doc;
    f->ov.push_back(std::move(o));
    PyObject *p = function_object(f);
    if (w == where::method) {
        PyObject *q = PyInstanceMethod_New(p);
        Py_DECREF(p);
        p = q;
    } else if (w == where::statik) {
        PyObject *q = PyStaticMethod_New(p);
        Py_DECREF(p);
        p = q;
    }
    if (PyObject_SetAttrString(scope, name, p)) throw error_already_set();
    Py_DECREF(p);
}

inline void dealloc(PyObject *o)
{
    auto *i = reinterpret_cast<instance *>(o);
    if (i->value && i->del) i->del(i->value);
    Py_XDECREF(i->parent);
    Py_XDECREF(i->dict);
    PyTypeObject *t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
}
inline PyObject *make_new(PyTypeObject *t, PyObject *, PyObject *)
{
    return t->tp_alloc(t, 0);
}
inline int no_init(PyObject *o, PyObject *, PyObject *)
{
    PyErr_SetString(PyExc_TypeError, (std::string(Py_TYPE(o)->tp_name) + ": No constructor defined!").c_str());
    return -1;
}
} // namespace detail

template <typename T>
object cast(T &&x, return_value_policy p)
{
    return object(detail::to_py(std::forward<T>(x), p, nullptr), steal_t{});
}
template <typename T>
T cast_handle(PyObject *o)
{
    using U = std::remove_cvref_t<T>;
    detail::caster<U> c;
    if (!c.load(o, true)) {
        PyErr_Clear();
        throw cast_error(std::string("Unable to cast Python instance to C++ type ") + typeid(U).name());
    }
    if constexpr (detail::is_value<U>::value) return std::move(c.value);
    else return *c.p;
}
template <typename T>
T cast(const object &o)
{
    return cast_handle<T>(o.ptr());
}

// ------------------------------------------------------------------ numpy
class array : public object
{
public:
    struct ShapeContainer {
        std::vector<ssize_t> v;
        ShapeContainer(std::initializer_list<ssize_t> l) : v(l) {}
    };
    array() = default;
};
namespace detail
{
struct buffer_owner {
    PyObject_HEAD double *p;
    Py_ssize_t n;
    PyObject *base;
};
inline int bo_get(PyObject *o, Py_buffer *b, int flags)
{
    auto *s = reinterpret_cast<buffer_owner *>(o);
    return PyBuffer_FillInfo(b, o, s->p, s->n * static_cast<Py_ssize_t>(sizeof(double)), 0, flags);
}
inline void bo_free(PyObject *o)
{
    Py_XDECREF(reinterpret_cast<buffer_owner *>(o)->base);
    PyTypeObject *t = Py_TYPE(o);
    t->tp_free(o);
    Py_DECREF(t);
}
inline PyTypeObject *bo_type()
{
    static PyTypeObject *t = [] {
        static PyType_Slot s[] = {{Py_bf_getbuffer, reinterpret_cast<void *>(bo_get)}, {Py_tp_dealloc, reinterpret_cast<void *>(bo_free)}, {0, nullptr}};
        static PyType_Spec sp{"vf.buffer_owner", sizeof(buffer_owner), 0, Py_TPFLAGS_DEFAULT, s};
        return reinterpret_cast<PyTypeObject *>(PyType_FromSpec(&sp));
    }();
    return t;
}
inline object numpy()
{
    return object(PyImport_ImportModule("numpy"), steal_t{});
}
} // namespace detail
template <typename T>
class array_t : public array
{
    static_assert(std::is_same_v<T, double>);

public:
    array_t() = default;
    array_t(const ShapeContainer &s, const T *p, const object &base = object())
    {
        Py_ssize_t n = 1;
        PyObject *t = PyTuple_New(static_cast<Py_ssize_t>(s.v.size()));
        for (std::size_t i = 0; i < s.v.size(); ++i) {
            n *= s.v[i];
            PyTuple_SET_ITEM(t, static_cast<Py_ssize_t>(i), PyLong_FromSsize_t(s.v[i]));
        }
        const object shape(t, steal_t{});
        auto *b = PyObject_New(detail::buffer_owner, detail::bo_type());
        b->n = n;
        b->base = base.ptr();
        Py_XINCREF(b->base);
        static double dummy;
        b->p = p ? const_cast<double *>(p) : &dummy;
        const object own(reinterpret_cast<PyObject *>(b), steal_t{});
        static_cast<object &>(*this) = detail::numpy().attr("ndarray")(shape, std::string("float64"), own);
    }
};
namespace detail
{
template <>
struct caster<array_t<double>> : vcaster<array_t<double>> {
    bool load(PyObject *h, bool)
    {
        try {
            static_cast<object &>(value) = numpy().attr("asarray")(object(h, borrow_t{}), std::string("float64"));
        } catch (error_already_set &) {
            return false;
        }
        return true;
    }
    static PyObject *to(const array_t<double> &v, return_value_policy, PyObject *)
    {
        Py_XINCREF(v.ptr());
        return v.ptr();
    }
};
template <typename R, typename... A>
struct vectorized {
    R (*f)(A...);
    template <std::size_t... I>
    object call(const std::array<object, sizeof...(A)> &in, std::index_sequence<I...>) const
    {
        const object np = numpy();
        const object b = np.attr("broadcast_arrays")(in[I]...);
        object first = b[std::size_t(0)];
        const object shape = first.attr("shape");
        const object lists[] = {object(b[I].attr("ravel")().attr("tolist")())...};
        const auto n = static_cast<std::size_t>(len(lists[0]));
        std::vector<double> out(n);
        for (std::size_t k = 0; k < n; ++k) out[k] = f(static_cast<A>(lists[I][k].template cast<double>())...);
        if (len(shape) == 0) return pybind11::cast(out[0]);
        return np.attr("asarray")(out, std::string("float64")).attr("reshape")(shape);
    }
    object operator()(array_t<std::conditional_t<true, double, A>>... a) const
    {
        return call({object(a)...}, std::index_sequence_for<A...>{});
    }
};
} // namespace detail
template <typename R, typename... A>
auto vectorize(R (*f)(A...))
{
    return detail::vectorized<R, A...>{f};
}

// ------------------------------------------------------------------ module, classes
class module_ : public object
{
public:
    module_() = default;
    explicit module_(object o) : object(std::move(o)) {}
    static module_ import(const char *n) { return module_(object(PyImport_ImportModule(n), steal_t{})); }
    accessor doc() { return attr("__doc__"); }
    template <typename F, typename... X>
    module_ &def(const char *name, F &&f, const X &...x)
    {
        detail::extras e;
        (e.add(x), ...);
        detail::add_function(m_ptr, name, detail::any_overload<void>(std::decay_t<F>(f), e, false), e.doc, detail::where::module);
        return *this;
    }
    module_ def_submodule(const char *name, const char *doc = nullptr)
    {
        const std::string full = std::string(PyModule_GetName(m_ptr)) + "." + name;
        module_ r(object(PyImport_AddModule(full.c_str()), borrow_t{}));
        if (doc) r.attr("__doc__") = std::string(doc);
        attr(name) = r;
        return r;
    }
};
using module = module_;

struct options {
    options &disable_function_signatures() { return *this; }
    options &disable_user_defined_docstrings() { return *this; }
};
struct dynamic_attr {
};
template <typename... A>
struct init_t {
};
template <typename F>
struct init_f {
    F f;
};
template <typename... A>
init_t<A...> init()
{
    return {};
}
template <typename F>
init_f<std::decay_t<F>> init(F &&f)
{
    return {std::forward<F>(f)};
}
template <typename G, typename S>
struct pickle_t {
    G g;
    S s;
};
template <typename G, typename S>
pickle_t<std::decay_t<G>, std::decay_t<S>> pickle(G &&g, S &&s)
{
    return {std::forward<G>(g), std::forward<S>(s)};
}
template <typename... A>
struct overload_cast_t {
    template <typename R>
    constexpr auto operator()(R (*f)(A...)) const noexcept
    {
        return f;
    }
    template <typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const noexcept
    {
        return f;
    }
    template <typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const noexcept
    {
        return f;
    }
};
template <typename... A>
inline constexpr overload_cast_t<A...> overload_cast{};

namespace detail
{
template <typename T>
void put(PyObject *self, T *p)
{
    auto *i = reinterpret_cast<instance *>(self);
    if (i->value && i->del) i->del(i->value);
    i->value = p;
    i->del = [](void *q) { delete static_cast<T *>(q); };
}
template <typename T, typename... A>
overload ctor(const extras &x, init_t<A...>)
{
    overload o;
    o.args = x.args;
    o.n = sizeof...(A) + 1;
    o.method = true;
    o.call = [](std::vector<PyObject *> &v, const std::vector<bool> &conv) -> PyObject * {
        loader<A...> l;
        l.load(v, conv, 1);
        auto mk = [](auto &&...a) {
            if constexpr (std::is_constructible_v<T, A...>) return new T(static_cast<A>(std::forward<decltype(a)>(a))...);
            else return new T{static_cast<A>(std::forward<decltype(a)>(a))...};
        };
        put<T>(v[0], l.apply(mk));
        Py_INCREF(Py_None);
        return Py_None;
    };
    return o;
}
template <typename T, typename F, typename R, typename... A>
overload factory(const extras &x, F f, sig<R, A...>)
{
    overload o;
    o.args = x.args;
    o.n = sizeof...(A) + 1;
    o.method = true;
    o.call = [f](std::vector<PyObject *> &v, const std::vector<bool> &conv) -> PyObject * {
        loader<A...> l;
        l.load(v, conv, 1);
        put<T>(v[0], new T(l.apply(f)));
        Py_INCREF(Py_None);
        return Py_None;
    };
    return o;
}
template <typename F>
auto sig_any(const F &)
{
    if constexpr (std::is_pointer_v<F>) return typename sig_of<F>::type{};
    else return typename sig_of<decltype(&F::operator())>::type{};
}
inline PyObject *type_dict_get(PyObject *self, void *)
{
    auto *i = reinterpret_cast<instance *>(self);
    if (!i->dict) i->dict = PyDict_New();
    Py_XINCREF(i->dict);
    return i->dict;
}
} // namespace detail

template <typename T>
class class_ : public object
{
    std::string m_name;

    void create(const object &scope, const char *name, const std::string &doc, bool dyn)
    {
        std::string mod = "core";
        if (PyModule_Check(scope.ptr())) mod = PyModule_GetName(scope.ptr());
        else mod = pybind11::cast<std::string>(scope.attr("__module__"));
        const auto *full = new std::string(mod + "." + name);
        static PyMemberDef members[] = {{"__dictoffset__", T_PYSSIZET, offsetof(detail::instance, dict), READONLY, nullptr}, {nullptr, 0, 0, 0, nullptr}};
        static PyGetSetDef gs[] = {{"__dict__", detail::type_dict_get, nullptr, nullptr, nullptr}, {nullptr, nullptr, nullptr, nullptr, nullptr}};
        std::vector<PyType_Slot> s{{Py_tp_new, reinterpret_cast<void *>(detail::make_new)},
                                   {Py_tp_init, reinterpret_cast<void *>(detail::no_init)},
                                   {Py_tp_dealloc, reinterpret_cast<void *>(detail::dealloc)},
                                   {Py_tp_doc, const_cast<char *>((new std::string(doc))->c_str())}};
        if (dyn) {
            s.push_back({Py_tp_members, members});
            s.push_back({Py_tp_getset, gs});
        }
        s.push_back({0, nullptr});
        PyType_Spec sp{full->c_str(), sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, s.data()};
        static_cast<object &>(*this) = object(PyType_FromSpec(&sp), steal_t{});
        Py_INCREF(m_ptr); // types are never freed
        if (detail::types().count(typeid(T))) {
            PyErr_SetString(PyExc_ImportError, (std::string("type already registered: ") + name).c_str());
            throw error_already_set();
        }
        detail::types()[typeid(T)] = reinterpret_cast<PyTypeObject *>(m_ptr);
        if (!PyModule_Check(scope.ptr())) {
            attr("__qualname__") = pybind11::cast<std::string>(scope.attr("__qualname__")) + "." + name;
        }
        object(scope).attr(name) = static_cast<const object &>(*this);
    }
    struct ctor_opts {
        std::string doc;
        bool dyn = false;
        void add(const char *d) { doc = d; }
        void add(const std::string &d) { doc = d; }
        void add(dynamic_attr) { dyn = true; }
    };

public:
    template <typename... X>
    class_(const object &scope, const char *name, const X &...x) : m_name(name)
    {
        ctor_opts o;
        (o.add(x), ...);
        create(scope, name, o.doc, o.dyn);
    }
    template <typename F, typename... X>
        requires(!std::is_same_v<std::decay_t<F>, arg>)
    class_ &def(const char *name, F &&f, const X &...x)
    {
        detail::extras e;
        (e.add(x), ...);
        detail::add_function(m_ptr, name, detail::any_overload<T>(std::decay_t<F>(f), e, true), e.doc, detail::where::method);
        if (!std::strcmp(name, "__eq__") && !PyDict_GetItemString(reinterpret_cast<PyTypeObject *>(m_ptr)->tp_dict, "__hash__")) attr("__hash__") = none();
        return *this;
    }
    template <typename... A, typename... X>
    class_ &def(init_t<A...> i, const X &...x)
    {
        detail::extras e;
        (e.add(x), ...);
        detail::add_function(m_ptr, "__init__", detail::ctor<T>(e, i), e.doc, detail::where::method);
        return *this;
    }
    template <typename F, typename... X>
    class_ &def(init_f<F> i, const X &...x)
    {
        detail::extras e;
        (e.add(x), ...);
        detail::add_function(m_ptr, "__init__", detail::factory<T>(e, i.f, detail::sig_any(i.f)), e.doc, detail::where::method);
        return *this;
    }
    template <typename G, typename S>
    class_ &def(pickle_t<G, S> p)
    {
        detail::extras e;
        def("__getstate__", p.g);
        detail::add_function(m_ptr, "__setstate__", detail::factory<T>(e, p.s, detail::sig_any(p.s)), "", detail::where::method);
        return *this;
    }
    template <typename F, typename... X>
    class_ &def_static(const char *name, F &&f, const X &...x)
    {
        detail::extras e;
        (e.add(x), ...);
        detail::add_function(m_ptr, name, detail::any_overload<T>(std::decay_t<F>(f), e, false), e.doc, detail::where::statik);
        return *this;
    }
    template <typename F>
    static PyObject *loose(const char *name, F &&f, const detail::extras &e)
    {
        auto *fn = new detail::func;
        fn->name = name;
        fn->doc = e.doc;
        fn->ov.push_back(detail::any_overload<T>(std::decay_t<F>(f), e, true));
        return detail::function_object(fn);
    }
    template <typename G, typename S, typename... X>
    class_ &property(const char *name, PyObject *get, PyObject *set, const std::string &doc)
    {
        const object p = object(reinterpret_cast<PyObject *>(&PyProperty_Type), borrow_t{})(object(get, borrow_t{}), object(set, borrow_t{}), none(), str(doc));
        attr(name) = p;
        return *this;
    }
    template <typename G, typename S, typename... X>
    class_ &def_property(const char *name, G &&g, S &&s, const X &...x)
    {
        detail::extras e;
        e.pol = return_value_policy::reference_internal;
        (e.add(x), ...);
        return property<G, S>(name, loose(name, g, e), loose(name, s, e), e.doc);
    }
    template <typename G, typename... X>
    class_ &def_property_readonly(const char *name, G &&g, const X &...x)
    {
        detail::extras e;
        e.pol = return_value_policy::reference_internal;
        (e.add(x), ...);
        return property<G, G>(name, loose(name, g, e), Py_None, e.doc);
    }
};

template <typename E>
class enum_ : public class_<E>
{
    object m_scope;
    std::string m_n;
    std::vector<std::pair<std::string, object>> m_v;
    static std::map<long, std::string> &names()
    {
        static auto *m = new std::map<long, std::string>;
        return *m;
    }

public:
    enum_(const object &scope, const char *name, const char *doc = "") : class_<E>(scope, name, doc), m_scope(scope), m_n(name)
    {
        const std::string n = name;
        this->def("__repr__", [n](const E &e) { return "<" + n + "." + names()[static_cast<long>(e)] + ": " + std::to_string(static_cast<long>(e)) + ">"; });
        this->def("__str__", [n](const E &e) { return n + "." + names()[static_cast<long>(e)]; });
        this->def("__eq__", [](const E &e, const object &o) {
            detail::caster<E> c;
            return c.load(o.ptr(), false) && *c.p == e;
        });
        this->def("__ne__", [](const E &e, const object &o) {
            detail::caster<E> c;
            return !(c.load(o.ptr(), false) && *c.p == e);
        });
        this->def("__int__", [](const E &e) { return static_cast<long>(e); });
        this->def("__hash__", [](const E &e) { return static_cast<long>(e); });
        this->def_property_readonly("name", [](const E &e) { return names()[static_cast<long>(e)]; });
        this->def_property_readonly("value", [](const E &e) { return static_cast<long>(e); });
        this->def(init<const E &>());
        this->def(init([](long v) { return static_cast<E>(v); }));
        this->def("__getstate__", [](const E &e) { return static_cast<long>(e); });
        detail::extras x;
        auto f = [](long v) { return static_cast<E>(v); };
        detail::add_function(this->m_ptr, "__setstate__", detail::factory<E>(x, f, detail::sig_any(f)), "", detail::where::method);
    }
    enum_ &value(const char *name, E e, const char * = nullptr)
    {
        names()[static_cast<long>(e)] = name;
        const object o = pybind11::cast(E(e));
        this->attr(name) = o;
        m_v.emplace_back(name, o);
        return *this;
    }
    enum_ &export_values()
    {
        for (auto &[n, o] : m_v) m_scope.attr(n) = o;
        return *this;
    }
};
} // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                                                                \
    static void vf_pybind11_init_##name(::pybind11::module_ &);                                                        \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                                        \
    {                                                                                                                  \
        static PyModuleDef def{PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        try {                                                                                                          \
            ::pybind11::module_ m(::pybind11::object(PyModule_Create(&def), ::pybind11::steal_t{}));                   \
            vf_pybind11_init_##name(m);                                                                                \
            return m.release().ptr();                                                                                  \
        } catch (::pybind11::error_already_set & e) {                                                                  \
            e.restore();                                                                                               \
            return nullptr;                                                                                            \
        } catch (const std::exception &e) {                                                                            \
            PyErr_SetString(PyExc_ImportError, e.what());                                                              \
            return nullptr;                                                                                            \
        }                                                                                                              \
    }                                                                                                                  \
    static void vf_pybind11_init_##name(::pybind11::module_ &variable)

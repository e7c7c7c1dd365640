// Minimal stand-in for tanuki's type-erasing wrapper (value semantics, boost serialization), with the parts of its
// interface kep3 and its tests use.
#pragma once
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#ifndef VF_BINARY_ARCHIVES // kep3's own archives only (udpla::vsop2013 supports no others)
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#endif
#include <boost/serialization/access.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/tracking.hpp>
#include <concepts>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
namespace tanuki
{
struct no_ref_iface {
    template <typename>
    struct impl {
    };
};
enum class wrap_ctor { always_explicit, ref_implicit, always_implicit };
enum class wrap_semantics { value, reference };
template <typename DefaultValueType = void, typename RefIFace = no_ref_iface>
struct config {
    using default_value_type = DefaultValueType;
    using ref_iface = RefIFace;
    std::size_t static_size = 48;
    std::size_t static_align = 16;
    bool pointer_interface = true;
    wrap_ctor explicit_ctor = wrap_ctor::always_explicit;
    wrap_semantics semantics = wrap_semantics::value;
    bool copyable = true;
    bool movable = true;
    bool swappable = true;
};
inline constexpr auto default_config = config{};

template <typename IFace>
struct value_iface : IFace {
    virtual std::unique_ptr<value_iface> vf_clone() const = 0;
    virtual std::type_index vf_type() const = 0;
    virtual void *vf_value() = 0;
    virtual const void *vf_value() const = 0;

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};

template <typename T, typename IFace>
struct holder final : IFace::template impl<value_iface<IFace>, holder<T, IFace>, T> {
    T m_value;
    holder() : m_value() {}
    template <typename... Args>
    explicit holder(std::in_place_t, Args &&...args) : m_value(std::forward<Args>(args)...)
    {
    }
    holder(const holder &) = delete;
    holder &operator=(const holder &) = delete;
    std::unique_ptr<value_iface<IFace>> vf_clone() const override { return std::make_unique<holder>(std::in_place, m_value); }
    std::type_index vf_type() const override { return typeid(T); }
    void *vf_value() override { return &m_value; }
    const void *vf_value() const override { return &m_value; }

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        boost::serialization::void_cast_register<holder, value_iface<IFace>>(nullptr, nullptr);
        ar & m_value;
    }
};
template <typename Holder, typename U>
    requires std::derived_from<Holder, U>
auto &getval(U *h)
{
    return static_cast<Holder *>(h)->m_value;
}
template <typename Holder, typename U>
    requires std::derived_from<Holder, U>
const auto &getval(const U *h)
{
    return static_cast<const Holder *>(h)->m_value;
}

template <typename IFace, auto Cfg = default_config>
class wrap : public decltype(Cfg)::ref_iface::template impl<wrap<IFace, Cfg>>
{
    using value_iface_t = value_iface<IFace>;
    using cfg_t = std::remove_const_t<decltype(Cfg)>;
    using default_t = typename cfg_t::default_value_type;
    std::unique_ptr<value_iface_t> m_p;

    friend class boost::serialization::access;
    template <typename Archive>
    void save(Archive &ar, unsigned) const
    {
        const bool valid = static_cast<bool>(m_p);
        ar << valid;
        if (valid) {
            const value_iface_t *p = m_p.get();
            ar << p;
        }
    }
    template <typename Archive>
    void load(Archive &ar, unsigned)
    {
        bool valid = false;
        ar >> valid;
        if (valid) {
            value_iface_t *p = nullptr;
            ar >> p;
            m_p.reset(p);
        } else
            m_p.reset();
    }
    BOOST_SERIALIZATION_SPLIT_MEMBER()

    template <typename T>
    static constexpr bool is_other = !std::same_as<std::remove_cvref_t<T>, wrap>;
    template <typename T>
    static constexpr bool holdable = requires { typename IFace::template impl<value_iface_t, holder<std::remove_cvref_t<T>, IFace>, std::remove_cvref_t<T>>; };

public:
    wrap()
        requires(!std::same_as<default_t, void>)
        : m_p(std::make_unique<holder<default_t, IFace>>(std::in_place))
    {
    }
    template <typename T>
        requires(is_other<T> && holdable<T>)
    explicit(Cfg.explicit_ctor != wrap_ctor::always_implicit) wrap(T &&x) : m_p(std::make_unique<holder<std::remove_cvref_t<T>, IFace>>(std::in_place, std::forward<T>(x)))
    {
    }
    template <typename T, typename... Args>
        requires(holdable<T>)
    explicit wrap(std::in_place_type_t<T>, Args &&...args) : m_p(std::make_unique<holder<T, IFace>>(std::in_place, std::forward<Args>(args)...))
    {
    }
    wrap(const wrap &o) : m_p(o.m_p ? o.m_p->vf_clone() : nullptr) {}
    wrap(wrap &&o) noexcept = default;
    wrap &operator=(const wrap &o)
    {
        if (this != &o) {
            auto q = o.m_p ? o.m_p->vf_clone() : nullptr;
            m_p = std::move(q);
        }
        return *this;
    }
    wrap &operator=(wrap &&o) noexcept = default;
    template <typename T>
        requires(is_other<T> && holdable<T>)
    wrap &operator=(T &&x)
    {
        return *this = wrap(std::forward<T>(x));
    }
    ~wrap() = default;

    friend IFace *iface_ptr(wrap &w) { return w.m_p.get(); }
    friend const IFace *iface_ptr(const wrap &w) { return w.m_p.get(); }
    friend bool is_invalid(const wrap &w) { return !w.m_p; }
    friend bool is_valid(const wrap &w) { return static_cast<bool>(w.m_p); }
    friend void swap(wrap &a, wrap &b) noexcept { std::swap(a.m_p, b.m_p); }
    friend std::type_index value_type_index(const wrap &w) { return w.m_p->vf_type(); }
    friend void *value_ptr_impl(wrap &w) { return w.m_p->vf_value(); }
    friend const void *value_ptr_impl(const wrap &w) { return static_cast<const value_iface_t &>(*w.m_p).vf_value(); }
};
template <typename T, typename IFace, auto Cfg>
bool value_isa(const wrap<IFace, Cfg> &w)
{
    return value_type_index(w) == typeid(T);
}
template <typename T, typename IFace, auto Cfg>
T *value_ptr(wrap<IFace, Cfg> &w)
{
    return value_isa<T>(w) ? static_cast<T *>(value_ptr_impl(w)) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
const T *value_ptr(const wrap<IFace, Cfg> &w)
{
    return value_isa<T>(w) ? static_cast<const T *>(value_ptr_impl(w)) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
T &value_ref(wrap<IFace, Cfg> &w)
{
    if (auto *p = value_ptr<T>(w)) return *p;
    throw std::bad_cast();
}
template <typename T, typename IFace, auto Cfg>
const T &value_ref(const wrap<IFace, Cfg> &w)
{
    if (auto *p = value_ptr<T>(w)) return *p;
    throw std::bad_cast();
}
} // namespace tanuki

#define TANUKI_REF_IFACE_MEMFUN(name)                                                                                                                                                              \
    template <typename VfWrap = Wrap, typename... VfArgs>                                                                                                                                          \
    decltype(auto) name(VfArgs &&...args)                                                                                                                                                          \
        requires requires(VfWrap & w, VfArgs &&...a) { iface_ptr(w)->name(std::forward<VfArgs>(a)...); }                                                                                           \
    {                                                                                                                                                                                              \
        return iface_ptr(*static_cast<VfWrap *>(this))->name(std::forward<VfArgs>(args)...);                                                                                                       \
    }                                                                                                                                                                                              \
    template <typename VfWrap = Wrap, typename... VfArgs>                                                                                                                                          \
    decltype(auto) name(VfArgs &&...args) const                                                                                                                                                    \
        requires requires(const VfWrap &w, VfArgs &&...a) { iface_ptr(w)->name(std::forward<VfArgs>(a)...); }                                                                                      \
    {                                                                                                                                                                                              \
        return iface_ptr(*static_cast<const VfWrap *>(this))->name(std::forward<VfArgs>(args)...);                                                                                                 \
    }
#define TANUKI_VF_COMMA ,
#define TANUKI_S11N_WRAP_EXPORT_KEY(udc, ...) BOOST_CLASS_EXPORT_KEY2(tanuki::holder<udc TANUKI_VF_COMMA __VA_ARGS__>, "tanuki::wrap<" #__VA_ARGS__ ">@" #udc)
#define TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(udc, ...) BOOST_CLASS_EXPORT_IMPLEMENT(tanuki::holder<udc TANUKI_VF_COMMA __VA_ARGS__>)
#define TANUKI_S11N_WRAP_EXPORT(udc, ...)                                                                                                                                                          \
    TANUKI_S11N_WRAP_EXPORT_KEY(udc, __VA_ARGS__)                                                                                                                                                  \
    TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(udc, __VA_ARGS__)

// Wrapped values are never shared between objects: no tracking by address.
namespace boost::serialization
{
template <typename T, typename IFace>
struct tracking_level<tanuki::holder<T, IFace>> {
    using tag = mpl::integral_c_tag;
    using type = mpl::int_<track_never>;
    static constexpr int value = track_never;
};
template <typename IFace>
struct tracking_level<tanuki::value_iface<IFace>> {
    using tag = mpl::integral_c_tag;
    using type = mpl::int_<track_never>;
    static constexpr int value = track_never;
};
} // namespace boost::serialization

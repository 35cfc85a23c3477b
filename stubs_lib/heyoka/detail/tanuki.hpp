// Stand-in for the type-erasure dependency that is not installed here (heyoka's tanuki), implementing the part of its
// contract kep3 uses: wrap<I, cfg> owns a copy of a value and forwards every interface call to it.
#ifndef KV_TANUKI_HPP
#define KV_TANUKI_HPP
#include <memory>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>
namespace tanuki
{
template <class Def, class Ref> struct config {
    using def_t = Def;
    using ref_t = Ref;
    bool pointer_interface = true;
};
template <class I> struct holder_base : I {
    virtual holder_base *tk_clone() const = 0;
    virtual void *tk_ptr() = 0;
    virtual const std::type_info &tk_type() const = 0;
};
template <class T, class I> struct holder final : I::template impl<holder_base<I>, holder<T, I>, T> {
    T m_value;
    holder() : m_value() {}
    explicit holder(const T &x) : m_value(x) {}
    explicit holder(T &&x) : m_value(std::move(x)) {}
    holder_base<I> *tk_clone() const override { return new holder(m_value); }
    void *tk_ptr() override { return &m_value; }
    const std::type_info &tk_type() const override { return typeid(T); }
};
template <class H, class P> const auto &getval(const P *p) { return static_cast<const H *>(p)->m_value; }
template <class H, class P> auto &getval(P *p) { return static_cast<H *>(p)->m_value; }
template <class I, auto Cfg> class wrap : public std::remove_cvref_t<decltype(Cfg)>::ref_t::template impl<wrap<I, Cfg>>
{
    using def_t = typename std::remove_cvref_t<decltype(Cfg)>::def_t;
    std::unique_ptr<holder_base<I>> m_p;

public:
    wrap() : m_p(new holder<def_t, I>()) {}
    wrap(const wrap &o) : m_p(o.m_p->tk_clone()) {}
    wrap(wrap &&) noexcept = default;
    wrap &operator=(const wrap &o) { m_p.reset(o.m_p->tk_clone()); return *this; }
    wrap &operator=(wrap &&) noexcept = default;
    template <class T> requires(!std::is_same_v<std::remove_cvref_t<T>, wrap>)
    explicit wrap(T &&x) : m_p(new holder<std::remove_cvref_t<T>, I>(std::forward<T>(x))) {}
    const I *tk_iface() const { return m_p.get(); }
    I *tk_iface() { return m_p.get(); }
    holder_base<I> *tk_holder() const { return m_p.get(); }
};
template <class T, class I, auto Cfg> T *value_ptr(wrap<I, Cfg> &w) { return w.tk_holder()->tk_type() == typeid(T) ? static_cast<T *>(w.tk_holder()->tk_ptr()) : nullptr; }
template <class I, auto Cfg> std::type_index value_type_index(const wrap<I, Cfg> &w) { return w.tk_holder()->tk_type(); }
template <class I, auto Cfg> bool has_static_storage(const wrap<I, Cfg> &) { return false; }
} // namespace tanuki
#define TANUKI_REF_IFACE_MEMFUN(name)                                                                                  \
    template <class... KvA> decltype(auto) name(KvA &&...kva) const                                                    \
    {                                                                                                                  \
        return static_cast<const Wrap *>(this)->tk_iface()->name(std::forward<KvA>(kva)...);                           \
    }
#define TANUKI_S11N_WRAP_EXPORT_KEY(T, I)
#define TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(T, I)
#define TANUKI_S11N_WRAP_EXPORT(T, I)
#endif

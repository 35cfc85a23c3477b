// A minimal archive: a sequence of doubles and a sequence of integers, read back in the order they were written.
#ifndef KV_TAPE_HPP
#define KV_TAPE_HPP
#include <array>
#include <cstdint>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/mpl/bool.hpp>
struct kv_tape { double d[1024]; std::uint64_t u[256]; std::size_t nd, nu; };
struct kv_oa {
    typedef boost::mpl::bool_<true> is_saving;
    typedef boost::mpl::bool_<false> is_loading;
    kv_tape &t;
    void io(const double &x) { t.d[t.nd++] = x; }
    template <class T, std::size_t N> void io(const std::array<T, N> &x) { for (std::size_t i = 0; i < N; ++i) io(x[i]); }
    template <class T> void io(const std::vector<T> &x) { t.u[t.nu++] = x.size(); for (std::size_t i = 0; i < x.size(); ++i) io(x[i]); }
    void io(const std::string &x) { t.u[t.nu++] = x.size(); for (std::size_t i = 0; i < x.size(); ++i) t.u[t.nu++] = static_cast<unsigned char>(x[i]); }
    template <class T> void io(const T &x)
    {
        if constexpr (std::is_integral_v<T>) t.u[t.nu++] = static_cast<std::uint64_t>(x);
        else const_cast<T &>(x).serialize(*this, 0u);
    }
    template <class T> kv_oa &operator&(T &x) { io(x); return *this; }
    template <class T> kv_oa &operator<<(const T &x) { io(x); return *this; }
};
struct kv_ia {
    typedef boost::mpl::bool_<false> is_saving;
    typedef boost::mpl::bool_<true> is_loading;
    kv_tape &t;
    void io(double &x) { x = t.d[t.nd++]; }
    template <class T, std::size_t N> void io(std::array<T, N> &x) { for (std::size_t i = 0; i < N; ++i) io(x[i]); }
    template <class T> void io(std::vector<T> &x) { x.resize(t.u[t.nu++]); for (std::size_t i = 0; i < x.size(); ++i) io(x[i]); }
    void io(std::string &x) { x.resize(t.u[t.nu++]); for (std::size_t i = 0; i < x.size(); ++i) x[i] = static_cast<char>(t.u[t.nu++]); }
    template <class T> void io(T &x)
    {
        if constexpr (std::is_same_v<T, bool>) x = t.u[t.nu++] != 0;
        else if constexpr (std::is_integral_v<T>) x = static_cast<T>(t.u[t.nu++]);
        else x.serialize(*this, 0u);
    }
    template <class T> kv_ia &operator&(T &x) { io(x); return *this; }
    template <class T> kv_ia &operator>>(T &x) { io(x); return *this; }
};
template <class C> static void kv_rt(C &a, C &b, std::size_t *rest)
{
    kv_tape t; t.nd = t.nu = 0;
    kv_oa oa{t}; kv_ia ia{t};
    oa & a;
    rest[0] = t.nd; rest[1] = t.nu;
    t.nd = t.nu = 0;
    ia & b;
    rest[0] -= t.nd; rest[1] -= t.nu;
}
#ifdef KV_REPLAY
#include <sstream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <kep3/detail/s11n.hpp>
template <class OA, class IA, class C> static void kv_boost(const C &a, C &b)
{
    std::stringstream ss;
    { OA oa(ss); oa << a; }
    { IA ia(ss); ia >> b; }
}
template <class C> static void kv_anyboost(const C &a, C &b, int text)
{
    if (text) kv_boost<boost::archive::text_oarchive, boost::archive::text_iarchive>(a, b);
    else kv_boost<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(a, b);
}
#endif
#endif

// Assumed contract of the Boost.Math root finders, in executable form (dependency stub for the verifier only; the
// replay library is compiled against the real Boost header).  See /verif/DESIGN.md, "assumed contracts".
//   requires  : min <= root <= max for the root of f the caller wants, derivative components are the derivatives of f
//   ensures   : the returned x satisfies f(x) == 0 exactly (real arithmetic) and min <= x <= max, or max_iter is
//               returned unchanged (iterations exhausted)
#ifndef KVC_STUB_BOOST_ROOTS
#define KVC_STUB_BOOST_ROOTS
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <tuple>
#include <utility>
#include <boost/math/constants/constants.hpp>
extern "C" {
double kvc_root_begin(double guess, double min, double max, int digits, int order, std::uintmax_t max_iter);
void kvc_root_f(double x, double f);
void kvc_root_d(double x, int k, double d);
std::uintmax_t kvc_root_iters(std::uintmax_t max_iter);
}
namespace boost { namespace math { namespace tools {
template <class F, class T>
T newton_raphson_iterate(F f, T guess, T min, T max, int digits, std::uintmax_t &max_iter)
{
    T x = kvc_root_begin(guess, min, max, digits, 1, max_iter);
    auto r = f(x);
    kvc_root_f(x, std::get<0>(r));
    kvc_root_d(x, 1, std::get<1>(r));
    max_iter = kvc_root_iters(max_iter);
    return x;
}
template <class F, class T>
T newton_raphson_iterate(F f, T guess, T min, T max, int digits)
{
    std::uintmax_t m = (std::numeric_limits<std::uintmax_t>::max)();
    return newton_raphson_iterate(f, guess, min, max, digits, m);
}
template <class F, class T>
T halley_iterate(F f, T guess, T min, T max, int digits, std::uintmax_t &max_iter)
{
    T x = kvc_root_begin(guess, min, max, digits, 2, max_iter);
    auto r = f(x);
    kvc_root_f(x, std::get<0>(r));
    kvc_root_d(x, 1, std::get<1>(r));
    kvc_root_d(x, 2, std::get<2>(r));
    max_iter = kvc_root_iters(max_iter);
    return x;
}
template <class F, class T>
T halley_iterate(F f, T guess, T min, T max, int digits)
{
    std::uintmax_t m = (std::numeric_limits<std::uintmax_t>::max)();
    return halley_iterate(f, guess, min, max, digits, m);
}
template <class F, class T>
T schroder_iterate(F f, T guess, T min, T max, int digits, std::uintmax_t &max_iter)
{
    return halley_iterate(f, guess, min, max, digits, max_iter);
}
}}} // namespace boost::math::tools
#endif

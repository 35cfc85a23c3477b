#ifndef KV_HEYOKA_KW
#define KV_HEYOKA_KW
#include <initializer_list>
#include <vector>
namespace heyoka::kw
{
struct tol_v { double v; };
struct pars_v { std::vector<double> v; };
struct cm_v { bool v; };
struct tol_k { tol_v operator=(double x) const { return {x}; } };
struct pars_k { pars_v operator=(std::initializer_list<double> x) const { return {std::vector<double>(x)}; } pars_v operator=(const std::vector<double> &x) const { return {x}; } };
struct cm_k { cm_v operator=(bool x) const { return {x}; } };
inline constexpr tol_k tol{};
inline constexpr pars_k pars{};
inline constexpr cm_k compact_mode{};
}
#endif

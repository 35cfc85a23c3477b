// Stand-in for heyoka's expression system (heyoka is not installed).  Shallow embedding: an expression is its value at one
// arbitrary point; variables and parameters get that point's values from kv_hy_var / kv_hy_par, which the verifier gives
// fresh symbols and the replay library reads from a table.  Nothing is assumed about the point, so what holds of the values
// holds of the expressions.
#ifndef KV_HEYOKA_EXPRESSION
#define KV_HEYOKA_EXPRESSION
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
extern "C" double kv_hy_var(const char *name);
extern "C" double kv_hy_par(unsigned i);
namespace heyoka
{
struct expression {
    double v = 0;
    std::int64_t tag = -1; // -1 composite, 0..999 parameter, 1000.. variable: its first characters
    expression() = default;
    expression(double x) : v(x) {}
    expression(double x, std::int64_t t) : v(x), tag(t) {}
    explicit expression(const std::string &s) : v(kv_hy_var(s.c_str())), tag(1000)
    {
        std::int64_t k = 0;
        for (char c : s) k = k * 256 + static_cast<unsigned char>(c);
        tag += k;
    }
};
inline expression operator+(const expression &a, const expression &b) { return {a.v + b.v}; }
inline expression operator-(const expression &a, const expression &b) { return {a.v - b.v}; }
inline expression operator*(const expression &a, const expression &b) { return {a.v * b.v}; }
inline expression operator/(const expression &a, const expression &b) { return {a.v / b.v}; }
inline expression operator-(const expression &a) { return {-a.v}; }
inline expression operator+(const expression &a) { return a; }
inline expression &operator+=(expression &a, const expression &b) { return a = a + b; }
inline expression &operator-=(expression &a, const expression &b) { return a = a - b; }
inline expression &operator*=(expression &a, const expression &b) { return a = a * b; }
inline expression &operator/=(expression &a, const expression &b) { return a = a / b; }
inline expression pow(const expression &a, double p) { return {std::pow(a.v, p)}; }
inline expression pow(const expression &a, const expression &p) { return {std::pow(a.v, p.v)}; }
inline expression sqrt(const expression &a) { return {std::sqrt(a.v)}; }
inline expression sum(const std::vector<expression> &l)
{
    expression s(0.);
    for (const auto &x : l) s = s + x;
    return s;
}
inline expression prod(const std::vector<expression> &l)
{
    expression s(1.);
    for (const auto &x : l) s = s * x;
    return s;
}
#define KV_HY_REL(n, op) inline expression n(const expression &a, const expression &b) { return {(a.v op b.v) ? 1. : 0.}; }
KV_HY_REL(eq, ==) KV_HY_REL(neq, !=) KV_HY_REL(lt, <) KV_HY_REL(gt, >) KV_HY_REL(lte, <=) KV_HY_REL(gte, >=)
#undef KV_HY_REL
inline expression select(const expression &c, const expression &a, const expression &b) { return {(c.v != 0) ? a.v : b.v}; }
struct par_t { expression operator[](unsigned i) const { return {kv_hy_par(i), static_cast<std::int64_t>(i)}; } };
inline constexpr par_t par{};
struct prime_t {
    expression lhs;
    std::pair<expression, expression> operator=(const expression &r) const { return {lhs, r}; }
};
inline prime_t prime(const expression &x) { return {x}; }
template <typename... A> std::array<expression, sizeof...(A)> make_vars(const A &...a) { return {expression(std::string(a))...}; }
using dyn_t = std::vector<std::pair<expression, expression>>;
struct var_ode_sys {
    dyn_t sys;
    std::vector<expression> args;
    std::uint32_t order;
    var_ode_sys(const dyn_t &s, std::vector<expression> a, std::uint32_t o = 1) : sys(s), args(std::move(a)), order(o) {}
};
}
#endif

// Entry points of the verified text.  Each wrapper only forwards flat arguments to the public kep3 function.  The same
// file is compiled (a) by clang to LLVM IR for the verifier, and (b) by g++ with -DKV_REPLAY to a shared library on which
// counterexamples are replayed (there exceptions are turned into return codes; for the verifier they end the path).
#ifndef KVDRV_HPP
#define KVDRV_HPP
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#define KV_API extern "C" __attribute__((visibility("default"), noinline))
#ifdef KV_REPLAY
#define KV_TRY try {
#define KV_CATCH                                                                                                       \
    return 0;                                                                                                          \
    }                                                                                                                  \
    catch (const std::domain_error &) { return 1; }                                                                    \
    catch (const std::invalid_argument &) { return 2; }                                                                \
    catch (const std::out_of_range &) { return 4; }                                                                    \
    catch (const std::logic_error &) { return 3; }                                                                     \
    catch (...) { return 9; }
#else
#define KV_TRY
#define KV_CATCH return 0;
#endif
inline std::array<std::array<double, 3>, 2> kv_rv(const double *p)
{
    return {{{p[0], p[1], p[2]}, {p[3], p[4], p[5]}}};
}
inline std::array<double, 3> kv_v3(const double *p) { return {{p[0], p[1], p[2]}}; }
inline std::array<double, 6> kv_v6(const double *p) { return {{p[0], p[1], p[2], p[3], p[4], p[5]}}; }
inline void kv_out(double *o, const std::array<std::array<double, 3>, 2> &rv)
{
    for (int i = 0; i < 6; ++i) o[i] = rv[i / 3][i % 3];
}
#endif

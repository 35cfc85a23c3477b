#include <kep3/core_astro/kepler_equations.hpp>
#include <kep3/core_astro/special_functions.hpp>
#include "kvdrv.hpp"
// out = { f, first derivative, second derivative }
KV_API int kv_kepE(const double *i, double *o) { KV_TRY o[0] = kep3::kepE(i[0], i[1], i[2]); o[1] = kep3::d_kepE(i[0], i[2]); o[2] = kep3::dd_kepE(i[0], i[2]); KV_CATCH }
KV_API int kv_kepH(const double *i, double *o) { KV_TRY o[0] = kep3::kepH(i[0], i[1], i[2]); o[1] = kep3::d_kepH(i[0], i[2]); o[2] = kep3::dd_kepH(i[0], i[2]); KV_CATCH }
KV_API int kv_kepDE(const double *i, double *o) { KV_TRY o[0] = kep3::kepDE(i[0], i[1], i[2], i[3], i[4], i[5]); o[1] = kep3::d_kepDE(i[0], i[2], i[3], i[4], i[5]); o[2] = kep3::dd_kepDE(i[0], i[2], i[3], i[4], i[5]); KV_CATCH }
KV_API int kv_kepDH(const double *i, double *o) { KV_TRY o[0] = kep3::kepDH(i[0], i[1], i[2], i[3], i[4], i[5]); o[1] = kep3::d_kepDH(i[0], i[2], i[3], i[4], i[5]); o[2] = kep3::dd_kepDH(i[0], i[2], i[3], i[4], i[5]); KV_CATCH }
KV_API int kv_kepDS(const double *i, double *o) { KV_TRY o[0] = kep3::kepDS(i[0], i[1], i[2], i[3], i[4], i[5]); o[1] = kep3::d_kepDS(i[0], i[2], i[3], i[4], i[5]); o[2] = kep3::dd_kepDS(i[0], i[2], i[3], i[4], i[5]); KV_CATCH }
KV_API int kv_stumpff(const double *i, double *o) { KV_TRY o[0] = kep3::stumpff_c(i[0]); o[1] = kep3::stumpff_s(i[0]); KV_CATCH }

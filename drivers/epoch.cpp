#include <chrono>
#include <cstdint>
#include <kep3/core_astro/convert_julian_dates.hpp>
#include <kep3/epoch.hpp>
#include "kvdrv.hpp"
#ifdef KV_REPLAY
#include <sstream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#endif
using kep3::epoch;
using I = std::int64_t;
using usd = kep3::microseconds;
static I cnt(const epoch &e) { return e.get_tp().time_since_epoch().count(); }
static epoch at(I us) { return epoch(kep3::time_point{usd(us)}); }
KV_API void kv_ep_default(I *o) { o[0] = cnt(epoch()); }
KV_API int kv_ep_days(double d, int type, I *o) { KV_TRY o[0] = cnt(epoch(d, static_cast<epoch::julian_type>(type))); KV_CATCH }
KV_API void kv_ep_mjd2000(double d, I *o) { o[0] = cnt(epoch(d)); }
KV_API void kv_ep_read(I us, double *o) { epoch e = at(us); o[0] = e.jd(); o[1] = e.mjd(); o[2] = e.mjd2000(); }
KV_API void kv_ep_round(double d, int type, double *o)
{
    epoch e(d, static_cast<epoch::julian_type>(type));
    o[0] = e.jd(); o[1] = e.mjd(); o[2] = e.mjd2000();
}
KV_API void kv_ep_dur(I us, I *o) { o[0] = cnt(epoch(usd(us))); o[1] = cnt(epoch(std::chrono::days(us))); }
KV_API void kv_ep_tp(I us, I *o) { epoch e = at(us); o[0] = cnt(e); o[1] = e.get_tp().time_since_epoch().count(); o[2] = cnt(epoch(e)); }
// arithmetic with durations of several resolutions
template <class Dn> static void kv_arith(I us, I n, I *o)
{
    Dn d(n);
    epoch a = at(us), b = at(us), c = at(us), e = at(us);
    a += d; o[0] = cnt(a);
    b -= d; o[1] = cnt(b);
    o[2] = cnt(c + d); o[3] = cnt(c);
    o[4] = cnt(e - d); o[5] = cnt(e);
}
KV_API void kv_ep_arith(I us, I n, int res, I *o)
{
    switch (res) {
        case 0: kv_arith<usd>(us, n, o); break;
        case 1: kv_arith<std::chrono::duration<I, std::milli>>(us, n, o); break;
        case 2: kv_arith<std::chrono::duration<I>>(us, n, o); break;
        case 3: kv_arith<std::chrono::duration<I, std::ratio<60>>>(us, n, o); break;
        case 4: kv_arith<std::chrono::duration<I, std::ratio<3600>>>(us, n, o); break;
        case 5: kv_arith<std::chrono::duration<I, std::ratio<86400>>>(us, n, o); break;
        default: break;
    }
}
KV_API void kv_ep_arith_ns(I us, I n, I *o) { kv_arith<std::chrono::duration<I, std::nano>>(us, n, o); }
KV_API void kv_ep_arith_d(I us, double d, I *o)
{
    std::chrono::duration<double, std::ratio<86400>> x(d);
    epoch a = at(us), c = at(us);
    a += x; o[0] = cnt(a);
    o[1] = cnt(c + x); o[2] = cnt(c - x);
    a = at(us); a -= x; o[3] = cnt(a);
    o[4] = epoch::days(d).count(); o[5] = epoch::sec(d).count();
}
KV_API void kv_ep_diff(I a, I b, I *o) { epoch x = at(a), y = at(b); o[0] = (x - y).count(); o[1] = cnt(x); o[2] = cnt(y); }
KV_API double kv_ep_assec(I a) { return epoch::as_sec(usd(a)); }
KV_API unsigned kv_ep_cmp(I a, I b, unsigned which)
{
    epoch x = at(a), y = at(b);
    switch (which) {
        case 0: return x < y ? 1u : 0u;
        case 1: return x <= y ? 1u : 0u;
        case 2: return x > y ? 1u : 0u;
        case 3: return x >= y ? 1u : 0u;
        case 4: return x == y ? 1u : 0u;
        default: return x != y ? 1u : 0u;
    }
}
KV_API void kv_jul(double x, double *o)
{
    o[0] = kep3::jd2mjd(x); o[1] = kep3::jd2mjd2000(x); o[2] = kep3::mjd2jd(x); o[3] = kep3::mjd2mjd2000(x); o[4] = kep3::mjd20002jd(x); o[5] = kep3::mjd20002mjd(x);
}
// calendar
KV_API int kv_ep_cal(int y, unsigned mon, unsigned d, int h, int mi, int s, int ms, int us, I *o) { KV_TRY o[0] = cnt(epoch(y, mon, d, h, mi, s, ms, us)); KV_CATCH }
KV_API int kv_ep_cal3(int y, unsigned mon, unsigned d, I *o) { KV_TRY o[0] = cnt(epoch(y, mon, d)); KV_CATCH }
KV_API int kv_sys_days(int y, unsigned mon, unsigned d)
{
    return static_cast<int>(static_cast<std::chrono::sys_days>(std::chrono::year_month_day(std::chrono::year(y), std::chrono::month(mon), std::chrono::day(d))).time_since_epoch().count());
}
#ifdef KV_REPLAY
KV_API int kv_ep_iso(const char *s, std::size_t n, I *o) { KV_TRY o[0] = cnt(epoch(std::string(s, n))); KV_CATCH }
KV_API int kv_ep_boost(I us, I other, int text, I *o)
{
    KV_TRY
    epoch a = at(us), b = at(other);
    std::stringstream ss;
    if (text) { { boost::archive::text_oarchive oa(ss); oa << a; } boost::archive::text_iarchive ia(ss); ia >> b; }
    else { { boost::archive::binary_oarchive oa(ss); oa << a; } boost::archive::binary_iarchive ia(ss); ia >> b; }
    o[0] = cnt(b); o[1] = cnt(a);
    KV_CATCH
}
#else
KV_API int kv_ep_iso(const std::string *s, I *o) { o[0] = cnt(epoch(*s)); return 0; }
#endif

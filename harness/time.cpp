// Wrappers that give the time conversions and the public operations taking times stable names. They add no behaviour.
#include <new>
#include <stdint.h>
#include <time.h>
#include <boost/assert.hpp>
#if defined(VP_NANO)
#define BOOST_DATE_TIME_POSIX_TIME_STD_CONFIG
#endif
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>
#if __cplusplus >= 201103L
#include <chrono>
#include <boost/sync/support/std_chrono.hpp>
#endif
using boost::sync::timed_mutex;
using boost::sync::detail::system_duration;
using boost::sync::detail::system_time_point;
using boost::sync::detail::time_traits;
namespace pt = boost::posix_time;
template<class D> static int64_t d2n(D const& d) { return time_traits<D>::to_sync_unit(d).get(); }
template<class T> static void t2s(T const& t, timespec* o) { *o = time_traits<T>::to_sync_unit(t).get(); }

// R: argument type; D: duration type
#define DUR(n, R, D)\
int64_t d_##n(R x) { return d2n(D(x)); }\
bool tm_for_##n(timed_mutex* m, R x) { return m->try_lock_for(D(x)); }\
bool tm_timed_##n(timed_mutex* m, R x) { return m->timed_lock(D(x)); }
#define TP(n, R, C, D)\
void t_##n(R x, timespec* o) { t2s(C::time_point<C::system_clock, D >(D(x)), o); }\
bool tm_until_##n(timed_mutex* m, R x) { return m->try_lock_until(C::time_point<C::system_clock, D >(D(x))); }\
bool tm_timed_tp_##n(timed_mutex* m, R x) { return m->timed_lock(C::time_point<C::system_clock, D >(D(x))); }
#define COMMA ,
#define CHRONO(p, C, RN)\
DUR(p##_ns, int64_t, C::nanoseconds) DUR(p##_us, int64_t, C::microseconds) DUR(p##_ms, int64_t, C::milliseconds) DUR(p##_s, int64_t, C::seconds)\
DUR(p##_min, int64_t, C::minutes) DUR(p##_h, int64_t, C::hours) DUR(p##_ms32, int32_t, C::duration<int32_t COMMA RN::milli>)\
DUR(p##_s32, int32_t, C::duration<int32_t>) DUR(p##_us_u32, uint32_t, C::duration<uint32_t COMMA RN::micro>)\
DUR(p##_day, int64_t, C::duration<int64_t COMMA RN::ratio<86400> >)\
DUR(p##_100ns, int64_t, C::duration<int64_t COMMA RN::ratio<1 COMMA 10000000> >) DUR(p##_ps, int64_t, C::duration<int64_t COMMA RN::pico>)\
TP(p##_ns, int64_t, C, C::nanoseconds) TP(p##_us, int64_t, C, C::microseconds) TP(p##_ms, int64_t, C, C::milliseconds) TP(p##_s, int64_t, C, C::seconds)\
TP(p##_min, int64_t, C, C::minutes) TP(p##_h, int64_t, C, C::hours) TP(p##_s32, int32_t, C, C::duration<int32_t>) TP(p##_ps, int64_t, C, C::duration<int64_t COMMA RN::pico>)

extern "C" {
CHRONO(b, boost::chrono, boost)
#if __cplusplus >= 201103L
CHRONO(c, std::chrono, std)
#endif
// Boost.Date_Time: x is a number of ticks
static pt::time_duration ticks(int64_t x) { return pt::time_duration(0, 0, 0, x); }
int64_t d_dt(pt::time_duration const* d) { return d2n(*d); }
bool tm_for_dt(timed_mutex* m, pt::time_duration const* d) { return m->try_lock_for(*d); }
bool tm_timed_dt(timed_mutex* m, pt::time_duration const* d) { return m->timed_lock(*d); }
void t_dt(pt::ptime const* t, timespec* o) { t2s(*t, o); }
bool tm_until_dt(timed_mutex* m, pt::ptime const* t) { return m->try_lock_until(*t); }
bool tm_timed_tp_dt(timed_mutex* m, pt::ptime const* t) { return m->timed_lock(*t); }
void mk_epoch(pt::ptime* p) { new (p) pt::ptime(boost::gregorian::date(1970, 1, 1)); }
int64_t dt_hz() { return pt::time_duration::ticks_per_second(); }
// timespec
void t_ts(timespec const* t, timespec* o) { t2s(*t, o); }
bool tm_until_ts(timed_mutex* m, timespec const* t) { return m->try_lock_until(*t); }
bool tm_timed_tp_ts(timed_mutex* m, timespec const* t) { return m->timed_lock(*t); }
// arithmetic of the library's own units
void st_ctor(timespec* o) { *o = system_time_point().get(); }
void st_make(time_t s, unsigned n, timespec* o) { *o = system_time_point(s, n).get(); }
void st_from(int64_t d, timespec* o) { *o = system_time_point(system_duration(d)).get(); }
void st_now(timespec* o) { *o = system_time_point::now().get(); }
void st_add(time_t s, unsigned n, int64_t d, timespec* o) { *o = (system_time_point(s, n) + system_duration(d)).get(); }
void st_sub(time_t s, unsigned n, int64_t d, timespec* o) { *o = (system_time_point(s, n) - system_duration(d)).get(); }
void st_adda(time_t s, unsigned n, int64_t d, timespec* o) { system_time_point t(s, n); t += system_duration(d); *o = t.get(); }
void st_suba(time_t s, unsigned n, int64_t d, timespec* o) { system_time_point t(s, n); t -= system_duration(d); *o = t.get(); }
int64_t st_diff(time_t s, unsigned n, time_t s2, unsigned n2) { return (system_time_point(s, n) - system_time_point(s2, n2)).get(); }
int64_t sd_ctor() { return system_duration().get(); }
int64_t sd_add(int64_t a, int64_t b) { return (system_duration(a) + system_duration(b)).get(); }
int64_t sd_sub(int64_t a, int64_t b) { return (system_duration(a) - system_duration(b)).get(); }
int64_t sd_neg(int64_t a) { return (-system_duration(a)).get(); }
}

// C08: replay of counterexamples on the real time conversions: many values against 128-bit arithmetic
#include "rt.hpp"
#include <pthread.h>
#include <time.h>
#include "common.hpp"
#if defined(VP_NANO)
#define BOOST_DATE_TIME_POSIX_TIME_STD_CONFIG
#endif
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <chrono>
using namespace rt;
using boost::sync::timed_mutex; using boost::sync::detail::system_duration; using boost::sync::detail::system_time_point; using boost::sync::detail::time_traits;
namespace pt = boost::posix_time;
typedef __int128 I;
static const I NS = 1000000000, LIM = (I)1 << 63;
static int64_t any64() {
    static const int64_t P[] = {0, 0, 999, 1000, 999999, 1000000, 999999999, 1000000000, 86400000000000LL, 1LL << 31, 1LL << 32, 1LL << 53, INT64_MAX, 4102444800LL, 2147483647LL};
    int64_t v;
    switch (rnd(3)) {
    case 0: v = P[rnd(sizeof P / sizeof *P)]; if (rnd(3) == 0) v = (int64_t)((uint64_t)v * (1 + rnd(1000))); break;
    default: v = (int64_t)((((uint64_t)rnd(1u << 30)) << 34 ^ ((uint64_t)rnd(1u << 30)) << 10 ^ rnd(1024)) >> rnd(64)); if (v < 0) v = INT64_MAX; break;
    }
    if (rnd(2)) v = -v;
    v = (int64_t)((uint64_t)v + rnd(5) - 2);
    return v;
}
static long long ll(I x) { return (long long)x; }
static void dexact(const char* n, int64_t got, I x, I num, I den) {
    I d = (I)got * den - x * num;
    check(den == 1 ? d == 0 : d > -den && d < den, "%s: %lld ticks are converted to %lld ns", n, ll(x), (long long)got);
}
static I point(const char* n, I x, timespec const& t) { check(t.tv_nsec >= 0 && t.tv_nsec < NS, "%s: %lld ticks give nanoseconds %ld, not in [0, 10^9)", n, ll(x), (long)t.tv_nsec); return (I)t.tv_sec * NS + t.tv_nsec; }
static void texact(const char* n, timespec const& t, I x, I num, I den) {
    I d = point(n, x, t) * den - x * num;
    check(den == 1 ? d == 0 : d > -den && d < den, "%s: %lld ticks are converted to %lld s %ld ns", n, ll(x), (long long)t.tv_sec, (long)t.tv_nsec);
}
template<class R> R value(I num, I den) {
    for (;;) {
        R x = (R)any64(); I v = (I)x * num;
        if (v > -LIM * den && v < LIM * den) return x;
    }
}
template<class D> void dur(const char* n, I num, I den) { typedef typename D::rep R; R x = value<R>(num, den); dexact(n, time_traits<D>::to_sync_unit(D(x)).get(), x, num, den); }
template<class T> void tpt(const char* n, I num, I den) { typedef typename T::duration D; typedef typename D::rep R; R x = value<R>(num, den); texact(n, time_traits<T>::to_sync_unit(T(D(x))).get(), x, num, den); }
template<class A, class B> struct pair_ {};
#define COMMA ,
#define BOTH(n, D, num, den) dur<D>("duration " n, num, den); tpt<CL::time_point<CL::system_clock COMMA D > >("time point " n, num, den);
namespace b_ { namespace CL = boost::chrono; static void all() {
    BOTH("boost ns", CL::nanoseconds, 1, 1) BOTH("boost us", CL::microseconds, 1000, 1) BOTH("boost ms", CL::milliseconds, 1000000, 1) BOTH("boost s", CL::seconds, NS, 1) BOTH("boost min", CL::minutes, 60 * NS, 1) BOTH("boost h", CL::hours, 3600 * NS, 1)
    BOTH("boost s32", CL::duration<int32_t>, NS, 1) BOTH("boost ps", CL::duration<int64_t COMMA boost::pico>, 1, 1000)
    dur<CL::duration<int32_t, boost::milli> >("boost ms32", 1000000, 1); dur<CL::duration<uint32_t, boost::micro> >("boost us_u32", 1000, 1); dur<CL::duration<int64_t, boost::ratio<86400> > >("boost days", 86400 * NS, 1); dur<CL::duration<int64_t, boost::ratio<1, 10000000> > >("boost 100ns", 100, 1);
} }
namespace c_ { namespace CL = std::chrono; static void all() {
    BOTH("std ns", CL::nanoseconds, 1, 1) BOTH("std us", CL::microseconds, 1000, 1) BOTH("std ms", CL::milliseconds, 1000000, 1) BOTH("std s", CL::seconds, NS, 1) BOTH("std min", CL::minutes, 60 * NS, 1) BOTH("std h", CL::hours, 3600 * NS, 1)
    BOTH("std s32", CL::duration<int32_t>, NS, 1) BOTH("std ps", CL::duration<int64_t COMMA std::pico>, 1, 1000)
    dur<CL::duration<int32_t, std::milli> >("std ms32", 1000000, 1); dur<CL::duration<uint32_t, std::micro> >("std us_u32", 1000, 1); dur<CL::duration<int64_t, std::ratio<86400> > >("std days", 86400 * NS, 1); dur<CL::duration<int64_t, std::ratio<1, 10000000> > >("std 100ns", 100, 1);
} }
SCENARIO("C08", boost_chrono) { for (int k = 50; k--; ) b_::all(); }
SCENARIO("C08", std_chrono) { for (int k = 50; k--; ) c_::all(); }
SCENARIO("C08", date_time) {
    I tick = NS / pt::time_duration::ticks_per_second();
    static pt::ptime* epoch = new pt::ptime(boost::gregorian::date(1970, 1, 1));
    for (int k = 200; k--; ) {
        int64_t x = value<int64_t>(tick, 1);
        if (!pt::time_duration(0, 0, 0, x).is_special()) dexact("posix_time::time_duration", time_traits<pt::time_duration>::to_sync_unit(pt::time_duration(0, 0, 0, x)).get(), x, tick, 1);
        x = rnd(2) ? x : value<int64_t>(tick * 1000, 1);
        I v = (I)x * tick;
        if (v < -LIM + 2 * 86400 * NS || v > LIM - 2 * 86400 * NS) continue;
        I day = v / (86400 * NS); if (day < -100000 || day > 100000) continue;
        pt::ptime t = *epoch + boost::gregorian::days((int)day) + pt::time_duration(0, 0, 0, (int64_t)((v - day * 86400 * NS) / tick));
        if (t.is_special()) continue;
        texact("posix_time::ptime", time_traits<pt::ptime>::to_sync_unit(t).get(), x, tick, 1);
    }
}
static timespec ats() { timespec t; t.tv_sec = any64(); if (rnd(2)) t.tv_sec = t.tv_sec >> 20; t.tv_nsec = rnd(3) ? rnd(1000000000) : rnd(2) ? 999999999 - rnd(3) : rnd(3); return t; }
SCENARIO("C08", posix_timespec) { for (int k = 200; k--; ) { timespec t = ats(); timespec o = time_traits<timespec>::to_sync_unit(t).get(); check(o.tv_sec == t.tv_sec && o.tv_nsec == t.tv_nsec, "timespec {%lld, %ld} is converted to {%lld, %ld}", (long long)t.tv_sec, (long)t.tv_nsec, (long long)o.tv_sec, (long)o.tv_nsec); } }
static void is_(const char* op, I want, timespec const& t) { I g = point(op, 0, t); check(g == want, "system_time_point %s is off by %lld ns", op, ll(g - want)); }
SCENARIO("C08", arithmetic) {
    check(system_time_point().get().tv_sec == 0 && system_time_point().get().tv_nsec == 0 && system_duration().get() == 0, "a default constructed time is not zero");
    for (int k = 200; k--; ) {
        timespec a = ats(), b = ats(); a.tv_sec /= 4; b.tv_sec /= 4; int64_t d = any64(), e = any64(); if (d == INT64_MIN) d = 0; if (e == INT64_MIN) e = 0;
        if (rnd(2)) b.tv_sec = (time_t)((uint64_t)a.tv_sec + (any64() >> 31));
        I A = (I)a.tv_sec * NS + a.tv_nsec, B = (I)b.tv_sec * NS + b.tv_nsec;
        system_time_point p(a.tv_sec, a.tv_nsec), q(b.tv_sec, b.tv_nsec); system_duration D(d), E(e);
        note("a = {%lld, %ld}, b = {%lld, %ld}, d = %lld, e = %lld", (long long)a.tv_sec, (long)a.tv_nsec, (long long)b.tv_sec, (long)b.tv_nsec, (long long)d, (long long)e);
        is_("(s, ns)", A, p.get()); is_("(d)", d, system_time_point(D).get());
        is_("a + d", A + d, (p + D).get()); is_("a - d", A - d, (p - D).get());
        { system_time_point r = p; r += D; is_("a += d", A + d, r.get()); } { system_time_point r = p; r -= D; is_("a -= d", A - d, r.get()); }
        if (A - B > -LIM + NS && A - B < LIM - NS) check((p - q).get() == A - B, "a - b is %lld instead of %lld", (long long)(p - q).get(), ll(A - B));
        if ((I)d + e >= -LIM && (I)d + e < LIM) check((D + E).get() == (I)d + e, "d + e is wrong");
        if ((I)d - e >= -LIM && (I)d - e < LIM) check((D - E).get() == (I)d - e, "d - e is wrong");
        check((-D).get() == -(I)d, "-d is wrong");
    }
    i64 t0 = now(); timespec n = system_time_point::now().get(); I N = point("now()", 0, n); check(N >= t0 && N <= now(), "system_time_point::now() is not the current time");
}
// the time that reaches the operating system
struct Held { timed_mutex m; };
template<class D> void relative(timed_mutex* m, int64_t ticks, I num, I den) {
    I w = ticks > 0 ? (I)ticks * num / den : 0; i64 t0 = now();
    bool r = rnd(2) ? m->try_lock_for(D(ticks)) : m->timed_lock(D(ticks));
    check(!r, "a held mutex is acquired");
    check(now() >= t0 + (i64)w - 1, "try_lock_for(%lld ticks) ends %lld ns early", (long long)ticks, (long long)(t0 + (i64)w - now()));
    check(now() <= t0 + (i64)w + 100000, "try_lock_for(%lld ticks) ends %lld ns late", (long long)ticks, (long long)(now() - t0 - (i64)w));
}
template<class T> void absolute(timed_mutex* m, T const& t, I at) {
    i64 t0 = now(); bool r = rnd(2) ? m->try_lock_until(t) : m->timed_lock(t);
    check(!r, "a held mutex is acquired");
    i64 w = at > t0 ? (i64)at : t0;
    check(now() >= w - 1, "try_lock_until() ends %lld ns early", (long long)(w - now()));
    check(now() <= w + 100000, "try_lock_until() ends %lld ns late", (long long)(now() - w));
}
SCENARIO("C08", operations) {
    timed_mutex* m = new timed_mutex; exempt = 1;
    spawn([=] { m->lock(); });
    join();
    I tick = NS / pt::time_duration::ticks_per_second();
    for (int k = 10; k--; ) {
        I v = rnd(1000) * (I)1000000 * pick({1, 1000, 1000000}) + rnd(1000000000); if (rnd(5) == 0) v = -v;
        I at = now() + v;
        switch (rnd(9)) {
        case 0: relative<std::chrono::nanoseconds>(m, v, 1, 1); break;
        case 1: relative<std::chrono::milliseconds>(m, v / 1000000, 1000000, 1); break;
        case 2: relative<boost::chrono::seconds>(m, v / NS, NS, 1); break;
        case 3: relative<boost::chrono::minutes>(m, v / NS / 60, 60 * NS, 1); break;
        case 4: { i64 t = v / tick, t0 = now(); bool r = m->try_lock_for(pt::time_duration(0, 0, 0, t)); check(!r && now() >= t0 + (i64)(t * tick) && now() <= t0 + (i64)(t * tick > 0 ? t * tick : 0) + 100000, "try_lock_for(time_duration) does not last %lld ns", ll(t * tick)); break; }
        case 5: absolute(m, std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>(std::chrono::nanoseconds((int64_t)at)), at); break;
        case 6: at = at / NS * NS; absolute(m, boost::chrono::time_point<boost::chrono::system_clock, boost::chrono::seconds>(boost::chrono::seconds((int64_t)(at / NS))), at); break;
        case 7: { timespec t; t.tv_sec = (time_t)(at / NS); t.tv_nsec = (long)(at % NS); absolute(m, t, at); break; }
        case 8: { at = at / tick * tick; I day = at / (86400 * NS); absolute(m, pt::ptime(boost::gregorian::date(1970, 1, 1)) + boost::gregorian::days((int)day) + pt::time_duration(0, 0, 0, (int64_t)((at - day * 86400 * NS) / tick)), at); break; }
        }
    }
}

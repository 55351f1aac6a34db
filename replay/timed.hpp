// one timed operation, checked against its deadline (C06)
#ifndef VP_TIMED_HPP
#define VP_TIMED_HPP
#include <chrono>
typedef std::chrono::nanoseconds ns;
typedef std::chrono::time_point<std::chrono::system_clock, ns> sys_tp;
typedef std::chrono::time_point<std::chrono::steady_clock, ns> st_tp;
enum { KINDS = 6 };
// F: member functions  dur(ns) tdur(ns) until(tp) tuntil(tp)
template<class F> bool timed(F f, int kind, rt::i64 d, bool time) {
    using namespace rt;
    i64 t0 = now(), abs = d, at;
    if (__builtin_add_overflow(t0, d, &abs)) abs = d < 0 ? -(1LL << 60) : INF;
    if (abs < -(1LL << 60)) abs = -(1LL << 60);
    bool rel = kind < 2;
    at = abs;
    if (time) watch(rel ? d : abs, rel);
    note("timed operation %d, %lld ns from now", kind, (long long)d);
    bool r = false;
    switch (kind) {
    case 0: r = f.dur(ns(d)); break;
    case 1: r = f.tdur(ns(d)); break;
    case 2: r = f.until(sys_tp(ns(abs))); break;
    case 3: r = f.tuntil(sys_tp(ns(abs))); break;
    case 4: { timespec ts; ts.tv_sec = abs / 1000000000; ts.tv_nsec = abs % 1000000000; if (ts.tv_nsec < 0) { ts.tv_nsec += 1000000000; --ts.tv_sec; } r = f.until(ts); break; }
    default: r = f.until(st_tp(ns(abs == INF ? INF - steady_offset : abs - steady_offset)));
    }
    note("timed operation -> %d", r);
    if (time) {
        unwatch();
        if (!r) check(now() >= at, "a timed operation reports a time-out %lld ns early", (long long)(at - now()));
        if (d <= 0) check(!did_block(), "an operation whose deadline has passed blocks");
    }
    return r;
}
inline rt::i64 anytime() { using namespace rt; i64 d = pick({0, -1, -1000000, 1, 30, 300, 1000, 3000, 20000, 1000000, 999999999, 1000000000, 2500000000}); return d > 1000 ? d - rnd(3) : d; }
#endif

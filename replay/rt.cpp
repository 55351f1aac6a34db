#include "rt.hpp"
#include <ucontext.h>
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <vector>
#include <map>
#include <deque>
#include <unordered_map>
#include <string>
#include <new>
#include <algorithm>
#include <exception>
#include <memory>
template<class X> struct MA { typedef X value_type; MA() {} template<class Y> MA(MA<Y> const&) {} X* allocate(size_t n) { return (X*)malloc(n * sizeof(X)); } void deallocate(X* p, size_t) { free(p); }
    template<class Y> bool operator==(MA<Y> const&) const { return true; } template<class Y> bool operator!=(MA<Y> const&) const { return false; } };
template<class X> using Vec = std::vector<X, MA<X>>;
template<class K, class V> using Map = std::map<K, V, std::less<K>, MA<std::pair<const K, V>>>;
template<class K, class V> using Hash = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, MA<std::pair<const K, V>>>;
typedef std::basic_string<char, std::char_traits<char>, MA<char>> Str;
namespace rt {
enum { MAXT = 8, STK = 256 * 1024 };
typedef uint32_t VC[MAXT];
struct EH { void* a; unsigned b; };
struct Thread {
    int id = 0;
    ucontext_t uc;
    char* stack = nullptr;
    std::function<void()> fn;
    enum { RUN, BLOCK, DONE } st = RUN;
    const void* on = nullptr; char kind = 0;        // what it is blocked on
    i64 until = INF; int why = 0;                   // 1 woken, 2 timed out, 3 interrupted
    uint32_t bits = ~0u;
    VC vc, fence, acq;
    int err = 0; EH eh = {0, 0};
    i64 limit = INF; bool watching = false, dur = false, blocked = false, timedout = false; i64 base = 0, asleep = 0, slept = 0;
    unsigned held = 0, spin = 0; bool sure = false;
    Map<unsigned, const void*> tsd;
};
static Vec<Thread*> T;
static Thread* cur;
static ucontext_t mainuc;
static bool active = false;
static uint64_t rs;
static i64 clk;
static unsigned long steps, maxsteps = 60000;
static unsigned swp;        // switch probability 1/swp
static bool joined = false;
i64 steady_offset = 0;
int exempt = 0;
Faults faults;
int last_fault; bool faulted;
unsigned sem_max = 0x7fffffff;
unsigned locks_alive, conds_alive, sems_alive;
static std::deque<Str, MA<Str>> trace;
static const char* scn = ""; static uint64_t seed;
static uint64_t r64() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
unsigned rnd(unsigned n) { return n ? (unsigned)((r64() >> 33) % n) : 0; }
bool chance(unsigned n) { return n && rnd(n) == 0; }
i64 pick(std::initializer_list<i64> l) { return l.begin()[rnd(l.size())]; }
int self() { return cur->id; }
i64 now() { return clk; }
void advance(i64 n) { clk += n; }
static void vnote(const char* f, va_list a) {
    char b[400]; int n = snprintf(b, sizeof b, "  [t%d @%lld] ", cur ? cur->id : 0, (long long)clk); vsnprintf(b + n, sizeof b - n, f, a);
    trace.push_back(b); if (trace.size() > 400) trace.pop_front();
}
void note(const char* f, ...) { va_list a; va_start(a, f); vnote(f, a); va_end(a); }
static void die(const char* m) {
    active = false;
    printf("FAILING-INPUT scenario \"%s\" schedule %llu: %s\n", scn, (unsigned long long)seed, m);
    for (auto& s : trace) puts(s.c_str());
    fflush(stdout); _exit(3);
}
void fail(const char* f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); note("%s", b); die(b); abort(); }
void check(bool c, const char* f, ...) { if (c) return; char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); fail("%s", b); }

// ---------- scheduler
static void wake(Thread* t, int why) { if (t->st == Thread::BLOCK && !(exempt && t->kind == 'm')) t->asleep += clk - t->slept; t->st = Thread::RUN; t->why = why; t->on = nullptr; }
static void expire() { for (auto t : T) if (t->st == Thread::BLOCK && t->until <= clk) wake(t, 2); }
static void go(Thread* n) {
    if (n == cur) return;
    Thread* o = cur; o->err = errno; EH* g = (EH*)abi::__cxa_get_globals(); o->eh = *g;
    cur = n; swapcontext(&o->uc, &n->uc);
    errno = o->err; *(EH*)abi::__cxa_get_globals() = o->eh;
}
static Thread* choose() {
    for (;;) {
        expire();
        Thread* r[MAXT]; int n = 0;
        for (auto t : T) if (t->st == Thread::RUN && !(t->id == 0 && joined)) r[n++] = t;
        if (n) return r[rnd(n)];
        i64 m = INF; for (auto t : T) if (t->st == Thread::BLOCK) m = std::min(m, t->until);
        if (m != INF) { clk = m; continue; }
        if (joined) return T[0];            // nothing else can happen
        fail("deadlock: thread %d is blocked for ever", cur->id);
    }
}
void step() {
    if (!active) return;
    if (++steps > maxsteps) fail("no progress: a thread spins for ever");
    if (chance(64)) clk += rnd(400);
    ++cur->spin;
    if (T.size() > 1 && (chance(swp) || cur->spin > 60)) { cur->spin = 0; go(choose()); }
}
static i64 slack(Thread* t);
static void block(const void* on, char kind, i64 until) {
    Thread* t = cur;
    if (t->watching && !(exempt && kind == 'm')) {
        i64 lim; if (t->limit == INF || __builtin_add_overflow(t->limit, slack(t), &lim)) lim = INF;
        if (until > lim) fail("blocks until %lld, past the deadline %lld", (long long)until, (long long)lim);
        t->blocked = true;
    }
    t->slept = clk;
    t->st = Thread::BLOCK; t->on = on; t->kind = kind; t->until = until; t->why = 0;
    go(choose());
    t->until = INF;
}
void nap(i64 n) { bool w = cur->watching; cur->watching = false; block(&n, 's', clk + n); cur->watching = w; }
static const char* theprop = "";
bool is(const char* p) { return !strcmp(p, theprop); }
static Vec<char*> stacks;
static void tls_dtors();
static void tramp() {
    cur->fn();
    tls_dtors();
    cur->fn = nullptr;
    cur->st = Thread::DONE; note("thread ends");
    Thread* o = cur; Thread* n = choose();
    cur = n; (void)o;
    setcontext(&n->uc);
}
static void jn(VC a, const VC b) { for (int i = 0; i < MAXT; ++i) a[i] = std::max(a[i], b[i]); }
void spawn(std::function<void()> f) {
    if (T.size() >= MAXT) fail("too many threads");
    Thread* t = new (malloc(sizeof(Thread))) Thread; t->id = T.size(); t->fn = std::move(f);
    memset(t->fence, 0, sizeof(VC)); memset(t->acq, 0, sizeof(VC));
    memcpy(t->vc, cur->vc, sizeof(VC)); t->vc[t->id]++; cur->vc[cur->id]++;
    if (stacks.size() < T.size()) stacks.push_back((char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    t->stack = stacks[t->id - 1];
    getcontext(&t->uc); t->uc.uc_stack.ss_sp = t->stack; t->uc.uc_stack.ss_size = STK; t->uc.uc_link = nullptr;
    makecontext(&t->uc, (void (*)())tramp, 0);
    T.push_back(t);
}
bool all_done() { for (auto t : T) if (t->id && t->st != Thread::DONE) return false; return true; }
unsigned blocked() { unsigned n = 0; for (auto t : T) if (t->id && t->st == Thread::BLOCK) ++n; return n; }
void join() {
    if (cur->id) fail("join");
    bool any = false; for (auto t : T) if (t->id && t->st != Thread::DONE) any = true;
    if (any) { joined = true; Thread* n = choose(); go(n); joined = false; }
    for (auto t : T) jn(cur->vc, t->vc);
}
void watch(i64 limit, bool duration) { Thread* t = cur; t->watching = true; t->limit = limit; if (duration && (limit == INF || __builtin_add_overflow(clk, limit, &t->limit))) t->limit = INF; t->blocked = t->timedout = false; t->base = clk; t->asleep = 0; }
// time the operation has used otherwise than blocked: scheduling delays, which no implementation can rule out
static i64 slack(Thread* t) { return clk - t->base - t->asleep; }
void unwatch() { cur->watching = false; }
bool did_block() { return cur->blocked; }
bool os_timed_out() { return cur->timedout; }
static i64 look() {         // the thread reads the clock
    step();
    if (active) { if (chance(4)) clk += rnd(30); if (chance(24)) clk += rnd(1500); }
    return clk;
}

// ---------- happens-before
struct Sh { uint32_t wc = 0; int8_t wt = -1; uint32_t rc[MAXT] = {0}; };
static Hash<uintptr_t, Sh> shadow;
struct Sync { VC v; };
static Hash<uintptr_t, Sync> syncs;
static bool instack(uintptr_t a) { char x; uintptr_t s = (uintptr_t)&x; for (auto t : T) if (t->stack && a >= (uintptr_t)t->stack && a < (uintptr_t)t->stack + STK) return true;
    (void)s; static uintptr_t lo, hi; if (!hi) { pthread_attr_t at; void* p; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &p, &n); lo = (uintptr_t)p; hi = lo + n; pthread_attr_destroy(&at); } return a >= lo && a < hi; }
static unsigned plain = 0;
static Vec<std::pair<uintptr_t, uintptr_t>> ghosts;
void ghost(const void* p, size_t n) { ghosts.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
static void access(void* p, unsigned n, bool w) {
    if (!active) return;
    uintptr_t a = (uintptr_t)p;
    if (instack(a)) return;
    for (auto& g : ghosts) if (a >= g.first && a < g.second) return;
    if (T.size() > 1 && (++plain & 7) == 0) step();
    for (unsigned i = 0; i < n; ++i) {
        Sh& s = shadow[a + i];
        if (s.wt >= 0 && s.wt != cur->id && s.wc > cur->vc[s.wt]) fail("data race: %s by thread %d unordered with a write by thread %d", w ? "write" : "read", cur->id, s.wt);
        if (w) {
            for (int t = 0; t < MAXT; ++t) if (t != cur->id && s.rc[t] > cur->vc[t]) fail("data race: write by thread %d unordered with a read by thread %d", cur->id, t);
            s.wt = cur->id; s.wc = cur->vc[cur->id];
            memset(s.rc, 0, sizeof s.rc);
        } else s.rc[cur->id] = cur->vc[cur->id];
    }
}
static void forget(void* p, size_t n) { if (shadow.empty() && syncs.empty()) return; for (size_t i = 0; i < n; ++i) { shadow.erase((uintptr_t)p + i); syncs.erase((uintptr_t)p + i); } }
static Sync& sy(const void* a) { auto it = syncs.find((uintptr_t)a); if (it == syncs.end()) { it = syncs.emplace((uintptr_t)a, Sync()).first; memset(it->second.v, 0, sizeof(VC)); } return it->second; }
static bool isacq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static bool isrel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static void aload(const volatile void* p, int mo) { if (!active) return; Sync& s = sy((void*)p); if (isacq(mo)) jn(cur->vc, s.v); else jn(cur->acq, s.v); }
static void astore(volatile void* p, int mo, bool rmw) {
    if (!active) return;
    Sync& s = sy((void*)p);
    if (!rmw) memset(s.v, 0, sizeof(VC));
    if (isrel(mo)) { jn(s.v, cur->vc); cur->vc[cur->id]++; } else jn(s.v, cur->fence);
}
static void fence(int mo) {
    if (!active) return;
    if (isacq(mo)) jn(cur->vc, cur->acq);
    if (isrel(mo)) { memcpy(cur->fence, cur->vc, sizeof(VC)); cur->vc[cur->id]++; }
}
static void acq(const void* a) { if (active) jn(cur->vc, sy(a).v); }
static void rel(const void* a) { if (active) { jn(sy(a).v, cur->vc); cur->vc[cur->id]++; } }

// ---------- operating system
struct Mx { int owner = -1; bool alive = true; };
static Map<const void*, Mx> mxs;
struct Cv { unsigned one = 0, all = 0; int clock = CLOCK_REALTIME; };
static Map<const void*, Cv> cvs;
static Map<const void*, int> attrs;
static Map<const void*, unsigned> sems;
static Map<const void*, int> onces;
struct Key { void (*d)(void*); bool alive; };
static Map<unsigned, Key> keys;
static unsigned nextkey;
static int inject(unsigned n, int e) { if (active && !cur->sure && chance(n)) { last_fault = e; faulted = true; note("  fault injected: %d", e); return e; } return 0; }
void sure(bool b) { cur->sure = b; }
unsigned mutexes_held() { return cur->held; }
int mutex_owner(void* m) { auto i = mxs.find(m); return i == mxs.end() ? -1 : i->second.owner; }
unsigned cond_notified(void* c, bool all) { return all ? cvs[c].all : cvs[c].one; }
unsigned sem_value(void* s) { return sems[s]; }
static bool okts(const timespec* t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }
static i64 abst(const timespec* t, int clock) {
    i64 s; if (__builtin_mul_overflow((i64)t->tv_sec, (i64)1000000000, &s) || __builtin_add_overflow(s, (i64)t->tv_nsec, &s)) s = t->tv_sec < 0 ? -INF : INF;
    if (clock == CLOCK_REALTIME) return s;
    i64 r; return __builtin_add_overflow(s, steady_offset, &r) ? INF : r;
}
static int sleep_on(const void* a, char kind, i64 until) {       // 1 woken, 2 timed out
    if (until <= clk) { cur->timedout = true; return 2; }
    block(a, kind, until);
    if (cur->why == 2) cur->timedout = true;
    return cur->why;
}
static void take(const void* m) { mxs[m].owner = cur->id; cur->held++; acq(m); }
static void give(const void* m) { rel(m); mxs[m].owner = -1; cur->held--; for (auto t : T) if (t->st == Thread::BLOCK && t->kind == 'm' && t->on == m) wake(t, 1); }
static int pintr() { if (active && !cur->sure && chance(faults.pintr)) { note("  -> EINTR"); return EINTR; } return 0; }
static int mlock(const void* m, i64 until) {
    while (mxs[m].owner >= 0) {
        if (mxs[m].owner == cur->id) fail("deadlock: thread %d locks a mutex it already owns", cur->id);
        if (sleep_on(m, 'm', until) == 2 && mxs[m].owner >= 0) return ETIMEDOUT;
    }
    take(m); return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts, int clock) {
    step();
    if (mxs[m].owner != cur->id) fail("wait on a condition variable without owning the mutex");
    if (ts && !okts(ts)) { note("pthread_cond_timedwait -> EINVAL (nanoseconds %ld)", (long)ts->tv_nsec); return EINVAL; }
    if (int e = pintr()) return e;
    if (int e = inject(faults.cond_wait, EINVAL)) return e;
    i64 until = ts ? abst(ts, clock) : INF;
    note("pthread_cond_%swait", ts ? "timed" : "");
    int w = 1;
    if (until <= clk) { give(m); step(); w = 2; cur->timedout = true; }
    else {
        give(m);
        if (!chance(faults.spurious)) w = sleep_on(c, 'c', until);
        else { cur->blocked = true; step(); }
    }
    int e = exempt; exempt = 1; mlock(m, INF); exempt = e;
    note("pthread_cond_%swait -> %s", ts ? "timed" : "", w == 2 ? "ETIMEDOUT" : "0");
    return w == 2 ? ETIMEDOUT : 0;
}
static void tls_dtors() {
    for (int it = 0; it < 4; ++it) {
        bool any = false;
        for (auto& k : keys) {
            const void* v = cur->tsd[k.first];
            if (k.second.alive && k.second.d && v) { any = true; cur->tsd[k.first] = nullptr; k.second.d(const_cast<void*>(v)); }
        }
        if (!any) return;
    }
}
// ---------- allocation
static unsigned long nalloc;
static Vec<void*> freed;
unsigned long allocated() { return nalloc; }
static void* alloc(size_t n) {
    if (active && !cur->sure && chance(faults.oom)) { last_fault = ENOMEM; faulted = true; throw std::bad_alloc(); }
    if (active) { ++nalloc; size_t* p = (size_t*)malloc(n + 16); p[0] = n; p[1] = 0x5151; forget(p + 2, n); return p + 2; }
    size_t* p = (size_t*)malloc(n + 16); if (!p) throw std::bad_alloc(); p[0] = n; p[1] = 0; return p + 2;
}
static void dealloc(void* v) {
    if (!v) return;
    size_t* p = (size_t*)v - 2;
    if (p[1] == 0x5151) { if (active) --nalloc; access(v, std::min<size_t>(p[0], 64), true); forget(v, p[0]); }
    else if (p[1] == 0xdead) fail("memory is released twice");
    p[1] = 0xdead;
    if (!active) free(p); else freed.push_back(p);       // blocks of a run are not reused
}
// ---------- scenarios
struct Scn { Str name; void (*f)(); double w; };
static Vec<Scn>& scns() { static Vec<Scn> v; return v; }
void run(const char* n, void (*f)(), double w) { scns().push_back(Scn{n, f, w}); }
static void once(const Scn& s, uint64_t sd) {
    scn = s.name.c_str(); seed = sd; rs = sd * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 4; ++i) r64();
    clk = 1000000000000000LL + rnd(1000000000); steady_offset = 1000000000000LL * 7 + 123456789; steps = 0; plain = 0; joined = false; exempt = 0; last_fault = 0; faulted = false;
    memset(&faults, 0, sizeof faults); sem_max = 0x7fffffff; locks_alive = conds_alive = sems_alive = 0;
    unsigned sw[] = {2, 3, 5, 9, 20, 60}; swp = sw[rnd(6)];
    for (auto t : T) { t->~Thread(); free(t); }
    T.clear(); shadow.clear(); syncs.clear(); mxs.clear(); cvs.clear(); attrs.clear(); sems.clear(); ghosts.clear(); trace.clear(); for (void* p : freed) free(p); freed.clear(); nalloc = 0;
    Thread* t = new (malloc(sizeof(Thread))) Thread; t->id = 0; memset(t->vc, 0, sizeof(VC)); memset(t->fence, 0, sizeof(VC)); memset(t->acq, 0, sizeof(VC)); t->vc[0] = 1; T.push_back(t); cur = t;
    ghost(&faults, sizeof faults); ghost(&exempt, sizeof exempt); ghost(&last_fault, sizeof last_fault); ghost(&faulted, sizeof faulted); ghost(&steady_offset, 8); ghost(&sem_max, 4); ghost(&locks_alive, 4); ghost(&conds_alive, 4); ghost(&sems_alive, 4);
    active = true;
    try { s.f(); } catch (std::exception& e) { fail("unexpected exception: %s", e.what()); }
    active = false;
}
static void crash(int sig) { char b[60]; snprintf(b, sizeof b, "the program crashes (signal %d)", sig); die(b); }
static void term() { die("std::terminate is called"); }
}
using namespace rt;
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return alloc(n); } catch (...) { return nullptr; } }

extern "C" {
void* __cxa_allocate_exception(size_t) noexcept;
void* sim_allocate_exception(size_t n) noexcept { void* p = __cxa_allocate_exception(n); forget(p, n); return p; }
// --- OS calls of the code under test (renamed by objcopy)
long sim_syscall(long nr, int* addr, int op, int val, const timespec* to, int* a2, int v3) {
    if (nr != 202) { errno = ENOSYS; return -1; }
    step();
    int cmd = op & 127 & ~0; bool rt_ = (op & 256) != 0; cmd = op & ~(128 | 256);
    if (cmd == 0 || cmd == 9) {
        i64 until = INF;
        if (to) {
            if (to->tv_nsec < 0 || to->tv_nsec >= 1000000000 || to->tv_sec < 0) { note("futex wait -> EINVAL (%lld, %ld)", (long long)to->tv_sec, (long)to->tv_nsec); errno = EINVAL; return -1; }
            if (cmd == 0) { i64 d = abst(to, CLOCK_REALTIME), b = clk; if (__builtin_add_overflow(b, d, &until)) until = INF; }
            else until = abst(to, rt_ ? CLOCK_REALTIME : CLOCK_MONOTONIC);
        }
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { note("futex wait -> EWOULDBLOCK"); errno = EAGAIN; return -1; }
        note("futex wait%s", to ? " with time-out" : "");
        if (until > clk && chance(faults.spurious)) { cur->blocked = true; step(); note("futex wait -> 0 (spurious)"); return 0; }
        if (until > clk && chance(faults.eintr)) { cur->blocked = true; { i64 x = rnd(200); clk += x; cur->asleep += x; } step(); note("futex wait -> EINTR"); errno = EINTR; return -1; }
        cur->bits = cmd == 9 ? (uint32_t)v3 : ~0u;
        int w = sleep_on(addr, 'f', until);
        note("futex wait -> %s", w == 1 ? "woken" : "ETIMEDOUT");
        if (w == 1) return 0;
        errno = ETIMEDOUT; return -1;
    }
    if (cmd == 1 || cmd == 10) {
        uint32_t bits = cmd == 10 ? (uint32_t)v3 : ~0u; int n = 0;
        Vec<Thread*> c; for (auto t : T) if (t->st == Thread::BLOCK && t->kind == 'f' && t->on == addr && (t->bits & bits)) c.push_back(t);
        while (!c.empty() && n < val) { unsigned i = rnd(c.size()); wake(c[i], 1); c.erase(c.begin() + i); ++n; }
        note("futex wake(%d) -> %d", val, n);
        step();
        return n;
    }
    if (cmd == 3 || cmd == 4) {
        if (cmd == 4 && __atomic_load_n(addr, __ATOMIC_SEQ_CST) != v3) { errno = EAGAIN; return -1; }
        int n = 0; long lim = (long)(intptr_t)to;
        for (auto t : T) if (t->st == Thread::BLOCK && t->kind == 'f' && t->on == addr) { if (n < val) { wake(t, 1); ++n; } else if (lim-- > 0) t->on = a2; }
        return n;
    }
    errno = ENOSYS; return -1;
}
int sim_clock_gettime(int c, timespec* t) { i64 n = look(); if (c == CLOCK_MONOTONIC || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE) n -= steady_offset; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int sim_gettimeofday(timeval* t, void*) { i64 n = look(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
time_t sim_time(time_t* t) { time_t x = look() / 1000000000; if (t) *t = x; return x; }
i64 sim_sysclock_now() { return look(); }
i64 sim_steady_now() { return look() - steady_offset; }
int sim_sched_yield() { if (active) { cur->spin = 1000; step(); } return 0; }
int sim_nanosleep(const timespec* t, timespec*) { if (active) block(t, 's', clk + abst(t, CLOCK_REALTIME)); return 0; }
int sim_usleep(unsigned u) { if (active) block(&u, 's', clk + u * 1000LL); return 0; }
pthread_t sim_pthread_self() { return cur ? cur->id + 1 : 0; }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
// mutex
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { if (int e = inject(faults.mutex_init, rnd(2) ? EAGAIN : ENOMEM)) return e; if (active) { mxs[m] = Mx(); ++locks_alive; } return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { if (active) { if (mxs[m].owner >= 0) { note("pthread_mutex_destroy: locked"); return EBUSY; } mxs.erase(m); --locks_alive; acq(m); } return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { if (!active) return 0; step(); if (int e = pintr()) return e; if (int e = inject(faults.mutex_lock, pick({EINVAL, EDEADLK, EAGAIN}))) return e; int r = mlock(m, INF); note("pthread_mutex_lock(%p) -> %d", (void*)m, r); return r; }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { if (!active) return 0; step(); if (int e = pintr()) return e; if (int e = inject(faults.mutex_lock, pick({EINVAL, EAGAIN}))) return e; int r = mxs[m].owner >= 0 ? EBUSY : mlock(m, INF); note("pthread_mutex_trylock(%p) -> %d", (void*)m, r); return r; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active) return 0; if (mxs[m].owner != cur->id) fail("pthread_mutex_unlock of a mutex the thread does not own"); note("pthread_mutex_unlock(%p)", (void*)m); give(m); step(); return 0; }
int sim_pthread_mutex_clocklock(pthread_mutex_t* m, int c, const timespec* t) {
    step(); if (int e = pintr()) return e; if (int e = inject(faults.mutex_lock, pick({EINVAL, EAGAIN, EDEADLK}))) return e;
    int r; if (mxs[m].owner < 0) r = mlock(m, INF); else if (!okts(t)) r = EINVAL; else r = mlock(m, abst(t, c));
    note("pthread_mutex_timedlock -> %d", r); return r;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return sim_pthread_mutex_clocklock(m, CLOCK_REALTIME, t); }
// condition variables
int sim_pthread_condattr_init(pthread_condattr_t* a) { if (active) attrs[a] = CLOCK_REALTIME; return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t* a, int c) { if (active) attrs[a] = c; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t*) { return 0; }
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { if (int e = inject(faults.cond_init, rnd(2) ? EAGAIN : ENOMEM)) return e; if (active) { Cv v; if (a) v.clock = attrs[a]; cvs[c] = v; ++conds_alive; } return 0; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { if (active) { for (auto t : T) if (t->st == Thread::BLOCK && t->kind == 'c' && t->on == c) fail("a condition variable is destroyed while a thread waits on it"); cvs.erase(c); --conds_alive; } return 0; }
int sim_pthread_cond_signal(pthread_cond_t* c) {
    if (!active) return 0;
    step(); cvs[c].one++;
    Vec<Thread*> w; for (auto t : T) if (t->st == Thread::BLOCK && t->kind == 'c' && t->on == c) w.push_back(t);
    if (!w.empty()) wake(w[rnd(w.size())], 1);
    note("pthread_cond_signal (%u waiting)", (unsigned)w.size());
    step(); return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active) return 0;
    step(); cvs[c].all++; unsigned n = 0;
    for (auto t : T) if (t->st == Thread::BLOCK && t->kind == 'c' && t->on == c) { wake(t, 1); ++n; }
    note("pthread_cond_broadcast (%u waiting)", n);
    step(); return 0;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, nullptr, 0); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cwait(c, m, t, cvs[c].clock); }
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, int k, const timespec* t) { return cwait(c, m, t, k); }
// semaphores
int sim_sem_init(sem_t* s, int, unsigned n) { if (int e = inject(faults.sem_init, rnd(2) ? ENOSPC : ENOSYS)) { errno = e; return -1; } if (active) { if (n > sem_max) { errno = EINVAL; return -1; } sems[s] = n; ++sems_alive; } return 0; }
int sim_sem_destroy(sem_t* s) { if (active) { sems.erase(s); --sems_alive; } return 0; }
int sim_sem_post(sem_t* s) {
    step(); if (int e = inject(faults.sem_post, EINVAL)) { errno = e; return -1; }
    if (sems[s] >= sem_max) { note("sem_post -> EOVERFLOW"); errno = EOVERFLOW; return -1; }
    rel(s); sems[s]++; note("sem_post -> 0 (value %u)", sems[s]);
    for (auto t : T) if (t->st == Thread::BLOCK && t->kind == 'S' && t->on == s) { wake(t, 1); }
    step(); return 0;
}
static int semwait(sem_t* s, i64 until, const timespec* ts) {
    step();
    if (int e = inject(faults.sem_wait, EINVAL)) { errno = e; return -1; }
    for (;;) {
        if (sems[s] > 0) { sems[s]--; acq(s); note("sem_wait -> 0"); return 0; }
        if (ts && !okts(ts)) { errno = EINVAL; return -1; }
        if (until > clk && chance(faults.eintr)) { cur->blocked = true; { i64 x = rnd(200); clk += x; cur->asleep += x; } step(); note("sem_wait -> EINTR"); errno = EINTR; return -1; }
        if (sleep_on(s, 'S', until) == 2 && sems[s] == 0) { note("sem_wait -> ETIMEDOUT"); errno = ETIMEDOUT; return -1; }
    }
}
int sim_sem_wait(sem_t* s) { return semwait(s, INF, nullptr); }
int sim_sem_trywait(sem_t* s) { step(); if (int e = inject(faults.sem_wait, EINVAL)) { errno = e; return -1; } if (sems[s] == 0) { note("sem_trywait -> EAGAIN"); errno = EAGAIN; return -1; } sems[s]--; acq(s); note("sem_trywait -> 0"); return 0; }
int sim_sem_clockwait(sem_t* s, int c, const timespec* t) { return semwait(s, okts(t) ? abst(t, c) : INF, t); }
int sim_sem_timedwait(sem_t* s, const timespec* t) { return sim_sem_clockwait(s, CLOCK_REALTIME, t); }
int sim_sem_getvalue(sem_t* s, int* v) { *v = sems[s]; return 0; }
// keys
int sim_pthread_key_create(unsigned* k, void (*d)(void*)) { if (int e = inject(faults.key, EAGAIN)) return e; *k = nextkey++; keys[*k] = Key{d, true}; note("pthread_key_create"); return 0; }
int sim_pthread_key_delete(unsigned k) { keys[k].alive = false; return 0; }
void* sim_pthread_getspecific(unsigned k) { return cur ? const_cast<void*>(cur->tsd[k]) : nullptr; }
int sim_pthread_setspecific(unsigned k, const void* v) { if (v && !cur->tsd[k]) if (int e = inject(faults.setspecific, ENOMEM)) return e; cur->tsd[k] = v; return 0; }
int sim_pthread_once(pthread_once_t* o, void (*f)()) { step(); int& s = onces[o]; if (s == 2) { acq(o); return 0; } if (s == 1) { while (onces[o] != 2) sim_sched_yield(); acq(o); return 0; } s = 1; f(); rel(o); onces[o] = 2; return 0; }
void sim_abort() { if (faulted) { note("abort() after a resource failure"); printf("abort after fault\n"); _exit(0); } fail("abort() is called"); }
// --- hooks of -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); }\
void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); }\
void __tsan_read##n##_pc(void* p, void*) { access(p, n, false); } void __tsan_write##n##_pc(void* p, void*) { access(p, n, true); }\
void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access((void*)s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access((void*)s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access(d, n, true); return memset(d, c, n); }
#define AT(b, t)\
t __tsan_atomic##b##_load(const volatile t* p, int mo) { step(); aload(p, mo); return *p; }\
void __tsan_atomic##b##_store(volatile t* p, t v, int mo) { step(); astore(p, mo, false); *p = v; }\
t __tsan_atomic##b##_exchange(volatile t* p, t v, int mo) { step(); aload(p, mo); astore(p, mo, true); t o = *p; *p = v; return o; }\
t __tsan_atomic##b##_fetch_add(volatile t* p, t v, int mo) { step(); aload(p, mo); astore(p, mo, true); t o = *p; *p = o + v; return o; }\
t __tsan_atomic##b##_fetch_sub(volatile t* p, t v, int mo) { step(); aload(p, mo); astore(p, mo, true); t o = *p; *p = o - v; return o; }\
t __tsan_atomic##b##_fetch_and(volatile t* p, t v, int mo) { step(); aload(p, mo); astore(p, mo, true); t o = *p; *p = o & v; return o; }\
t __tsan_atomic##b##_fetch_or(volatile t* p, t v, int mo) { step(); aload(p, mo); astore(p, mo, true); t o = *p; *p = o | v; return o; }\
t __tsan_atomic##b##_fetch_xor(volatile t* p, t v, int mo) { step(); aload(p, mo); astore(p, mo, true); t o = *p; *p = o ^ v; return o; }\
t __tsan_atomic##b##_fetch_nand(volatile t* p, t v, int mo) { step(); aload(p, mo); astore(p, mo, true); t o = *p; *p = ~(o & v); return o; }\
int __tsan_atomic##b##_compare_exchange_strong(volatile t* p, t* e, t v, int mo, int fmo) { step(); if (*p == *e) { aload(p, mo); astore(p, mo, true); *p = v; return 1; } aload(p, fmo); *e = *p; return 0; }\
int __tsan_atomic##b##_compare_exchange_weak(volatile t* p, t* e, t v, int mo, int fmo) { step(); if (*p == *e && !(active && chance(24))) { aload(p, mo); astore(p, mo, true); *p = v; return 1; } aload(p, fmo); *e = *p; return 0; }\
t __tsan_atomic##b##_compare_exchange_val(volatile t* p, t e, t v, int mo, int fmo) { step(); t o = *p; if (o == e) { aload(p, mo); astore(p, mo, true); *p = v; } else aload(p, fmo); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { step(); fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
int main(int argc, char** argv) {
    // usage: prog PROPERTY seconds [schedule scenario]
    const char* prop = theprop = argv[1]; double secs = atof(argv[2]);
    char* alt = (char*)malloc(65536); stack_t ss = {alt, 0, 65536}; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGBUS, &sa, 0);
    std::set_terminate(term);
    Vec<Scn> v; for (auto& s : scns()) if (s.name.substr(0, s.name.find(' ')).find(prop) != std::string::npos) v.push_back(s);
    if (v.empty()) { printf("no scenario for %s\n", prop); return 2; }
    if (argc > 4) { for (auto& s : v) if (s.name.substr(s.name.find(' ') + 1) == argv[4]) once(s, strtoull(argv[3], 0, 10)); puts("no failure"); return 0; }
    timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    unsigned long n = 0;
    for (;; ++n) {
        once(v[n % v.size()], n / v.size() + 1);
        clock_gettime(CLOCK_MONOTONIC, &b);
        if ((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) > secs) break;
    }
    printf("no failing input found in %lu runs of %u scenarios\n", n, (unsigned)v.size());
    return 0;
}

// C06, C07, C09: replay of counterexamples on the real semaphore, mutex and timed_mutex
#include "rt.hpp"
#include <unistd.h>
#if defined(VP_NO_TIMEDLOCK)
#undef _POSIX_TIMEOUTS
#endif
#include "common.hpp"
#if defined(VP_EMULATION)
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#endif
#include <boost/sync/mutexes.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/posix_time.hpp>
#include "timed.hpp"
#include "lin.hpp"
using namespace rt;
typedef boost::sync::semaphore Sem;
typedef boost::sync::mutex MX;
typedef boost::sync::timed_mutex TM;
struct W {
    Sem* e;
    template<class T> bool dur(T t) { return e->wait_for(t); }
    template<class T> bool tdur(T t) { return e->timed_wait(t); }
    template<class T> bool until(T t) { return e->wait_until(t); }
    template<class T> bool tuntil(T t) { return e->timed_wait(t); }
};
struct L {
    TM* e;
    template<class T> bool dur(T t) { return e->try_lock_for(t); }
    template<class T> bool tdur(T t) { return e->timed_lock(t); }
    template<class T> bool until(T t) { return e->try_lock_until(t); }
    template<class T> bool tuntil(T t) { return e->timed_lock(t); }
};
static void world() {
#if defined(VP_EMULATION) || defined(VP_NO_TIMEDLOCK)
    exempt = 1;
#endif
    faults.eintr = pick({0, 0, 4, 12}); faults.spurious = pick({0, 0, 4, 12});
#if defined(BOOST_SYNC_HAS_PTHREAD_EINTR_BUG)
    faults.pintr = pick({0, 4, 12});
#endif
}
static int sem_step(char k, int r, int s, int* o) {
    if (k == 'p') { o[0] = s + 1; return 1; }
    if (k == 't' && !r) { if (s) return 0; o[0] = 0; return 1; }
    if (!s) return 0;
    o[0] = s - 1; return 1;
}
static void waiter(Sem* e, Hist& h, int n) {
    while (n--) {
        int c = rnd(6), i;
        if (c < 3) { i = h.begin('w'); e->wait(); h.end(i, 1); }
        else if (c == 3) { i = h.begin('t'); bool r = e->try_wait(); h.end(i, r); }
        else { i = h.begin('t'); bool r = timed(W{e}, rnd(KINDS), anytime(), false); h.end(i, r); }
        if (chance(3)) nap(rnd(2000));
    }
}
SCENARIO("C07", sem_threads) {
    world();
    int init = rnd(3);
    Sem* e = new Sem(init); Hist h;
    int w = 1 + rnd(3), p = 1 + rnd(3);
    for (int i = 0; i < w; ++i) { int n = 1 + rnd(2); spawn([=, &h] { waiter(e, h, n); }); }
    for (int i = 0; i < p; ++i) { int n = 1 + rnd(2); spawn([=, &h] { for (int k = n; k--; ) { if (rnd(2)) nap(rnd(3000)); int j = h.begin('p'); e->post(); h.end(j, 1); } }); }
    join();
    unsigned left = blocked();
    int j = h.begin('t'); bool r = e->try_wait(); h.end(j, r);
    check(!(left && r), "%u threads are blocked while a unit is available", left);
    for (int k = 0; r && k < 4; ++k) { j = h.begin('t'); r = e->try_wait(); h.end(j, r); }
    if (h.ops.size() <= 18 && !h.linear(init, sem_step)) { h.show(); fail("the results are not those of a semaphore with initial count %d", init); }
}
SCENARIO("C07", sem_sequence) {
    world();
    int s = rnd(3);
    bool def = s == 0 && rnd(2);
    Sem* e = def ? new Sem() : new Sem(s);
    for (int k = 1 + rnd(8); k--; ) {
        if (rnd(3) == 0) { e->post(); ++s; }
        else if (s && rnd(2)) { e->wait(); --s; }
        else { bool r = rnd(2) ? e->try_wait() : timed(W{e}, rnd(KINDS), pick({0, -5, 100}), false); check(r == (s != 0), "a wait %s with %d units available", r ? "succeeds" : "fails", s); if (r) --s; }
    }
    delete e;
}
#if !defined(VP_EMULATION)
SCENARIO("C07", sem_errors) {
    faults.sem_init = pick({0, 1});
    Sem* e = nullptr;
    try { e = new Sem(2); check(!faults.sem_init, "the constructor succeeds although sem_init fails"); }
    catch (boost::sync::resource_error& x) { check(faults.sem_init && x.code().value() == last_fault && x.native_error() == last_fault, "resource_error carries %d instead of %d", x.code().value(), last_fault); return; }
    sem_max = 3;
    e->post();
    for (int i = 0; i < 2; ++i) {
        bool thrown = false;
        try { e->post(); } catch (boost::sync::overflow_error& x) { thrown = true; check(x.code().value() == EOVERFLOW, "overflow_error carries %d", x.code().value()); }
        check(thrown, "post() to a semaphore at its maximum does not throw");
    }
    int n = 0; while (e->try_wait()) ++n;
    check(n == 3, "%d units instead of 3", n);
    delete e;
    check(sems_alive == 0, "the semaphore is not destroyed");
}
#else
SCENARIO("C07", sem_errors) {
    Sem* e = new Sem(0xffffffffu);
    bool thrown = false;
    try { e->post(); } catch (boost::sync::overflow_error&) { thrown = true; }
    check(thrown, "post() to a semaphore at its maximum does not throw");
    check(e->try_wait(), "no unit"); e->post();
    thrown = false;
    try { e->post(); } catch (boost::sync::overflow_error&) { thrown = true; }
    check(thrown, "post() to a semaphore at its maximum does not throw");
}
#endif
SCENARIO("C06", sem_times) {
    world();
    Sem* e = new Sem(chance(4));
    int w = 1 + rnd(2);
    for (int i = 0; i < w; ++i) spawn([=] { for (int k = 1 + rnd(2); k--; ) timed(W{e}, rnd(KINDS), anytime(), true); });
    int p = rnd(3);
    if (p) spawn([=] { for (int k = p; k--; ) { nap(rnd(4000)); e->post(); } });
    join();
}
SCENARIO("C06", sem_past) {
    world();
    int n = rnd(2); Sem* e = new Sem(n);
    bool r = timed(W{e}, rnd(KINDS), pick({0, -1, -1000000000, -5000000000, INT64_MIN}), true);
    check(r == (n == 1), "a timed wait with %d units and a deadline in the past returns %d", n, r);
}
SCENARIO("C06", sem_far) {
    world();
    Sem* e = new Sem(0);
    spawn([=] { check(timed(W{e}, rnd(KINDS), pick({INT64_MAX, INT64_MAX / 2, 1LL << 60, 31536000000000000LL * 100}), true), "a wait with a deadline in the far future gives up"); });
    spawn([=] { nap(3000000000); e->post(); });
    join();
    check(blocked() == 0, "a waiter is not woken");
}
// ---- mutexes
static unsigned near_n; static unsigned long near_c; static int inside;
struct Gh { Gh() { near_n = 0; near_c = 0; inside = 0; ghost(&near_n, sizeof near_n); ghost(&near_c, sizeof near_c); ghost(&inside, sizeof inside); } };
template<class M> static bool timed_try(M*, int) { return false; }
template<> bool timed_try(TM* m, int) { return timed(L{m}, rnd(KINDS), anytime(), is("C06")); }
template<class M> static void threads(bool t) {
    world(); Gh g;
    M* m = new M; int* data = new int[2]();
    int n = 2 + rnd(2);
    for (int i = 0; i < n; ++i) spawn([=] {
        for (int k = 1 + rnd(3); k--; ) {
            bool got = true;
            switch (rnd(t ? 4 : 2)) {
            case 0: near_n++; near_c++; m->lock(); break;
            case 1: {
                unsigned long c = near_c; bool quiet = near_n == 0;
                near_n++; near_c++; ++c;
                got = m->try_lock();
                check(got || !quiet || near_c != c, "try_lock() fails although no thread owned the mutex");
                break; }
            default: {
                unsigned long c = near_c; bool quiet = near_n == 0;
                near_n++; near_c++; ++c;
                got = timed_try(m, 0);
                check(got || !quiet || near_c != c, "a timed lock attempt fails although no thread owned the mutex");
            } }
            if (got) { check(!inside, "two threads own the mutex"); inside = 1; ++data[0]; step(); if (rnd(4) == 0) nap(rnd(3000)); ++data[1]; inside = 0; m->unlock(); }
            near_n--; near_c++;
        }
    });
    join();
    check(all_done(), "%u threads are blocked although the mutex is free", blocked());
    check(m->try_lock(), "the mutex is not free although every owner has unlocked it");
    check(!m->try_lock(), "try_lock() succeeds on an owned mutex");
    m->unlock();
    delete m;
}
SCENARIO("C09", mutex_threads) { threads<MX>(false); }
SCENARIO("C09,C06", timed_mutex_threads) { threads<TM>(true); }
SCENARIO("C09", timed_mutex_hold) {
    world();
    TM* m = new TM;
    spawn([=] { m->lock(); nap(1000 + rnd(3000)); m->unlock(); });
    spawn([=] { nap(rnd(500)); if (timed(L{m}, rnd(KINDS), pick({0, 500, 2000, 100000000}), false)) { check(!m->try_lock(), "try_lock() succeeds on an owned mutex"); m->unlock(); } });
    join();
    check(all_done(), "a thread is blocked although the mutex is free");
    check(m->try_lock(), "the mutex is not free although every owner has unlocked it");
}
template<class F> static int attempt(F f, int& code) {
    code = 0;
    try { return f() ? 1 : 0; }
    catch (boost::sync::lock_error& e) { code = e.code().value(); check(e.native_error() == code, "native_error() differs from code()"); check(e.code().category() == boost::system::system_category(), "the error code is not one of the system category"); return -1; }
}
template<class M> static void verdict(M* m, int r, int code) {
    int o = mutex_owner(m->native_handle());
    if (r == 1) check(o == self() && !faulted, "success is reported although the OS mutex was not locked");
    else check(o != self(), "failure is reported although the OS mutex was locked");
    if (r == -1) check(faulted && code == last_fault, "an exception carries the code %d, the OS reported %d", code, last_fault);
    if (faulted) check(r == -1, "an OS error (%d) is not reported by an exception", last_fault);
}
template<class M> static void errors(bool t) {
    M* m = new M;
    for (int k = 1 + rnd(4); k--; ) {
        bool busy = chance(3);
#if defined(BOOST_SYNC_HAS_PTHREAD_EINTR_BUG)
        faults.pintr = pick({0, 3});
#endif
        if (busy) { unsigned i = faults.pintr; faults.pintr = 0; spawn([=] { m->lock(); }); join(); faults.pintr = i; }
        faulted = false; last_fault = 0; faults.mutex_lock = pick({0, 1, 2});
        int code, c = rnd(t ? 3 : 2); if (busy && c == 0) c = 1;
        int r = c == 0 ? attempt([=] { m->lock(); return true; }, code) : c == 1 ? attempt([=] { return m->try_lock(); }, code) : attempt([=] { return timed_try(m, 0); }, code);
        faults.mutex_lock = 0;
        check(!(busy && r == 1), "a lock attempt on an owned mutex succeeds");
        check(!(!busy && r == 0), "a lock attempt on a free mutex reports failure");
        verdict(m, r, code);
        if (busy) return;
        if (r == 1) { m->unlock(); check(mutex_owner(m->native_handle()) == -1, "unlock() does not unlock the OS mutex"); }
    }
    delete m;
}
SCENARIO("C09", mutex_errors) { errors<MX>(false); }
#if !defined(VP_NO_TIMEDLOCK)
SCENARIO("C09", timed_mutex_errors) { errors<TM>(true); }
#endif
SCENARIO("C06", timed_mutex_past) {
    world();
    TM* m = new TM; bool busy = rnd(2);
    if (busy) { spawn([=] { m->lock(); }); join(); }
    bool r = timed(L{m}, rnd(KINDS), pick({0, -1, -1000000000, -5000000000, INT64_MIN}), true);
    check(r == !busy, "a timed lock attempt on %s mutex with a deadline in the past returns %d", busy ? "an owned" : "a free", r);
}
SCENARIO("C06", timed_mutex_far) {
    world();
    TM* m = new TM;
    spawn([=] { m->lock(); nap(3000000000); m->unlock(); });
    spawn([=] { nap(100); check(timed(L{m}, rnd(KINDS), pick({INT64_MAX, INT64_MAX / 2, 1LL << 60, 31536000000000000LL * 100}), true), "a lock attempt with a deadline in the far future gives up"); m->unlock(); });
    join();
    check(all_done(), "a waiter is not woken");
}

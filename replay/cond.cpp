// C13, C14: replay of counterexamples on the real condition variables
#include "rt.hpp"
#include <pthread.h>
#include "common.hpp"
#include <boost/sync/condition_variables.hpp>
#include <boost/sync/mutexes.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/posix_time.hpp>
#include "timed.hpp"
using namespace rt;
using boost::sync::mutex; using boost::sync::timed_mutex; using boost::sync::unique_lock;
using boost::sync::condition_variable; using boost::sync::condition_variable_any; using boost::sync::cv_status;
struct UL {     // any BasicLockable
    pthread_mutex_t m; int owner = -1;
    UL() { pthread_mutex_init(&m, 0); ghost(&owner, sizeof owner); }
    void lock() { check(mutexes_held() == 0, "a mutex is held while the user's lock is being acquired"); sure(true); pthread_mutex_lock(&m); owner = self(); sure(false); }
    void unlock() { check(owner == self(), "the user's lock is unlocked by a thread that does not own it"); owner = -1; pthread_mutex_unlock(&m); }
};
template<class L> struct Held;
template<class M> struct Held<unique_lock<M> > {
    unique_lock<M> l; M* m;
    Held(M* p) : l(*p), m(p) {}
    unique_lock<M>& get() { return l; }
    void check_owned(const char* when) {
        check(mutex_owner(m->native_handle()) == self(), "%s the mutex is not locked by the waiting thread", when);
        check(l.owns_lock() && l.mutex() == m, "%s the lock object does not own the mutex", when);
        check(mutexes_held() == 1, "%s another mutex is still held", when);
    }
    void drop() { if (l.owns_lock()) l.unlock(); }
    void take() { l.lock(); }
};
template<> struct Held<UL> {
    UL* m;
    Held(UL* p) : m(p) { m->lock(); }
    ~Held() { m->unlock(); }
    UL& get() { return *m; }
    void check_owned(const char* when) { check(m->owner == self(), "%s the user's lock is not locked by the waiting thread", when); check(mutexes_held() == 1, "%s another mutex is still held", when); }
};
static int tb(bool b) { return b; }
static int tb(cv_status s) { return s == cv_status::no_timeout; }
template<class C, class L> struct W {
    C* c; L* l;
    template<class T> bool dur(T t) { return tb(c->wait_for(*l, t)); }
    template<class T> bool tdur(T t) { return tb(c->timed_wait(*l, t)); }
    template<class T> bool until(T t) { return tb(c->wait_until(*l, t)); }
    template<class T> bool tuntil(T t) { return tb(c->timed_wait(*l, t)); }
};
template<class C, class L, class P> struct WP {
    C* c; L* l; P p;
    template<class T> bool dur(T t) { return tb(c->wait_for(*l, t, p)); }
    template<class T> bool tdur(T t) { return tb(c->timed_wait(*l, t, p)); }
    template<class T> bool until(T t) { return tb(c->wait_until(*l, t, p)); }
    template<class T> bool tuntil(T t) { return tb(c->timed_wait(*l, t, p)); }
};
static void world() {
    exempt = 1;
    faults.spurious = pick({0, 0, 3, 12});
#if defined(BOOST_SYNC_HAS_PTHREAD_EINTR_BUG)
    faults.pintr = pick({0, 4, 12});
#endif
}
struct Oops {};
template<class M, class H> struct Pred {
    int* items; H* h; int* calls; bool throws;
    bool operator()() const { h->check_owned("when the predicate is evaluated"); ++*calls; if (throws && chance(4)) throw Oops(); return *items > 0; }
};
template<class C, class M, class H> static void consume(C* c, M* m, int* items, int* sleeping, bool throws) {
    H h(m);
    int calls = 0; Pred<M, H> p = {items, &h, &calls, throws};
    typedef typename std::remove_reference<decltype(h.get())>::type L;
    bool r = true;
    try {
        switch (rnd(5)) {
        case 0: while (*items == 0) { ++*sleeping; c->wait(h.get()); --*sleeping; h.check_owned("after a wait"); } break;
        case 1: ++*sleeping; c->wait(h.get(), p); --*sleeping; h.check_owned("after a wait"); check(*items > 0, "a predicate wait returns although the predicate is false"); break;
        case 2: { r = timed(W<C, L>{c, &h.get()}, rnd(KINDS), anytime(), true); h.check_owned("after a timed wait"); r = *items > 0; break; }
        default:
            r = timed(WP<C, L, Pred<M, H> >{c, &h.get(), p}, rnd(KINDS), anytime(), true);
            h.check_owned("after a timed wait");
            check(calls > 0, "the predicate is not evaluated");
            check(r == (*items > 0), "a timed predicate wait returns %d although the predicate is %s", r, *items > 0 ? "true" : "false");
        }
    }
    catch (Oops&) { unwatch(); h.check_owned("when the predicate throws"); return; }
    catch (boost::sync::wait_error& e) { unwatch(); check(faulted && e.code().value() == last_fault, "wait_error carries %d, the OS reported %d", e.code().value(), last_fault); h.check_owned("after a failed wait"); return; }
    check(!faulted || !faults.cond_wait, "an OS error is not reported");
    if (r) --*items;
}
template<class C, class M, class H> static void threads() {
    world();
    C* c = new C; M* m = new M; int* items = new int(0); int* sleeping = new int(0);
    ghost(sleeping, sizeof *sleeping);
    bool throws = false;
    int w = 1 + rnd(3), p = 1 + rnd(2); bool all = rnd(2), inside = rnd(2);
    for (int i = 0; i < w; ++i) { int n = 1 + rnd(2); spawn([=] { for (int k = n; k--; ) consume<C, M, H>(c, m, items, sleeping, throws); }); }
    for (int i = 0; i < p; ++i) { int n = 1 + rnd(2); spawn([=] { for (int k = n; k--; ) {
        if (rnd(3)) nap(rnd(3000));
        { H h(m); ++*items; if (inside) { if (all) c->notify_all(); else c->notify_one(); } }
        if (!inside) { if (all) c->notify_all(); else c->notify_one(); }
    } }); }
    join();
    if (blocked()) {
        unsigned left = blocked();
        check(*items == 0, "%u threads are blocked although the predicate has become true and they were notified", left);
        { H h(m); *items += 10; c->notify_all(); }
        join();
        check(blocked() == 0, "notify_all() does not wake every waiter");
    }
}
template<class C, class M, class H> static void throwing() {
    world();
    C* c = new C; M* m = new M; int* items = new int(0); int* sleeping = new int(0); ghost(sleeping, sizeof *sleeping);
    spawn([=] { for (int k = 1 + rnd(3); k--; ) consume<C, M, H>(c, m, items, sleeping, true); });
    spawn([=] { for (int k = 8; k--; ) { nap(rnd(1000)); H h(m); ++*items; c->notify_one(); } });
    join();
    check(blocked() == 0, "a thread is blocked although the predicate is true");
}
template<class C, class M, class H> static void failing() {
    world();
    C* c = new C; M* m = new M; int* items = new int(0); int* sleeping = new int(0); ghost(sleeping, sizeof *sleeping);
    faults.cond_wait = 1;
    bool s = rnd(2);
    spawn([=] { consume<C, M, H>(c, m, items, sleeping, false); if (s) { H h(m); } });
    join();
    check(blocked() == 0, "a lock is left locked after a failed wait");
}
template<class C> static void making() {
    faults.cond_init = pick({0, 1}); faults.mutex_init = pick({0, 0, 2});
    unsigned long a = allocated();
    try { C* c = new C; check(!faulted, "the constructor succeeds although the OS object could not be created"); delete c; }
    catch (boost::sync::resource_error& e) { check(faulted && e.code().value() == last_fault, "resource_error carries %d, the OS reported %d", e.code().value(), last_fault); }
    check(locks_alive + conds_alive == 0 || conds_alive > 100 || locks_alive > 100, "an OS object leaks");
    (void)a;
}
typedef Held<unique_lock<mutex> > HM;
typedef Held<unique_lock<timed_mutex> > HT;
typedef Held<UL> HU;
SCENARIO("C13", cv_threads) { threads<condition_variable, mutex, HM>(); }
SCENARIO("C13", cv_timed_mutex) { threads<condition_variable, timed_mutex, HT>(); }
SCENARIO("C13", cv_throwing) { throwing<condition_variable, mutex, HM>(); }
SCENARIO("C13", cv_failing) { failing<condition_variable, mutex, HM>(); }
SCENARIO("C13", cv_making) { making<condition_variable>(); }
SCENARIO("C14", cva_threads) { threads<condition_variable_any, UL, HU>(); }
SCENARIO("C14", cva_unique_lock) { threads<condition_variable_any, mutex, HM>(); }
SCENARIO("C14", cva_throwing) { throwing<condition_variable_any, UL, HU>(); }
SCENARIO("C14", cva_failing) { failing<condition_variable_any, UL, HU>(); }
SCENARIO("C14", cva_making) { making<condition_variable_any>(); }

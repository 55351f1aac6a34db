// C15-C19: replay of counterexamples on the real thread-specific storage
#include "rt.hpp"
#include <pthread.h>
#include <cstring>
#include "common.hpp"
#include "tss_pthread.cpp"
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/locks/unique_lock.hpp>
using namespace rt;
using namespace boost::sync;
enum { MAXV = 400, MAXP = 5, MAXTH = 8 };
enum Kind { DEFAULT, CUSTOM, NONE };
struct Val { int id; Val(int n) : id(n) {} ~Val(); };
typedef thread_specific_ptr<Val> P;
struct VState { int made, cleaned, kept; Kind kind; };      // kept: the user's again (released), or never to be cleaned
static struct World {
    VState v[MAXV]; int nv;
    P* p[MAXP]; Kind kind[MAXP]; Val* expect[MAXP][MAXTH]; int np;
    bool exiting[MAXTH], busy[MAXP][MAXTH]; int nested; bool nest, gone[MAXTH];
    struct F { int thread, ran, parent, live; unsigned seq; } f[MAXV]; int nf, running[MAXTH]; unsigned seq, last_ran[MAXTH];
    bool exitwork[MAXTH];
    mutex* nm[MAXTH][4]; int nn[MAXTH];
    int count;
} W;
static pthread_mutex_t um;      // the scenario's own synchronisation
struct Sure { Sure() { sure(true); } ~Sure() { sure(false); } };
static Val* make(Kind k) {
    Sure s; if (W.nv >= MAXV) return nullptr;
    int id = W.nv++; W.v[id].made = 1; W.v[id].cleaned = 0; W.v[id].kept = 0; W.v[id].kind = k;
    return new Val(id);
}
static void nested_work(bool exit);
static void locks_free(const char* what) {
    unsigned n = W.nn[self()];          // mutexes handed over by notify_all_at_thread_exit
    check(mutexes_held() == n, "%s runs while a lock of the library is held", what);
    for (unsigned i = 0; i < n; ++i) check(mutex_owner(W.nm[self()][i]->native_handle()) == self(), "%s runs after the mutex given to notify_all_at_thread_exit() has been unlocked", what);
}
static void cleaned(int id) {
    VState& v = W.v[id];
    note("value %d is cleaned up", id);
    check(v.made == 1, "something that is not a value is cleaned up");
    check(!v.kept, "value %d was released, yet it is cleaned up", id);
    check(v.kind != NONE, "value %d of a pointer without cleanup function is cleaned up", id);
    check(++v.cleaned == 1, "value %d is cleaned up twice", id);
    locks_free("a cleanup function");
    check(!W.gone[self()], "a value is cleaned up after the thread's termination was notified");
    step();
    nested_work(W.exiting[self()]);
}
Val::~Val() { if (id >= 0 && W.v[id].kind == DEFAULT && !W.v[id].kept) cleaned(id); }
static void cleanup(Val* v) { check(v != nullptr, "null is passed to a cleanup function"); int id = v->id; cleaned(id); v->id = -1; delete v; }
static void discard(Val* v) { if (v) { W.v[v->id].kept = 1; delete v; } }
static P* create(Kind k) { Sure s; return k == DEFAULT ? new P() : new P(k == CUSTOM ? &cleanup : 0); }
static void look(int i) {
    Val* e = W.expect[i][self()]; P& p = *W.p[i];
    Val* g = p.get();
    check(g == e, "pointer %d of thread %d holds %s, not %s", i, self(), g ? "another value" : "null", e ? "the value stored there" : "null");
    check(get_pointer(p) == e && !p == !e && (p ? true : false) == (e != 0), "get_pointer() or the boolean operators disagree with get()");
    if (e) check(&*p == e && p->id == e->id, "operator* or operator-> disagrees with get()");
}
static void put(int i, Val* v) {
    P& p = *W.p[i]; int t = self(); Val* old = W.expect[i][t];
    struct Busy { bool& b; Busy(bool& x) : b(x) { b = true; } ~Busy() { b = false; } } busy(W.busy[i][t]);
    int oid = old && old != v && W.kind[i] != NONE ? old->id : -1;
    W.expect[i][t] = v;
    note("reset(pointer %d, value %d)", i, v ? v->id : -1);
    try { p.reset(v); }
    catch (resource_error&) { check(faulted, "resource_error without a failure"); if (!old || oid < 0 || !W.v[oid].cleaned) { W.expect[i][t] = old; discard(v); check(p.get() == old, "a failed reset() changes the value"); } return; }
    catch (std::bad_alloc&) { check(faulted, "bad_alloc without a failure"); W.expect[i][t] = old; discard(v); check(p.get() == old, "a failed reset() changes the value"); return; }
    if (oid >= 0) check(W.v[oid].cleaned == 1, "reset() does not clean up value %d", oid);
    if (old && old != v && W.kind[i] == NONE) discard(old);
}
static void act(int i) {
    int t = self();
    switch (rnd(6)) {
    case 0: case 1: put(i, make(W.kind[i])); break;
    case 2: put(i, nullptr); break;
    case 3: { note("reset(pointer %d, same value)", i); Val* v = W.expect[i][t]; put(i, v); break; }
    case 4: { Val* e = W.expect[i][t]; note("release(pointer %d)", i); Val* r; try { r = W.p[i]->release(); } catch (std::exception&) { check(faulted, "release() throws"); break; } check(r == e, "release() does not return the value"); W.expect[i][t] = nullptr; discard(e); break; }
    default: break;
    }
    look(i);
}
struct Fn {
    int id;
    Fn(int i) : id(i) { W.f[id].live++; }
    Fn(Fn const& o) : id(o.id) { W.f[id].live++; }
    ~Fn() { check(--W.f[id].live >= 0, "a function object is destroyed twice"); }
    void operator()() const {
        World::F& f = W.f[id]; int t = self();
        note("function %d runs", id);
        check(W.exiting[t], "a function registered with at_thread_exit() runs before the thread exits");
        check(f.thread == t, "a function registered by thread %d runs on thread %d", f.thread, t);
        check(++f.ran == 1, "a function registered with at_thread_exit() runs twice");
        check(!W.gone[t], "a function runs after the thread's termination was notified");
        for (int k = 0; k < W.nf; ++k) if (W.f[k].thread == t && W.f[k].parent == f.parent && W.f[k].seq > f.seq && W.f[k].live) check(W.f[k].ran, "function %d runs before function %d, which was registered later", id, k);
        locks_free("a function registered with at_thread_exit()");
        int save = W.running[t]; W.running[t] = id;
        nested_work(true);
        W.running[t] = save;
    }
};
static void fnptr_body(int id) { Fn f(id); f(); }
template<int N> static void fnptr() { fnptr_body(MAXV - 1 - N); }
static void add_function() {
    int id; { if (W.nf >= MAXV - 20) return; id = W.nf++; }
    World::F& f = W.f[id]; f.thread = self(); f.ran = 0; f.parent = W.running[self()]; f.seq = ++W.seq; f.live = 0;
    note("at_thread_exit(function %d)", id);
    bool ok = false;
    {
        Fn fn(id);
        try { at_thread_exit(fn); ok = true; }
        catch (resource_error&) { check(faulted, "at_thread_exit() fails without a reason"); }
        catch (std::bad_alloc&) { check(faulted, "at_thread_exit() fails without a reason"); }
        check(f.live == (ok ? 2 : 1), "at_thread_exit() %s: there are %d copies of the function", ok ? "succeeds" : "fails", f.live - 1);
    }
    if (!ok) f.thread = -1;
}
static void nested_work(bool exit) {
    if (!W.nest || W.nested <= 0) return;
    if (rnd(2)) return;
    --W.nested;
    switch (rnd(exit ? 4 : 2)) {
    case 0: if (W.np) { int i = rnd(W.np); if (W.p[i]) { Val* g = W.exiting[self()] || W.busy[i][self()] ? W.p[i]->get() : (look(i), nullptr); check(!g || !W.v[g->id].cleaned, "get() returns a value that has been cleaned up"); if (W.busy[i][self()] && rnd(2)) { note("reset(pointer %d) from within the cleanup", i); W.expect[i][self()] = nullptr; W.p[i]->reset(); } } } break;
    case 1: if (exit) { add_function(); if (rnd(2)) add_function(); } else add_function(); break;
    default: if (W.np) { int i = rnd(W.np); if (W.p[i]) { note("from within the exit processing:"); Val* v = make(W.kind[i]), * o; if (!v) return; int id = v->id; o = W.p[i]->get();
        try { W.p[i]->reset(v); } catch (std::exception&) { check(faulted, "reset() throws"); discard(v); break; }
        check(W.p[i]->get() == v || W.v[id].cleaned, "a value set during the exit processing is lost"); if (W.kind[i] == NONE) { discard(o); W.p[i]->release(); discard(v); } } }
    }
}
static void ends(int np = W.np) { sure(true); for (int i = 0; i < np; ++i) if (W.p[i] && W.kind[i] == NONE && W.expect[i][self()]) { discard(W.p[i]->release()); } W.exiting[self()] = true; note("thread function returns"); }
static void start(bool nest) {
    memset(static_cast<void*>(&W), 0, sizeof W); ghost(&W, sizeof W); W.nest = nest; W.nested = 12;
    for (int i = 0; i < MAXTH; ++i) W.running[i] = -1;
    pthread_mutex_init(&um, 0);
}
static void done() {
    check(blocked() == 0, "a thread does not end");
    for (int i = 0; i < W.nf; ++i) { if (W.f[i].thread >= 0) check(W.f[i].ran == 1, "function %d does not run at thread exit", i); check(W.f[i].live == 0, "a function object leaks"); }
}
static void all_cleaned(const char* when) { for (int i = 0; i < W.nv; ++i) if (W.v[i].kind != NONE && !W.v[i].kept) check(W.v[i].cleaned == 1, "value %d has not been cleaned up %s", i, when); }
static void arrive(int upto) {      // barrier
    Sure s; pthread_mutex_lock(&um); ++W.count; pthread_mutex_unlock(&um);
    for (;;) { pthread_mutex_lock(&um); bool r = W.count >= upto; pthread_mutex_unlock(&um); if (r) break; nap(50); }
}
static void kill_ptr(int i) { Sure s; note("pointer %d is destroyed", i); P* p = W.p[i]; W.p[i] = nullptr; delete p; for (int t = 0; t < MAXTH; ++t) { W.expect[i][t] = nullptr; } }
static void values(bool nest, bool faulty) {
    start(nest);
    int n = 1 + rnd(4), t = 1 + rnd(3);
    for (int k = 0; k < n; ++k) { W.kind[k] = (Kind)rnd(3); W.p[k] = create(W.kind[k]); } W.np = n;
    if (faulty) { faults.setspecific = pick({0, 2, 6}); faults.oom = pick({0, 4, 12}); }
    for (int k = 0; k < t; ++k) spawn([=] { for (int r = rnd(14); r--; ) { act(rnd(W.np)); if (W.np) look(rnd(W.np)); } ends(); });
    join(); done(); all_cleaned("although every thread has ended");
    memset(&faults, 0, sizeof faults);
    for (int k = 0; k < n; ++k) kill_ptr(k);
}
// pointers are destroyed and created while threads hold values
static void churn(bool nest) {
    start(nest);
    int n = 2 + rnd(2), t = 1 + rnd(3), rounds = 1 + rnd(3);
    for (int k = 0; k < n; ++k) { W.kind[k] = (Kind)rnd(3); W.p[k] = create(W.kind[k]); } W.np = n;
    for (int k = 0; k < t; ++k) spawn([=] {
        int at = 0;
        for (int r = 0; r < rounds; ++r) {
            for (int q = 1 + rnd(4); q--; ) { act(rnd(W.np)); }
            at += t + 1; arrive(at);          // the owner destroys and creates pointers now
            if (rnd(2) && r + 1 == rounds) { W.nest = false; ends(n - 1); return; }      // exits at the same time
            at += t + 1; if (r + 1 == rounds) break; arrive(at);
            for (int i = 0; i < W.np; ++i) look(i);
        }
        W.nest = false;
        ends(n - 1);
    });
    spawn([=] {
        int at = 0;
        for (int r = 0; r < rounds; ++r) {
            at += t + 1; arrive(at);
            bool last = r + 1 == rounds;
            int i = last ? n - 1 : rnd(n); Val* left[MAXTH]; for (int q = 0; q < MAXTH; ++q) left[q] = W.kind[i] == NONE ? W.expect[i][q] : nullptr;
            kill_ptr(i);
            for (int q = 0; q < MAXTH; ++q) discard(left[q]);
            if (!last) { W.kind[i] = (Kind)rnd(3); W.p[i] = create(W.kind[i]); for (int q = 0; q < MAXTH; ++q) W.expect[i][q] = nullptr; look(i); }
            at += t + 1; if (last) break; arrive(at);
        }
        ends(n - 1);
    });
    join(); done(); all_cleaned("although every thread has ended");
    for (int k = 0; k < n; ++k) if (W.p[k]) kill_ptr(k);
}
// a value left behind by the owner thread alone: destruction and re-creation in one thread
static void reuse() {
    start(false);
    spawn([=] {
        W.np = 2; for (int k = 0; k < 2; ++k) { W.kind[k] = (Kind)rnd(3); W.p[k] = create(W.kind[k]); look(k); }
        for (int r = 1 + rnd(6); r--; ) {
            for (int q = rnd(4); q--; ) act(rnd(2));
            int i = rnd(2); Val* v = W.expect[i][self()]; bool none = W.kind[i] == NONE; int id = v ? v->id : -1;
            kill_ptr(i);
            if (v) { if (none) discard(v); else check(W.v[id].cleaned == 1, "the destructor of the pointer does not clean up value %d", id); }
            W.kind[i] = (Kind)rnd(3); W.p[i] = create(W.kind[i]); look(0); look(1);
        }
        ends();
    });
    join(); done(); all_cleaned("although every thread has ended");
    for (int k = 0; k < 2; ++k) kill_ptr(k);
}
// threads create, use and destroy pointers of their own at the same time
static void own() {
    start(false);
    W.np = 0; int t = 2 + rnd(2);
    for (int k = 0; k < t; ++k) spawn([=] {
        for (int r = 1 + rnd(4); r--; ) {
            Kind kd = rnd(2) ? DEFAULT : CUSTOM; P* p = create(kd);
            check(p->get() == nullptr, "a new pointer is not null");
            Val* v = make(kd); int id = v->id; p->reset(v); step(); check(p->get() == v, "the value is lost");
            if (rnd(2)) { Val* w = make(kd); p->reset(w); check(W.v[id].cleaned == 1, "reset() does not clean up"); check(p->get() == w, "the value is lost"); id = w->id; }
            { Sure s; delete p; }
            check(W.v[id].cleaned == 1, "the destructor of the pointer does not clean up value %d", id);
        }
        if (rnd(2)) add_function();
        ends();
    });
    join(); done(); all_cleaned("although every thread has ended");
}
static void functions(bool nest, bool faulty) {
    start(nest);
    int t = 1 + rnd(3); int n = nest ? 1 + rnd(2) : 0;
    for (int k = 0; k < n; ++k) { W.kind[k] = (Kind)rnd(3); W.p[k] = create(W.kind[k]); } W.np = n;
    if (faulty) { faults.setspecific = pick({0, 2}); faults.oom = pick({0, 3, 8}); }
    for (int k = 0; k < t; ++k) spawn([=] { for (int r = rnd(6); r--; ) { add_function(); if (W.np && rnd(2)) act(rnd(W.np)); } ends(); });
    join(); done(); all_cleaned("although every thread has ended");
    memset(&faults, 0, sizeof faults);
    for (int k = 0; k < n; ++k) kill_ptr(k);
}
static int plain_ran[3]; static void pf0() { ++plain_ran[0]; check(plain_ran[1] && plain_ran[2], "functions run out of order"); } static void pf1() { ++plain_ran[1]; check(plain_ran[2] && !plain_ran[0], "functions run out of order"); } static void pf2() { ++plain_ran[2]; check(!plain_ran[1] && !plain_ran[0], "functions run out of order"); }
static void pointers() {
    start(false); memset(plain_ran, 0, sizeof plain_ran); ghost(plain_ran, sizeof plain_ran);
    spawn([=] { at_thread_exit(&pf0); at_thread_exit(&pf1); at_thread_exit(&pf2); check(!plain_ran[0] && !plain_ran[1] && !plain_ran[2], "a function runs before the thread exits"); ends(); });
    join(); for (int i = 0; i < 3; ++i) check(plain_ran[i] == 1, "a function runs %d times at thread exit", plain_ran[i]);
}
// notify_all_at_thread_exit
static void notifying(bool faulty) {
    start(rnd(2));
    int n = rnd(3); for (int k = 0; k < n; ++k) { W.kind[k] = (Kind)rnd(3); W.p[k] = create(W.kind[k]); } W.np = n;
    int c = 1 + rnd(2), w = 1 + rnd(3); exempt = 1;
    static mutex* m[2]; static condition_variable* cv[2]; static bool flag[2]; static int ok[2]; ghost(m, sizeof m); ghost(cv, sizeof cv); ghost(flag, sizeof flag); ghost(ok, sizeof ok);
    for (int i = 0; i < c; ++i) { m[i] = new mutex; cv[i] = new condition_variable; flag[i] = false; ok[i] = 0; }
    if (faulty) { faults.setspecific = pick({0, 2}); faults.oom = pick({0, 2, 4}); }
    if (!faulty) for (int k = 0; k < w; ++k) { int i = rnd(c); spawn([=] { unique_lock<mutex> l(*m[i]); while (!flag[i]) cv[i]->wait(l); check(W.gone[0] || mutex_owner(m[i]->native_handle()) == self(), "a waiter runs while the mutex is locked"); l.unlock(); }); }
    spawn([=] {
        int me = self();
        for (int r = rnd(3); r--; ) { if (n) act(rnd(n)); if (rnd(2)) add_function(); }
        for (int i = 0; i < c; ++i) {
            unique_lock<mutex> l(*m[i]);
            flag[i] = true;
            try {
                notify_all_at_thread_exit(*cv[i], boost::move(l));
                check(!l.owns_lock(), "the lock given to notify_all_at_thread_exit() still owns the mutex");
                check(mutex_owner(m[i]->native_handle()) == me, "notify_all_at_thread_exit() unlocks the mutex before the thread exits");
                check(cond_notified(cv[i]->native_handle(), true) == 0, "the condition variable is notified before the thread exits");
                W.nm[me][W.nn[me]++] = m[i]; ++ok[i];
            }
            catch (std::exception&) {
                check(faulted, "notify_all_at_thread_exit() fails without a reason");
                check((mutex_owner(m[i]->native_handle()) == me) == l.owns_lock(), "after a failed notify_all_at_thread_exit() the mutex is %s", l.owns_lock() ? "unlocked behind the back of the lock" : "locked with nobody responsible for it");
            }
        }
        for (int r = rnd(3); r--; ) { if (n) act(rnd(n)); if (rnd(2)) add_function(); }
        ends();
    });
    join(); done(); all_cleaned("although every thread has ended");
    memset(&faults, 0, sizeof faults);
    for (int i = 0; i < c; ++i) {
        check(mutex_owner(m[i]->native_handle()) == -1, "the mutex given to notify_all_at_thread_exit() is still locked after the thread has ended");
        check((int)cond_notified(cv[i]->native_handle(), true) == ok[i], "the condition variable is notified %u times", cond_notified(cv[i]->native_handle(), true));
    }
    for (int k = 0; k < n; ++k) kill_ptr(k);
}
SCENARIO("C16", iso_values) { values(rnd(2), false); }
SCENARIO("C16", iso_faulty) { values(false, true); }
SCENARIO("C16", iso_churn) { churn(false); }
SCENARIO("C16", iso_reuse) { reuse(); }
SCENARIO("C16", iso_own) { own(); }
SCENARIO("C17", clean_values) { values(rnd(2), false); }
SCENARIO("C17", clean_faulty) { values(false, true); }
SCENARIO("C17", clean_churn) { churn(rnd(2)); }
SCENARIO("C17", clean_reuse) { reuse(); }
SCENARIO("C17", clean_own) { own(); }
SCENARIO("C15", exit_functions) { functions(false, false); }
SCENARIO("C15", exit_nested) { functions(true, false); }
SCENARIO("C15", exit_faulty) { functions(false, true); }
SCENARIO("C15", exit_pointers) { pointers(); }
SCENARIO("C18", notify_plain) { notifying(false); }
SCENARIO("C18", notify_faulty) { notifying(true); }
SCENARIO("C19", reg_values) { values(rnd(2), false); }
SCENARIO("C19", reg_churn) { churn(rnd(2)); }
SCENARIO("C19", reg_own) { own(); }
SCENARIO("C19", reg_functions) { functions(rnd(2), rnd(2)); }
SCENARIO("C19", reg_notify) { notifying(rnd(2)); }

// C10-C12: replay of counterexamples on the real lock objects: random sequences of operations, a mutex that keeps books
#include "rt.hpp"
#include <time.h>
#include <new>
#include "common.hpp"
#include <boost/move/utility_core.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/boost_chrono.hpp>
using namespace rt;
using namespace boost::sync;
typedef boost::chrono::nanoseconds dur;
typedef timespec tp;
struct Mtx;
struct UserException { int id; };
enum { BLOCK = 1, TRY = 2, TIMED = 4 };
static const char* MODE[3] = {"exclusive", "shared", "upgrade"};
static struct Op {              // the operation under way
    const char* name; int allow; bool timed, unlock_throws, no_gap; Mtx* only; int calls, threw, last; bool refused, scope_exc;
    tp t; dur d;
} op;
static int exc_id;
struct Mtx {
    int holds[3], no;
    Mtx(int n) : holds(), no(n) {}
    void called(const char* n) {
        ++op.calls; note("  m%d.%s()", no, n);
        check(this == op.only || !op.only, "%s calls %s() on something that is not its mutex", op.name, n);
    }
    void maybe_throw(unsigned n) { if (chance(n)) { ++op.threw; op.last = ++exc_id; note("    throws"); throw UserException{exc_id}; } }
    bool gain(const char* n, int kind, int mode, int from = -1) {
        called(n);
        check((op.allow & kind) != 0, "%s calls %s(), which it must not use", op.name, n);
        if (from >= 0) check(holds[from] > 0, "%s calls %s() although the mutex is not held (%s)", op.name, n, MODE[from]);
        maybe_throw(6);
        if (kind != BLOCK && rnd(2)) { if (kind == TIMED || !op.timed) op.refused = true; note("    refuses"); return false; }
        if (from >= 0) --holds[from];
        ++holds[mode];
        return true;
    }
    void lose(const char* n, int mode) {
        called(n);
        check(holds[mode] > 0, "%s calls %s() although the mutex is not held (%s)", op.name, n, MODE[mode]);
        check(!op.no_gap, "%s lets go of the mutex", op.name);
        if (op.unlock_throws) maybe_throw(4);
        --holds[mode];
    }
    void same(tp const& t) { check(op.timed && t.tv_sec == op.t.tv_sec && t.tv_nsec == op.t.tv_nsec, "%s hands on a time that is not the one given", op.name); }
    void same(dur const& t) { check(op.timed && t.count() == op.d.count(), "%s hands on a time that is not the one given", op.name); }
#define MEMBERS(a, b, mode) void lock##a() { gain("lock" #a, BLOCK, mode); } void unlock##a() { lose("unlock" #a, mode); } bool try_lock##a() { return gain("try_lock" #a, TRY, mode); }\
    bool timed_lock##a(tp const& t) { same(t); return gain("timed_lock" #a, TIMED, mode); } bool timed_lock##a(dur const& t) { same(t); return gain("timed_lock" #a, TIMED, mode); }\
    bool try_lock##b##for(dur const& t) { same(t); return gain("try_lock" #b "for", TIMED, mode); } bool try_lock##b##until(tp const& t) { same(t); return gain("try_lock" #b "until", TIMED, mode); }
    MEMBERS(, _, 0) MEMBERS(_shared, _shared_, 1) MEMBERS(_upgrade, _upgrade_, 2)
#define CONV(n, k, from, to) bool c_##n() { return gain(#n, k, to, from); }
    void unlock_upgrade_and_lock() { gain("unlock_upgrade_and_lock", BLOCK, 0, 2); }
    void unlock_and_lock_upgrade() { gain("unlock_and_lock_upgrade", BLOCK, 2, 0); }
    void unlock_and_lock_shared() { gain("unlock_and_lock_shared", BLOCK, 1, 0); }
    void unlock_upgrade_and_lock_shared() { gain("unlock_upgrade_and_lock_shared", BLOCK, 1, 2); }
    bool try_unlock_upgrade_and_lock() { return gain("try_unlock_upgrade_and_lock", TRY, 0, 2); }
    bool try_unlock_shared_and_lock() { return gain("try_unlock_shared_and_lock", TRY, 0, 1); }
    bool try_unlock_shared_and_lock_upgrade() { return gain("try_unlock_shared_and_lock_upgrade", TRY, 2, 1); }
    template<class T> bool timed_unlock_shared_and_lock(T const& t) { same(t); return gain("timed_unlock_shared_and_lock", TIMED, 0, 1); }
    template<class T> bool timed_unlock_shared_and_lock_upgrade(T const& t) { same(t); return gain("timed_unlock_shared_and_lock_upgrade", TIMED, 2, 1); }
};
typedef unique_lock<Mtx> U; typedef shared_lock<Mtx> S; typedef upgrade_lock<Mtx> G;
template<class T> struct Mode; template<> struct Mode<U> { enum { v = 0 }; }; template<> struct Mode<S> { enum { v = 1 }; }; template<> struct Mode<G> { enum { v = 2 }; };
struct Ab { bool own; Mtx* m; bool operator==(Ab const& o) const { return own == o.own && m == o.m; } };
static const Ab EMPTY = {false, nullptr};
enum { N = 2 };
template<class T> struct Slot { alignas(T) unsigned char mem[sizeof(T)]; bool live; T* p() { return reinterpret_cast<T*>(mem); } };
static struct Store { Slot<U> u[N]; Slot<S> s[N]; Slot<G> g[N]; Mtx* m[2]; } W;
template<class T> Slot<T>* slots(); template<> Slot<U>* slots<U>() { return W.u; } template<> Slot<S>* slots<S>() { return W.s; } template<> Slot<G>* slots<G>() { return W.g; }
static const char* nm(U*) { return "unique_lock"; } static const char* nm(S*) { return "shared_lock"; } static const char* nm(G*) { return "upgrade_lock"; }
template<class T> Ab obs(T& l) {
    Op save = op; T const& c = l;
    Ab a = {c.owns_lock(), c.mutex()};
    check((c ? true : false) == a.own && !c == !a.own, "%s: operator bool, operator! and owns_lock() disagree", nm(&l));
    check(op.calls == save.calls, "an observer touches the mutex");
    check(!a.own || a.m, "a %s owns a lock without a mutex", nm(&l));
    return a;
}
template<class T> void count(int (&n)[2][3]) { for (int i = 0; i < N; ++i) if (slots<T>()[i].live) { Ab a = obs(*slots<T>()[i].p()); if (a.own) ++n[a.m == W.m[1]][Mode<T>::v]; } }
static void balance() {
    int n[2][3] = {};
    count<U>(n); count<S>(n); count<G>(n);
    for (int m = 0; m < 2; ++m) for (int k = 0; k < 3; ++k) check(W.m[m]->holds[k] == n[m][k], "after %s m%d is held %d times (%s), but %d lock objects own it", op.name, m, W.m[m]->holds[k], MODE[k], n[m][k]);
}
static void begin(const char* name, int allow, bool timed, Mtx* only) { op = Op(); op.name = name; op.allow = allow; op.timed = timed; op.only = only; op.t.tv_sec = rnd(1000); op.t.tv_nsec = rnd(1000000000); op.d = dur(rnd(1000000)); note("%s", name); }
static void thrown(UserException& e) { check(op.threw > 0 && e.id == op.last, "%s throws a mutex exception that was not the last one", op.name); }
template<class T> void construct(Slot<T>& s) {
    Mtx& m = *W.m[rnd(2)]; Ab a; unsigned k = rnd(8);
    static const char* N_[] = {"default constructor", "locking constructor", "adopting constructor", "deferring constructor", "trying constructor", "timed constructor (time point)", "timed constructor (duration)", "move constructor"};
    begin(N_[k], k == 1 ? BLOCK | TRY : k == 4 ? TRY : k == 5 || k == 6 ? TIMED | TRY : 0, k == 5 || k == 6, &m);
    Ab src = EMPTY; T* q = nullptr;
    if (k == 7) { for (int i = 0; i < N; ++i) if (slots<T>()[i].live) q = slots<T>()[i].p(); if (!q) return; src = obs(*q); op.only = 0; }
    try {
        switch (k) {
        case 0: new (s.mem) T(); break;
        case 1: new (s.mem) T(m); break;
        case 2: ++m.holds[Mode<T>::v]; new (s.mem) T(m, adopt_lock); break;
        case 3: new (s.mem) T(m, defer_lock); break;
        case 4: new (s.mem) T(m, try_to_lock); break;
        case 5: new (s.mem) T(m, op.t); break;
        case 6: new (s.mem) T(m, op.d); break;
        case 7: new (s.mem) T(boost::move(*q)); break;
        }
    }
    catch (UserException& e) { thrown(e); balance(); return; }
    catch (lock_error&) { fail("%s throws lock_error", op.name); }
    s.live = true;
    check(!op.threw, "an exception of the mutex is swallowed by the %s", op.name);
    a = obs(*s.p());
    if (k == 0) check(a == EMPTY && !op.calls, "a default constructed %s is not empty", nm(s.p()));
    else if (k == 7) check(a == src && obs(*q) == EMPTY && !op.calls, "moving a %s does not transfer its state", nm(s.p()));
    else { check(a.m == &m, "the constructed %s does not refer to the mutex", nm(s.p()));
        if (k == 1) check(a.own, "the constructed %s does not own the mutex", nm(s.p()));
        else if (k == 2) check(a.own && !op.calls, "adopt_lock must only record the mutex as owned");
        else if (k == 3) check(!a.own && !op.calls, "defer_lock must only record the mutex");
        else check(a.own || op.refused, "the %s fails although the mutex never refused", op.name);
    }
    balance();
}
template<class T> void unary(Slot<T>& s) {
    static const char* N_[] = {"lock()", "try_lock()", "timed_lock(time point)", "timed_lock(duration)", "try_lock_for()", "try_lock_until()", "unlock()", "release()", "destructor"};
    unsigned k = rnd(9); T& l = *s.p(); Ab a = obs(l);
    begin(N_[k], k == 0 ? BLOCK | TRY : k == 1 ? TRY : k < 6 ? TIMED | TRY : 0, k >= 2 && k < 6, a.m);
    op.unlock_throws = k == 6;
    bool valid = a.m && (k == 6 ? a.own : !a.own), r = false;
    try {
        switch (k) {
        case 0: l.lock(); break;
        case 1: r = l.try_lock(); break;
        case 2: r = l.timed_lock(op.t); break;
        case 3: r = l.timed_lock(op.d); break;
        case 4: r = l.try_lock_for(op.d); break;
        case 5: r = l.try_lock_until(op.t); break;
        case 6: l.unlock(); break;
        case 7: { Mtx* m = l.release(); check(m == a.m && obs(l) == EMPTY && !op.calls, "release() does not simply return the mutex and empty the %s", nm(&l)); if (a.own) --m->holds[Mode<T>::v]; balance(); return; }
        case 8: s.live = false; l.~T(); balance(); return;
        }
    }
    catch (UserException& e) { thrown(e); check(valid, "%s: misuse is not reported before the mutex is touched", op.name); check(obs(l) == a, "%s: an exception changes the ownership state", op.name); balance(); return; }
    catch (lock_error&) { check(!valid && !op.calls, "%s throws lock_error although it is used properly, or after touching the mutex", op.name); check(obs(l) == a, "%s: an exception changes the ownership state", op.name); balance(); return; }
    check(valid, "%s on a %s %s returns normally", op.name, nm(&l), !a.m ? "without a mutex" : a.own ? "that owns the mutex" : "that does not own the mutex");
    check(!op.threw, "%s: an exception of the mutex is swallowed", op.name);
    Ab b = obs(l);
    check(b.m == a.m, "%s changes the mutex", op.name);
    if (k == 0) check(b.own, "lock() does not leave the %s owning the mutex", nm(&l));
    else if (k == 6) check(!b.own, "unlock() leaves the %s owning", nm(&l));
    else { check(b.own == r, "%s returns %d, but owns_lock() is %d", op.name, r, b.own); check(r || op.refused, "%s fails although the mutex never refused", op.name); }
    balance();
}
template<class T> void binary(Slot<T>& s, Slot<T>& s2) {
    static const char* N_[] = {"move assignment", "swap()", "swap(,)"};
    unsigned k = rnd(3); T &l = *s.p(), &q = *s2.p(); Ab a = obs(l), b = obs(q); bool alias = &l == &q;
    begin(N_[k], 0, false, nullptr);
    switch (k) { case 0: l = boost::move(q); break; case 1: l.swap(q); break; case 2: swap(l, q); break; }
    Ab x = obs(l), y = obs(q);
    if (alias) check(x == a || (k == 0 && x == EMPTY), "self %s changes the lock", op.name);
    else if (k == 0) check(x == b && (y == a || y == EMPTY), "%s does not take over the state of the source", op.name);
    else check(x == b && y == a && !op.calls, "%s does not exchange the states", op.name);
    balance();
}
template<class T, class Q, class F> void conv(const char* name, int allow, bool timed, F f) {
    Slot<T>* s = nullptr; Q* q = nullptr;
    for (int i = 0; i < N; ++i) { if (!slots<T>()[i].live) s = &slots<T>()[i]; if (slots<Q>()[i].live && (!q || rnd(2))) q = slots<Q>()[i].p(); }
    if (!s || !q) return;
    Ab b = obs(*q);
    begin(name, allow, timed, b.m); op.no_gap = true;
    try { f(s->mem, *q); }
    catch (UserException& e) { thrown(e); check(obs(*q) == b, "%s: a failed conversion changes the source", name); balance(); return; }
    catch (lock_error&) { fail("%s throws lock_error", name); }
    s->live = true;
    check(!op.threw || allow != BLOCK, "%s: an exception of the mutex is swallowed", name);
    Ab x = obs(*s->p()), y = obs(*q), owned = {true, b.m}, moved = {false, b.m};
    if (!b.own) check(x == moved && y == EMPTY && !op.calls, "%s: a lock that owns nothing must hand over its mutex without touching it", name);
    else if (allow == BLOCK) check(x == owned && y == EMPTY, "%s does not transfer the ownership", name);
    else { check((x == owned && y == EMPTY) || (!x.own && y == b), "%s neither transfers the ownership nor leaves the source as it was", name); check(x.own || op.refused, "%s fails although the mutex never refused", name); }
    balance();
}
template<class T, class Q> void aconv(const char* name) {
    T* p = nullptr; Q* q = nullptr;
    for (int i = 0; i < N; ++i) { if (slots<T>()[i].live && (!p || rnd(2))) p = slots<T>()[i].p(); if (slots<Q>()[i].live && (!q || rnd(2))) q = slots<Q>()[i].p(); }
    if (!p || !q) return;
    Ab a = obs(*p), b = obs(*q), owned = {b.own, b.m};
    begin(name, BLOCK, false, nullptr);
    try { *p = boost::move(*q); }
    catch (UserException& e) { thrown(e); Ab x = obs(*p); check(obs(*q) == b && (x == a || x == EMPTY), "%s: a failed conversion changes the source or the target", name); balance(); return; }
    catch (lock_error&) { fail("%s throws lock_error", name); }
    check(!op.threw, "%s: an exception of the mutex is swallowed", name);
    check(obs(*p) == owned && obs(*q) == EMPTY, "%s does not transfer the ownership", name);
    balance();
}
template<class T> void step1(bool two) {
    Slot<T>* a = slots<T>(); int i = rnd(N), j = rnd(N);
    if (!a[i].live) construct(a[i]);
    else if (two && a[j].live && rnd(3) == 0) binary(a[i], a[j]);
    else unary(a[i]);
}
static void step2() {
    switch (rnd(15)) {
    case 0: conv<U, G>("unique_lock(upgrade_lock)", BLOCK, false, [](void* p, G& q) { new (p) U(boost::move(q)); }); break;
    case 1: conv<G, U>("upgrade_lock(unique_lock)", BLOCK, false, [](void* p, U& q) { new (p) G(boost::move(q)); }); break;
    case 2: conv<S, U>("shared_lock(unique_lock)", BLOCK, false, [](void* p, U& q) { new (p) S(boost::move(q)); }); break;
    case 3: conv<S, G>("shared_lock(upgrade_lock)", BLOCK, false, [](void* p, G& q) { new (p) S(boost::move(q)); }); break;
    case 4: conv<U, G>("unique_lock(upgrade_lock, try_to_lock)", TRY, false, [](void* p, G& q) { new (p) U(boost::move(q), try_to_lock); }); break;
    case 5: conv<U, S>("unique_lock(shared_lock, try_to_lock)", TRY, false, [](void* p, S& q) { new (p) U(boost::move(q), try_to_lock); }); break;
    case 6: conv<G, S>("upgrade_lock(shared_lock, try_to_lock)", TRY, false, [](void* p, S& q) { new (p) G(boost::move(q), try_to_lock); }); break;
    case 7: conv<U, S>("unique_lock(shared_lock, time point)", TIMED | TRY, true, [](void* p, S& q) { new (p) U(boost::move(q), op.t); }); break;
    case 8: conv<G, S>("upgrade_lock(shared_lock, time point)", TIMED | TRY, true, [](void* p, S& q) { new (p) G(boost::move(q), op.t); }); break;
    case 9: conv<U, S>("unique_lock(shared_lock, duration)", TIMED | TRY, true, [](void* p, S& q) { new (p) U(boost::move(q), op.d); }); break;
    case 10: conv<G, S>("upgrade_lock(shared_lock, duration)", TIMED | TRY, true, [](void* p, S& q) { new (p) G(boost::move(q), op.d); }); break;
    case 11: aconv<U, G>("unique_lock = upgrade_lock"); break;
    case 12: aconv<G, U>("upgrade_lock = unique_lock"); break;
    case 13: aconv<S, U>("shared_lock = unique_lock"); break;
    case 14: aconv<S, G>("shared_lock = upgrade_lock"); break;
    }
}
static void world() {
    for (int i = 0; i < N; ++i) W.u[i].live = W.s[i].live = W.g[i].live = false;
    W.m[0] = new Mtx(0); W.m[1] = new Mtx(1); exc_id = 0;
    ghost(&W, sizeof W); ghost(&op, sizeof op);
}
static void finish() {
    begin("destruction", 0, false, nullptr);
    for (int i = 0; i < N; ++i) {
        if (W.u[i].live) { W.u[i].live = false; W.u[i].p()->~U(); balance(); }
        if (W.s[i].live) { W.s[i].live = false; W.s[i].p()->~S(); balance(); }
        if (W.g[i].live) { W.g[i].live = false; W.g[i].p()->~G(); balance(); }
    }
}
SCENARIO("C10", unique_ops) { world(); for (int k = 5 + rnd(30); k--; ) step1<U>(true); finish(); }
SCENARIO("C11", shared_ops) { world(); for (int k = 5 + rnd(30); k--; ) step1<S>(true); finish(); }
SCENARIO("C11", upgrade_ops) { world(); for (int k = 5 + rnd(30); k--; ) step1<G>(true); finish(); }
SCENARIO("C11", conversions) { world(); for (int k = 10 + rnd(40); k--; ) switch (rnd(6)) { case 0: step1<U>(false); break; case 1: step1<S>(false); break; case 2: step1<G>(false); break; default: step2(); } finish(); }
struct ScopeException {};
template<class L, int MO, bool ADOPT> void guard(const char* name) {
    world();
    Mtx* m = W.m[0]; begin(name, ADOPT ? 0 : BLOCK | TRY, false, m);
    bool entered = false, scope = rnd(2);
    if (ADOPT) ++m->holds[MO];
    try {
        if constexpr (ADOPT) { L l(*m, adopt_lock); entered = true; check(m->holds[MO] == 1 && !op.calls, "%s: the mutex is not held in the scope", name); if (scope) throw ScopeException(); }
        else { L l(*m); entered = true; check(!op.threw, "an exception of the mutex is swallowed"); check(m->holds[MO] == 1, "%s: the mutex is not held in the scope", name); op.allow = 0; if (scope) throw ScopeException(); }
        check(!scope, "%s swallows an exception of the scope", name);
    }
    catch (ScopeException&) { check(entered, "?"); }
    catch (UserException& e) { thrown(e); check(!entered && op.calls == 1, "%s: a constructor that throws must not touch the lock again", name); }
    catch (lock_error&) { fail("%s throws lock_error", name); }
    for (int k = 0; k < 3; ++k) check(m->holds[k] == 0, "%s: after the scope the mutex is held %d times (%s)", name, m->holds[k], MODE[k]);
}
SCENARIO("C12", lock_guards) { guard<lock_guard<Mtx>, 0, false>("lock_guard"); }
SCENARIO("C12", lock_guards_adopt) { guard<lock_guard<Mtx>, 0, true>("lock_guard(adopt_lock)"); }
SCENARIO("C12", shared_guards) { guard<shared_lock_guard<Mtx>, 1, false>("shared_lock_guard"); }
SCENARIO("C12", shared_guards_adopt) { guard<shared_lock_guard<Mtx>, 1, true>("shared_lock_guard(adopt_lock)"); }
struct QuietMtx {           // relocking in the destructor while an exception is in flight: no throw
    int held; QuietMtx() : held(1) {}
    void lock() { note("lock()"); check(held == 0, "unlock_guard locks a mutex that is held"); held = 1; }
    bool try_lock() { if (rnd(2)) { lock(); return true; } return false; }
    void unlock() { note("unlock()"); check(held == 1, "unlock_guard unlocks a mutex that is not held"); held = 0; }
};
template<class L> void unlocking() {
    world();
    QuietMtx* m = new QuietMtx; bool scope = rnd(2), entered = false;
    try { L l(*m); entered = true; check(m->held == 0, "inside the scope of an unlock_guard the mutex is still held"); if (scope) throw ScopeException(); check(!scope, "?"); }
    catch (ScopeException&) {}
    check(entered && m->held == 1, "after the scope of an unlock_guard the mutex is not held");
}
SCENARIO("C12", unlock_guards) { unlocking<unlock_guard<QuietMtx> >(); }

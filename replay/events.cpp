// C03, C04, C05, C06: replay of counterexamples on the real events
#include "rt.hpp"
#include "common.hpp"
#if defined(VP_AR_SEMAPHORE)
#include <boost/sync/detail/config.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/detail/events/auto_reset_event_semaphore.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#elif defined(VP_EMULATION)
#include <boost/sync/detail/config.hpp>
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/events.hpp>
#endif
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/posix_time.hpp>
#include "timed.hpp"
#include "lin.hpp"
using namespace rt;
typedef boost::sync::auto_reset_event AR;
typedef boost::sync::manual_reset_event MR;
template<class E> struct W {
    E* e;
    template<class T> bool dur(T t) { return e->wait_for(t); }
    template<class T> bool tdur(T t) { return e->timed_wait(t); }
    template<class T> bool until(T t) { return e->wait_until(t); }
    template<class T> bool tuntil(T t) { return e->timed_wait(t); }
};
static void world() {
#if defined(VP_EMULATION)
    exempt = 1;
#endif
    faults.eintr = pick({0, 0, 4, 12}); faults.spurious = pick({0, 0, 4, 12});
}
static int ar_step(char k, int r, int s, int* o) {
    switch (k) {
    case 'p': o[0] = s ? s : 1; o[1] = s + 1; return s ? 2 : 1;
    case 'w': if (!s) return 0; o[0] = s - 1; return 1;
    default: if (r) { if (!s) return 0; o[0] = s - 1; return 1; } if (s) return 0; o[0] = 0; return 1;
    }
}
// On semaphores a post() that finds another one under way relies on it: the signal is there once both have returned (DESIGN.md, 3).
static void merge_posts(Hist& h) {
#if defined(VP_AR_SEMAPHORE)
    for (bool more = true; more; ) {
        more = false;
        for (unsigned i = 0; i < h.ops.size(); ++i) for (unsigned j = 0; j < h.ops.size(); ++j) {
            Op &a = h.ops[i], &b = h.ops[j];
            if (a.kind == 'p' && b.kind == 'p' && a.start < b.end && b.start < a.end && a.end < b.end) { a.end = b.end; more = true; }
        }
    }
#endif
}
// nobody waits: the event holds at most one signal, which try_wait() may just have taken
static void quiet(AR* e) {
    check(!e->try_wait(), "with nobody waiting the event holds more than one signal");
    for (int k = 1 + rnd(3); k--; ) e->post();
    check(e->try_wait(), "post() does not store a signal");
    check(!e->try_wait(), "with nobody waiting the event holds more than one signal");
}
static int mr_step(char k, int r, int s, int* o) {
    switch (k) {
    case 's': o[0] = 1; return 1;
    case 'r': o[0] = 0; return 1;
    default: if ((r != 0) != (s != 0)) return 0; o[0] = s; return 1;
    }
}
template<class E> static void waiter(E* e, Hist& h, int n) {
    while (n--) {
        int c = rnd(6), i;
        if (c < 3) { i = h.begin('w'); e->wait(); h.end(i, 1); }
        else if (c == 3) { i = h.begin('t'); bool r = e->try_wait(); h.end(i, r); }
        else { i = h.begin('t'); bool r = timed(W<E>{e}, rnd(KINDS), anytime(), false); h.end(i, r); }
        if (chance(3)) nap(rnd(2000));
    }
}
SCENARIO("C03,C04", ar_threads) {
    world();
    AR* e = new AR; Hist h;
    int w = 1 + rnd(3), p = 1 + rnd(3);
    for (int i = 0; i < w; ++i) { int n = 1 + rnd(2); spawn([=, &h] { waiter(e, h, n); }); }
    for (int i = 0; i < p; ++i) { int n = 1 + rnd(2); spawn([=, &h] { for (int k = n; k--; ) { if (rnd(2)) nap(rnd(3000)); int j = h.begin('p'); e->post(); h.end(j, 1); } }); }
    join();
    unsigned left = blocked();
    int j = h.begin('t'); bool r = e->try_wait(); h.end(j, r);
    if (is("C03") && !left) quiet(e);
    if (is("C04")) check(!(left && r), "%u threads are blocked while a signal is stored", left);
    merge_posts(h);
    if (is("C03") && h.ops.size() <= 16 && !h.linear(0, ar_step)) { h.show(); fail("the results are not those of an event whose signals each release one wait"); }
}
SCENARIO("C03,C04", ar_burst) {      // waiters are asleep, then several posts in a row
    world();
    AR* e = new AR; Hist h;
    int w = 1 + rnd(4);
    for (int i = 0; i < w; ++i) spawn([=, &h] { if (rnd(2)) { int j = h.begin('w'); e->wait(); h.end(j, 1); } else { int j = h.begin('t'); bool r = timed(W<AR>{e}, rnd(KINDS), 4000 + rnd(4000), false); h.end(j, r); } });
    int p = 1 + rnd(4);
    spawn([=, &h] { nap(2000 + rnd(6000)); for (int k = p; k--; ) { int j = h.begin('p'); e->post(); h.end(j, 1); } });
    join();
    unsigned left = blocked();
    int j = h.begin('t'); bool r = e->try_wait(); h.end(j, r);
    if (is("C03") && !left) quiet(e);
    if (is("C04")) check(!(left && r), "%u threads are blocked while a signal is stored", left);
    merge_posts(h);
    if (is("C03") && !h.linear(0, ar_step)) { h.show(); fail("the results are not those of an event whose signals each release one wait"); }
}
SCENARIO("C03", ar_sequence) {
    world();
    AR* e = new AR; int s = 0;
    for (int k = 1 + rnd(8); k--; ) {
        if (rnd(2)) { e->post(); s = 1; }
        else { bool r = rnd(2) ? e->try_wait() : timed(W<AR>{e}, rnd(KINDS), pick({0, -5, 100}), false); check(r == (s != 0), "a wait %s although %s", r ? "succeeds" : "fails", s ? "the event is signalled" : "no signal is stored"); s = 0; }
        if (s && chance(3)) { e->wait(); s = 0; }
    }
}
SCENARIO("C03", ar_visible) {
    world();
    AR* e = new AR; int* data = new int(0);
    spawn([=] { *data = 1; e->post(); if (rnd(2)) e->post(); });
    int w = 1 + rnd(2);
    for (int i = 0; i < w; ++i) spawn([=] { bool r = true; switch (rnd(3)) { case 0: e->wait(); break; case 1: r = e->try_wait(); break; default: r = timed(W<AR>{e}, rnd(KINDS), anytime(), false); } if (r) check(*data == 1, "the poster's effects are not visible"); });
    join();
}
SCENARIO("C05", mr_threads) {
    world();
    MR* e = new MR; Hist h;
    int w = 1 + rnd(3), p = 1 + rnd(2);
    for (int i = 0; i < w; ++i) { int n = 1 + rnd(2); spawn([=, &h] { waiter(e, h, n); }); }
    for (int i = 0; i < p; ++i) { int n = 1 + rnd(4); spawn([=, &h] { for (int k = n; k--; ) { if (rnd(3) == 0) nap(rnd(3000)); if (rnd(3)) { int j = h.begin('s'); e->set(); h.end(j, 1); } else { int j = h.begin('r'); e->reset(); h.end(j, 1); } } }); }
    join();
    unsigned left = blocked();
    int j = h.begin('t'); bool r = e->try_wait(); h.end(j, r);
    check(!(left && r), "%u threads are blocked on a signalled event", left);
    if (h.ops.size() <= 18 && !h.linear(0, mr_step)) { h.show(); fail("the results are not those of an event that is signalled from set() to reset()"); }
    if (left) { e->set(); join(); check(blocked() == 0, "set() does not wake every blocked thread"); }
}
SCENARIO("C05", mr_burst) {
    world();
    MR* e = new MR;
    int w = 1 + rnd(4);
    for (int i = 0; i < w; ++i) spawn([=] { for (int k = 1 + rnd(2); k--; ) { if (rnd(3)) e->wait(); else timed(W<MR>{e}, rnd(KINDS), 1000000000, false); } });
    spawn([=] { nap(2000); for (int k = rnd(4); k--; ) { e->set(); if (rnd(2)) nap(rnd(200)); e->reset(); if (rnd(2)) nap(rnd(200)); } e->set(); });
    join();
    check(blocked() == 0, "%u threads are blocked on a signalled event", blocked());
    check(e->try_wait() && e->try_wait(), "a wait consumes the signal");
    e->reset(); check(!e->try_wait(), "reset() leaves the event signalled");
}
SCENARIO("C05", mr_visible) {
    world();
    MR* e = new MR; int* data = new int(0);
    spawn([=] { *data = 1; e->set(); if (rnd(2)) { e->reset(); e->set(); } });
    int w = 1 + rnd(2);
    for (int i = 0; i < w; ++i) spawn([=] { bool r = true; switch (rnd(3)) { case 0: e->wait(); break; case 1: r = e->try_wait(); break; default: r = timed(W<MR>{e}, rnd(KINDS), anytime(), false); } if (r) check(*data == 1, "the setter's effects are not visible"); });
    join();
}
template<class E, class P> static void times(P post) {
    world();
    E* e = new E;
    bool set = chance(4);
    if (set) post(e);
    int w = 1 + rnd(2);
    for (int i = 0; i < w; ++i) spawn([=] { for (int k = 1 + rnd(2); k--; ) timed(W<E>{e}, rnd(KINDS), anytime(), true); });
    int p = rnd(3);
    if (p) spawn([=] { for (int k = p; k--; ) { nap(rnd(4000)); post(e); } });
    join();
}
template<class E, class P> static void past(P post) {
    world();
    E* e = new E;
    if (rnd(2)) { post(e); check(timed(W<E>{e}, rnd(KINDS), pick({0, -1, -1000000000, -5000000000, INT64_MIN}), true), "a timed wait fails although the event is signalled"); }
    else check(!timed(W<E>{e}, rnd(KINDS), pick({0, -1, -1000000000, -5000000000, INT64_MIN}), true), "a timed wait succeeds although the event is not signalled");
}
template<class E, class P> static void far(P post) {
    world();
    E* e = new E;
    spawn([=] { check(timed(W<E>{e}, rnd(KINDS), pick({INT64_MAX, INT64_MAX / 2, 1LL << 60, 31536000000000000LL * 100}), true), "a wait with a deadline in the far future gives up"); });
    spawn([=] { nap(3000000000); post(e); });
    join();
    check(blocked() == 0, "a waiter is not woken");
}
SCENARIO("C06", ar_times) { times<AR>([](AR* e) { e->post(); }); }
SCENARIO("C06", mr_times) { times<MR>([](MR* e) { e->set(); }); }
SCENARIO("C06", ar_past) { past<AR>([](AR* e) { e->post(); }); }
SCENARIO("C06", mr_past) { past<MR>([](MR* e) { e->set(); }); }
SCENARIO("C06", ar_far) { far<AR>([](AR* e) { e->post(); }); }
SCENARIO("C06", mr_far) { far<MR>([](MR* e) { e->set(); }); }

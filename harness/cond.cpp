// Wrappers that give the public operations stable names. They add no behaviour.
#include "noinit.hpp"
#include <new>
#include <cstdint>
#include <boost/assert.hpp>
#include <boost/sync/condition_variables.hpp>
#include <boost/sync/mutexes.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/posix_time.hpp>
using boost::sync::mutex;
using boost::sync::timed_mutex;
using boost::sync::unique_lock;
using boost::sync::condition_variable;
using boost::sync::condition_variable_any;
using boost::sync::cv_status;
namespace ch = std::chrono;
typedef ch::nanoseconds ns;
typedef ch::time_point<ch::system_clock, ns> sys_tp;
typedef ch::time_point<ch::steady_clock, ns> st_tp;

struct user_lock { void lock(); void unlock(); };      // any BasicLockable
extern "C" {
bool vp_pred();                                         // any predicate
void vp_after(bool owns, void* m) noexcept;             // observes the lock object on every exit
}
struct pred_t { bool operator()() const { return vp_pred(); } };
template<class L> struct probe { L& l; ~probe() { vp_after(l.owns_lock(), l.mutex()); l.release(); } };
static inline int st(cv_status s) { return s == cv_status::timeout ? 0 : s == cv_status::no_timeout ? 1 : 2; }
#define LK(M) unique_lock<M> l(*m, boost::sync::adopt_lock); probe<unique_lock<M> > p = { l };

extern "C" {
void cv_ctor(condition_variable* c) { new (c) condition_variable(); }
void cv_dtor(condition_variable* c) { c->~condition_variable(); }
void cv_notify_one(condition_variable* c) { c->notify_one(); }
void cv_notify_all(condition_variable* c) { c->notify_all(); }
#define CV(pfx, M)\
void pfx##_wait(condition_variable* c, M* m) { LK(M) c->wait(l); }\
void pfx##_wait_p(condition_variable* c, M* m) { LK(M) c->wait(l, pred_t()); }\
int pfx##_wait_for(condition_variable* c, M* m, int64_t d) { LK(M) return st(c->wait_for(l, ns(d))); }\
int pfx##_wait_until_sys(condition_variable* c, M* m, int64_t d) { LK(M) return st(c->wait_until(l, sys_tp(ns(d)))); }\
int pfx##_wait_until_ts(condition_variable* c, M* m, timespec const* d) { LK(M) return st(c->wait_until(l, *d)); }\
int pfx##_wait_until_steady(condition_variable* c, M* m, int64_t d) { LK(M) return st(c->wait_until(l, st_tp(ns(d)))); }\
int pfx##_timed_wait_d(condition_variable* c, M* m, int64_t d) { LK(M) return c->timed_wait(l, ns(d)); }\
int pfx##_timed_wait_tp(condition_variable* c, M* m, int64_t d) { LK(M) return c->timed_wait(l, sys_tp(ns(d))); }\
int pfx##_wait_for_p(condition_variable* c, M* m, int64_t d) { LK(M) return c->wait_for(l, ns(d), pred_t()); }\
int pfx##_wait_until_sys_p(condition_variable* c, M* m, int64_t d) { LK(M) return c->wait_until(l, sys_tp(ns(d)), pred_t()); }\
int pfx##_wait_until_ts_p(condition_variable* c, M* m, timespec const* d) { LK(M) return c->wait_until(l, *d, pred_t()); }\
int pfx##_wait_until_steady_p(condition_variable* c, M* m, int64_t d) { LK(M) return c->wait_until(l, st_tp(ns(d)), pred_t()); }\
int pfx##_timed_wait_d_p(condition_variable* c, M* m, int64_t d) { LK(M) return c->timed_wait(l, ns(d), pred_t()); }\
int pfx##_timed_wait_tp_p(condition_variable* c, M* m, int64_t d) { LK(M) return c->timed_wait(l, sys_tp(ns(d)), pred_t()); }
CV(cv, mutex)
CV(cvt, timed_mutex)

typedef condition_variable_any cva;
void cva_ctor(cva* c) { new (c) cva(); }
void cva_dtor(cva* c) { c->~cva(); }
void cva_notify_one(cva* c) { c->notify_one(); }
void cva_notify_all(cva* c) { c->notify_all(); }
void cva_wait(cva* c, user_lock* l) { c->wait(*l); }
void cva_wait_p(cva* c, user_lock* l) { c->wait(*l, pred_t()); }
int cva_wait_for(cva* c, user_lock* l, int64_t d) { return st(c->wait_for(*l, ns(d))); }
int cva_wait_until_sys(cva* c, user_lock* l, int64_t d) { return st(c->wait_until(*l, sys_tp(ns(d)))); }
int cva_wait_until_ts(cva* c, user_lock* l, timespec const* d) { return st(c->wait_until(*l, *d)); }
int cva_wait_until_steady(cva* c, user_lock* l, int64_t d) { return st(c->wait_until(*l, st_tp(ns(d)))); }
int cva_timed_wait_d(cva* c, user_lock* l, int64_t d) { return c->timed_wait(*l, ns(d)); }
int cva_timed_wait_tp(cva* c, user_lock* l, int64_t d) { return c->timed_wait(*l, sys_tp(ns(d))); }
int cva_wait_for_p(cva* c, user_lock* l, int64_t d) { return c->wait_for(*l, ns(d), pred_t()); }
int cva_wait_until_sys_p(cva* c, user_lock* l, int64_t d) { return c->wait_until(*l, sys_tp(ns(d)), pred_t()); }
int cva_wait_until_ts_p(cva* c, user_lock* l, timespec const* d) { return c->wait_until(*l, *d, pred_t()); }
int cva_wait_until_steady_p(cva* c, user_lock* l, int64_t d) { return c->wait_until(*l, st_tp(ns(d)), pred_t()); }
int cva_timed_wait_d_p(cva* c, user_lock* l, int64_t d) { return c->timed_wait(*l, ns(d), pred_t()); }
int cva_timed_wait_tp_p(cva* c, user_lock* l, int64_t d) { return c->timed_wait(*l, sys_tp(ns(d)), pred_t()); }
}

// Wrappers that give the public operations stable names. They add no behaviour.
#include "noinit.hpp"
#include <new>
#include <cstdint>
#include <unistd.h>
#if defined(VP_NO_TIMEDLOCK)
#undef _POSIX_TIMEOUTS
#endif
#include <boost/assert.hpp>
#if defined(VP_EMULATION)
#include <boost/sync/detail/semaphore/semaphore_emulation.hpp>
#else
#include <boost/sync/semaphore.hpp>
#endif
#include <boost/sync/mutexes.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/boost_chrono.hpp>
using boost::sync::semaphore;
using boost::sync::mutex;
using boost::sync::timed_mutex;
namespace ch = std::chrono;
typedef ch::nanoseconds ns;
typedef ch::time_point<ch::system_clock, ns> sys_tp;
typedef ch::time_point<ch::steady_clock, ns> st_tp;
namespace bc = boost::chrono;
extern "C" {
void sem_ctor(semaphore* p, unsigned n) { new (p) semaphore(n); }
void sem_ctor0(semaphore* p) { new (p) semaphore(); }
void sem_dtor(semaphore* p) { p->~semaphore(); }
void sem_op_post(semaphore* p) { p->post(); }
void sem_op_wait(semaphore* p) { p->wait(); }
bool sem_op_try_wait(semaphore* p) { return p->try_wait(); }
bool sem_op_wait_for(semaphore* p, int64_t d) { return p->wait_for(ns(d)); }
bool sem_op_timed_wait_d(semaphore* p, int64_t d) { return p->timed_wait(ns(d)); }
bool sem_op_wait_until_sys(semaphore* p, int64_t d) { return p->wait_until(sys_tp(ns(d))); }
bool sem_op_timed_wait_tp(semaphore* p, int64_t d) { return p->timed_wait(sys_tp(ns(d))); }
bool sem_op_wait_until_ts(semaphore* p, timespec const* d) { return p->wait_until(*d); }
bool sem_op_wait_until_steady(semaphore* p, int64_t d) { return p->wait_until(st_tp(ns(d))); }
#define MX(pfx, T)\
void pfx##_ctor(T* p) { new (p) T(); }\
void pfx##_dtor(T* p) { p->~T(); }\
void pfx##_lock(T* p) { p->lock(); }\
void pfx##_unlock(T* p) { p->unlock(); }\
bool pfx##_try_lock(T* p) { return p->try_lock(); }
MX(mx, mutex)
MX(tm, timed_mutex)
bool tm_lock_for(timed_mutex* p, int64_t d) { return p->try_lock_for(ns(d)); }
bool tm_timed_lock_d(timed_mutex* p, int64_t d) { return p->timed_lock(ns(d)); }
bool tm_lock_until_sys(timed_mutex* p, int64_t d) { return p->try_lock_until(sys_tp(ns(d))); }
bool tm_timed_lock_tp(timed_mutex* p, int64_t d) { return p->timed_lock(sys_tp(ns(d))); }
bool tm_lock_until_ts(timed_mutex* p, timespec const* d) { return p->try_lock_until(*d); }
bool tm_lock_until_bsteady(timed_mutex* p, int64_t d) { return p->try_lock_until(bc::time_point<bc::steady_clock>(bc::nanoseconds(d))); }
bool tm_timed_lock_bsteady(timed_mutex* p, int64_t d) { return p->timed_lock(bc::time_point<bc::steady_clock>(bc::nanoseconds(d))); }
bool tm_lock_until_steady(timed_mutex* p, int64_t d) { return p->try_lock_until(st_tp(ns(d))); }
}

// Wrappers that give the public operations stable names. They add no behaviour.
#include "noinit.hpp"
#include <new>
#include <cstdint>
#include <boost/assert.hpp>
#if defined(VP_AR_SEMAPHORE)
#include <boost/sync/detail/config.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/detail/events/auto_reset_event_semaphore.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#elif defined(VP_EMULATION)
#include <boost/sync/detail/config.hpp>
#include <boost/sync/detail/events/auto_reset_event_emulation.hpp>
#include <boost/sync/detail/events/manual_reset_event_emulation.hpp>
#else
#include <boost/sync/events.hpp>
#endif
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/posix_time.hpp>
using boost::sync::auto_reset_event;
using boost::sync::manual_reset_event;
namespace ch = std::chrono;
typedef ch::nanoseconds ns;
typedef ch::time_point<ch::system_clock, ns> sys_tp;
typedef ch::time_point<ch::steady_clock, ns> st_tp;
#define EV(pfx, T)\
void pfx##_ctor(T* p) { new (p) T(); }\
void pfx##_wait(T* p) { p->wait(); }\
bool pfx##_try_wait(T* p) { return p->try_wait(); }\
bool pfx##_wait_for(T* p, int64_t d) { return p->wait_for(ns(d)); }\
bool pfx##_timed_wait_d(T* p, int64_t d) { return p->timed_wait(ns(d)); }\
bool pfx##_wait_until_sys(T* p, int64_t d) { return p->wait_until(sys_tp(ns(d))); }\
bool pfx##_timed_wait_tp(T* p, int64_t d) { return p->timed_wait(sys_tp(ns(d))); }\
bool pfx##_wait_until_ts(T* p, timespec const* d) { return p->wait_until(*d); }\
bool pfx##_wait_until_steady(T* p, int64_t d) { return p->wait_until(st_tp(ns(d))); }
extern "C" {
EV(ar, auto_reset_event)
void ar_post(auto_reset_event* p) { p->post(); }
EV(mr, manual_reset_event)
void mr_set(manual_reset_event* p) { p->set(); }
void mr_reset(manual_reset_event* p) { p->reset(); }
}

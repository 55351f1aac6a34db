// Wrappers that give the public operations stable names. They add no behaviour.
#include <new>
#include <time.h>
#include <boost/assert.hpp>
#include <boost/move/utility_core.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/support/posix_time.hpp>
#include <boost/sync/support/boost_chrono.hpp>
using namespace boost::sync;
typedef boost::chrono::nanoseconds dur;
typedef timespec tp;

struct Mtx          // any mutex type; its members are known by contract only
{
#define MODE(a, b) void lock##a(); void unlock##a(); bool try_lock##a(); bool timed_lock##a(tp const&); bool timed_lock##a(dur const&);\
    bool try_lock##b##for(dur const&); bool try_lock##b##until(tp const&);
    MODE(,_)
    MODE(_shared,_shared_)
    MODE(_upgrade,_upgrade_)
    void unlock_upgrade_and_lock(); void unlock_and_lock_upgrade(); void unlock_and_lock_shared(); void unlock_upgrade_and_lock_shared();
    bool try_unlock_upgrade_and_lock(); bool try_unlock_shared_and_lock(); bool try_unlock_shared_and_lock_upgrade();
    bool timed_unlock_shared_and_lock(tp const&); bool timed_unlock_shared_and_lock_upgrade(tp const&);
    bool timed_unlock_shared_and_lock(dur const&); bool timed_unlock_shared_and_lock_upgrade(dur const&);
};
typedef unique_lock<Mtx> U;
typedef shared_lock<Mtx> S;
typedef upgrade_lock<Mtx> G;
#define LOCK(x, T)\
void x##_ctor(T* p) { new (p) T(); }\
void x##_ctor_m(T* p, Mtx* m) { new (p) T(*m); }\
void x##_ctor_adopt(T* p, Mtx* m) { new (p) T(*m, adopt_lock); }\
void x##_ctor_defer(T* p, Mtx* m) { new (p) T(*m, defer_lock); }\
void x##_ctor_try(T* p, Mtx* m) { new (p) T(*m, try_to_lock); }\
void x##_ctor_tp(T* p, Mtx* m, tp const* t) { new (p) T(*m, *t); }\
void x##_ctor_dur(T* p, Mtx* m, dur const* t) { new (p) T(*m, *t); }\
void x##_ctor_move(T* p, T* q) { new (p) T(boost::move(*q)); }\
void x##_dtor(T* p) { p->~T(); }\
void x##_assign(T* p, T* q) { *p = boost::move(*q); }\
void x##_swap(T* p, T* q) { p->swap(*q); }\
void x##_fswap(T* p, T* q) { swap(*p, *q); }\
void x##_lock(T* p) { p->lock(); }\
bool x##_try_lock(T* p) { return p->try_lock(); }\
bool x##_timed_lock_tp(T* p, tp const* t) { return p->timed_lock(*t); }\
bool x##_timed_lock_dur(T* p, dur const* t) { return p->timed_lock(*t); }\
bool x##_lock_for(T* p, dur const* t) { return p->try_lock_for(*t); }\
bool x##_lock_until(T* p, tp const* t) { return p->try_lock_until(*t); }\
void x##_unlock(T* p) { p->unlock(); }\
bool x##_owns(T const* p) { return p->owns_lock(); }\
bool x##_bool(T const* p) { return *p ? true : false; }\
bool x##_not(T const* p) { return !*p; }\
Mtx* x##_mutex(T const* p) { return p->mutex(); }\
Mtx* x##_release(T* p) { return p->release(); }
extern "C" {
LOCK(u, U)
LOCK(s, S)
LOCK(g, G)
void conv_u_g(U* p, G* q) { new (p) U(boost::move(*q)); }
void conv_g_u(G* p, U* q) { new (p) G(boost::move(*q)); }
void conv_s_u(S* p, U* q) { new (p) S(boost::move(*q)); }
void conv_s_g(S* p, G* q) { new (p) S(boost::move(*q)); }
void tconv_u_g(U* p, G* q) { new (p) U(boost::move(*q), try_to_lock); }
void tconv_u_s(U* p, S* q) { new (p) U(boost::move(*q), try_to_lock); }
void tconv_g_s(G* p, S* q) { new (p) G(boost::move(*q), try_to_lock); }
void ttconv_u_s(U* p, S* q, tp const* t) { new (p) U(boost::move(*q), *t); }
void ttconv_g_s(G* p, S* q, tp const* t) { new (p) G(boost::move(*q), *t); }
void tdconv_u_s(U* p, S* q, dur const* t) { new (p) U(boost::move(*q), *t); }
void tdconv_g_s(G* p, S* q, dur const* t) { new (p) G(boost::move(*q), *t); }
void aconv_u_g(U* p, G* q) { *p = boost::move(*q); }
void aconv_g_u(G* p, U* q) { *p = boost::move(*q); }
void aconv_s_u(S* p, U* q) { *p = boost::move(*q); }
void aconv_s_g(S* p, G* q) { *p = boost::move(*q); }
void vp_body();
void guard_lock(Mtx* m) { lock_guard<Mtx> g(*m); vp_body(); }
void guard_lock_adopt(Mtx* m) { lock_guard<Mtx> g(*m, adopt_lock); vp_body(); }
void guard_shared(Mtx* m) { shared_lock_guard<Mtx> g(*m); vp_body(); }
void guard_shared_adopt(Mtx* m) { shared_lock_guard<Mtx> g(*m, adopt_lock); vp_body(); }
void guard_unlock(Mtx* m) { unlock_guard<Mtx> g(*m); vp_body(); }
}

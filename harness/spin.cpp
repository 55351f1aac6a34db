// Wrappers that give the public operations stable names. They add no behaviour.
#include <new>
#include <boost/assert.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
typedef boost::sync::spin_mutex S;
typedef boost::sync::shared_spin_mutex R;
extern "C" {
void s_ctor(S* p) { new (p) S(); }
void s_dtor(S* p) { p->~S(); }
void s_lock(S* p) { p->lock(); }
bool s_try_lock(S* p) { return p->try_lock(); }
void s_unlock(S* p) { p->unlock(); }
void r_ctor(R* p) { new (p) R(); }
void r_dtor(R* p) { p->~R(); }
void r_lock(R* p) { p->lock(); }
bool r_try_lock(R* p) { return p->try_lock(); }
void r_unlock(R* p) { p->unlock(); }
void r_lock_shared(R* p) { p->lock_shared(); }
bool r_try_lock_shared(R* p) { return p->try_lock_shared(); }
void r_unlock_shared(R* p) { p->unlock_shared(); }
}

// Wrappers that give the public operations stable names. They add no behaviour.
#include <new>
#include <boost/assert.hpp>
#include <boost/move/utility_core.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
using namespace boost::sync;

struct Fn          // any function object; its members are known by contract only
{
    Fn(Fn const&);
    ~Fn();
    void operator() ();
    void operator() () const;
    long state;
};
struct Val         // any type
{
    ~Val();
    long x;
};
typedef thread_specific_ptr<Val> P;
extern "C" {
void exit_functor(Fn const* f) { at_thread_exit(*f); }
void exit_fnptr(void (*f)()) { at_thread_exit(f); }
void p_ctor(P* p) { new (p) P(); }
void p_ctor_f(P* p, void (*f)(Val*)) { new (p) P(f); }
void p_dtor(P* p) { p->~P(); }
Val* p_get(P const* p) { return p->get(); }
Val* p_get_pointer(P const* p) { return get_pointer(*p); }
Val* p_arrow(P const* p) { return p->operator->(); }
Val* p_star(P const* p) { return &**p; }
bool p_not(P const* p) { return !*p; }
bool p_bool(P const* p) { return *p ? true : false; }
Val* p_release(P* p) { return p->release(); }
void p_reset(P* p) { p->reset(); }
void p_reset_v(P* p, Val* v) { p->reset(v); }
void notify_exit(condition_variable* c, mutex* m) { unique_lock<mutex> l(*m, adopt_lock); notify_all_at_thread_exit(*c, boost::move(l)); }
}

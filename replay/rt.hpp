// Simulated machine for replaying counterexamples: logical threads with a random scheduler, a virtual clock, the operating system
// calls boostorg/sync uses, and a happens-before checker for plain memory.  The library's code is the real code of the working
// tree, compiled with -fsanitize=thread (its hooks are the scheduling points) and with its OS calls renamed to sim_*.
#ifndef VP_RT_HPP
#define VP_RT_HPP
#include <functional>
#include <cstdint>
#include <ctime>
namespace rt {
typedef int64_t i64;
const i64 INF = INT64_MAX;
unsigned rnd(unsigned n);                       // a choice in [0, n)
bool chance(unsigned n);                        // true once in n
i64 pick(std::initializer_list<i64> l);
void spawn(std::function<void()> f);            // a new logical thread
void join();                                    // wait until every other thread has ended or is blocked for ever; returns
bool all_done();                                // ... whether all have ended
unsigned blocked();                             // number of other threads blocked for ever
int self();
i64 now();                                      // simulated time (system clock), ns; no scheduling point
extern i64 steady_offset;                       // steady clock = system clock - offset
void advance(i64 ns);
void step();                                    // scheduling point
void nap(i64 ns);
bool is(const char* prop);                      // the property under replay
void note(const char* fmt, ...);                // into the trace
void fail(const char* fmt, ...) __attribute__((noreturn));
void check(bool c, const char* fmt, ...);
// watch the blocking of the current thread: no OS call may block past `limit`; relative waits count from the last look at the clock
void watch(i64 limit, bool duration);
void unwatch();
extern int exempt;                              // >0: OS mutex locking is not restricted by watch (internal mutexes)
bool did_block();                               // since watch()
bool os_timed_out();                            // the OS reported a time-out to this thread since watch()
// faults: per call kind the probability 1/n (0: never)
struct Faults { unsigned eintr, spurious, mutex_lock, mutex_init, cond_wait, cond_init, sem_wait, sem_init, sem_post, key, setspecific, oom, pintr; };
extern Faults faults;
extern int last_fault;                          // error code injected last in this run, 0: none
extern bool faulted;
void ghost(const void* p, size_t n);            // memory of the scenario itself: not checked for races
void sure(bool b);                              // no faults in this thread
unsigned mutexes_held();                        // OS mutexes owned by the calling thread
int mutex_owner(void* m);                       // owner thread, -1: free
unsigned cond_notified(void* c, bool all);      // number of notify calls so far
unsigned sem_value(void* s);
extern unsigned sem_max;
extern unsigned locks_alive, conds_alive, sems_alive;
unsigned long allocated();                      // live operator new blocks
void run(const char* name, void (*f)(), double weight = 1);   // register a scenario
}
#define SCENARIO(prop, name) static void name(); static int name##_reg = (rt::run(prop " " #name, name), 0); static void name()
#endif

// C01, C02: replay of counterexamples on the real spin mutexes
#include "rt.hpp"
#include "common.hpp"
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
using namespace rt;
typedef boost::sync::spin_mutex S;
typedef boost::sync::shared_spin_mutex R;
// who is between the start of a lock call and the end of the matching unlock call
struct Near { unsigned n = 0; unsigned long changes = 0; void in() { ++n; ++changes; } void out() { --n; ++changes; } };
static Near ex, sh;
static int writers, readers;
static void wcheck(bool in) { if (in) { check(!writers && !readers, "exclusive ownership granted while the mutex is owned (%d exclusive, %d shared)", writers, readers); ++writers; } else --writers; }
static void rcheck(bool in) { if (in) { check(!writers, "shared ownership granted while a thread owns the mutex exclusively"); ++readers; } else --readers; }
static void reset() { ex = Near(); sh = Near(); writers = readers = 0; ghost(&ex, sizeof ex); ghost(&sh, sizeof sh); ghost(&writers, sizeof writers); ghost(&readers, sizeof readers); }

SCENARIO("C01", threads) {
    reset();
    S* m = new S; int* data = new int[2]();
    int n = 2 + rnd(2);
    for (int i = 0; i < n; ++i) spawn([=] {
        for (int k = 1 + rnd(3); k--; ) {
            bool got = true;
            if (rnd(2)) { ex.in(); m->lock(); }
            else {
                unsigned long c = ex.changes; bool quiet = ex.n == 0;
                ex.in(); ++c;
                got = m->try_lock();
                check(got || !quiet || ex.changes != c, "try_lock() fails although no thread owned the mutex during the call");
                if (!got) ex.out();
            }
            if (got) { wcheck(true); ++data[0]; step(); ++data[1]; check(data[0] == data[1], "mutual exclusion broken"); wcheck(false); m->unlock(); ex.out(); }
        }
    });
    join();
    check(m->try_lock(), "the mutex is not free although every owner has unlocked it");
    check(!m->try_lock(), "try_lock() succeeds on an owned mutex");
    m->unlock(); m->lock();
    check(!m->try_lock(), "try_lock() succeeds on an owned mutex");
    m->unlock();
    check(m->try_lock(), "try_lock() fails on a free mutex");
}
SCENARIO("C02", shared) {
    reset();
    R* m = new R; int* data = new int[2]();
    int n = 2 + rnd(3);
    for (int i = 0; i < n; ++i) spawn([=] {
        for (int k = 1 + rnd(3); k--; ) {
            bool got = true;
            switch (rnd(4)) {
            case 0: ex.in(); m->lock(); goto w;
            case 1: {
                unsigned long c = ex.changes + sh.changes; bool quiet = ex.n + sh.n == 0;
                ex.in(); ++c;
                got = m->try_lock();
                check(got || !quiet || ex.changes + sh.changes != c, "try_lock() fails although nobody owned the mutex during the call");
                if (!got) ex.out();
            }
            w: if (got) { wcheck(true); ++data[0]; step(); ++data[1]; check(data[0] == data[1], "mutual exclusion broken"); wcheck(false); m->unlock(); ex.out(); }
                break;
            case 2: sh.in(); m->lock_shared(); goto r;
            default: {
                unsigned long c = ex.changes; bool quiet = ex.n == 0;
                sh.in();
                got = m->try_lock_shared();
                check(got || !quiet || ex.changes != c, "try_lock_shared() fails although nobody owned the mutex exclusively during the call");
                if (!got) sh.out();
            }
            r: if (got) { rcheck(true); int x = data[0]; step(); check(x == data[1], "a reader sees a writer's intermediate state"); rcheck(false); m->unlock_shared(); sh.out(); }
            }
        }
    });
    join();
    check(m->try_lock(), "the mutex is not free although every owner has unlocked it");
    check(!m->try_lock() && !m->try_lock_shared(), "a try succeeds on an exclusively owned mutex");
    m->unlock();
    unsigned k = pick({1, 2, 3, 127, 128, 255, 256, 257, 1000}); if (!chance(40)) k = 1 + k % 7;
    for (unsigned i = 0; i < k; ++i) { if (rnd(2)) m->lock_shared(); else check(m->try_lock_shared(), "try_lock_shared() fails with %u shared owners", i); }
    for (unsigned i = k; i > 0; --i) { if (i < 8 || i % 16 == 0) check(!m->try_lock(), "try_lock() succeeds with %u shared owners", i); m->unlock_shared(); }
    check(m->try_lock(), "the mutex is not free after the last unlock_shared()"); m->unlock();
    check(m->try_lock_shared(), "shared lock not available"); m->unlock_shared();
}

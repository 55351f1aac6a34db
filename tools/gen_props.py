#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []
I = 'include/boost/sync/'


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'spin_mutex: mutual exclusion, exact try_lock, release/acquire visibility',
     'At any moment at most one thread owns a spin_mutex: lock() returns only once the caller is the owner, try_lock() returns true exactly when it made the caller the owner, '
     'and no operation ever takes ownership away from another thread. try_lock() returns false only if it observed the mutex owned. '
     'Everything the previous owner did before unlock() is visible to the next owner.',
     ['schedules', 'histories'], 'every interleaving of lock, try_lock and unlock by any number of threads, at the granularity of single atomic accesses',
     'test_spin_mutex runs a few uncontended calls and a short contended loop; a missing ordering or a window between two atomic accesses shows only under rare schedules or weak memory.',
     [I + 'detail/mutexes/spin_mutex.hpp', I + 'mutexes/spin_mutex.hpp'],
     [('single atomic exchange decides ownership', 'spin_mutex::try_lock'), ('release store', 'spin_mutex::unlock')],
     [('state', 'one atomic word: free or owned', I + 'detail/mutexes/spin_mutex.hpp')])
prop('C02', 'shared_spin_mutex: readers share, a writer excludes everyone, exact tries',
     'A shared_spin_mutex is at any moment unowned, owned by exactly one exclusive owner, or owned by one or more shared owners; every lock operation returns only once the caller holds the kind of ownership it asked for, '
     'and every unlock gives up exactly the caller\'s own share. try_lock() fails only if it observed the mutex owned; try_lock_shared() fails only if it observed an exclusive owner. '
     'Effects before an unlock of either kind are visible to whoever acquires the mutex in a conflicting mode afterwards.',
     ['schedules', 'histories'], 'every interleaving of the six operations by any number of threads (fewer than 2^30 concurrent readers)',
     'The existing tests use a handful of threads; reader/writer races between the load and the compare-exchange need specific interleavings.',
     [I + 'detail/mutexes/shared_spin_mutex.hpp', I + 'mutexes/shared_spin_mutex.hpp'],
     [('compare-exchange on a word that encodes the writer and the number of readers', 'shared_spin_mutex::lock, try_lock, lock_shared, try_lock_shared')],
     [('state', 'writer flag and reader count', I + 'detail/mutexes/shared_spin_mutex.hpp')])
prop('C03', 'auto_reset_event: every signal releases exactly one wait, and none is invented',
     'For every auto_reset_event, a wait, try_wait or timed wait succeeds only by consuming one signal that a post() stored, each stored signal is consumed by exactly one successful wait, and try_wait()/timed waits report failure only if no signal was available. '
     'post() stores a signal unless the event is already signalled; with nobody waiting the event holds at most one signal. '
     'What the poster did before a post() that stored a signal is visible to the waiter that consumed it.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of post/wait/try_wait/timed waits by any number of threads, every point at which a wait is interrupted, woken spuriously or times out, in the futex, POSIX-semaphore-based and mutex/condition-variable back ends',
     'A signal lost or duplicated between the waiter leaving on timeout and a concurrent post needs one exact interleaving; tests sample a few, and only the default back end.',
     [I + 'detail/events/auto_reset_event_futex.hpp', I + 'detail/events/auto_reset_event_semaphore.hpp', I + 'detail/events/auto_reset_event_emulation.hpp', I + 'events/auto_reset_event.hpp'],
     [('post and waiter counters in one atomic word', 'auto_reset_event::post, wait, try_wait, on_wait_timed_out'), ('signed state plus semaphore', 'auto_reset_event_semaphore.hpp'), ('flag under mutex', 'auto_reset_event_emulation.hpp')])
prop('C04', 'auto_reset_event: no waiter sleeps while a signal it could take is stored',
     'A thread blocked in wait() or a timed wait of an auto_reset_event is never left sleeping while a signal is stored for it: a waiter goes to sleep only in a state in which it is registered and no signal is stored, atomically with that check, '
     'and a post() that stores a signal while waiters are registered wakes one of them before it returns.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving and every spurious or interrupted wake-up, any number of waiters and posters',
     'A lost wake-up needs the post to fall between the waiter\'s last check and its sleep; tests do not control that.',
     [I + 'detail/events/auto_reset_event_futex.hpp', I + 'detail/events/auto_reset_event_semaphore.hpp', I + 'detail/events/auto_reset_event_emulation.hpp', I + 'detail/futex.hpp'],
     [('futex wait with the expected value', 'auto_reset_event::wait'), ('futex wake after storing a signal', 'auto_reset_event::post')])
prop('C05', 'manual_reset_event: signalled until reset, releases all, no lost wake-up',
     'Once set() returns, a manual_reset_event is signalled until a later reset(): every wait, try_wait and timed wait in between succeeds without consuming the signal, and every thread already blocked is woken. '
     'A wait succeeds, and a try_wait or timed wait returns true, only if the event was observed signalled during the call, and they return false only if it was observed not signalled; reset() leaves the event not signalled and affects nothing else. '
     'What the caller did before set() is visible to every waiter it releases.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of set/reset/wait/try_wait/timed waits, spurious and interrupted wake-ups, in the futex and the mutex/condition-variable back ends',
     'Tests cannot place a reset or a set between the individual atomic steps of a waiter.',
     [I + 'detail/events/manual_reset_event_futex.hpp', I + 'detail/events/manual_reset_event_emulation.hpp', I + 'events/manual_reset_event.hpp', I + 'detail/futex.hpp'],
     [('signalled flag and waiter count', 'manual_reset_event::set, wait, reset'), ('futex broadcast', 'manual_reset_event::set')])
prop('C06', 'Timed waits honour one deadline: never give up early, never wait past it',
     'Every timed operation on auto_reset_event, manual_reset_event, semaphore and timed_mutex reports a time-out only if the clock the time refers to has reached the deadline (for a duration: the time of the call plus the duration) or the underlying OS primitive reported a time-out for that deadline, '
     'and no step of it blocks until after that deadline: interruptions, spurious wake-ups and retries never extend it. '
     'A zero or negative duration, or a deadline already in the past, never blocks, and still succeeds if the object is immediately available.',
     ['inputs', 'fault_sequences', 'schedules'], 'every duration and time point (std::chrono, boost::chrono, date_time, timespec), every sequence of interruptions, spurious wake-ups and clock readings',
     'Tests use a few positive durations of some milliseconds and no signals; re-armed or mis-signed timeouts show only with interruptions, negative durations or extreme values.',
     [I + 'detail/events/auto_reset_event_futex.hpp', I + 'detail/events/manual_reset_event_futex.hpp', I + 'detail/semaphore/semaphore_posix.hpp', I + 'detail/mutexes/timed_mutex_posix.hpp', I + 'detail/semaphore/semaphore_emulation.hpp', I + 'detail/time_units.hpp'],
     [('remaining time recomputed against an absolute deadline', 'priv_timed_wait, priv_timed_lock')])
prop('C07', 'semaphore: one successful wait per unit, none lost or invented, errors reported',
     'A semaphore constructed with count n lets exactly n plus the number of post() calls waits succeed: a wait, try_wait or timed wait that returns success has consumed exactly one unit, one that fails or throws has consumed none, and an interruption of a blocking wait by a signal is neither success nor failure. '
     'post() adds exactly one unit or throws (overflow_error when the maximum count is reached), wait errors and resource errors are reported by exceptions, never swallowed. '
     'A waiter is never left sleeping while units are available.',
     ['schedules', 'fault_sequences', 'histories'], 'every interleaving of the operations and every sequence of results (success, EINTR, EAGAIN, ETIMEDOUT, errors) of the OS primitive, in the POSIX and the mutex/condition-variable back ends',
     'Tests never make the OS primitive fail or be interrupted, never reach the maximum count, and do not compile the emulation back end.',
     [I + 'detail/semaphore/semaphore_posix.hpp', I + 'detail/semaphore/semaphore_emulation.hpp', I + 'semaphore.hpp'],
     [('error-code handling loops', 'semaphore_posix.hpp'), ('count under mutex, condition variable', 'semaphore_emulation.hpp')])
prop('C08', 'Time conversions are exact: deadlines keep their value and stay normalised',
     'Converting any supported duration or time point (std::chrono, boost::chrono, Boost.Date_Time, timespec) with an integral representation that is representable as a 64-bit number of nanoseconds yields the same instant or length of time, negative values and instants before the epoch included, rounding only below one nanosecond. '
     'Adding a duration to a time point and subtracting time points is exact, and the nanosecond field handed to the operating system is always in [0, 1000000000).',
     ['inputs'], 'every duration and every time point whose result is representable',
     'Tests convert a few positive values; sign errors and normalisation errors need negative values, values next to a second boundary or extreme values.',
     [I + 'detail/time_units.hpp', I + 'support/std_chrono.hpp', I + 'support/boost_chrono.hpp', I + 'support/boost_date_time.hpp', I + 'support/posix_time.hpp', I + 'detail/time_traits.hpp'],
     [('system_time_point / system_duration arithmetic', I + 'detail/time_units.hpp')])
prop('C09', 'mutex and timed_mutex: OS lock success and failure are reported faithfully',
     'lock() of mutex and timed_mutex returns normally only if the underlying OS mutex was locked by that call, try_lock() and timed lock attempts return true exactly when it was and false only when it was busy or the deadline passed; every other OS error surfaces as an exception that carries the OS error code, with the mutex not acquired. '
     'unlock() releases the OS mutex exactly once, and construction failures throw instead of yielding a usable-looking object, leaving no initialised OS object behind.',
     ['fault_sequences', 'schedules', 'configurations'], 'every result code of the pthread primitives at every call, with native timed locking, with the condition-variable fallback, and with or without the EINTR work-around, assertions on or off',
     'Tests never see pthread calls fail and do not compile the fallback.',
     [I + 'detail/mutexes/mutex_posix.hpp', I + 'detail/mutexes/timed_mutex_posix.hpp', I + 'detail/pthread.hpp', I + 'detail/pthread_mutex_locks.hpp'],
     [('error-code checks', 'mutex::lock, try_lock; timed_mutex::timed_lock')])
prop('C10', 'unique_lock: owns_lock() tells the truth, ownership released exactly once',
     'At every point, owns_lock() of a unique_lock is true exactly if that object is responsible for a lock it acquired (or adopted) on mutex() and has not released or handed over; destruction unlocks exactly then, and never otherwise. '
     'Operations that would lock without a mutex, lock twice or unlock without owning throw lock_error with no effect; if locking or unlocking the mutex throws, the recorded ownership matches the mutex. '
     'Move, swap, assignment and release() transfer mutex and responsibility together, losing or duplicating nothing.',
     ['histories', 'fault_sequences', 'programs'], 'every sequence of operations on any number of unique_lock objects over any Lockable type, every mutex operation that may throw or fail',
     'The API admits unboundedly many sequences; tests cover individual transitions on a few mutex types with no throwing mutex.',
     [I + 'locks/unique_lock.hpp', I + 'locks/lock_options.hpp'],
     [('mutex pointer and ownership flag updated together', 'unique_lock')])
prop('C11', 'shared_lock, upgrade_lock: ownership tracked exactly, conversions transfer it',
     'shared_lock and upgrade_lock keep the same guarantees for shared and upgrade ownership as unique_lock does for exclusive ownership: owns_lock() tells the truth, ownership is released exactly once and with the matching unlock operation, invalid operations throw lock_error with no effect, and exceptions from the mutex leave the recorded ownership matching it. '
     'Converting constructors between the three lock types call the matching mutex conversion exactly when the source owns the lock, hand mutex and ownership over, and leave the source empty.',
     ['histories', 'fault_sequences', 'programs'], 'every sequence of operations and conversions over any SharedLockable/UpgradeLockable type, every throwing or failing mutex operation',
     'There is almost no test of these classes; conversions are not instantiated by any test.',
     [I + 'locks/shared_lock.hpp', I + 'locks/upgrade_lock.hpp', I + 'locks/unique_lock.hpp'],
     [('mutex pointer and ownership flag updated together', 'shared_lock, upgrade_lock')])
prop('C12', 'Scoped guards lock and unlock in balance on every path',
     'lock_guard and shared_lock_guard acquire their mutex exactly once on construction (or adopt it without locking) and release it exactly once, with the matching operation, on destruction, on normal and exceptional exit of the scope; if acquiring throws, nothing is released. '
     'unlock_guard releases on construction and re-acquires on destruction.',
     ['programs', 'fault_sequences'], 'every lockable type, every throwing lock operation, every way of leaving the scope',
     'Tests use well-behaved mutexes only.',
     [I + 'locks/lock_guard.hpp', I + 'locks/shared_lock_guard.hpp', I + 'locks/unlock_guard.hpp'],
     [('constructor/destructor pairs', 'lock_guard, shared_lock_guard, unlock_guard')])
prop('C13', 'condition_variable: lock held on return, predicates decide, truthful time-outs',
     'Every wait of condition_variable atomically releases the caller\'s mutex while blocked and returns - normally or by exception - with that mutex locked and still owned by the lock object (the caller must own the lock when calling). '
     'Predicate waits return true (or return at all, without time limit) only after the predicate evaluated to true under the lock, and a timed predicate wait returns the predicate\'s value; timed waits report a time-out only when the deadline has passed and block no later than it, across any number of spurious wake-ups. '
     'OS errors surface as exceptions and notify operations notify the OS object.',
     ['schedules', 'fault_sequences', 'inputs', 'programs'], 'every predicate (also throwing ones), lock type, deadline, spurious wake-up and OS result',
     'Tests do not inject spurious wake-ups, throwing predicates or OS errors.',
     [I + 'detail/condition_variables/condition_variable_posix.hpp', I + 'condition_variables/condition_variable.hpp', I + 'detail/pthread.hpp'],
     [('pthread_cond_wait/timedwait wrappers', 'condition_variable::wait, timed_wait')])
prop('C14', 'condition_variable_any: no lost notification, user lock re-acquired on exit',
     'condition_variable_any blocks on its internal condition such that a notification issued by a thread that acquired the user\'s lock after the wait released it cannot be missed: the internal mutex is held continuously from before the user\'s lock is released until the thread is blocked, and notifications take that mutex. '
     'On every exit, normal or exceptional, the user\'s lock is locked again, the internal mutex is not held while the user\'s lock is being re-acquired, and predicate and time-out results follow the same rules as condition_variable with one deadline per call.',
     ['schedules', 'fault_sequences', 'programs'], 'every lockable type, predicate, time-out and notifying thread; every point at which an operation throws',
     'A notification lost between unlocking the user\'s lock and blocking needs one exact interleaving.',
     [I + 'detail/condition_variables/condition_variable_any_generic.hpp', I + 'condition_variables/condition_variable_any.hpp'],
     [('internal mutex + relocker', 'condition_variable_any_generic.hpp')])
prop('C15', 'at_thread_exit: each callback runs exactly once, in reverse order, nested too',
     'Each function registered with at_thread_exit runs exactly once, on the registering thread, when that thread exits, in reverse order of registration, and functions registered while callbacks run are run as well before the thread\'s exit processing completes. '
     'If registration fails with an exception nothing is registered and nothing leaks; a callback runs on no other thread.',
     ['histories', 'fault_sequences', 'programs'], 'every sequence of registrations, also from within callbacks, any number of threads, every failing allocation',
     'Tests register a few callbacks on one or two threads; nested registration and allocation failure are not exercised.',
     [I + 'thread_specific/at_thread_exit.hpp', 'src/tss_manager.hpp', 'src/tss_pthread.cpp'],
     [('per-thread stack of callbacks drained at exit', 'tss_manager.hpp')])
prop('C16', 'thread_specific_ptr: each thread sees only its own value, new keys start empty',
     'get() returns the last value the calling thread stored in that thread_specific_ptr and null if it stored none; no operation by another thread or on another thread_specific_ptr changes it. '
     'A thread_specific_ptr created after another was destroyed starts out null in every thread, even if it reuses the same internal slot.',
     ['histories', 'schedules', 'programs'], 'every history of creation, destruction, get, reset and release over any number of pointers and threads',
     'Slot reuse with values left over in other threads needs a multi-step history across threads.',
     [I + 'thread_specific/thread_specific_ptr.hpp', 'src/tss_manager.hpp', 'src/tss_pthread.cpp'],
     [('per-thread storage vectors indexed by key, free-key list', 'tss_manager.hpp')])
prop('C17', 'thread_specific_ptr: each value is cleaned up exactly once, released ones never',
     'Every non-null value held by a thread_specific_ptr is passed to its cleanup function exactly once: when replaced by reset() with a different pointer, when the owning thread exits, or when the thread_specific_ptr is destroyed, whichever comes first; null values are never passed. '
     'A value given up by release() is not cleaned up, reset() to the same pointer does not clean it up, and a pointer without cleanup function never calls one.',
     ['histories', 'programs'], 'every history of set, release, thread exit and destruction over any number of threads and pointers',
     'Double or missed clean-up shows only for particular orders of thread exit and destruction.',
     [I + 'thread_specific/thread_specific_ptr.hpp', 'src/tss_manager.hpp', 'src/tss_pthread.cpp'],
     [('cleanup on thread exit and on key deletion', 'tss_manager.hpp')])
prop('C18', 'notify_all_at_thread_exit: unlock and notify once, after all other exit work',
     'notify_all_at_thread_exit takes over the caller\'s owned lock and at thread exit unlocks that mutex and wakes all waiters of that condition variable exactly once, after all at_thread_exit callbacks and thread-specific values of the thread have been processed. '
     'If registering fails, the mutex is not left locked with nobody responsible for it, and the lock passed in no longer refers to a mutex somebody else will unlock.',
     ['histories', 'fault_sequences'], 'every number of registrations per thread, every failing allocation',
     'Order relative to other exit processing and failure of registration are not tested.',
     [I + 'condition_variables/notify_all_at_thread_exit.hpp', 'src/tss_manager.hpp', 'src/tss_pthread.cpp'],
     [('notification list processed last', 'tss_manager.hpp')])
prop('C19', 'The thread-specific storage registry is race-free and consistent',
     'All data of the thread-specific storage registry that several threads can reach - the key table, the list of free keys, the list of thread contexts and the value vectors other threads scan - is accessed only while the registry lock is held, the lock is released on every path, and user cleanup functions and callbacks run without it. '
     'A key is handed out to one owner at a time, and every thread context is in the registry exactly as long as its thread uses it.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of key creation and deletion, value access, thread start and exit; every failing allocation',
     'Data races on these structures are rare and usually silent.',
     ['src/tss_manager.hpp', 'src/tss_pthread.cpp', I + 'detail/tss.hpp'],
     [('registry mutex', 'tss_manager.hpp')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))

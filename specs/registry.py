from engine.run import Task

CHECKS = {}


def check(pid, tasks, **kw):
    CHECKS[pid] = dict(tasks=tasks, **kw)


def variants(label, src, fn, flagsets, tier='quick', **kw):
    return [Task('%s[%s]' % (label, n), [(src, f)], fn, tier=t, **kw) for n, f, t in flagsets]


STD = [('', (), 'quick'), ('ndebug', ('-DNDEBUG',), 'quick')]
MORE = STD + [('c++20', ('-std=c++20',), 'thorough'), ('c++11', ('-std=c++11',), 'thorough'), ('c++03', ('-std=c++03',), 'thorough')]

check('C01', variants('spin_mutex', 'spin.cpp', ('specs.spin', 'spin'), MORE))
check('C02', variants('shared_spin_mutex', 'spin.cpp', ('specs.spin', 'shared_spin'), MORE))

TIMED = ('wait_for', 'timed_wait_d', 'wait_until_sys', 'timed_wait_tp', 'wait_until_ts', 'wait_until_steady')


def parts(label, src, fn, flagsets, names, **kw):
    return [t for n in names for t in variants(label + ' ' + n, src, fn, flagsets, part=n, **kw)]


ARF = ('auto_reset_event/futex', 'events.cpp', ('specs.events', 'ar_futex'), MORE)
MRF = ('manual_reset_event/futex', 'events.cpp', ('specs.events', 'mr_futex'), MORE)
check('C03', parts(*ARF, ('basic',) + TIMED, aspects=('count',)))
check('C04', parts(*ARF, ('basic',) + TIMED, aspects=('wake',)))
check('C05', parts(*MRF, ('basic',) + TIMED, aspects=('count',)))
check('C06', parts(*ARF, TIMED, aspects=('time',)) + parts(*MRF, TIMED, aspects=('time',)))

SEM = ('semaphore/posix', 'posix.cpp', ('specs.sem', 'posix'), MORE)
check('C07', parts(*SEM, ('basic',) + TIMED, aspects=('count',)))
CHECKS['C06']['tasks'] += parts(*SEM, TIMED, aspects=('time',))

EMU = [('', ('-DVP_EMULATION',), 'quick'), ('ndebug', ('-DVP_EMULATION', '-DNDEBUG'), 'thorough'), ('c++11', ('-DVP_EMULATION', '-std=c++11'), 'thorough')]


def emu(kind, aspects, names):
    n = {'ar': 'auto_reset_event', 'mr': 'manual_reset_event', 'sem': 'semaphore'}[kind]
    return parts(n + '/emulation', 'posix.cpp' if kind == 'sem' else 'events.cpp', ('specs.monitor', 'run'), EMU, names, kind=kind, aspects=aspects)


for p, k, a in (('C03', 'ar', 'count'), ('C04', 'ar', 'wake'), ('C05', 'mr', 'count'), ('C07', 'sem', 'count')):
    CHECKS[p]['tasks'] += emu(k, (a,), ('basic',) + TIMED)
for k in ('ar', 'mr', 'sem'):
    CHECKS['C06']['tasks'] += emu(k, ('time',), TIMED)
ARS = ('auto_reset_event/semaphore', 'events.cpp', ('specs.arsem', 'run'), [('', ('-DVP_AR_SEMAPHORE',), 'quick'), ('ndebug', ('-DVP_AR_SEMAPHORE', '-DNDEBUG'), 'thorough')])
CHECKS['C03']['tasks'] += parts(*ARS, ('basic',) + TIMED, aspects=('count',))
CHECKS['C04']['tasks'] += parts(*ARS, ('basic',) + TIMED, aspects=('wake',))
CHECKS['C06']['tasks'] += parts(*ARS, TIMED, aspects=('time',))

MTIMED = ('lock_for', 'timed_lock_d', 'lock_until_sys', 'timed_lock_tp', 'lock_until_ts', 'lock_until_steady', 'lock_until_bsteady', 'timed_lock_bsteady')
MX = ('mutex', 'posix.cpp', ('specs.mutex', 'mutexes'), MORE)
EINTR = [('eintr', ('-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG',), 'quick')]
check('C09', parts(*MX, ('basic',) + MTIMED, aspects=('report',)) + parts('mutex', 'posix.cpp', ('specs.mutex', 'mutexes'), EINTR, ('basic',) + MTIMED, aspects=('report',), eintr=True))
CHECKS['C06']['tasks'] += parts(*MX, MTIMED, aspects=('time',))

TMM = ('timed_mutex/no-timedlock', 'posix.cpp', ('specs.monitor', 'timed_mutex'), [('', ('-DVP_NO_TIMEDLOCK',), 'quick'), ('ndebug', ('-DVP_NO_TIMEDLOCK', '-DNDEBUG'), 'quick')])
CHECKS['C09']['tasks'] += parts(*TMM, ('basic',) + MTIMED, aspects=('count', 'wake'))
CHECKS['C06']['tasks'] += parts(*TMM, MTIMED, aspects=('time',))

NOINIT = [('noinit', ('-DVP_NO_INIT',), 'quick')]
CHECKS['C09']['tasks'] += parts('mutex', 'posix.cpp', ('specs.mutex', 'mutexes'), NOINIT, ('basic',), aspects=('report',))
CHECKS['C09']['tasks'] += parts('timed_mutex/no-timedlock', 'posix.cpp', ('specs.monitor', 'timed_mutex'), [('noinit', ('-DVP_NO_INIT', '-DVP_NO_TIMEDLOCK'), 'quick')], ('basic',), aspects=('count', 'wake'))
for p, k in (('C03', 'ar'), ('C05', 'mr'), ('C07', 'sem')):
    CHECKS[p]['tasks'] += parts({'ar': 'auto_reset_event', 'mr': 'manual_reset_event', 'sem': 'semaphore'}[k] + '/emulation', 'posix.cpp' if k == 'sem' else 'events.cpp',
                                ('specs.monitor', 'run'), [('noinit', ('-DVP_EMULATION', '-DVP_NO_INIT'), 'quick')], ('basic',), kind=k, aspects=('count',))

CT = tuple(f + s for f in ('wait_for', 'wait_until_sys', 'wait_until_ts', 'wait_until_steady', 'timed_wait_d', 'timed_wait_tp') for s in ('', '_p'))
C11 = [(n, f, t) for n, f, t in MORE if n != 'c++03']
check('C13', parts('condition_variable', 'cond.cpp', ('specs.cond', 'cv'), C11, ('basic',) + CT)
      + parts('condition_variable+timed_mutex', 'cond.cpp', ('specs.cond', 'cv'), STD[:1], ('basic',) + CT, pre='cvt')
      + parts('condition_variable', 'cond.cpp', ('specs.cond', 'cv'), EINTR, ('basic',) + CT, eintr=True))
check('C14', parts('condition_variable_any', 'cond.cpp', ('specs.cond', 'cva'), C11, ('basic',) + CT)
      + parts('condition_variable_any', 'cond.cpp', ('specs.cond', 'cva'), EINTR, ('basic',) + CT, eintr=True))
CHECKS['C13']['tasks'] += parts('condition_variable', 'cond.cpp', ('specs.cond', 'cv'), NOINIT, ('basic',))
CHECKS['C14']['tasks'] += parts('condition_variable_any', 'cond.cpp', ('specs.cond', 'cva'), NOINIT, ('basic',))

LK = MORE
check('C10', variants('unique_lock', 'locks.cpp', ('specs.locks', 'locks'), LK, types=('u',)))
check('C11', variants('shared_lock', 'locks.cpp', ('specs.locks', 'locks'), LK, types=('s',)) + variants('upgrade_lock', 'locks.cpp', ('specs.locks', 'locks'), LK, types=('g',))
      + variants('conversions', 'locks.cpp', ('specs.locks', 'locks'), LK, types=(), conv=True))
check('C12', variants('guards', 'locks.cpp', ('specs.locks', 'guards'), LK))

NANO = [('nano', ('-DVP_NANO',), 'quick')]
check('C08', parts('time', 'time.cpp', ('specs.timeconv', 'run'), MORE, ('units', 'b', 'other')) + parts('time', 'time.cpp', ('specs.timeconv', 'run'), C11, ('c',))
      + parts('time', 'time.cpp', ('specs.timeconv', 'run'), NANO, ('other',)))

TSS = [('', (), 'quick'), ('tls', ('-DBOOST_SYNC_USE_COMPILER_TLS',), 'quick')]


def tss(aspects, names):
    return parts('tss', 'tss.cpp', ('specs.tss', 'lib'), TSS, names, aspects=aspects)


def ex(*n):
    return tuple('exit%d' % i for i in n)


def hdr(part, aspects):
    return variants('tss ' + part, 'tss_hdr.cpp', ('specs.tsshdr', 'run'), MORE, part=part, aspects=aspects)


check('C15', hdr('at_exit', ('exit',)) + tss(('exit',), ('register',) + ex(0, 1, 2, 3)))
check('C16', hdr('ptr', ('iso',)) + tss(('iso',), ('values', 'keys') + ex(4, 5)))
check('C17', hdr('ptr', ('clean',)) + tss(('clean',), ('keys',) + ex(4, 5, 6)))
check('C18', hdr('notify', ('notify',)) + tss(('notify',), ('register',) + ex(2, 3, 4, 5, 7, 8)))
check('C19', tss(('lock',), ('register', 'values', 'keys') + ex(3, 5, 8)))

EXC = ('exceptions', 'exc.cpp', ('specs.exc', 'run'), STD)
for p, a in (('C07', 'count'), ('C09', 'report'), ('C10', 'report')):
    CHECKS[p]['tasks'] += variants(*EXC, aspects=(a,))

# what the proofs rest on without checking it (DESIGN.md, section 3); copied into the evidence
_BASE = ['clang/opt translate the C++ code correctly; the verification condition generator (engine/) and z3/cvc5 are right',
         'threads interleave at atomic operations and lock/unlock; memory orders are checked at the linearising accesses only, weak-memory reorderings beyond that are not modelled',
         'back ends that cannot be compiled here (Windows, Mach semaphores, libdispatch) are out of reach']
_OS = ['operating system calls (futex, sem_*, pthread_mutex_*, pthread_cond_*) behave as POSIX / futex(2) document, every documented failure allowed']
_TIME = ['clock readings < 2^62 ns; deadlines in (-2^61, 2^63) ns; clocks other than the system clock keep a constant offset during the call',
         'integral duration representations; Boost.Date_Time special values and dates within a day of its limits excluded']
_LOCK = ['lock()/unlock() of the user\'s mutex type is the monitored contract (may throw from lock, not from unlock in noexcept contexts); documented undefined use is excluded by precondition']
_TSS = ['the mutex and condition variable inside the registry work as specified in C09/C13', 'user callbacks and cleanup functions do not throw',
        'pthread_setspecific fails only on the first non-null store of a thread; fewer than 2^31 keys',
        'std::vector growth, std::stack and intrusive list link/unlink are used by contract']
_EV = ['fewer than 2^22 (auto-reset, futex) / 2^30 (others) waiting threads']
_ASSUME = {'C01': [], 'C02': ['fewer than 2^30 readers'], 'C03': _OS + _EV, 'C04': _OS + _EV, 'C05': _OS + _EV, 'C06': _OS + _TIME, 'C07': _OS + ['the value stays below SEM_VALUE_MAX unless sem_post reports the overflow'],
           'C08': _TIME, 'C09': _OS + ['Boost.System: error_code and system_error constructors by contract (specs/exc.py)'], 'C10': _LOCK, 'C11': _LOCK, 'C12': _LOCK, 'C13': _OS + _TIME, 'C14': _OS + _TIME + _LOCK,
           'C15': _TSS, 'C16': _TSS, 'C17': _TSS, 'C18': _TSS, 'C19': _TSS}
for _p, _c in CHECKS.items():
    _c['assumptions'] = _BASE + _ASSUME[_p]

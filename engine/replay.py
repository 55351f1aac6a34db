"""Looks for a failing input behind a failed obligation: runs the real code of the working tree on a simulated machine
(replay/rt.cpp) in the scenarios of the property, with random schedules, faults and times."""
import os, subprocess, tempfile, shutil, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SYMS = ('syscall clock_gettime gettimeofday time sched_yield nanosleep usleep pthread_self pthread_equal '
        'pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_clocklock pthread_mutex_timedlock '
        'pthread_condattr_init pthread_condattr_setclock pthread_condattr_destroy pthread_cond_init pthread_cond_destroy pthread_cond_signal pthread_cond_broadcast '
        'pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait sem_init sem_destroy sem_post sem_wait sem_trywait sem_clockwait sem_timedwait sem_getvalue '
        'pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific pthread_once abort').split()
EXTRA = {'__cxa_allocate_exception': 'sim_allocate_exception', '_ZNSt6chrono3_V212system_clock3nowEv': 'sim_sysclock_now', '_ZNSt6chrono3_V212steady_clock3nowEv': 'sim_steady_now'}
SRC = {'spin.cpp': 'spin.cpp', 'events.cpp': 'events.cpp', 'posix.cpp': 'posix.cpp', 'cond.cpp': 'cond.cpp', 'locks.cpp': 'locks.cpp', 'time.cpp': 'time.cpp',
       'tss.cpp': 'tss.cpp', 'tss_hdr.cpp': 'tss.cpp', 'exc.cpp': 'exc.cpp'}


def build(src, flags, tmp, name):
    d = os.path.join(VERIF, 'replay')
    exe, o, o2, r = [os.path.join(tmp, name + x) for x in ('', '.o', '.s.o', '.rt.o')]
    # compiler-supported TLS is per OS thread, the simulated threads share one: the library's other storage is used
    flags = [f for f in flags if f != '-DBOOST_SYNC_USE_COMPILER_TLS']
    flags = ['-std=c++20' if '-std=c++20' in flags else '-std=c++17'] + [f for f in flags if not f.startswith('-std')]
    def run(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
        if p.returncode:
            raise RuntimeError(' '.join(cmd) + '\n' + '\n'.join(l for l in p.stderr.split('\n') if 'rror' in l)[:600])
    run(['g++'] + ['-O1', '-g', '-w', '-fsanitize=thread', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + d] + flags + ['-c', os.path.join(d, src), '-o', o])
    ren = os.path.join(tmp, name + '.syms')
    with open(ren, 'w') as f:
        for s in SYMS:
            f.write('%s sim_%s\n' % (s, s))
        for a, b in EXTRA.items():
            f.write('%s %s\n' % (a, b))
    run(['objcopy', '--redefine-syms=' + ren, o, o2])
    run(['g++', '-std=c++17', '-O1', '-w', '-c', os.path.join(d, 'rt.cpp'), '-o', r])
    run(['g++', o2, r, '-pthread', '-o', exe])
    return exe


def search(prop, tus, secs=60, log=None):
    """tus: [(harness source, flags)]; returns the text of a failing run or None"""
    tmp = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        jobs = []
        for s, f in tus:
            if s in SRC and (SRC[s], f) not in jobs:
                jobs.append((SRC[s], tuple(f)))
        jobs = jobs[:6]
        def one(i):
            src, flags = jobs[i]
            try:
                exe = build(src, list(flags), tmp, 'r%d' % i)
                p = subprocess.run([exe, prop, str(secs)], capture_output=True, text=True, timeout=secs + 60, errors='replace', cwd=tmp)
            except Exception as e:
                return ('error', str(e)[-800:], src, flags)
            return (p.returncode, p.stdout, src, flags)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, range(len(jobs))))
        for rc, out, src, flags in res:
            if log is not None:
                log.append('%s %s: %s' % (src, ' '.join(flags), out if rc == 'error' else out.split('\n')[0] if out else 'exit %s' % rc))
        for rc, out, src, flags in res:
            if rc == 3 and 'FAILING-INPUT' in out:
                return 'program replay/%s %s\n%s' % (src, ' '.join(flags), out[:20000])
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    # python3-vt engine/replay.py C01 seconds [substring]: run every scenario program of the property
    sys.path.insert(0, VERIF)
    from specs.registry import CHECKS
    tus = []
    for t in CHECKS[sys.argv[1]]['tasks']:
        for tu in t.tus:
            if tu not in tus and (t.tier == 'quick' or 'all' in sys.argv):
                tus.append(tu)
    log = []
    r = search(sys.argv[1], tus, float(sys.argv[2]), log)
    print('\n'.join(log))
    print(r or 'nothing found')

"""Contracts of the POSIX primitives (assumed: glibc/POSIX), used by everything built on them."""
import z3
from engine.spec import Spec
from engine.sym import Ptr, UNDEF, Exc, BadAccess
from engine.arith import isc, Unsupported, mask, fresh_name
from .common import *
from .common import Timed, tristate


class Posix(Timed):
    """Mutexes are identified by address; ghost ('m', obj, off) = 1 while the calling thread holds that mutex."""
    intercepts = (
        (r'^pthread_mutex_lock$', 'c_mutex_lock'), (r'^pthread_mutex_trylock$', 'c_mutex_trylock'),
        (r'^pthread_mutex_timedlock$', 'c_mutex_timedlock'), (r'^pthread_mutex_unlock$', 'c_mutex_unlock'),
        (r'^pthread_mutex_init$', 'c_mutex_init'), (r'^pthread_mutex_destroy$', 'c_mutex_destroy'),
        (r'^pthread_cond_init$', 'c_cond_init'), (r'^pthread_cond_destroy$', 'c_cond_destroy'),
        (r'^pthread_cond_wait$', 'c_cond_wait'), (r'^pthread_cond_timedwait$', 'c_cond_timedwait'),
        (r'^pthread_cond_signal$', 'c_cond_signal'), (r'^pthread_cond_broadcast$', 'c_cond_broadcast'),
        (r'^sem_init$', 'c_sem_init'), (r'^sem_destroy$', 'c_sem_destroy'), (r'^sem_post$', 'c_sem_post'), (r'^sem_wait$', 'c_sem_wait'),
        (r'^sem_trywait$', 'c_sem_trywait'), (r'^sem_timedwait$', 'c_sem_timedwait'),
    )
    eintr = False             # the platform's pthread calls may return EINTR (BOOST_SYNC_HAS_PTHREAD_EINTR_BUG)
    mutex_fails = True        # mutex operations may report OS errors
    cond_fails = True
    init_fails = True
    mutex_blocks = False      # locking a mutex counts as blocking (it is the resource waited for)

    def key(self, p):
        if not isinstance(p, Ptr) or not isc(p.off) or not (isc(p.idx) and p.idx == 0):
            raise Unsupported('OS object at a symbolic address')
        return (p.obj, p.off)

    def held(self, st, p):
        return st.g.get(('m',) + self.key(p), 0)

    def set_held(self, st, p, v):
        st.g[('m',) + self.key(p)] = v

    def errcode(self, st, exclude=()):
        e = self.eng.A.fresh(st, 32, 'os_error')
        z = self.eng.A.z(32, e)
        ex = set(exclude) | {EINTR}
        c = [z != x for x in ex]
        if z3.is_bv(z):
            st.assume(z3.And(z3.UGT(z, 0), z3.ULT(z, 4096), *c))
        else:
            st.assume(z3.And(z > 0, z < 4096, *c))
        return e

    # hooks
    def acquired(self, st, p, how):
        pass

    def released(self, st, p, how):
        pass

    def os_failed(self, st, what, code):
        """an OS call failed with an error that is not part of its normal protocol"""
        st.g['oserr'] = code
        st.g['oserrs'] = st.g.get('oserrs', 0) + 1

    def alts(self, st, items):
        outs = []
        for text, ret, fn in items:
            s = st.clone()
            s.log('call', text)
            r = ret
            if callable(ret):
                r = ret(s)
            if fn is not None and fn(s, r) is False:
                continue
            if s.feasible():
                outs.append((s, 'ret', r))
        return outs

    def with_eintr(self, items, what):
        if self.eintr:
            items.append((what + ': EINTR', EINTR, None))
        return items

    def no_deadlock(self, st, p):
        self.ob(st, 'lock', 'not-already-locked', self.held(st, p) == 0, 'locks a mutex the calling thread already holds')

    def got(self, p, how):
        def f(s, r):
            self.set_held(s, p, 1)
            self.acquired(s, p, how)
        return f

    def failed(self, what):
        return lambda s, r: self.os_failed(s, what, r)

    def c_mutex_lock(self, st, a, ins):
        p = a[0]
        self.key(p)
        self.no_deadlock(st, p)
        if self.mutex_blocks:
            self.block_forever(st)
        items = [('pthread_mutex_lock: acquired', 0, self.got(p, 'lock'))]
        if self.mutex_fails:
            items.append(('pthread_mutex_lock fails', lambda s: self.errcode(s), self.failed('lock')))
        return self.alts(st, self.with_eintr(items, 'pthread_mutex_lock'))

    def c_mutex_trylock(self, st, a, ins):
        p = a[0]
        self.key(p)
        items = [('pthread_mutex_trylock: acquired', 0, self.got(p, 'try')), ('pthread_mutex_trylock: busy', EBUSY, lambda s, r: self.busy(s, p))]
        if self.mutex_fails:
            items.append(('pthread_mutex_trylock fails', lambda s: self.errcode(s, (EBUSY,)), self.failed('trylock')))
        return self.alts(st, self.with_eintr(items, 'pthread_mutex_trylock'))

    def busy(self, st, p):
        st.g['busy'] = 1

    def c_mutex_timedlock(self, st, a, ins):
        p = a[0]
        self.key(p)
        self.no_deadlock(st, p)
        t = self.block_absolute(st, *self.timespec(st, a[1]))
        def got(s, r):
            self.blocked(st, s, t)
            self.got(p, 'timed')(s, r)
        def out(s, r):
            self.expired(st, s, t)
            s.g['busy'] = 1
        items = [('pthread_mutex_timedlock: acquired', 0, got), ('pthread_mutex_timedlock: timed out', ETIMEDOUT, out)]
        if self.mutex_fails:
            items.append(('pthread_mutex_timedlock fails', lambda s: self.errcode(s, (ETIMEDOUT,)), self.failed('timedlock')))
        return self.alts(st, self.with_eintr(items, 'pthread_mutex_timedlock'))

    def blocked(self, st, s, t):
        """s: st after blocking at most until t"""
        self.tick(s, 'B')
        n = self.now(st)
        s.assume(s.g['B'] <= st.g['B'] + z3.If(t > n, t - n, 0))

    def expired(self, st, s, t):
        self.tick(s, 'B')
        s.assume(self.now(s) >= t)

    def c_mutex_unlock(self, st, a, ins):
        p = a[0]
        self.ob(st, 'lock', 'unlocks-only-held', self.held(st, p) == 1, 'unlocks a mutex the calling thread does not hold')
        items = []
        def f(s, r):
            self.released(s, p, 'unlock')
            self.set_held(s, p, 0)
        items.append(('pthread_mutex_unlock', 0, f))
        return self.alts(st, self.with_eintr(items, 'pthread_mutex_unlock'))

    def c_mutex_init(self, st, a, ins):
        p = a[0]
        k = ('minit',) + self.key(p)
        def ok(s, r):
            s.g[k] = 1
        return self.alts(st, [('pthread_mutex_init', 0, ok)] + ([('pthread_mutex_init fails', lambda s: self.errcode(s), self.failed('init'))] if self.init_fails else []))

    def c_mutex_destroy(self, st, a, ins):
        k = ('mdead',) + self.key(a[0])
        self.ob(st, 'lock', 'destroyed-once', st.g.get(k, 0) == 0 and self.held(st, a[0]) == 0, 'mutex destroyed twice or while held')
        def ok(s, r):
            s.g[k] = 1
        return self.alts(st, self.with_eintr([('pthread_mutex_destroy', 0, ok)], 'pthread_mutex_destroy'))

    def c_cond_init(self, st, a, ins):
        k = ('cinit',) + self.key(a[0])
        def ok(s, r):
            s.g[k] = 1
        return self.alts(st, [('pthread_cond_init', 0, ok)] + ([('pthread_cond_init fails', lambda s: self.errcode(s), self.failed('init'))] if self.init_fails else []))

    def c_cond_destroy(self, st, a, ins):
        k = ('cdead',) + self.key(a[0])
        self.ob(st, 'lock', 'destroyed-once', st.g.get(k, 0) == 0, 'condition destroyed twice')
        def ok(s, r):
            s.g[k] = 1
        return self.alts(st, self.with_eintr([('pthread_cond_destroy', 0, ok)], 'pthread_cond_destroy'))

    # waiting releases and re-acquires the mutex; it is held again on every return
    def cond_wait(self, st, c, m, ts):
        what = 'pthread_cond_wait' if ts is None else 'pthread_cond_timedwait'
        self.key(c)
        self.ob(st, 'lock', 'waits-with-lock-held', self.held(st, m) == 1, 'waits on a condition without holding the mutex')
        t = None
        if ts is None:
            self.block_forever(st)
        else:
            t = self.block_absolute(st, *self.timespec(st, ts))
        self.before_wait(st, c, m, t)
        def woken(s, r):
            self.released(s, m, 'wait')
            if t is None:
                self.tick(s, 'B')
            else:
                self.blocked(st, s, t)
            self.acquired(s, m, 'wait')
            self.after_wait(s, c, 'woken')
        def out(s, r):
            self.released(s, m, 'wait')
            self.expired(st, s, t)
            self.acquired(s, m, 'wait')
            self.after_wait(s, c, 'timeout')
        def bad(s, r):
            self.os_failed(s, 'wait', r)
            self.after_wait(s, c, 'error')
        items = [(what + ': woken', 0, woken)]
        if t is not None:
            items.append((what + ': timed out', ETIMEDOUT, out))
        if self.cond_fails:
            items.append((what + ' fails', lambda s: self.errcode(s, (ETIMEDOUT,)), bad))
        if self.eintr:
            items.append((what + ': EINTR', EINTR, None))     # returned without having blocked
        return self.alts(st, items)

    def before_wait(self, st, c, m, t):
        pass

    def after_wait(self, st, c, how):
        pass

    def c_cond_wait(self, st, a, ins):
        return self.cond_wait(st, a[0], a[1], None)

    def c_cond_timedwait(self, st, a, ins):
        return self.cond_wait(st, a[0], a[1], a[2])

    def c_cond_signal(self, st, a, ins):
        return self.alts(st, [('pthread_cond_signal', 0, lambda s, r: self.notified(s, a[0], 1))])

    def c_cond_broadcast(self, st, a, ins):
        return self.alts(st, [('pthread_cond_broadcast', 0, lambda s, r: self.notified(s, a[0], 'all'))])

    def notified(self, st, c, n):
        self.key(c)

    # semaphores
    def semalts(self, st, items):
        outs = []
        for text, err, fn in items:
            s = st.clone()
            s.log('call', text)
            if fn is not None:
                fn(s)
            if not s.feasible():
                continue
            if err:
                e = err(s) if callable(err) else err
                if callable(err):
                    self.os_failed(s, text, e)
                s.wr(self.eng.errno(s), 4, e)
            outs.append((s, 'ret', mask(32) if err else 0))
        return outs

    def the_sem(self, st, p):
        pass

    def sem_taken(self, st):
        pass

    def sem_empty(self, st):
        pass

    def sem_posted(self, st):
        pass

    def c_sem_init(self, st, a, ins):
        p = a[0]
        k = ('sinit',) + self.key(p)
        def ok(s):
            s.g[k] = s.g.get(k, 0) + 1
            self.sem_made(s, p, a[2])
        return self.semalts(st, [('sem_init', 0, ok), ('sem_init fails', lambda s: self.errcode(s), None)])

    def sem_made(self, st, p, n):
        pass

    def c_sem_destroy(self, st, a, ins):
        k = ('sdead',) + self.key(a[0])
        self.the_sem(st, a[0])
        self.ob(st, 'count', 'destroyed-once', st.g.get(k, 0) == 0, 'semaphore destroyed twice')
        st.g[k] = 1
        return self.semalts(st, [('sem_destroy', 0, None)])

    def c_sem_post(self, st, a, ins):
        self.the_sem(st, a[0])
        return self.semalts(st, [('sem_post', 0, self.sem_posted), ('sem_post: EOVERFLOW', EOVERFLOW, lambda s: self.os_failed(s, 'post', EOVERFLOW))])

    def c_sem_wait(self, st, a, ins):
        self.the_sem(st, a[0])
        self.block_forever(st)
        def took(s):
            self.tick(s, 'B')
            self.sem_taken(s)
        return self.semalts(st, [('sem_wait: took a unit', 0, took), ('sem_wait: EINTR', EINTR, lambda s: self.tick(s, 'B'))])

    def c_sem_trywait(self, st, a, ins):
        self.the_sem(st, a[0])
        return self.semalts(st, [('sem_trywait: took a unit', 0, self.sem_taken), ('sem_trywait: EAGAIN', EAGAIN, self.sem_empty)])

    def c_sem_timedwait(self, st, a, ins):
        self.the_sem(st, a[0])
        t = self.block_absolute(st, *self.timespec(st, a[1]))
        def took(s):
            self.blocked(st, s, t)
            self.sem_taken(s)
        def out(s):
            self.expired(st, s, t)
            self.sem_empty(s)
        return self.semalts(st, [('sem_timedwait: took a unit', 0, took), ('sem_timedwait: EINTR', EINTR, lambda s: self.blocked(st, s, t)),
                                 ('sem_timedwait: timed out', ETIMEDOUT, out)])


def code_is(eng, st, exc, e):
    """the exception carries the OS error code e"""
    if exc.code is None or e is None:
        return False
    return eng.A.z(32, exc.code) == eng.A.z(32, e)

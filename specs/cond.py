"""Contracts of condition_variable (C13) and condition_variable_any (C14)."""
import z3
from engine.spec import Spec
from engine.sym import Ptr, Exc
from engine.arith import isc, Unsupported
from .common import tristate
from .posix import Posix, code_is

F = z3.BoolVal(False)
TIMED = [('wait_for', 'dur'), ('wait_until_sys', 'sys'), ('wait_until_ts', 'ts'), ('wait_until_steady', 'steady'), ('timed_wait_d', 'dur'), ('timed_wait_tp', 'sys')]
OPS = [('wait', None, False), ('wait_p', None, True)] + [(f, d, False) for f, d in TIMED] + [(f + '_p', d, True) for f, d in TIMED]


class Cond(Posix):
    """ghost: pv = value of the last predicate evaluation (None: none since the lock was last re-acquired); woken = how the last OS wait ended"""
    pred = False
    deadline = None
    intercepts = ((r'^vp_pred$', 'c_pred'), (r'^vp_after$', 'c_after'))
    mutex_fails = True

    def args(self, st):
        st.g.update(oserr=None, oserrs=0, pv=None, woken=None, waits=0, userexc=0)
        if self.deadline:
            return [self.deadline_arg(st, self.deadline)]
        return []

    def lock_is_held(self, st):
        raise NotImplementedError

    def c_pred(self, st, a, ins):
        self.ob(st, 'lock', 'predicate-under-lock', self.lock_is_held(st), 'the predicate is evaluated without the lock')
        outs = []
        for v in (0, 1):
            s = st.clone()
            s.log('call', 'predicate returns %d' % v)
            s.g['pv'] = v
            outs.append((s, 'ret', v))
        s = st.clone()
        s.log('call', 'predicate throws')
        s.g['userexc'] = 1
        outs.append((s, 'throw', Exc('user_exception')))
        return outs

    def after_wait(self, st, c, how):
        st.g['woken'] = how
        st.g['waits'] = 1
        st.g['pv'] = None

    def before_wait(self, st, c, m, t):
        self.ob(st, 'lock', 'right-condition', c.obj == self.c.obj and (self.coff is None or c.off == self.coff), 'waits on a different OS condition')
        if self.pred:
            self.ob(st, 'pred', 'waits-only-when-false', st.g['pv'] == 0, 'blocks although the predicate was not found false since the lock was last acquired')

    def on_return(self, st, v):
        g = st.g
        self.ob(st, 'pred', 'errors-thrown', g['oserrs'] == 0, 'returns normally although an OS call failed')
        if self.deadline is None:
            if self.pred:
                self.ob(st, 'pred', 'predicate-true', g['pv'] == 1, 'wait(pred) returns although the predicate was not found true since the lock was last acquired')
            else:
                self.ob(st, 'pred', 'waits', g['waits'] == 1, 'wait() returns without waiting')
            return
        r = self.eng.A.z(32, v) if not isc(v) else v
        ok = z3.BoolVal(r == 1) if isc(r) else r == 1
        self.ob(st, 'pred', 'valid-status', z3.BoolVal(r in (0, 1)) if isc(r) else z3.Or(r == 0, r == 1), 'returns neither time-out nor success')
        if self.pred:
            self.ob(st, 'pred', 'returns-predicate', z3.And(z3.BoolVal(g['pv'] is not None), ok == z3.BoolVal(g['pv'] == 1)),
                    'the result is not the value of the predicate, evaluated after the lock was last acquired')
        else:
            self.ob(st, 'pred', 'success-only-if-woken', z3.Implies(ok, z3.BoolVal(g['woken'] == 'woken')), 'reports a wake-up although the thread was not woken')
        self.finish_time(st, ok)

    def on_throw(self, st, exc):
        g = st.g
        if exc.type == 'user_exception':
            return
        self.ob(st, 'pred', 'error-code', g['oserrs'] > 0 and code_is(self.eng, st, exc, g['oserr']), 'exception without an OS error, or with another code')
        self.ob(st, 'pred', 'error-type', exc.type in ('boost::sync::wait_error', 'boost::sync::lock_error'), 'exception of type %s' % exc.type)


class CV(Cond):
    """condition_variable with unique_lock"""
    coff = None

    def setup(self, st):
        self.c = st.new_obj('cond', 256)
        self.m = st.new_obj('mutex', 256)
        self.time_init(st)
        st.g[('m', self.m.obj, self.moff)] = 1
        st.g['after'] = 0
        return [(st, [self.c, self.m] + self.args(st))]

    def lock_is_held(self, st):
        return st.g[('m', self.m.obj, self.moff)] == 1

    def c_after(self, st, a, ins):
        own = tristate(a[0], self.eng) if not isc(a[0]) else z3.BoolVal(bool(a[0] & 1))
        self.ob(st, 'lock', 'lock-owned-at-exit', own, 'the lock object no longer owns the mutex when the wait is left')
        self.ob(st, 'lock', 'same-mutex-at-exit', isinstance(a[1], Ptr) and a[1].obj == self.m.obj and a[1].off == 0, 'the lock object refers to a different mutex when the wait is left')
        self.ob(st, 'lock', 'mutex-locked-at-exit', self.lock_is_held(st), 'the mutex is not locked when the wait is left')
        return [(st, 'ret', None)]


class Notify(Posix):
    """notify_one / notify_all / destructor of condition_variable"""
    def setup(self, st):
        self.c = st.new_obj('cond', 256)
        self.time_init(st)
        st.g.update(oserr=None, oserrs=0, one=0, all=0)
        return [(st, [self.c])]

    def notified(self, st, c, n):
        self.key(c)
        self.ob(st, 'notify', 'right-condition', c.obj == self.c.obj and c.off == self.coff, 'notifies a different OS condition')
        st.g['all' if n == 'all' else 'one'] = 1

    def on_return(self, st, v):
        g = st.g
        if self.op == 'notify_one':
            self.ob(st, 'notify', 'notifies', g['one'] + g['all'] > 0, 'notify_one() does not notify the OS condition')
        elif self.op == 'notify_all':
            self.ob(st, 'notify', 'notifies', g['all'] > 0, 'notify_all() does not wake all waiters of the OS condition')
        else:
            self.ob(st, 'notify', 'destroyed', g.get(('cdead', self.c.obj, self.coff), 0) == 1, 'the OS condition is not destroyed')


class Where(Posix):
    """finds the OS objects an operation uses"""
    intercepts = ((r'^vp_', 'c_any'),)
    def setup(self, st):
        self.c = st.new_obj('cond', 256)
        self.m = st.new_obj('mutex', 256)
        self.time_init(st)
        self.found = set()
        return [(st, [self.c, self.m])]

    def ob(self, *a):
        pass

    def c_any(self, st, a, ins):
        return [(st, 'ret', 1)]

    def before_wait(self, st, c, m, t):
        self.found.add((c.obj == self.c.obj, c.off, m.obj == self.m.obj, m.off))

    def on_throw(self, st, exc):
        pass


def initialised(ctx, ctorfn, off, size, kind, aspects):
    """the constructor initialises the OS object at off, statically or dynamically"""
    from .mutex import Ctor
    sp = Ctor(aspects=aspects)
    ctx.verify(ctorfn, sp, sp.setup, intw=(64,))
    for st, cells in sp.rets:
        if st.g.get((kind, sp.p.obj, off)):
            continue
        cov, good = 0, True
        for o, (s, v) in sorted(cells.items()):
            if off <= o < off + size:
                cov += s
                good = good and isc(v) and v == 0
        good = good and cov == size
        (ctx.passed if good else lambda a, b: ctx.fail(a, b, 'an OS object of the class is neither statically nor dynamically initialised'))(ctorfn, 'initialised')


def where(ctx, pre):
    w = Where()
    ctx.verify(pre + '_wait', w, w.setup, intw=(64,), label=pre + '_wait (layout)', must_return=False)
    if len(w.found) != 1:
        ctx.fail(pre + '_wait', 'waits', 'wait() does not wait on one OS condition')
        return None
    return list(w.found)[0]


def cv(ctx, part, pre='cv', eintr=False):
    asp = ('lock', 'pred', 'time', 'notify', 'report')
    w = where(ctx, pre)
    if w is None:
        return
    cin, coff, min_, moff = w
    if not cin or not min_:
        ctx.fail(pre + '_wait', 'right-condition', 'wait() does not use the condition and mutex it was given')
        return
    if part == 'basic':
        initialised(ctx, 'cv_ctor', coff, 48, 'cinit', asp)
        for op in ('notify_one', 'notify_all', 'dtor'):
            sp = Notify(op=op, coff=coff, aspects=asp, eintr=eintr)
            ctx.verify('cv_' + op, sp, sp.setup, intw=(64,))
    for fn, dl, pr in OPS:
        if fn == part or (part == 'basic' and dl is None):
            sp = CV(deadline=dl, pred=pr, coff=coff, moff=moff, aspects=asp, eintr=eintr)
            ctx.verify('%s_%s' % (pre, fn), sp, sp.setup, intw=(64,), must_throw=True)


class CVA(Cond):
    """condition_variable_any with a user-defined lock.  ghost ul: the user's lock is held; cont: since it was released the internal mutex has been held"""
    intercepts = ((r'^user_lock::lock\(\)$', 'c_ulock'), (r'^user_lock::unlock\(\)$', 'c_uunlock'))
    coff = None

    def setup(self, st):
        self.c = st.new_obj('cond', 256)
        self.u = st.new_obj('lock', 16)
        self.time_init(st)
        st.g.update(ul=1, cont=0, ulfail=0, acq=0, notified=0)
        return [(st, [self.c, self.u] + self.args(st))]

    def internal(self, st):
        return any(v == 1 for k, v in st.g.items() if isinstance(k, tuple) and k[0] == 'm')

    def lock_is_held(self, st):
        return st.g['ul'] == 1

    def c_pred(self, st, a, ins):
        self.ob(st, 'lock', 'predicate-without-internal-lock', not self.internal(st), 'the predicate is evaluated with the internal mutex held')
        return super().c_pred(st, a, ins)

    def right(self, st, p):
        self.ob(st, 'lock', 'right-lock', isinstance(p, Ptr) and p.obj == self.u.obj and p.off == 0, 'operates on a different user lock')

    def c_uunlock(self, st, a, ins):
        self.right(st, a[0])
        self.ob(st, 'lock', 'unlocks-only-held', st.g['ul'] == 1, "releases the user's lock although it is not held")
        s = st.clone()
        s.log('call', "user's lock: unlock() throws")
        s.g['userexc'] = 1
        st.log('call', "user's lock: unlock()")
        st.g['ul'] = 0
        st.g['cont'] = 1 if self.internal(st) else 0
        return [(s, 'throw', Exc('user_exception')), (st, 'ret', None)]

    def c_ulock(self, st, a, ins):
        self.right(st, a[0])
        self.ob(st, 'lock', 'not-already-locked', st.g['ul'] == 0, "acquires the user's lock twice")
        self.ob(st, 'lock', 'internal-mutex-free', not self.internal(st), "acquires the user's lock while holding the internal mutex")
        outs = []
        if st.exc is None and not st.g['oserrs'] and not st.g['userexc']:
            s = st.clone()
            s.log('call', "user's lock: lock() throws")
            s.g['ulfail'] = 1
            outs.append((s, 'throw', Exc('user_exception')))
        st.log('call', "user's lock: lock()")
        st.g['ul'] = 1
        st.g['pv'] = None
        self.tick(st, 'N')
        return outs + [(st, 'ret', None)]

    def released(self, st, p, how):
        if how == 'unlock':
            st.g['cont'] = 0

    def acquired(self, st, p, how):
        if how != 'wait':
            st.g['acq'] = 1

    def before_wait(self, st, c, m, t):
        super().before_wait(st, c, m, t)
        self.ob(st, 'lock', 'user-lock-released', st.g['ul'] == 0, "blocks while holding the user's lock")
        self.ob(st, 'lock', 'no-notification-window', st.g['cont'] == 1,
                "between releasing the user's lock and blocking the internal mutex is not held throughout: a notification can be missed")
        self.ob(st, 'lock', 'right-internal-mutex', m.obj == self.c.obj and (self.moff is None or m.off == self.moff), 'waits with a different internal mutex')

    def notified(self, st, c, n):
        self.key(c)
        self.ob(st, 'lock', 'right-condition', c.obj == self.c.obj and c.off == self.coff, 'notifies a different OS condition')
        self.ob(st, 'lock', 'notifies-after-internal-lock', st.g['acq'] == 1, 'notifies without having acquired the internal mutex: the notification can be missed')
        st.g['notified'] = max(st.g['notified'], 2 if n == 'all' else 1)

    def exit(self, st):
        self.ob(st, 'lock', 'internal-mutex-released', not self.internal(st), 'the internal mutex is still held on exit')
        self.ob(st, 'lock', 'user-lock-held-at-exit', st.g['ul'] == 1 or st.g['ulfail'] == 1, "the user's lock is not held on exit")

    def on_return(self, st, v):
        self.exit(st)
        super().on_return(st, v)

    def on_throw(self, st, exc):
        self.exit(st)
        super().on_throw(st, exc)


class CVANotify(CVA):
    def setup(self, st):
        (st, args), = super().setup(st)
        return [(st, args[:1])]

    def on_return(self, st, v):
        self.exit(st)
        self.ob(st, 'lock', 'notifies', st.g['notified'] >= (2 if self.op == 'notify_all' else 1), '%s() does not notify the OS condition' % self.op)
        self.ob(st, 'pred', 'errors-thrown', st.g['oserrs'] == 0, 'returns normally although an OS call failed')


class CVAWhere(Where):
    intercepts = ((r'^user_lock::', 'c_any'),)

    def before_wait(self, st, c, m, t):
        self.found.add((c.obj == self.c.obj, c.off, m.obj == self.c.obj, m.off))


def cva(ctx, part, eintr=False):
    asp = ('lock', 'pred', 'time', 'notify', 'report')
    w = CVAWhere()
    ctx.verify('cva_wait', w, w.setup, intw=(64,), label='cva_wait (layout)', must_return=False)
    if len(w.found) != 1 or not (list(w.found)[0][0] and list(w.found)[0][2]):
        ctx.fail('cva_wait', 'waits', 'wait() does not wait on one internal OS condition with one internal mutex')
        return
    _, coff, _, moff = list(w.found)[0]
    if part == 'basic':
        initialised(ctx, 'cva_ctor', coff, 48, 'cinit', asp)
        initialised(ctx, 'cva_ctor', moff, 40, 'minit', asp)
        for op in ('notify_one', 'notify_all'):
            sp = CVANotify(op=op, coff=coff, moff=moff, aspects=asp, eintr=eintr)
            ctx.verify('cva_' + op, sp, sp.setup, intw=(64,), must_throw=True)
    for fn, dl, pr in OPS:
        if fn == part or (part == 'basic' and dl is None):
            sp = CVA(deadline=dl, pred=pr, coff=coff, moff=moff, aspects=asp, eintr=eintr)
            ctx.verify('cva_' + fn, sp, sp.setup, intw=(64,), must_throw=True)

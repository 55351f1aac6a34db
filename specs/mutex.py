"""Contracts of mutex and timed_mutex (C09, C06)."""
import z3
from engine.spec import Spec
from engine.sym import Ptr, Exc
from engine.arith import isc, Unsupported
from .common import tristate
from .posix import Posix, code_is

TIMED = [('lock_for', 'timed', 'dur'), ('timed_lock_d', 'timed', 'dur'), ('lock_until_sys', 'timed', 'sys'), ('timed_lock_tp', 'timed', 'sys'),
         ('lock_until_ts', 'timed', 'ts'), ('lock_until_steady', 'timed', 'steady'),
         ('lock_until_bsteady', 'timed', 'steady'), ('timed_lock_bsteady', 'timed', 'steady')]
OPS = [('lock', 'lock', None), ('try_lock', 'try', None), ('unlock', 'unlock', None), ('dtor', 'dtor', None)]


class Ctor(Posix):
    """construction: the OS mutex is initialised statically or by a successful pthread_mutex_init"""
    def setup(self, st):
        self.p = st.new_obj('mutex', 256)
        self.time_init(st)
        st.g.update(oserr=None, oserrs=0)
        self.rets = []
        return [(st, [self.p])]

    def on_return(self, st, v):
        self.ob(st, 'report', 'error-reported', st.g['oserrs'] == 0, 'the constructor returns normally although initialisation failed')
        self.rets.append((st, {k: c for k, c in st.mem[self.p.obj].cells.items()}))

    def on_throw(self, st, exc):
        self.ob(st, 'report', 'error-code', st.g['oserrs'] > 0 and code_is(self.eng, st, exc, st.g['oserr']), 'exception without an OS error or with another code')
        self.ob(st, 'report', 'error-type', exc.type == 'boost::sync::resource_error', 'exception of type %s' % exc.type)
        left = [k for k, v in st.g.items() if isinstance(k, tuple) and k[0] in ('minit', 'cinit') and v and not st.g.get(({'minit': 'mdead', 'cinit': 'cdead'}[k[0]],) + k[1:])]
        self.ob(st, 'report', 'nothing-left-behind', not left, 'a constructor that throws leaves an initialised OS object behind')


class Mutex(Posix):
    op = None
    deadline = None
    moff = None

    def setup(self, st):
        self.p = st.new_obj('mutex', 256)
        self.time_init(st)
        st.g.update(oserr=None, oserrs=0, busy=0, acq=0, rel=0)
        st.g[('m', self.p.obj, self.moff)] = 1 if self.op == 'unlock' else 0
        args = [self.p]
        if self.deadline:
            args.append(self.deadline_arg(st, self.deadline))
        return [(st, args)]

    mutex_blocks = True

    def key(self, p):
        k = super().key(p)
        if k[0] != self.p.obj:
            raise Unsupported('OS mutex outside the object')
        if self.moff is None:
            self.moff = k[1]
        elif self.moff != k[1]:
            self.eng.top_fail('right-mutex', 'operates on a different OS mutex') if hasattr(self.eng, 'top_fail') else None
            raise Unsupported('several OS mutexes in one object')
        return k

    def no_deadlock(self, st, p):
        self.ob(st, 'report', 'not-already-locked', self.held(st, p) == 0, 'locks the OS mutex twice')

    def acquired(self, st, p, how):
        st.g['acq'] += 1

    def released(self, st, p, how):
        st.g['rel'] += 1

    def ob(self, st, aspect, name, cond, detail=None):
        super().ob(st, 'report' if aspect == 'lock' else aspect, name, cond, detail)

    def held_now(self, st):
        return 1 if any(v == 1 for k, v in st.g.items() if isinstance(k, tuple) and k[0] == 'm') else 0

    def on_return(self, st, v):
        g, h = st.g, self.held_now(st)
        if self.op == 'lock':
            self.ob(st, 'report', 'locked-on-return', h == 1 and g['acq'] == 1, 'lock() returns normally although the OS mutex was not locked by this call')
        elif self.op == 'unlock':
            self.ob(st, 'report', 'unlocked-once', h == 0 and g['rel'] == 1 and g['acq'] == 0, 'unlock() does not release the OS mutex exactly once')
        elif self.op == 'dtor':
            self.ob(st, 'report', 'destroyed', any(v == 1 for k, v in g.items() if isinstance(k, tuple) and k[0] == 'mdead') and g['acq'] == g['rel'], 'the OS mutex is not destroyed')
        else:
            r = tristate(v, self.eng)
            self.ob(st, 'report', 'result-is-ownership', r == z3.BoolVal(h == 1), 'success is reported without the lock, or the lock is kept although failure is reported')
            self.ob(st, 'report', 'errors-thrown', z3.Or(r, z3.BoolVal(g['oserrs'] == 0)), 'an OS error is reported as plain failure')
            if h == 0:
                self.ob(st, 'report time', 'fails-only-busy', z3.Or(r, z3.BoolVal(bool(g['busy']))), 'reports failure although the mutex was never seen busy')
            self.finish_time(st, r)

    def on_throw(self, st, exc):
        g = st.g
        if self.op in ('unlock', 'dtor') or not g['oserrs']:
            st.fail('no-exception', 'exception %r although no OS call failed' % exc)
            return
        self.ob(st, 'report', 'not-locked-on-error', self.held_now(st) == 0, 'an exception leaves the mutex locked')
        self.ob(st, 'report', 'error-type', exc.type == 'boost::sync::lock_error', 'exception of type %s' % exc.type)
        self.ob(st, 'report', 'error-code', code_is(self.eng, st, exc, g['oserr']), 'the exception does not carry the OS error code')


def mutex_at(ctx, pre, aspects):
    """constructs the object, checks that an OS mutex is properly initialised; returns its offset"""
    sp = Ctor(aspects=aspects)
    ctx.verify(pre + 'ctor', sp, sp.setup, intw=(64,))
    m = Mutex(op='lock', aspects=aspects)
    ctx.verify(pre + 'lock', m, m.setup, intw=(64,), must_return=False)
    if m.moff is None:
        ctx.fail(pre + 'lock', 'locked-on-return', 'lock() does not lock an OS mutex')
        return None
    off = m.moff
    ref = None
    for st, cells in sp.rets:
        if st.g.get(('minit', sp.p.obj, off)):
            continue
        # static initialisation: all 40 bytes as PTHREAD_MUTEX_INITIALIZER (all zero on this platform)
        cov = 0
        good = True
        for o, (s, v) in sorted(cells.items()):
            if off <= o < off + 40:
                cov += s
                good = good and isc(v) and v == 0
        good = good and cov == 40
        (ctx.passed if good else lambda a, b: ctx.fail(a, b, 'the OS mutex is neither statically nor dynamically initialised'))(pre + 'ctor', 'initialised')
    return off


def mutexes(ctx, aspects, part, eintr=False):
    for pre, ops in (('mx_', OPS), ('tm_', OPS + TIMED)):
        todo = [o for o in ops if (part == 'basic' and o[2] is None) or part == o[0]]
        if not todo:
            continue
        off = mutex_at(ctx, pre, aspects)
        if off is None:
            return
        for fn, op, dl in todo:
            sp = Mutex(op=op, deadline=dl, aspects=aspects, moff=off, eintr=eintr)
            ctx.verify(pre + fn, sp, sp.setup, intw=(64,), must_throw=op not in ('unlock', 'dtor'))

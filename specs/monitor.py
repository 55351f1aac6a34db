"""Contracts of the emulated back ends: auto_reset_event, manual_reset_event and semaphore as monitors over mutex and condition_variable
(C03-C07).  The state of the object is the cell that the sequential signal operation changes; it belongs to the object's mutex: another
thread may have changed it whenever the mutex is acquired, and it is read and written only while the mutex is held."""
import z3
from engine.spec import Spec
from engine.sym import Ptr, Exc
from engine.arith import isc, Unsupported, fresh_name
from .common import tristate
from .posix import Posix, code_is
from .sem import OPS as SEMOPS

TIMED = [o for o in SEMOPS if o[1] == 'timed']
F, T = z3.BoolVal(False), z3.BoolVal(True)


class Record(Posix):
    """sequential run: which OS objects are used, what the state becomes"""
    mutex_fails = cond_fails = init_fails = False
    cells = None
    n = None

    def setup(self, st):
        self.p = st.new_obj('monitor', 512)
        self.time_init(st)
        st.g.update(oserr=None, oserrs=0)
        if self.cells:
            st.mem[self.p.obj].cells.update(self.cells)
        self.mutexes, self.conds, self.fin = set(), set(), []
        return [(st, [self.p] + ([self.n] if self.n is not None else []))]

    def acquired(self, st, p, how):
        self.mutexes.add(self.key(p))

    def notified(self, st, c, n):
        self.conds.add(self.key(c))

    def on_return(self, st, v):
        self.fin.append(dict(st.mem[self.p.obj].cells))


class Monitor(Posix):
    op = None
    deadline = None
    kind = None            # 'ar' | 'mr' | 'sem' | 'lock' (a lock is a signal that is stored while it is free)

    def setup(self, st):
        self.p = st.new_obj('monitor', 512)
        self.time_init(st)
        st.g.update(oserr=None, oserrs=0, took=z3.IntVal(0), stored=z3.IntVal(0), need=F, note=0, seen0=F, seen1=F, last1=F, full=F, cs=0)
        self.havoc(st)
        args = [self.p]
        if self.deadline:
            args.append(self.deadline_arg(st, self.deadline))
        return [(st, args)]

    # ---- state
    def pos(self, v):
        """a signal is stored"""
        v = self.eng.A.z(8 * self.size, v)
        return v != 0 if self.kind == 'sem' else v == self.s1

    def delta(self, old, new):
        """one signal fewer, one signal more, unchanged"""
        w = 8 * self.size
        old, new = self.eng.A.z(w, old), self.eng.A.z(w, new)
        if self.kind == 'sem':
            return z3.And(new == old - 1, old != 0), z3.And(new == old + 1, new != 0), new == old
        return z3.And(old == self.s1, new == self.s0), z3.And(old == self.s0, new == self.s1), new == old

    def havoc(self, st):
        v = z3.BitVec(fresh_name('state'), 8 * self.size)
        if self.kind != 'sem':
            st.assume(z3.Or(v == self.s0, v == self.s1))
        st.wr(self.p, self.size, v, off=self.soff)
        st.g['old'] = v
        st.g['note'] = 0

    def cur(self, st):
        c = st.mem[self.p.obj].cells.get(self.soff)
        if c is None or c[0] != self.size:
            raise Unsupported('the state of the object changes its layout')
        return c[1]

    def mine(self, p):
        return isinstance(p, Ptr) and p.obj == self.p.obj and isc(p.off) and self.soff <= p.off < self.soff + self.size

    def guard(self, st, p, what):
        if self.mine(p):
            self.ob(st, 'count wake time', 'state-under-lock', st.g.get(('m', self.p.obj, self.moff), 0) == 1, 'the state is %s without holding the mutex' % what)

    def on_plain_load(self, st, p, ins, v):
        self.guard(st, p, 'read')

    def on_plain_store(self, st, p, ins, v):
        self.guard(st, p, 'written')

    # ---- critical sections
    def right_mutex(self, st, p):
        self.ob(st, 'count wake time', 'right-mutex', isinstance(p, Ptr) and p.obj == self.p.obj and p.off == self.moff, 'uses a different mutex')

    def acquired(self, st, p, how):
        self.right_mutex(st, p)
        self.havoc(st)
        st.g['cs'] = 1
        if self.kind == 'lock' and self.op == 'signal':
            st.assume(st.g['old'] == self.s0)       # the caller owns the lock
        c = self.pos(st.g['old'])
        # a failure must be justified by the state seen after the last blocking step
        st.g['seen0'] = z3.simplify(z3.Not(c) if how == 'wait' else z3.Or(st.g['seen0'], z3.Not(c)))
        st.g['seen1'] = z3.simplify(z3.Or(st.g['seen1'], c))

    def released(self, st, p, how):
        g = st.g
        old, new = g['old'], self.cur(st)
        if self.kind != 'sem':
            v = self.eng.A.z(8 * self.size, new)
            self.ob(st, 'count', 'valid-state', z3.Or(v == self.s0, v == self.s1), 'stores a state that is neither signalled nor unsignalled')
        less, more, same = self.delta(old, new)
        one, zero = z3.IntVal(1), z3.IntVal(0)
        if self.op == 'signal':
            self.ob(st, 'count', 'signal-kept', z3.Or(more, same), 'post() changes the count by other than one unit' if self.kind == 'sem' else 'a signal is lost')
            g['stored'] = z3.simplify(g['stored'] + z3.If(more, one, zero))
            want = g['note'] == 'all' if self.kind == 'mr' else g['note'] != 0
            g['need'] = z3.simplify(z3.Or(g['need'], z3.And(more, z3.BoolVal(not want))))
        elif self.op == 'reset':
            self.ob(st, 'count', 'only-resets', z3.Or(less, same), 'reset() stores a signal')
        elif self.kind == 'mr':
            self.ob(st, 'count', 'signal-not-consumed', same, 'a wait changes the state of a manual reset event')
        else:
            self.ob(st, 'count', 'takes-one', z3.Or(less, same), 'a wait changes the count by other than one unit')
            if st.feasible(less):
                g['took'] = z3.simplify(g['took'] + z3.If(less, one, zero)) if st.feasible(z3.Not(less)) else z3.simplify(g['took'] + 1)
        g['last1'] = z3.simplify(self.pos(new))
        if how == 'wait':
            self.ob(st, 'count', 'nothing-taken-before-blocking', g['took'] == 0, 'blocks although a unit was taken')

    def before_wait(self, st, c, m, t):
        self.ob(st, 'count wake time', 'right-condition', c.obj == self.p.obj and c.off == self.coff, 'waits on a different condition')
        self.right_mutex(st, m)
        self.ob(st, 'wake count', 'sleeps-only-unsignalled', z3.Not(self.pos(self.cur(st))), 'goes to sleep although a signal is stored')

    def notified(self, st, c, n):
        self.key(c)
        self.ob(st, 'wake count', 'right-condition', c.obj == self.p.obj and c.off == self.coff, 'notifies a different condition')
        if st.g.get(('m', self.p.obj, self.moff), 0) == 1:
            if st.g['note'] != 'all':
                st.g['note'] = n
        if n == 'all' or self.kind != 'mr':
            st.g['need'] = F

    # ---- results
    def unlocked(self, st):
        self.ob(st, 'count wake time', 'mutex-released', st.g.get(('m', self.p.obj, self.moff), 0) == 0, 'the mutex is left locked')

    def on_return(self, st, v):
        g = st.g
        self.unlocked(st)
        self.ob(st, 'count', 'errors-thrown', g['oserrs'] == 0, 'returns normally although an OS call failed')
        if self.op == 'signal':
            if self.kind == 'sem':
                self.ob(st, 'count', 'post-adds-one', g['stored'] == 1, 'post() returns normally without having added exactly one unit')
            elif self.kind == 'lock':
                self.ob(st, 'count', 'unlocked-once', g['stored'] == 1, 'unlock() does not release the lock exactly once')
            elif self.kind == 'ar':
                self.ob(st, 'count', 'signal-stored', z3.Or(g['stored'] == 1, z3.And(g['stored'] == 0, g['seen1'])), 'post() neither stores a signal nor found the event signalled')
            else:
                self.ob(st, 'count', 'signal-stored', z3.And(z3.BoolVal(g['cs'] == 1), g['last1']), 'set() returns without the event being signalled')
            self.ob(st, 'wake count', 'waiters-woken', z3.Not(g['need']), 'a signal is stored but the waiters are not woken')
            return
        if self.op == 'reset':
            self.ob(st, 'count', 'reset-done', z3.And(z3.BoolVal(g['cs'] == 1), z3.Not(g['last1'])), 'reset() returns without having reset the event')
            return
        r = T if self.op == 'wait' else tristate(v, self.eng)
        if self.kind == 'mr':
            self.ob(st, 'count', 'success-only-if-signalled', z3.Implies(r, g['seen1']), 'success is reported although the event was never seen signalled')
        else:
            self.ob(st, 'count', 'result-is-unit', r == (g['took'] == 1), 'success is reported without a signal, or a signal is consumed although failure is reported')
            self.ob(st, 'count', 'at-most-one', z3.And(g['took'] >= 0, g['took'] <= 1), 'more than one signal is consumed')
        self.ob(st, 'count time', 'fails-only-unsignalled', z3.Or(r, g['seen0']), 'failure is reported although the object was never seen without a signal')
        self.finish_time(st, r)

    def on_throw(self, st, exc):
        g = st.g
        self.unlocked(st)
        self.ob(st, 'count', 'nothing-consumed', z3.And(g['took'] == 0, g['stored'] == 0), 'a failing operation changes the state')
        if g['oserrs']:
            self.ob(st, 'count', 'error-code', code_is(self.eng, st, exc, g['oserr']), 'the exception does not carry the OS error code')
        elif self.kind == 'sem' and self.op == 'signal':
            self.ob(st, 'count', 'overflow-only-at-maximum', z3.And(z3.BoolVal(exc.type == 'boost::sync::overflow_error'), g['old'] == (1 << 8 * self.size) - 1),
                    'exception %r although the count is not at its maximum' % exc)
        else:
            self.ob(st, 'count', 'no-exception', False, 'exception %r although no OS call failed' % exc)

    def word_facts(self, st):
        if self.kind == 'sem':
            return []
        return [(None, 8 * self.size, lambda v: z3.Or(v == self.s0, v == self.s1))]

    def loop_invariants(self, st, base, wide):
        out = []
        w = 8 * self.size
        def same(eng, s, cells):
            c = cells.get(('mem', self.p.obj, self.soff))
            if c is None or c[0] != w or 'old' not in s.g:
                return None
            return eng.A.z(w, c[1]) == s.g['old']
        out.append(same)
        def valid(eng, s, cells):
            return z3.Or(s.g['old'] == self.s0, s.g['old'] == self.s1) if self.kind != 'sem' else None
        out.append(valid)
        for loc in wide:
            if loc[0] == 'g':
                continue
            def eq(eng, s, cells, loc=loc):
                if loc not in cells or cells[loc][0] != w:
                    return None
                v = cells[loc][1]
                return eng.A.z(w, v) == s.g['old'] if isc(v) or (z3.is_expr(v) and z3.is_bv(v)) else None
            out.append(eq)
        def flag(k, neg):
            return lambda eng, s, cells: (z3.Not(s.g[k]) if neg else s.g[k])
        out += [flag(k, n) for k in ('seen0', 'seen1', 'need') for n in (False, True)]
        def imp(eng, s, cells):
            return z3.Implies(z3.Not(self.pos(s.g['old'])), s.g['seen0'])
        def imp1(eng, s, cells):
            return z3.Implies(self.pos(s.g['old']), s.g['seen1'])
        out += [imp, imp1]
        return out + list(super().loop_invariants(st, base, wide))


def same_cell(a, b):
    return b is not None and a[0] == b[0] and (a[1] == b[1] if isc(a[1]) and isc(b[1]) else a[1] is b[1] or (z3.is_expr(a[1]) and z3.is_expr(b[1]) and a[1].eq(b[1])))


def layout(ctx, kind, pre, signal):
    """which cell, mutex and condition make up the object, from a sequential construction and signal"""
    rc = Record()
    n0 = 0
    ctx.verify(pre + ('ctor0' if kind == 'sem' else 'ctor'), rc, rc.setup, intw=(64,), label=pre + 'ctor (sequential)')
    if len(rc.fin) != 1:
        raise Unsupported('constructor')
    c0 = rc.fin[0]
    rs = Record(cells=c0)
    ctx.verify(signal, rs, rs.setup, intw=(64,), label=signal + ' (sequential)')
    if len(rs.fin) != 1:
        raise Unsupported('sequential signal')
    c1 = rs.fin[0]
    ch = [k for k in c1 if not same_cell(c1[k], c0.get(k))]
    if len(ch) != 1 or len(rs.mutexes) != 1 or len(rs.conds) != 1:
        ctx.fail(signal, 'signal-stored', 'the first %s on a new object changes %d cells, uses %d mutexes and notifies %d conditions' % (signal, len(ch), len(rs.mutexes), len(rs.conds)))
        return None
    off = ch[0]
    if off not in c0 or c0[off][0] != c1[off][0] or not isc(c0[off][1]) or not isc(c1[off][1]):
        raise Unsupported('state cell')
    d = dict(kind=kind, soff=off, size=c0[off][0], s0=c0[off][1], s1=c1[off][1], moff=list(rs.mutexes)[0][1], coff=list(rs.conds)[0][1])
    if kind == 'sem':
        if (d['s0'], d['s1']) != (0, 1):
            ctx.fail(signal, 'initial-count', 'a new semaphore counts from %d to %d' % (d['s0'], d['s1']))
            return None
        n = z3.BitVec('n', 32)
        rn = Record(n=n)
        ctx.verify(pre + 'ctor', rn, rn.setup, intw=(64,), label=pre + 'ctor')
        good = bool(rn.fin) and all(c.get(off, (0, None))[0] == d['size'] and z3.is_expr(c[off][1]) and z3.simplify(c[off][1] == n).eq(T) for c in rn.fin)
        (ctx.passed if good else lambda a, b: ctx.fail(a, b, 'the semaphore is created with a different count'))(pre + 'ctor', 'initial-count')
    return d


def lock_layout(ctx):
    rc = Record()
    ctx.verify('tm_ctor', rc, rc.setup, intw=(64,), label='tm_ctor (sequential)')
    c0 = rc.fin[0]
    rl = Record(cells=c0)
    ctx.verify('tm_lock', rl, rl.setup, intw=(64,), label='tm_lock (sequential)')
    ch = [k for k in rl.fin[0] if not same_cell(rl.fin[0][k], c0.get(k))] if len(rl.fin) == 1 else []
    if len(ch) != 1 or len(rl.mutexes) != 1:
        ctx.fail('tm_lock', 'locked-on-return', 'the first lock() of a new timed_mutex changes %d cells and uses %d mutexes' % (len(ch), len(rl.mutexes)))
        return None
    off, c1 = ch[0], rl.fin[0]
    if off not in c0 or c0[off][0] != c1[off][0] or not isc(c0[off][1]) or not isc(c1[off][1]):
        raise Unsupported('state cell')
    ru = Record(cells=c1)
    ctx.verify('tm_unlock', ru, ru.setup, intw=(64,), label='tm_unlock (sequential)')
    if len(ru.conds) != 1:
        ctx.fail('tm_unlock', 'waiters-woken', 'unlock() notifies %d conditions' % len(ru.conds))
        return None
    return dict(kind='lock', soff=off, size=c0[off][0], s0=c1[off][1], s1=c0[off][1], moff=list(rl.mutexes)[0][1], coff=list(ru.conds)[0][1])


def constructor(ctx, pre, d):
    """the OS objects of the class are initialised, or the constructor throws and leaves nothing behind"""
    from .cond import initialised
    fn = pre + ('ctor0' if pre == 'sem_' else 'ctor')
    initialised(ctx, fn, d['moff'], 40, 'minit', ('report',))
    initialised(ctx, fn, d['coff'], 48, 'cinit', ('report',))


def timed_mutex(ctx, aspects, part):
    """timed_mutex on platforms without pthread_mutex_timedlock: a monitor"""
    from .mutex import TIMED as MT
    d = lock_layout(ctx)
    if d is None:
        return
    if part == 'basic':
        constructor(ctx, 'tm_', d)
    todo = [('unlock', 'signal', None), ('lock', 'wait', None), ('try_lock', 'try', None)] if part == 'basic' else [o for o in MT if o[0] == part]
    for fn, o, dl in todo:
        sp = Monitor(op=o, deadline=dl, aspects=aspects, mutex_fails=False, cond_fails=o == 'timed', **d)
        ctx.verify('tm_' + fn, sp, sp.setup, intw=(64,))
    ctx.assume('timed_mutex without pthread_mutex_timedlock: locking and unlocking its internal mutex, and waiting without a deadline, report no OS error (the code asserts that)')


def run(ctx, kind, aspects, part):
    pre, signal = {'ar': ('ar_', 'ar_post'), 'mr': ('mr_', 'mr_set'), 'sem': ('sem_', 'sem_op_post')}[kind]
    d = layout(ctx, kind, pre, signal)
    if d is None:
        return
    if part == 'basic' and 'count' in aspects:
        constructor(ctx, pre, d)
    op = pre if kind != 'sem' else 'sem_op_'
    if part == 'basic':
        todo = [(signal, 'signal', None), (op + 'wait', 'wait', None), (op + 'try_wait', 'try', None)] + ([('mr_reset', 'reset', None)] if kind == 'mr' else [])
    else:
        todo = [(op + f, o, dl) for f, o, dl in TIMED if f == part]
    for fn, o, dl in todo:
        sp = Monitor(op=o, deadline=dl, aspects=aspects, **d)
        ctx.verify(fn, sp, sp.setup, intw=(64,))
    ctx.assume('emulated back ends: the mutex and condition_variable of the object behave as POSIX specifies (their wrappers are executed in place); an OS error from a wait does not swallow a notification')

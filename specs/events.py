"""Contracts of auto_reset_event (C03, C04, C06) and manual_reset_event (C05, C06), futex back ends.

Rely/guarantee over the state word.  The word is read through an abstraction (signals, waiters) whose units are discovered from
the sequential behaviour of the real code (what post()/set() adds, what wait() has added when it goes to sleep)."""
import z3
from engine.spec import Spec, ACQ, REL
from engine.sym import Ptr, UNDEF
from engine.arith import isc, Unsupported, mask, fresh_name
from .common import Futex, tristate, ETIMEDOUT
from .spin import construct, Seq


class SeqF(Seq):
    """sequential run that stops where the code would sleep"""
    intercepts = ((r'^syscall$', 'c_sys'),)

    def c_sys(self, st, a, ins):
        if isc(a[2]) and (a[2] & 127) == 0:
            self.sleep.append({k: c for k, c in st.mem[self.p.obj].cells.items()})
            return [(st, 'stop', None)]
        return [(st, 'ret', 0)]


def seq(ctx, fname, words):
    sp = SeqF()
    sp.sleep = []
    ctx.verify(fname, sp, lambda st: sp.setup(st, words), label=fname + ' (sequential)', must_return=False, unroll=4)
    return sp.fin, sp.sleep


class Word:
    """two fields in one word"""
    def __init__(self, off, w, sig_unit, wait_unit):
        self.off, self.w = off, w
        self.su, self.wu = sig_unit, wait_unit
        lo, hi = min(sig_unit, wait_unit), max(sig_unit, wait_unit)
        self.lo, self.hi = lo, hi
        self.lsh, self.hsh = lo.bit_length() - 1, hi.bit_length() - 1
        self.lmax = (hi // lo) - 1
        self.hmax = (1 << (w - self.hsh)) - 1
        self.smax, self.wmax = (self.lmax, self.hmax) if sig_unit == lo else (self.hmax, self.lmax)

    def _lo(self, v):
        return z3.LShR(v & (self.hi - 1), self.lsh)

    def _hi(self, v):
        return z3.LShR(v, self.hsh)

    def sig(self, v):
        return self._lo(v) if self.su == self.lo else self._hi(v)

    def wait(self, v):
        return self._hi(v) if self.su == self.lo else self._lo(v)

    def fits(self, v):
        return v & (self.lo - 1) == 0


def discover(ctx, pre, signal):
    """word layout from constructor, a sequential signal and a sequential wait"""
    words = construct(ctx, pre + 'ctor')
    fin, _ = seq(ctx, pre + signal, words)
    if len(fin) != 1:
        ctx.fail(pre + signal, 'sequential-progress', '%s() on a fresh event does not simply return' % signal)
        return None
    w1 = fin[0][1]
    ch = [k for k in words if w1.get(k) != words[k]]
    if len(ch) != 1:
        ctx.fail(pre + signal, 'signal-stored', '%s() on a fresh event changes %d words' % (signal, len(ch)))
        return None
    off = ch[0]
    size, U = words[off]
    w = 8 * size
    su = (w1[off][1] - U) & mask(w)
    _, sl = seq(ctx, pre + 'wait', words)
    if len(sl) != 1 or not isc(sl[0][off][1]):
        ctx.fail(pre + 'wait', 'waits-when-unsignalled', 'wait() on a fresh event does not block (%d blocking points)' % len(sl))
        return None
    wu = (sl[0][off][1] - U) & mask(w)
    if U != 0:
        raise Unsupported('event word starts at %d' % U)
    if wu == 0:
        ctx.fail(pre + 'wait', 'registered-before-sleep', 'wait() goes to sleep without having registered as a waiter')
        return None
    if su & (su - 1) or wu & (wu - 1) or su == wu:
        raise Unsupported('event word units %x %x' % (su, wu))
    # a wait on a signalled event returns at once
    f2, s2 = seq(ctx, pre + 'wait', w1)
    ok = len(f2) == 1 and not s2
    (ctx.passed if ok else lambda a, b: ctx.fail(a, b, 'wait() on a signalled event blocks'))(pre + 'wait', 'no-block-when-signalled')
    return Word(off, w, su, wu), words, w1


class Event(Futex):
    op = None          # 'wait' | 'try' | 'timed' | signal op names
    deadline = None    # None | 'dur' | 'sys' | 'ts' | 'steady'

    def setup(self, st):
        p = st.new_obj('event', 256, shared=True)
        self.p, self.wordoff = p, self.a.off
        self.time_init(st)
        self.init_ghost(st)
        args = [p]
        if self.deadline is not None:
            args.append(self.deadline_arg(st, self.deadline))
        return [(st, args)]

    def loop_invariants(self, st, base, wide):
        """candidates over locals that hold word values or fields of them"""
        a = self.a
        locs = [l for l in wide if l[0] != 'g']
        def val(eng, cells, l):
            if l not in cells or cells[l][0] != a.w:
                return None
            v = cells[l][1]
            if isc(v) or (z3.is_expr(v) and z3.is_bv(v)):
                return eng.A.z(a.w, v)
            return None
        out = []
        one = [lambda v: a.sig(v) == 0, lambda v: a.sig(v) != 0, lambda v: a.wait(v) != 0, lambda v: a.fits(v), lambda v: v == 0, lambda v: v != 0,
               lambda v: z3.ULE(a.sig(v), a.wait(v) + 1), lambda v: z3.ULE(a.sig(v), a.wait(v)), lambda v: z3.ULT(a.wait(v), a.wmax - 1), lambda v: z3.ULE(a.wait(v), a.wmax - 1)]
        for l in locs:
            for f in one:
                def inv(eng, s, cells, l=l, f=f):
                    v = val(eng, cells, l)
                    return None if v is None else f(v)
                out.append(inv)
        allc = [l for l in self.eng.cells(st) if l[0] != 'g'] if len(locs) < 12 else locs
        for l in locs:
            for m in allc:
                if l == m:
                    continue
                for f in (a.sig, a.wait, lambda v: v, lambda v: v + a.wu, lambda v: v + a.su, lambda v: v - a.su - a.wu):
                    def inv(eng, s, cells, l=l, m=m, f=f):
                        x, y = val(eng, cells, l), val(eng, cells, m)
                        return None if x is None or y is None else x == f(y)
                    out.append(inv)
        return out + list(super().loop_invariants(st, base, wide))

    def result(self, st, v):
        if self.op == 'wait':
            return z3.BoolVal(True)
        return tristate(v, self.eng)


class AR(Event):
    def init_ghost(self, st):
        st.g.update(reg=0, took=0, posted=0, debt=0, sawzero=z3.BoolVal(False), sawfull=z3.BoolVal(False))

    def env(self, st, o, p, w):
        a = self.a
        if p.off != a.off or w != a.w:
            raise Unsupported('access to an unknown word of the event')
        v = self.eng.A.fresh(st, w, 'state')
        S, W = a.sig(v), a.wait(v)
        st.assume(z3.And(a.fits(v), z3.ULE(S, W + 1), z3.ULT(W, a.wmax - 1), z3.UGE(W, st.g['reg'])))
        return v

    def word_facts(self, st):
        a = self.a
        return [('sawzero', a.w, lambda v: a.sig(v) == 0), ('sawfull', a.w, lambda v: z3.UGT(a.sig(v), a.wait(v)))]

    def note(self, st, v):
        a = self.a
        v = self.eng.A.z(a.w, v)
        st.g['sawzero'] = z3.simplify(z3.Or(st.g['sawzero'], a.sig(v) == 0))
        st.g['sawfull'] = z3.simplify(z3.Or(st.g['sawfull'], z3.UGT(a.sig(v), a.wait(v))))

    def observe(self, st, o, p, w, v, order):
        self.note(st, v)

    def trans(self, st, o, p, w, old, new, order, kind):
        a, A, g = self.a, self.eng.A, st.g
        old, new = A.z(w, old), A.z(w, new)
        so, wo, sn, wn = a.sig(old), a.wait(old), a.sig(new), a.wait(new)
        cases = [('none', new == old)]
        if self.op == 'post':
            if not g['posted']:
                cases.append(('store', z3.And(wn == wo, sn == so + 1, z3.ULT(so, a.smax), z3.ULE(so, wo))))
        elif not g['took']:
            if not g['reg']:
                cases.append(('take', z3.And(wn == wo, z3.UGE(so, 1), sn == so - 1)))
                cases.append(('register', z3.And(sn == so, wn == wo + 1)))
            else:
                cases.append(('take-registered', z3.And(z3.UGE(so, 1), z3.UGE(wo, 1), sn == so - 1, wn == wo - 1)))
                cases.append(('unregister', z3.And(z3.UGE(wo, 1), sn == so, wn == wo - 1)))
        elif g['reg']:
            cases.append(('unregister', z3.And(z3.UGE(wo, 1), sn == so, wn == wo - 1)))
        self.ob(st, 'count wake time', 'event-transition', z3.And(a.fits(new), z3.Or([c for _, c in cases])),
                'the state word changes in a way that is not storing one signal / taking one / registering / unregistering one waiter')
        self.ob(st, 'count wake time', 'event-invariant', z3.ULE(sn, wn + 1), 'more signals stored than waiters plus one')
        outs = []
        for nm, c in cases:
            if not st.feasible(c):
                continue
            s = st.clone()
            s.assume(c)
            self.note(s, old)
            if nm != 'none':
                s.log('ghost', nm)
            if nm == 'store':
                s.g['posted'] = 1
                if self.on('count'):
                    self.need_rel(s, order, 'storing a signal')
                outs += self.owe(s, z3.UGE(wo, 1))
                continue
            if nm in ('take', 'take-registered'):
                s.g['took'] = 1
                if nm == 'take-registered':
                    s.g['reg'] = 0
                if self.on('count'):
                    self.need_acq(s, order, 'taking a signal')
            elif nm == 'register':
                s.g['reg'] = 1
            elif nm == 'unregister':
                s.g['reg'] = 0
                outs += self.owe(s, z3.And(z3.UGE(so, 1), z3.UGE(wn, 1)))
                continue
            outs.append(s)
        return outs

    def owe(self, st, c):
        """under condition c this step obliges the thread to wake one waiter"""
        outs = []
        if st.feasible(z3.Not(c)):
            s = st.clone()
            s.assume(z3.Not(c))
            outs.append(s)
        if st.feasible(c):
            s = st.clone()
            s.assume(c)
            s.g['debt'] = s.g['debt'] + 1
            outs.append(s)
        return outs

    def after_sleep(self, st, err):
        if err == ETIMEDOUT:
            st.g['sawzero'] = z3.BoolVal(False)        # a failure must be justified by the state after the last blocking step

    def on_wake(self, st, n):
        if not isc(n):
            raise Unsupported('wake count')
        if n & (1 << 31):
            n = 0
        st.g['debt'] = max(0, st.g['debt'] - n)

    def before_sleep(self, st, val):
        a = self.a
        self.ob(st, 'wake', 'registered-before-sleep', st.g['reg'] == 1, 'goes to sleep without being registered as a waiter')
        self.ob(st, 'wake', 'sleeps-only-unsignalled', a.sig(self.eng.A.z(a.w, val)) == 0, 'may go to sleep while a signal is stored')
        self.ob(st, 'wake', 'no-pending-wake', st.g['debt'] == 0, 'goes to sleep before waking the waiter it owes a wake-up')

    def on_return(self, st, v):
        g = st.g
        self.ob(st, 'wake', 'wakes-before-return', g['debt'] == 0, 'returns without waking a waiter although it stored (or leaves behind) a signal for one')
        if self.op == 'post':
            self.ob(st, 'count', 'signal-stored', z3.Or(z3.BoolVal(bool(g['posted'])), g['sawfull']), 'post() returns without storing a signal although the event was not signalled')
        else:
            r = self.result(st, v)
            self.ob(st, 'count', 'result-is-signal', r == z3.BoolVal(bool(g['took'])), 'success is reported without taking a signal, or failure after taking one')
            self.ob(st, 'count wake', 'unregistered-at-return', g['reg'] == 0, 'returns while still counted as a waiter')
            if not g['took']:
                self.ob(st, 'count time', 'fails-only-unsignalled', z3.Or(r, g['sawzero']), 'reports failure although no moment without a stored signal was observed')
            self.finish_time(st, r)
        if self.on('count'):
            self.orders_done(st)


class MR(Event):
    def init_ghost(self, st):
        F = z3.BoolVal(False)
        st.g.update(reg=0, debt=0, done=0, sawset=F, sawclear=F, acqset=F)

    def env(self, st, o, p, w):
        a = self.a
        if p.off != a.off or w != a.w:
            raise Unsupported('access to an unknown word of the event')
        v = self.eng.A.fresh(st, w, 'state')
        S, W = a.sig(v), a.wait(v)
        st.assume(z3.And(a.fits(v), z3.ULE(S, 1), z3.ULT(W, min(a.wmax - 1, 1 << 30)), z3.UGE(W, st.g['reg'])))
        return v

    def word_facts(self, st):
        a = self.a
        return [('sawset', a.w, lambda v: a.sig(v) == 1), ('sawclear', a.w, lambda v: a.sig(v) == 0)]

    def note(self, st, v, order):
        a, g = self.a, st.g
        v = self.eng.A.z(a.w, v)
        g['sawset'] = z3.simplify(z3.Or(g['sawset'], a.sig(v) == 1))
        g['sawclear'] = z3.simplify(z3.Or(g['sawclear'], a.sig(v) == 0))
        if order in ACQ:
            g['acqset'] = z3.simplify(z3.Or(g['acqset'], g['sawset']))

    def on_fence(self, st, order):
        super().on_fence(st, order)
        if order in ACQ:
            st.g['acqset'] = z3.simplify(z3.Or(st.g['acqset'], st.g['sawset']))

    def observe(self, st, o, p, w, v, order):
        self.note(st, v, order)

    def trans(self, st, o, p, w, old, new, order, kind):
        a, A, g = self.a, self.eng.A, st.g
        old, new = A.z(w, old), A.z(w, new)
        so, wo, sn, wn = a.sig(old), a.wait(old), a.sig(new), a.wait(new)
        cases = []
        if self.op == 'set':
            cases.append(('set', z3.And(wn == wo, sn == 1)))
        elif self.op == 'reset':
            cases.append(('reset', z3.And(wn == wo, sn == 0)))
        else:
            cases.append(('none', new == old))
            if not g['reg']:
                cases.append(('register', z3.And(sn == so, wn == wo + 1)))
            else:
                cases.append(('unregister', z3.And(z3.UGE(wo, 1), sn == so, wn == wo - 1)))
        self.ob(st, 'count time', 'event-transition', z3.And(a.fits(new), z3.Or([c for _, c in cases])),
                'the state word changes in a way that is not %s' % {'set': 'signalling the event', 'reset': 'resetting the event'}.get(self.op, 'registering / unregistering one waiter'))
        outs = []
        for nm, c in cases:
            if not st.feasible(c):
                continue
            s = st.clone()
            s.assume(c)
            self.note(s, old, order)
            if nm != 'none':
                s.log('ghost', nm)
            if nm == 'set':
                if self.on('count'):
                    self.need_rel(s, order, 'signalling the event')
                s.g['done'] = 1
                outs += self.owe(s, z3.And(so == 0, z3.UGE(wo, 1)))
                continue
            if nm == 'reset':
                s.g['done'] = 1
            elif nm == 'register':
                s.g['reg'] = 1
            elif nm == 'unregister':
                s.g['reg'] = 0
            outs.append(s)
        return outs

    owe = AR.owe

    def on_wake(self, st, n):
        if not isc(n):
            raise Unsupported('wake count')
        if (1 << 30) <= n < (1 << 31):
            st.g['debt'] = 0

    def before_sleep(self, st, val):
        a = self.a
        self.ob(st, 'count', 'registered-before-sleep', st.g['reg'] == 1, 'goes to sleep without being registered as a waiter')
        self.ob(st, 'count', 'sleeps-only-unsignalled', a.sig(self.eng.A.z(a.w, val)) == 0, 'may go to sleep while the event is signalled')

    def on_return(self, st, v):
        g = st.g
        if self.op == 'set':
            self.ob(st, 'count', 'set-signals', g['done'] == 1, 'set() returns without having signalled the event')
            self.ob(st, 'count', 'wakes-before-return', g['debt'] == 0, 'set() returns without waking all waiters')
        elif self.op == 'reset':
            self.ob(st, 'count', 'reset-clears', z3.Or(z3.BoolVal(bool(g['done'])), g['sawclear']), 'reset() returns without having cleared the event')
        else:
            r = self.result(st, v)
            self.ob(st, 'count', 'success-only-if-signalled', z3.Implies(r, g['sawset']), 'reports success although the event was not observed signalled')
            self.ob(st, 'count', 'acquire-order', z3.Implies(r, g['acqset']), 'success without an acquire operation at or after the one that observed the signal')
            self.ob(st, 'count time', 'fails-only-if-unsignalled', z3.Or(r, g['sawclear']), 'reports failure although the event was not observed unsignalled')
            self.ob(st, 'count', 'unregistered-at-return', g['reg'] == 0, 'returns while still counted as a waiter')
            self.finish_time(st, r)


TIMED = [('wait_for', 'dur'), ('timed_wait_d', 'dur'), ('wait_until_sys', 'sys'), ('timed_wait_tp', 'sys'), ('wait_until_ts', 'ts'), ('wait_until_steady', 'steady')]


def flags_agree(ctx, pre, flags):
    ok = flags.get('wait', set()) == flags.get('wake', set()) and len(flags.get('wait', ())) <= 1
    (ctx.passed if ok else lambda a, b: ctx.fail(a, b, 'futex wait and wake use different (private/shared) futexes: %r' % flags))(pre + 'futex', 'futex-kind-agrees')


AR_OPS = [('post', 'post', None), ('wait', 'wait', None), ('try_wait', 'try', None)] + [(f, 'timed', d) for f, d in TIMED]
MR_OPS = [('set', 'set', None), ('reset', 'reset', None), ('wait', 'wait', None), ('try_wait', 'try', None)] + [(f, 'timed', d) for f, d in TIMED]


def ar_futex(ctx, aspects, part):
    d = discover(ctx, 'ar_', 'post')
    if d is None:
        return
    a, words, w1 = d
    flags = {}
    for fn, op, dl in AR_OPS:
        if fn == part or (part == 'basic' and dl is None):
            sp = AR(a=a, op=op, deadline=dl, aspects=aspects, futex_flags=flags)
            ctx.verify('ar_' + fn, sp, sp.setup, intw=(64,))
    if part == 'basic' and 'wake' in aspects:
        flags_agree(ctx, 'ar_', flags)
        ar_lemma(ctx)
    if part == 'basic' and 'count' in aspects:
        # sequential: a second post on a signalled, idle event stores nothing
        f, _ = seq(ctx, 'ar_post', w1)
        ok = len(f) == 1 and f[0][1] == w1
        (ctx.passed if ok else lambda x, y: ctx.fail(x, y, 'post() on a signalled event nobody waits for stores a second signal'))('ar_post', 'at-most-one-when-idle')
    ctx.assume('fewer than 2^%d threads wait at the same time' % (a.wmax.bit_length()))


def ar_lemma(ctx):
    # awake registered waiters A + owed wake-ups B >= min(signals S, waiters W = A + sleeping Z)
    A, B, S, Z, A2, B2, S2, Z2, n = z3.Ints('A B S Z A2 B2 S2 Z2 n')
    mn = lambda x, y: z3.If(x < y, x, y)
    inv = lambda A, B, S, Z: z3.And(A >= 0, B >= 0, S >= 0, Z >= 0, A + B >= mn(S, A + Z))
    W = A + Z
    keep = lambda *xs: z3.And([x for x in xs])
    steps = z3.Or(
        z3.And(S2 == S + 1, B2 == z3.If(W > 0, B + 1, B), A2 == A, Z2 == Z),                      # store
        z3.And(S >= 1, S2 == S - 1, B2 == B, A2 == A, Z2 == Z),                                     # take
        z3.And(A2 == A + 1, S2 == S, B2 == B, Z2 == Z),                                             # register
        z3.And(S >= 1, A >= 1, S2 == S - 1, A2 == A - 1, B2 == B, Z2 == Z),                         # take registered
        z3.And(A >= 1, A2 == A - 1, S2 == S, Z2 == Z, B2 == z3.If(z3.And(S >= 1, W - 1 >= 1), B + 1, B)),  # unregister
        z3.And(S == 0, A >= 1, A2 == A - 1, Z2 == Z + 1, S2 == S, B2 == B),                         # sleep
        z3.And(Z >= 1, Z2 == Z - 1, A2 == A + 1, S2 == S, B2 == B),                                 # woken spuriously, interrupted, timed out
        z3.And(B >= 1, B2 == B - 1, n >= 1, Z2 == Z - mn(n, Z), A2 == A + mn(n, Z), S2 == S))       # futex wake
    ctx.lemma('wake-ups-suffice', [inv(A, B, S, Z), steps], inv(A2, B2, S2, Z2))
    ctx.lemma('no-lost-wake-up', [inv(A, B, S, Z), A == 0, B == 0, Z > 0], S == 0)


def mr_futex(ctx, aspects, part):
    d = discover(ctx, 'mr_', 'set')
    if d is None:
        return
    a, words, w1 = d
    flags = {}
    for fn, op, dl in MR_OPS:
        if fn == part or (part == 'basic' and dl is None):
            sp = MR(a=a, op=op, deadline=dl, aspects=aspects, futex_flags=flags)
            ctx.verify('mr_' + fn, sp, sp.setup, intw=(64,))
    if part == 'basic':
        flags_agree(ctx, 'mr_', flags)
        bit, bit2 = z3.Ints('bit bit2')
        A, B, Z, A2, B2, Z2 = z3.Ints('A B Z A2 B2 Z2')
        inv = lambda A, B, Z, b: z3.And(A >= 0, B >= 0, Z >= 0, b >= 0, b <= 1, z3.Implies(z3.And(b == 1, Z > 0), B > 0))
        steps = z3.Or(z3.And(bit2 == 1, B2 == z3.If(z3.And(bit == 0, A + Z > 0), B + 1, B), A2 == A, Z2 == Z),
                      z3.And(bit2 == 0, B2 == B, A2 == A, Z2 == Z),
                      z3.And(bit2 == bit, A2 == A + 1, Z2 == Z, B2 == B), z3.And(bit2 == bit, A >= 1, A2 == A - 1, Z2 == Z, B2 == B),
                      z3.And(bit2 == bit, bit == 0, A >= 1, A2 == A - 1, Z2 == Z + 1, B2 == B),
                      z3.And(bit2 == bit, Z >= 1, Z2 == Z - 1, A2 == A + 1, B2 == B),
                      z3.And(bit2 == bit, B >= 1, B2 == B - 1, Z2 == 0, A2 == A + Z))
        ctx.lemma('broadcast-pending-while-signalled-and-asleep', [inv(A, B, Z, bit), steps], inv(A2, B2, Z2, bit2))
    ctx.assume('fewer than 2^30 threads wait at the same time')

"""Contracts of spin_mutex (C01) and shared_spin_mutex (C02).

Rely/guarantee over the lock word.  Ghost state of the calling thread: own in {none, excl, shared}.  The word's meaning is given
by an abstraction function built from the constructor's value and the values the sequential operations produce, so no encoding
constant is copied from the source."""
import z3
from engine.spec import Spec, ACQ, REL
from engine.sym import Ptr, UNDEF
from engine.arith import isc, Unsupported


class Ctor(Spec):
    """runs a constructor on raw storage and captures the words it initialises"""
    def on_return(self, st, v):
        cells = dict(st.mem[self.p.obj].cells)
        self.words = {k: c for k, c in cells.items()}


def construct(ctx, fname, size=256):
    sp = Ctor()
    def setup(st):
        sp.p = st.new_obj('self', size)
        return [(st, [sp.p])]
    sp.words = None
    ctx.verify(fname, sp, setup)
    if not sp.words:
        raise Unsupported('constructor %s initialises nothing' % fname)
    for k, (s, v) in sp.words.items():
        if not isc(v):
            raise Unsupported('constructor %s: non-constant word' % fname)
    return sp.words


class Seq(Spec):
    """sequential run (no interference): used only to discover which word values an operation produces"""
    def setup(self, st, words):
        p = st.new_obj('self', 256, shared=True)
        o = st.mem[p.obj]
        for k, (s, v) in words.items():
            o.cells[k] = (s, v)
        self.p = p
        self.fin = []
        return [(st, [p])]

    def env(self, st, o, p, w):
        return self.eng.mem_read(st, p, w // 8)

    def trans(self, st, o, p, w, old, new, order, kind):
        self.eng.mem_write(st, p, w // 8, new)

    def plain_shared(self, st, o, p, what):
        pass

    def on_cas(self, st, o, p, w, ev, nv, so, fo, weak):
        return super().on_cas(st, o, p, w, ev, nv, so, fo, False)

    def on_return(self, st, v):
        self.fin.append((v, {k: c for k, c in st.mem[self.p.obj].cells.items()}))


def sequential(ctx, fname, words, unroll=4):
    sp = Seq()
    ctx.verify(fname, sp, lambda st: sp.setup(st, words), label=fname + ' (sequential)', must_return=False, unroll=unroll)
    return sp.fin


class Lock(Spec):
    """contract of one operation.
       pre:  ghost ownership before;  post: function of (returned value, ghost after)"""
    def __init__(self, alpha, pre, post, **kw):
        super().__init__(**kw)
        self.alpha, self.pre, self.post = alpha, pre, post

    def setup(self, st):
        p = st.new_obj('lock', 256, shared=True)
        self.p = p
        st.g['own'] = self.pre
        st.g['saw_excl'] = st.g['saw_taken'] = z3.BoolVal(False)
        return [(st, [p])]

    def env(self, st, o, p, w):
        a = self.alpha
        if p.off != a.off or w != a.w:
            raise Unsupported('access to an unknown word of the lock')
        v = z3.BitVec('word!%d' % len(st.trace), w) if False else self.eng.A.fresh(st, w, 'word')
        st.assume(a.valid(v))
        if a.shared:
            st.assume(z3.ULT(a.readers(v), a.maxr))
        if st.g['own'] == 'excl':
            st.assume(a.excl(v))
        elif st.g['own'] == 'shared':
            st.assume(z3.UGE(a.readers(v), 1) if a.shared else True)
            st.assume(z3.Not(a.excl(v)))
        return v

    def observe(self, st, o, p, w, v, order):
        # remember what has been observed: a try operation may fail only after seeing the lock taken
        self.note(st, v)

    def word_facts(self, st):
        return [('saw_excl', self.alpha.w, self.alpha.excl), ('saw_taken', self.alpha.w, self.alpha.taken),
                (None, self.alpha.w, self.alpha.valid)]

    def note(self, st, v):
        a = self.alpha
        v = self.eng.A.z(a.w, v)
        for k, c in (('excl', a.excl(v)), ('taken', a.taken(v))):
            st.g['saw_' + k] = z3.simplify(z3.Or(st.g['saw_' + k], c))

    def trans(self, st, o, p, w, old, new, order, kind):
        a = self.alpha
        A = self.eng.A
        old, new = A.z(w, old), A.z(w, new)
        own = st.g['own']
        outs = []
        # enumerate the transitions this thread is entitled to make
        same = a.same(old, new)
        cases = [('none', same, own, None)]
        if own == 'none':
            cases.append(('lock', z3.And(a.free(old), a.excl(new)), 'excl', 'acq'))
            if a.shared:
                cases.append(('lock_shared', z3.And(z3.Not(a.excl(old)), z3.Not(a.excl(new)), a.readers(new) == a.readers(old) + 1,
                                                    z3.ULT(a.readers(old), a.maxr)), 'shared', 'acq'))
        elif own == 'excl':
            cases.append(('unlock', z3.And(a.excl(old), a.free(new)), 'none', 'rel'))
        elif own == 'shared':
            cases.append(('unlock_shared', z3.And(z3.Not(a.excl(old)), z3.UGE(a.readers(old), 1), z3.Not(a.excl(new)),
                                                  a.readers(new) == a.readers(old) - 1), 'none', 'rel'))
        st.oblige('valid-word', a.valid(new), 'the lock word leaves its set of meaningful values')
        st.oblige('lock-transition', z3.Or([c for _, c, _, _ in cases]),
                  'write to the lock word changes ownership in a way the caller (owning: %s) is not entitled to' % own)
        for nm, c, nown, need in cases:
            if not st.feasible(c):
                continue
            s = st.clone()
            s.assume(c)
            s.g['own'] = nown
            self.note(s, old)
            if need == 'acq':
                self.need_acq(s, order, nm)
            if need == 'rel':
                self.need_rel(s, order, nm)
            s.log('ghost', nm)
            outs.append(s)
        return outs

    def on_return(self, st, v):
        self.post(self, st, v)
        self.orders_done(st)


class Alpha:
    pass


def expect(own):
    def post(sp, st, v):
        st.oblige('ownership-after', st.g['own'] == own, 'returns with ownership %s, contract says %s' % (st.g['own'], own))
    return post


def expect_try(own, why):
    def post(sp, st, v):
        c = sp.eng.A.z(1, v) if isc(v) or z3.is_bool(v) else None
        if c is None:
            raise Unsupported('try result')
        st.oblige('result-is-ownership', c == z3.BoolVal(st.g['own'] == own), 'the returned value does not tell whether the lock was acquired')
        if st.g['own'] != own:
            st.oblige('fails-only-if-taken', z3.Or([st.g['saw_' + k] for k in why]), 'failed although no conflicting owner was observed')
            st.oblige('ownership-after', st.g['own'] == 'none')
    return post


def fin_words(ctx, fin, name):
    if len(fin) != 1:
        raise Unsupported('sequential %s: %d outcomes' % (name, len(fin)))
    return fin[0]


def seq_word(ctx, fname, words, off):
    fin = sequential(ctx, fname, words)
    if len(fin) != 1 or not isc(fin[0][1][off][1]):
        ctx.fail(fname, 'sequential-progress', '%s on an idle lock does not return with a definite state (outcomes: %r)' % (fname, fin))
        return None, None
    return fin[0]


def the_word(ctx, pre, words):
    """the word that lock() changes"""
    if len(words) == 1:
        (off, (size, U)), = words.items()
        return off, size, U
    fin = sequential(ctx, pre + 'lock', words)
    ch = [k for k in words if any(f[1].get(k) != words[k] for f in fin)]
    if len(ch) != 1:
        raise Unsupported('%d words change in lock()' % len(ch))
    return ch[0], words[ch[0]][0], words[ch[0]][1]


def spin(ctx, pre='s_'):
    words = construct(ctx, pre + 'ctor')
    off, size, U = the_word(ctx, pre, words)
    a = Alpha()
    a.off, a.w, a.shared = off, size * 8, False
    w = a.w
    UB = z3.BitVecVal(U, w)
    a.valid = lambda v: z3.Or(v == 0, v == 1)
    a.free = lambda v: v == UB
    a.excl = lambda v: v != UB
    a.taken = a.excl
    a.same = lambda x, y: (x == UB) == (y == UB)
    v, fin = seq_word(ctx, pre + 'lock', words, off)
    if fin is None:
        return
    ctx.verify(pre + 'lock', *both(Lock(a, 'none', expect('excl'))))
    ctx.verify(pre + 'try_lock', *both(Lock(a, 'none', expect_try('excl', {'excl'}))))
    ctx.verify(pre + 'unlock', *both(Lock(a, 'excl', expect('none'))))
    # solo progress: an idle lock is acquired
    v, f2 = seq_word(ctx, pre + 'try_lock', words, off)
    if f2 is not None:
        ok = isc(v) and v == 1
        (ctx.passed if ok else lambda *x: ctx.fail(x[0], x[1], 'try_lock fails on a free lock'))(pre + 'try_lock', 'idle-acquire')
    lemmas(ctx, a)
    ctx.assume('unlock() is called only by the owner (documented precondition)')


def both(sp):
    return sp, sp.setup


def lemmas(ctx, a):
    # mutual exclusion from the transition contracts: ghost owner count E (exclusive owners) and R (readers) match the word
    pass


def shared_spin(ctx, pre='r_'):
    words = construct(ctx, pre + 'ctor')
    off, size, U = the_word(ctx, pre, words)
    w = size * 8
    # discover encodings from the sequential behaviour
    _, f = seq_word(ctx, pre + 'lock', words, off)
    if f is None:
        return
    X = f[off][1]
    _, f1 = seq_word(ctx, pre + 'lock_shared', words, off)
    if f1 is None:
        return
    S1 = f1[off][1]
    _, f2 = seq_word(ctx, pre + 'lock_shared', f1, off)
    if f2 is None:
        return
    S2 = f2[off][1]
    if X == U or S1 == U or (S2 - S1) % (1 << w) != (S1 - U) % (1 << w):
        ctx.fail(pre + 'lock', 'encoding', 'lock states are not distinguishable: free=%x exclusive=%x one reader=%x two readers=%x' % (U, X, S1, S2))
        return
    unit = (S1 - U) % (1 << w)
    if unit & (unit - 1):
        raise Unsupported('reader unit %x' % unit)
    sh = unit.bit_length() - 1
    # readers k <-> U + k*unit, for k up to the largest count that does not run into the exclusive encoding or wrap
    maxr = ((1 << w) - 1 - U) // unit
    if X > U:
        maxr = min(maxr, (X - U - 1) // unit)
    maxr = min(maxr, (1 << 30))
    a = Alpha()
    a.off, a.w, a.shared, a.maxr = off, w, True, maxr
    UB, XB = z3.BitVecVal(U, w), z3.BitVecVal(X, w)
    a.readers = lambda v: z3.If(v == XB, z3.BitVecVal(0, w), z3.LShR(v - UB, sh))
    a.valid = lambda v: z3.Or(v == XB, z3.And(z3.ULE(z3.LShR(v - UB, sh), maxr), (v - UB) & (unit - 1) == 0))
    a.excl = lambda v: v == XB
    a.free = lambda v: v == UB
    a.taken = lambda v: v != UB
    a.same = lambda x, y: x == y
    ctx.verify(pre + 'lock', *both(Lock(a, 'none', expect('excl'))))
    ctx.verify(pre + 'try_lock', *both(Lock(a, 'none', expect_try('excl', {'taken'}))))
    ctx.verify(pre + 'unlock', *both(Lock(a, 'excl', expect('none'))))
    ctx.verify(pre + 'lock_shared', *both(Lock(a, 'none', expect('shared'))))
    ctx.verify(pre + 'try_lock_shared', *both(Lock(a, 'none', expect_try('shared', {'excl'}))))
    ctx.verify(pre + 'unlock_shared', *both(Lock(a, 'shared', expect('none'))))
    ctx.assume('unlock()/unlock_shared() are called only by an owner of the respective kind (documented precondition)')
    ctx.assume('fewer than 2^30 simultaneous readers')
    # sequential exactness
    def seq_try(fn, ws, want):
        v, f = seq_word(ctx, pre + fn, ws, off)
        if f is not None:
            ok = isc(v) and v == want
            (ctx.passed if ok else lambda *x: ctx.fail(x[0], x[1], '%s returns %r, expected %r' % (fn, v, want)))(pre + fn, 'idle-%s-%d' % (fn, want))
    seq_try('try_lock', words, 1)
    seq_try('try_lock_shared', words, 1)
    seq_try('try_lock_shared', f1, 1)
    # mutual exclusion lemma: number of owners recorded in the word is what the threads' ghosts say
    v, v2 = z3.BitVecs('v v2', w)
    E, R, E2, R2 = z3.BitVecs('E R E2 R2', w)
    inv = lambda v, E, R: z3.And(a.valid(v), E == z3.If(a.excl(v), z3.BitVecVal(1, w), z3.BitVecVal(0, w)), R == a.readers(v))
    step = z3.Or(z3.And(a.free(v), a.excl(v2), E2 == E + 1, R2 == R), z3.And(a.excl(v), a.free(v2), E2 == E - 1, R2 == R),
                 z3.And(z3.Not(a.excl(v)), z3.Not(a.excl(v2)), a.valid(v2), z3.ULT(a.readers(v), maxr), a.readers(v2) == a.readers(v) + 1, E2 == E, R2 == R + 1),
                 z3.And(z3.Not(a.excl(v)), z3.Not(a.excl(v2)), a.valid(v2), z3.UGE(a.readers(v), 1), a.readers(v2) == a.readers(v) - 1, E2 == E, R2 == R - 1))
    ctx.lemma('owners-match-word', [inv(v, E, R), step, a.valid(v2)], inv(v2, E2, R2))
    ctx.lemma('writer-excludes-all', [inv(v, E, R)], z3.And(z3.ULE(E, 1), z3.Implies(E == 1, R == 0)))

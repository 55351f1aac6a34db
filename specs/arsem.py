"""Contracts of auto_reset_event on an OS semaphore (C03, C04, C06).

The state word holds t = R - P: R threads registered as waiters, P signals promised to (and not yet taken by) them; t = -1 is the signalled
event nobody waits for.  A promise is followed by exactly one unit of the semaphore, every successful wait takes one unit, and a waiter gives
up only while t > 0, so that t never falls below -1 (at most one signal is stored with nobody waiting)."""
import z3
from engine.spec import Spec
from engine.sym import Ptr
from engine.arith import isc, Unsupported, mask, fresh_name
from .common import tristate
from .posix import Posix
from .spin import Seq
from .events import AR_OPS


class SeqS(Seq):
    intercepts = ((r'^sem_init$', 'c_init'), (r'^sem_post$', 'c_post'), (r'^sem_wait$', 'c_wait'))

    def c_init(self, st, a, ins):
        self.sems.add(a[0].off)
        self.count0 = a[2]
        return [(st, 'ret', 0)]

    def c_post(self, st, a, ins):
        self.sems.add(a[0].off)
        self.units += 1
        return [(st, 'ret', 0)]

    def c_wait(self, st, a, ins):
        self.sems.add(a[0].off)
        self.sleep.append(dict(st.mem[self.p.obj].cells))
        return [(st, 'ret', 0)]


def seq(ctx, fname, words):
    sp = SeqS()
    sp.sleep, sp.sems, sp.units, sp.count0 = [], set(), 0, None
    ctx.verify(fname, sp, lambda st: sp.setup(st, words), label=fname + ' (sequential)', must_return=False, unroll=4)
    return sp


class ARS(Posix):
    op = None
    deadline = None

    def setup(self, st):
        self.p = st.new_obj('event', 512, shared=True)
        self.time_init(st)
        st.g.update(oserr=None, oserrs=0, reg=0, took=0, promised=0, posted=0, full=z3.BoolVal(False))
        args = [self.p]
        if self.deadline:
            args.append(self.deadline_arg(st, self.deadline))
        return [(st, args)]

    def t(self, v):
        v = self.eng.A.z(self.w, v)
        return v if self.unit == 1 else -v

    def env(self, st, o, p, w):
        if p.off != self.woff or w != self.w:
            raise Unsupported('access to an unknown word of the event')
        v = self.eng.A.fresh(st, w, 'state')
        t = self.t(v)
        st.assume(z3.And(t >= -1, t < 1 << 30))
        return v

    def word_facts(self, st):
        return [('full', self.w, lambda v: self.t(v) < 0), (None, self.w, lambda v: z3.And(self.t(v) >= -1, self.t(v) < 1 << 30)), (None, self.w, lambda v: self.t(v) >= 0)]

    def note(self, st, v):
        st.g['full'] = z3.simplify(z3.Or(st.g['full'], self.t(v) < 0))

    def observe(self, st, o, p, w, v, order):
        self.note(st, v)

    def trans(self, st, o, p, w, old, new, order, kind):
        g = st.g
        to, tn = self.t(old), self.t(new)
        cases = [('none', tn == to)]
        if self.op == 'post':
            if not g['promised']:
                cases.append(('promise', z3.And(to >= 0, tn == to - 1)))
        else:
            if not g['reg'] and not g['took']:
                cases.append(('register', tn == to + 1))
            if g['reg'] and not g['took']:
                cases.append(('give up', z3.And(to > 0, tn == to - 1)))
        self.ob(st, 'count wake time', 'event-transition', z3.Or([c for _, c in cases]),
                'the state changes in a way that is not promising one signal / registering one waiter / giving up while fewer signals than waiters are promised')
        outs = []
        for nm, c in cases:
            if not st.feasible(c):
                continue
            s = st.clone()
            s.assume(c)
            self.note(s, old)
            if nm != 'none':
                s.log('ghost', nm)
            if nm == 'promise':
                s.g['promised'] = 1
            elif nm == 'register':
                s.g['reg'] = 1
            elif nm == 'give up':
                s.g['reg'] = 0
            outs.append(s)
        return outs

    def the_sem(self, st, p):
        self.ob(st, 'count wake time', 'right-semaphore', isinstance(p, Ptr) and p.obj == self.p.obj and p.off == self.soff, 'operates on a different semaphore')

    def sem_posted(self, st):
        st.g['posted'] += 1
        self.ob(st, 'count wake', 'unit-only-for-promise', st.g['promised'] == 1 and st.g['posted'] <= 1, 'a unit is added to the semaphore without a signal promised for it')

    def c_sem_post(self, st, a, ins):
        self.the_sem(st, a[0])
        return self.semalts(st, [('sem_post', 0, self.sem_posted)])      # at most one unit more than waiters: no overflow

    def sem_taken(self, st):
        self.ob(st, 'count wake', 'takes-only-registered', st.g['reg'] == 1 and st.g['took'] == 0, 'takes a unit of the semaphore without being registered for it')
        st.g['took'], st.g['reg'] = 1, 0

    def c_sem_wait(self, st, a, ins):
        self.ob(st, 'wake', 'registered-before-sleep', st.g['reg'] == 1, 'goes to sleep without being registered as a waiter')
        return super().c_sem_wait(st, a, ins)

    def c_sem_timedwait(self, st, a, ins):
        self.ob(st, 'wake', 'registered-before-sleep', st.g['reg'] == 1, 'goes to sleep without being registered as a waiter')
        return super().c_sem_timedwait(st, a, ins)

    def on_return(self, st, v):
        g = st.g
        if self.op == 'post':
            self.ob(st, 'count', 'signal-stored', z3.Or(z3.BoolVal(g['promised'] == 1), g['full']), 'post() neither stores a signal nor found the event signalled')
            self.ob(st, 'count wake', 'promise-kept', g['posted'] == g['promised'], 'post() returns without adding the unit it promised')
            return
        r = z3.BoolVal(True) if self.op == 'wait' else tristate(v, self.eng)
        self.ob(st, 'count', 'result-is-signal', r == z3.BoolVal(bool(g['took'])), 'success is reported without taking a signal, or failure after taking one')
        self.ob(st, 'count wake', 'unregistered-at-return', g['reg'] == 0, 'returns while still counted as a waiter')
        self.finish_time(st, r)


def run(ctx, aspects, part):
    c = SeqS()
    c.sleep, c.sems, c.units, c.count0 = [], set(), 0, None
    def setup(st):
        c.p = st.new_obj('self', 512)
        c.fin = []
        return [(st, [c.p])]
    ctx.verify('ar_ctor', c, setup, label='ar_ctor')
    if len(c.fin) != 1 or len(c.sems) != 1:
        raise Unsupported('constructor')
    words = {k: x for k, x in c.fin[0][1].items() if isc(x[1])}
    ok = isc(c.count0) and c.count0 == 0
    (ctx.passed if ok else lambda a, b: ctx.fail(a, b, 'a new event starts with units in its semaphore'))('ar_ctor', 'starts-unsignalled')
    p = seq(ctx, 'ar_post', words)
    if len(p.fin) != 1 or p.units != 1:
        ctx.fail('ar_post', 'signal-stored', 'post() on a new event adds %d units' % p.units)
        return
    ch = [k for k in words if p.fin[0][1].get(k) != words[k]]
    if len(ch) != 1 or words[ch[0]][1] != 0 or p.sems != c.sems:
        raise Unsupported('event word')
    woff = ch[0]
    size = words[woff][0]
    w = 8 * size
    d = (p.fin[0][1][woff][1] - words[woff][1]) & mask(w)
    s = seq(ctx, 'ar_wait', words)
    if len(s.sleep) != 1 or s.sems != c.sems:
        ctx.fail('ar_wait', 'waits-when-unsignalled', 'wait() on a new event blocks %d times' % len(s.sleep))
        return
    r = (s.sleep[0][woff][1]) & mask(w)
    if r not in (1, mask(w)) or (r + d) & mask(w):
        ctx.fail('ar_wait', 'registered-before-sleep', 'a wait changes the state by %d, a post by %d' % (r, d))
        return
    flags = dict(aspects=aspects, woff=woff, w=w, unit=1 if r == 1 else -1, soff=list(c.sems)[0])
    for fn, op, dl in AR_OPS:
        if fn == part or (part == 'basic' and dl is None):
            sp = ARS(op=op, deadline=dl, **flags)
            ctx.verify('ar_' + fn, sp, sp.setup, intw=(64,))
    if part == 'basic' and 'count' in aspects:
        # R registered, P promised and not taken (K of them not yet in the semaphore, S = P - K units): never more than one signal beyond the waiters
        R, P, R2, P2 = z3.Ints('R P R2 P2')
        inv = lambda R, P: z3.And(R >= 0, P >= 0, R - P >= -1)
        steps = z3.Or(z3.And(R - P >= 0, P2 == P + 1, R2 == R),                     # promise
                      z3.And(R2 == R + 1, P2 == P),                                 # register
                      z3.And(R >= 1, P >= 1, R2 == R - 1, P2 == P - 1),             # take
                      z3.And(R >= 1, R - P > 0, R2 == R - 1, P2 == P))              # give up
        ctx.lemma('at-most-one-signal-when-idle', [inv(R, P), steps], z3.And(inv(R2, P2), z3.Implies(R2 == 0, P2 <= 1)))
    ctx.assume('auto_reset_event on semaphores: the OS semaphore hands each unit to exactly one waiter, wakes a waiter while units are available, and sem_post/sem_wait synchronise; fewer than 2^30 waiters')

"""Contracts of unique_lock, shared_lock, upgrade_lock (C10, C11) and the scope guards (C12).

The mutex is any type: its members are known by contract only.  Ghost state: holds[(mutex, mode)] = how often this thread holds
the mutex in that mode (x exclusive, s shared, u upgrade).  The invariant of a lock object: it owns (m, mode) iff one of the
holds of (m, mode) is accounted to it.  The representation of a lock object is whatever its constructors produce; the set of
representations is closed under all operations (a representation reached by an operation is added until none is new), so the
invariant is inductive over every history of operations."""
import re
import z3
from engine.spec import Spec
from engine.sym import Ptr, Exc, UNDEF
from engine.arith import isc, Unsupported

MODE = {'': 'x', '_shared': 's', '_upgrade': 'u'}
TYPE_MODE = {'u': 'x', 's': 's', 'g': 'u'}
CONV = {'unlock_upgrade_and_lock': ('u', 'x'), 'unlock_and_lock_upgrade': ('x', 'u'), 'unlock_and_lock_shared': ('x', 's'),
        'unlock_upgrade_and_lock_shared': ('u', 's'), 'unlock_shared_and_lock': ('s', 'x'), 'unlock_shared_and_lock_upgrade': ('s', 'u')}


def member(name):
    """-> (kind, action, modes): kind in block/try/timed/unlock; action acquire/release/convert"""
    if name in CONV:
        return 'block', 'convert', CONV[name]
    for pre, kind in (('try_', 'try'), ('timed_', 'timed')):
        if name.startswith(pre) and name[len(pre):] in CONV:
            return kind, 'convert', CONV[name[len(pre):]]
    m = re.match(r'^(try_|timed_)?lock(_shared|_upgrade)?(_for|_until)?$', name)
    if m:
        mode = MODE[m.group(2) or '']
        kind = 'timed' if m.group(1) == 'timed_' or m.group(3) else 'try' if m.group(1) else 'block'
        return kind, 'acquire', mode
    m = re.match(r'^unlock(_shared|_upgrade)?$', name)
    if m:
        return 'unlock', 'release', MODE[m.group(1) or '']
    raise Unsupported('mutex member ' + name)


class Locks(Spec):
    intercepts = ((r'^Mtx::', 'c_mtx'), (r'^vp_body$', 'c_body'))
    allow = ()               # kinds of acquiring calls the operation may make: block, try, timed
    unlock_throws = False
    time = None              # (ptr, size): the time argument
    convert_only = False
    pre = None

    def mkstate(self, st):
        self.m = [st.new_obj('M%d' % i, 64, init='lazy') for i in (1, 2)]
        st.g.update(holds={}, calls=0, threw=0, failed=0, acq=(), rel=0)
        self.outs = []

    def which(self, p):
        for i, m in enumerate(self.m):
            if isinstance(p, Ptr) and p.obj == m.obj and p.off == 0:
                return i
        return None

    def hold(self, st, m, mode, d):
        h = dict(st.g['holds'])
        h[(m, mode)] = h.get((m, mode), 0) + d
        if not h[(m, mode)]:
            del h[(m, mode)]
        st.g['holds'] = h

    def c_mtx(self, st, a, ins):
        d = self.demangled(ins.a['callee'][1])
        name = re.match(r'Mtx::(\w+)\(', d).group(1)
        kind, action, mode = member(name)
        m = self.which(a[0])
        st.oblige('right-mutex', m is not None, 'calls %s on something that is not the mutex of the lock' % name)
        if m is None:
            return [(st, 'stop', None)]
        st.g['calls'] += 1
        if len(a) > 1:
            self.same_time(st, a[1])
        outs = []
        def alt(text, ok, throws=False):
            s = st.clone()
            s.log('call', 'M%d.%s() %s' % (m + 1, name, text))
            if ok:
                if action == 'acquire':
                    self.hold(s, m, mode, 1)
                    s.g['acq'] += ((m, mode, kind),)
                elif action == 'release':
                    self.hold(s, m, mode, -1)
                    s.g['rel'] += 1
                else:
                    self.hold(s, m, mode[0], -1)
                    self.hold(s, m, mode[1], 1)
            elif not throws:
                s.g['failed'] += 1
                if kind == 'timed' or self.op_kind != 'timed':
                    s.g['failed_right'] = 1
            if throws:
                s.g['threw'] += 1
                outs.append((s, 'throw', Exc('user_exception')))
            else:
                outs.append((s, 'ret', None if kind in ('block', 'unlock') else int(ok)))
        if action == 'release':
            st.oblige('unlocks-only-held', st.g['holds'].get((m, mode), 0) > 0, '%s() on a mutex that is not held in this mode' % name)
            st.oblige('no-gap', not self.convert_only, 'the conversion lets go of the mutex')
            alt('', True)
            if self.unlock_throws:
                alt('throws', False, True)
        else:
            st.oblige('right-operation', kind in self.allow, '%s() called by an operation that must not use it' % name)
            if action == 'convert':
                st.oblige('unlocks-only-held', st.g['holds'].get((m, mode[0]), 0) > 0, '%s() on a mutex that is not held in this mode' % name)
            alt('succeeds', True)
            if kind != 'block':
                alt('fails', False)
            alt('throws', False, True)
        return outs

    def same_time(self, st, p):
        if self.time is None:
            st.fail('right-time', 'a timed mutex operation is called by an untimed operation')
            return
        t, n = self.time
        ok = True
        for off in range(0, n, 8):
            x, y = st.rd(p, 8, off=off), st.rd(t, 8, off=off)
            ok = z3.And(ok, self.eng.A.z(64, x) == self.eng.A.z(64, y)) if not (isc(x) and isc(y)) else ok and x == y
        st.oblige('right-time', ok, 'the time handed to the mutex is not the time given by the caller')

    def time_arg(self, st, kind):
        if kind == 'tp':
            p = st.new_obj('ts', 16)
            st.wr(p, 8, z3.BitVec('sec', 64))
            st.wr(p, 8, z3.BitVec('nsec', 64), off=8)
            self.time = (p, 16)
        else:
            p = st.new_obj('dur', 8)
            st.wr(p, 8, z3.BitVec('dur', 64))
            self.time = (p, 8)
        return p

    op_kind = None

    # ---- representation of lock objects
    def rep(self, st, p):
        out = []
        for off, (s, v) in sorted(st.mem[p.obj].cells.items()):
            if v is UNDEF:
                continue
            if isinstance(v, Ptr):
                r = self.which(v)
                if r is None:
                    if v.obj == p.obj:
                        v = ('self', v.off)
                    else:
                        raise Unsupported('lock object refers to %r' % (v,))
                else:
                    v = ('M', r)
            elif not isc(v):
                v2 = z3.simplify(v)
                if z3.is_bv_value(v2) or z3.is_int_value(v2):
                    v = v2.as_long()
                else:
                    raise Unsupported('symbolic state of a lock object')
            out.append((off, s, v))
        return tuple(out)

    def load(self, st, p, rep):
        for off, s, v in rep:
            if isinstance(v, tuple):
                v = self.m[v[1]] if v[0] == 'M' else Ptr(p.obj, v[1])
            st.wr(p, s, v, off=off)

    def finish(self, st, how, v):
        self.outs.append((st, how, v, [self.rep(st, x) if x is not None and x.obj in st.mem else None for x in self.objs]))

    def on_return(self, st, v):
        self.finish(st, 'ret', v)

    def on_throw(self, st, exc):
        self.finish(st, 'throw', exc)


EMPTY = (0, None)


class World:
    """the representations of the three lock types and the operations on them"""
    def __init__(self, ctx, types, report):
        self.ctx, self.types, self.report = ctx, types, report
        self.reps = {t: {} for t in types}      # rep -> (owns, mutex index or None)
        self.new = []
        self.bad = False

    def ob(self, st, label, name, cond, detail):
        if cond:
            self.ctx.passed(label, name, 'specs/locks.py')
        else:
            from engine.sym import Failure
            f = Failure(name, '?', detail, st, None, None)
            self.ctx.fail(label, name, detail, 'exit of ' + label, f.trace_lines())
            self.bad = True
        return cond

    def run(self, fn, build, allow=(), unlock_throws=False, convert_only=False, op_kind=None, must_return=False):
        sp = Locks(allow=allow, unlock_throws=unlock_throws, convert_only=convert_only, op_kind=op_kind)
        def setup(st):
            sp.mkstate(st)
            args, sp.objs = build(sp, st)
            return [(st, args)]
        n = len(self.ctx.out['fails'])
        self.ctx.verify(fn, sp, setup, must_return=must_return)
        if len(self.ctx.out['fails']) > n:
            self.bad = True
            return []
        return [(s, h, v, r, s.g) for s, h, v, r in sp.outs]

    def obs(self, t, rep):
        """abstraction of a representation through the observers"""
        if rep in self.reps[t]:
            return self.reps[t][rep]
        if len(self.reps[t]) > 24:
            raise Unsupported('too many representations')
        vals = {}
        for o in ('owns', 'bool', 'not', 'mutex'):
            fn = '%s_%s' % (t, o)
            def build(sp, st):
                p = st.new_obj('lock', 64)
                sp.load(st, p, rep)
                return [p], [p]
            outs = self.run(fn, build)
            if len(outs) != 1:
                return None
            st, how, v, r, g = outs[0]
            self.ob(st, fn, 'observer-pure', how == 'ret' and r[0] == rep and not g['calls'], 'an observer changes the lock or touches the mutex')
            if o == 'mutex':
                ok = isinstance(v, Ptr) or (isc(v) and v == 0)
                idx = None
                if isinstance(v, Ptr):
                    sp_m = re.match(r'M(\d)#', v.obj)
                    ok = bool(sp_m) and v.off == 0
                    idx = int(sp_m.group(1)) - 1 if ok else None
                self.ob(st, fn, 'mutex-observer', ok, 'mutex() is neither null nor the mutex of the lock')
                vals[o] = idx
            else:
                if not isc(v):
                    raise Unsupported('symbolic observer')
                vals[o] = v & 1
        self.ob(st, '%s_owns' % t, 'observers-agree', vals['owns'] == vals['bool'] == 1 - vals['not'], 'owns_lock(), operator bool and operator! disagree')
        self.ob(st, '%s_owns' % t, 'owner-has-mutex', not vals['owns'] or vals['mutex'] is not None, 'owns a lock without a mutex')
        self.reps[t][rep] = (vals['owns'], vals['mutex'])
        self.new.append((t, rep))
        return self.reps[t][rep]

    def pre(self, sp, st, t, rep):
        """a lock object in this representation, with its hold"""
        p = st.new_obj('lock', 64)
        sp.load(st, p, rep)
        own, m = self.reps[t][rep]
        if own:
            sp.hold(st, m, TYPE_MODE[t], 1)
        return p

    def holds_of(self, *pairs):
        h = {}
        for t, ab in pairs:
            if ab is not None and ab[0]:
                k = (ab[1], TYPE_MODE[t])
                h[k] = h.get(k, 0) + 1
        return h

    def balance(self, st, label, want):
        self.ob(st, label, 'ownership-accounted', st.g['holds'] == want, 'holds of the mutex %r do not match the ownership recorded in the lock objects %r' % (st.g['holds'], want))

    # ---- constructors
    def ctors(self, t):
        for m in (0, 1):
            for kind, allow, tm in (('ctor', (), None), ('ctor_m', ('block', 'try'), None), ('ctor_adopt', (), None), ('ctor_defer', (), None),
                                    ('ctor_try', ('try',), None), ('ctor_tp', ('timed', 'try'), 'tp'), ('ctor_dur', ('timed', 'try'), 'dur')):
                fn = '%s_%s' % (t, kind)
                def build(sp, st):
                    p = st.new_obj('lock', 64)
                    args = [p] + ([] if kind == 'ctor' else [sp.m[m]])
                    if tm:
                        args.append(sp.time_arg(st, tm))
                    if kind == 'ctor_adopt':
                        sp.hold(st, m, TYPE_MODE[t], 1)
                    return args, [p]
                for st, how, v, r, g in self.run(fn, build, allow, op_kind='timed' if tm else None):
                    if how == 'throw':
                        self.ob(st, fn, 'exception-from-mutex', v.type == 'user_exception' and g['threw'], 'throws %r although the mutex did not' % (v,))
                        self.balance(st, fn, {})
                        continue
                    ab = self.obs(t, r[0])
                    if ab is None:
                        return
                    self.balance(st, fn, self.holds_of((t, ab)))
                    if kind == 'ctor':
                        self.ob(st, fn, 'result', ab == EMPTY, 'a default constructed lock is not empty')
                    elif kind == 'ctor_defer':
                        self.ob(st, fn, 'result', ab == (0, m) and not g['calls'], 'defer_lock must only record the mutex')
                    elif kind == 'ctor_adopt':
                        self.ob(st, fn, 'result', ab == (1, m) and not g['calls'], 'adopt_lock must only record the mutex as owned')
                    elif kind == 'ctor_m':
                        self.ob(st, fn, 'result', ab == (1, m), 'the constructed lock does not own the mutex')
                    else:
                        self.ob(st, fn, 'result', ab[1] == m, 'the constructed lock does not refer to the mutex')
                        self.ob(st, fn, 'fails-only-if-mutex-fails', ab[0] or g.get('failed_right'), 'the lock is not acquired although the mutex never refused it')

    # ---- operations on one object
    def unary(self, t, rep):
        own, m = self.reps[t][rep]
        for kind, allow, tm in (('lock', ('block', 'try'), None), ('try_lock', ('try',), None), ('timed_lock_tp', ('timed', 'try'), 'tp'),
                                ('timed_lock_dur', ('timed', 'try'), 'dur'), ('lock_for', ('timed', 'try'), 'dur'), ('lock_until', ('timed', 'try'), 'tp'),
                                ('unlock', (), None), ('release', (), None), ('dtor', (), None)):
            fn = '%s_%s' % (t, kind)
            def build(sp, st):
                p = self.pre(sp, st, t, rep)
                return [p] + ([sp.time_arg(st, tm)] if tm else []), [p]
            for st, how, v, r, g in self.run(fn, build, allow, unlock_throws=kind == 'unlock', op_kind='timed' if tm else None):
                if kind == 'dtor':
                    self.ob(st, fn, 'destructor-quiet', how == 'ret', 'the destructor throws')
                    self.balance(st, fn, {})
                    continue
                ab = self.obs(t, r[0])
                if ab is None:
                    return
                if kind == 'release':
                    self.ob(st, fn, 'result', how == 'ret' and ab == EMPTY and not g['calls'], 'release() does not simply empty the lock')
                    ok = (isc(v) and v == 0) if m is None else isinstance(v, Ptr) and v.obj.startswith('M%d#' % (m + 1)) and v.off == 0
                    self.ob(st, fn, 'returns-mutex', ok, 'release() does not return the mutex')
                    self.balance(st, fn, self.holds_of((t, (own, m))))
                    continue
                valid = m is not None and (own if kind == 'unlock' else not own)
                self.balance(st, fn, self.holds_of((t, ab)))
                if how == 'throw':
                    self.ob(st, fn, 'unchanged-on-exception', ab == (own, m), 'an exception changes the ownership state')
                    if valid:
                        self.ob(st, fn, 'exception-from-mutex', v.type == 'user_exception' and g['threw'], 'throws %r although the mutex did not' % (v,))
                    else:
                        self.ob(st, fn, 'misuse-reported', v.type == 'boost::sync::lock_error' and not g['calls'], 'misuse is not reported by lock_error before the mutex is touched')
                    continue
                if not self.ob(st, fn, 'misuse-reported', valid, 'an operation on an empty, already owning or not owning lock returns normally'):
                    continue
                self.ob(st, fn, 'exception-forwarded', not g['threw'], 'an exception of the mutex is swallowed')
                if kind == 'lock':
                    self.ob(st, fn, 'result', ab == (1, m), 'lock() does not leave the lock owning the mutex')
                elif kind == 'unlock':
                    self.ob(st, fn, 'result', ab == (0, m), 'unlock() does not leave the lock associated and not owning')
                else:
                    if not isc(v):
                        raise Unsupported('symbolic result')
                    self.ob(st, fn, 'result', ab == (v & 1, m), 'the result does not say whether the lock now owns the mutex')
                    self.ob(st, fn, 'fails-only-if-mutex-fails', (v & 1) or g.get('failed_right'), 'failure reported although the mutex never refused')

    # ---- operations on two objects
    def binary(self, t, rep, t2, rep2, alias=False):
        a, b = self.reps[t][rep], self.reps[t2][rep2]
        for kind in (('assign', 'swap', 'fswap', 'ctor_move') if t == t2 else ()):
            if alias and kind == 'ctor_move':
                continue
            fn = '%s_%s' % (t, kind)
            def build(sp, st):
                if alias:
                    p = q = self.pre(sp, st, t, rep)
                else:
                    p = st.new_obj('lock', 64) if kind == 'ctor_move' else self.pre(sp, st, t, rep)
                    q = self.pre(sp, st, t, rep2)
                return [p, q], [p, q]
            for st, how, v, r, g in self.run(fn, build):
                if not self.ob(st, fn, 'no-exception', how == 'ret', 'throws'):
                    continue
                x, y = self.obs(t, r[0]), self.obs(t, r[1])
                if x is None or y is None:
                    return
                self.balance(st, fn, self.holds_of((t, x)) if alias else self.holds_of((t, x), (t, y)))
                if kind == 'ctor_move':
                    self.ob(st, fn, 'result', (x, y) == (b, EMPTY) and not g['calls'], 'the moved-to lock does not take over the state of the source, or the source is not emptied')
                elif alias:
                    self.ob(st, fn, 'result', x == a or (kind == 'assign' and x == EMPTY), 'self swap or assignment changes the lock')
                elif kind == 'assign':
                    self.ob(st, fn, 'result', x == b and y in (a, EMPTY), 'the target does not take over the state of the source')
                else:
                    self.ob(st, fn, 'result', (x, y) == (b, a) and not g['calls'], 'swap does not exchange the states')

    CONVS = [('conv', 'u', 'g'), ('conv', 'g', 'u'), ('conv', 's', 'u'), ('conv', 's', 'g'), ('tconv', 'u', 'g'), ('tconv', 'u', 's'), ('tconv', 'g', 's'),
             ('ttconv', 'u', 's'), ('ttconv', 'g', 's'), ('tdconv', 'u', 's'), ('tdconv', 'g', 's')]
    ACONVS = [('u', 'g'), ('g', 'u'), ('s', 'u'), ('s', 'g')]

    def conv(self, t2, rep2):
        """conversion of the lock of type t2 in state rep2"""
        own, m = b = self.reps[t2][rep2]
        for kind, t, s2 in self.CONVS:
            if s2 != t2:
                continue
            fn = '%s_%s_%s' % (kind, t, t2)
            tm = {'ttconv': 'tp', 'tdconv': 'dur'}.get(kind)
            def build(sp, st):
                p = st.new_obj('lock', 64)
                q = self.pre(sp, st, t2, rep2)
                return [p, q] + ([sp.time_arg(st, tm)] if tm else []), [p, q]
            for st, how, v, r, g in self.run(fn, build, {'conv': ('block',), 'tconv': ('try',)}.get(kind, ('timed', 'try')), convert_only=True, op_kind='timed' if tm else None):
                y = self.obs(t2, r[1])
                if y is None:
                    return
                if how == 'throw':
                    self.ob(st, fn, 'exception-from-mutex', v.type == 'user_exception' and g['threw'], 'throws %r although the mutex did not' % (v,))
                    self.ob(st, fn, 'unchanged-on-exception', y == b, 'a failed conversion changes the source')
                    self.balance(st, fn, self.holds_of((t2, y)))
                    continue
                x = self.obs(t, r[0])
                if x is None:
                    return
                self.balance(st, fn, self.holds_of((t, x), (t2, y)))
                if not own:
                    self.ob(st, fn, 'result', (x, y) == ((0, m), EMPTY) and not g['calls'], 'a lock that owns nothing must hand over its mutex without touching it')
                elif kind == 'conv':
                    self.ob(st, fn, 'result', (x, y) == ((1, m), EMPTY), 'the conversion does not transfer the ownership')
                else:
                    self.ob(st, fn, 'result', (x, y) == ((1, m), EMPTY) or (x[0] == 0 and y == b), 'the conversion neither transfers the ownership nor leaves the source as it was')
                    self.ob(st, fn, 'fails-only-if-mutex-fails', x[0] or g.get('failed_right'), 'the conversion fails although the mutex never refused')

    def aconv(self, t, rep, t2, rep2):
        if (t, t2) not in self.ACONVS:
            return
        a, b = self.reps[t][rep], self.reps[t2][rep2]
        fn = 'aconv_%s_%s' % (t, t2)
        def build(sp, st):
            p, q = self.pre(sp, st, t, rep), self.pre(sp, st, t2, rep2)
            return [p, q], [p, q]
        for st, how, v, r, g in self.run(fn, build, ('block',)):
            x, y = self.obs(t, r[0]), self.obs(t2, r[1])
            if x is None or y is None:
                return
            self.balance(st, fn, self.holds_of((t, x), (t2, y)))
            if how == 'throw':
                self.ob(st, fn, 'exception-from-mutex', v.type == 'user_exception' and g['threw'], 'throws %r although the mutex did not' % (v,))
                self.ob(st, fn, 'unchanged-on-exception', y == b and x in (a, EMPTY), 'a failed conversion changes the source')
            else:
                self.ob(st, fn, 'result', (x, y) == ((b[0], b[1]), EMPTY), 'the assignment does not transfer the ownership')


def locks(ctx, types, conv=False):
    w = World(ctx, ('u', 's', 'g') if conv else types, None)
    for t in w.types:
        w.ctors(t)
    done = {t: [] for t in w.types}
    while w.new and not w.bad:
        t, rep = w.new.pop(0)
        if not conv or t in types:
            w.unary(t, rep)
        w.binary(t, rep, t, rep, alias=True)
        done[t].append(rep)
        for r2 in list(done[t]):
            if t in types:
                w.binary(t, rep, t, r2)
                if r2 != rep:
                    w.binary(t, r2, t, rep)
        if conv:
            w.conv(t, rep)
            for t2 in w.types:
                for r2 in list(done[t2]):
                    w.aconv(t, rep, t2, r2)
                    w.aconv(t2, r2, t, rep)
    if not w.bad:
        for t in w.types:
            have = set(w.reps[t].values())
            if not {(0, None), (0, 0), (1, 0), (0, 1), (1, 1)} <= have:
                raise Unsupported('vacuous: states %r of lock %s' % (have, t))


class Guard(Locks):
    mode = 'x'
    start = 0
    inside = 1
    allow = ('block', 'try')
    relock = False

    def setup(self, st):
        self.mkstate(st)
        st.g['body'] = 0
        if self.start:
            self.hold(st, 0, self.mode, self.start)
        self.objs = []
        return [(st, [self.m[0]])]

    def c_body(self, st, a, ins):
        st.oblige('held-in-scope', st.g['holds'] == ({(0, self.mode): self.inside} if self.inside else {}), 'inside the scope the mutex is %s' % ('not held' if self.inside else 'still held'))
        st.oblige('body-once', st.g['body'] == 0, 'scope entered twice')
        s1, s2 = st.clone(), st.clone()
        for s in (s1, s2):
            s.g['body'] = 1
        s1.log('call', 'scope ends normally')
        s2.log('call', 'scope is left by an exception')
        s2.g['uexc'] = 1
        return [(s1, 'ret', None), (s2, 'throw', Exc('scope_exception'))]

    def on_return(self, st, v):
        g = st.g
        st.oblige('scope-entered', g['body'] == 1, 'the scope is skipped')
        st.oblige('scope-exception-forwarded', not g.get('uexc'), 'an exception thrown in the scope is swallowed')
        st.oblige('exception-forwarded', g['threw'] == 0, 'an exception of the mutex is swallowed')
        st.oblige('balanced', g['holds'] == ({(0, self.mode): self.end} if self.end else {}), 'after the scope the thread holds the mutex %r times' % g['holds'])

    def on_throw(self, st, exc):
        g = st.g
        if exc.type == 'scope_exception':
            st.oblige('balanced', g['holds'] == ({(0, self.mode): self.end} if self.end else {}), 'after the scope was left by an exception the thread holds the mutex %r times' % g['holds'])
            return
        st.oblige('exception-from-mutex', exc.type == 'user_exception' and g['threw'] > 0, 'throws %r although the mutex did not' % exc)
        if self.relock:
            st.oblige('exception-only-on-relock', g['body'] == 1 and g['rel'] == 1, 'throws without having left the scope')
        else:
            st.oblige('nothing-taken', g['body'] == 0 and g['holds'] == {} and g['rel'] == 0, 'a constructor that throws must not touch the lock again')

    def c_mtx(self, st, a, ins):
        outs = super().c_mtx(st, a, ins)
        if self.start and not self.relock:
            st.oblige('adopts', True)
        if self.relock and st.g.get('uexc'):
            # the destructor relocks while an exception is in flight: a throwing lock() would terminate, which the property leaves open
            outs = [o for o in outs if o[1] != 'throw']
        return outs


class Adopt(Guard):
    allow = ()


class Unlock(Guard):
    relock = True
    inside = 0
    start = 1


GUARDS = [('guard_lock', Guard, dict(mode='x', start=0, inside=1, end=0)), ('guard_lock_adopt', Adopt, dict(mode='x', start=1, inside=1, end=0)),
          ('guard_shared', Guard, dict(mode='s', start=0, inside=1, end=0)), ('guard_shared_adopt', Adopt, dict(mode='s', start=1, inside=1, end=0)),
          ('guard_unlock', Unlock, dict(mode='x', start=1, inside=0, end=1))]


def guards(ctx):
    for fn, cls, kw in GUARDS:
        sp = cls(**kw)
        ctx.verify(fn, sp, sp.setup, must_throw=True)

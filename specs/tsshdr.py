"""Contracts of the header part of thread specific storage: at_thread_exit (C15), thread_specific_ptr (C16, C17) and
notify_all_at_thread_exit (C18), against the contracts of the library functions that specs/tss.py discharges.

A function registered by at_thread_exit is run in a second phase from the state the registration left behind, so what the two
template functions have in common (who owns the copy, how it is found again) is not fixed here.  The same is done with the
representation of thread_specific_ptr: every operation is verified from the states its constructors produce."""
import re
import z3
from engine.sym import Ptr, Exc, UNDEF
from engine.arith import isc, Unsupported
from engine.spec import Spec
from .common import Aspects

D = r'^boost::sync::detail::'


def load(st, src):
    st.mem = {k: o.clone() for k, o in src.mem.items() if not o.tags.get('alloca')}
    st.g = dict(src.g)
    st.pc = list(src.pc)


class Hdr(Aspects):
    intercepts = (
        (D + r'add_thread_exit_callback\(', 'c_add'), (D + r'add_thread_exit_notify_entry\(', 'c_addn'), (D + r'new_thread_specific_key\(', 'c_newkey'),
        (D + r'delete_thread_specific_key\(', 'c_delkey'), (D + r'get_thread_specific\(', 'c_getv'), (D + r'set_thread_specific\(', 'c_setv'),
        (r'^Fn::Fn\(Fn const&\)$', 'c_copy'), (r'^Fn::~Fn\(\)$', 'c_destroy'), (r'^Fn::operator\(\)\(\)( const)?$', 'c_callfn'), (r'^Val::~Val\(\)$', 'c_valdtor'),
        (r'^pthread_mutex_(lock|unlock|trylock)$', 'c_mutex'), (r'^pthread_cond_(broadcast|signal)$', 'c_notify'),
    )

    def init(self, st):
        self.K = z3.BitVec('K', 32)
        st.g.update(live={}, regs=(), called=(), notes=(), keys=(), deleted=0, val=0, cleaned=(), held=0, threw=0, other=0, dead=())

    def thrower(self, st, what):
        s = st.clone()
        s.g['threw'] = 1
        s.log('call', what + ' throws')
        return (s, 'throw', Exc('user_exception'))

    def c_new(self, st, a, ins):
        outs = super().c_new(st, a, ins)
        for s, k, v in outs:
            if k == 'throw':
                s.g['threw'] = 1
        return outs

    # ---- registry
    def c_add(self, st, a, ins):
        outs = [self.thrower(st, 'add_thread_exit_callback')]
        self.ob(st, 'exit', 'registered-function', isinstance(a[0], Ptr) and (a[0].obj in self.eng.funcs or a[0].obj.startswith('#fn:')), 'what is registered is not a function: %r' % (a[0],))
        st.g['regs'] += ((a[0], a[1]),)
        return outs + [(st, 'ret', None)]

    def c_addn(self, st, a, ins):
        outs = [self.thrower(st, 'add_thread_exit_notify_entry')]
        self.ob(st, 'notify', 'registered-while-locked', st.g['held'] == 1, 'the notification is registered while the mutex is not held')
        st.g['notes'] += ((a[0], a[1]),)
        return outs + [(st, 'ret', None)]

    def c_newkey(self, st, a, ins):
        outs = [self.thrower(st, 'new_thread_specific_key')]
        self.ob(st, 'iso', 'one-key', not st.g['keys'], 'creates several keys')
        st.g['keys'] += ((a[0], a[1]),)
        return outs + [(st, 'ret', self.K)]

    def own_key(self, st, k):
        self.ob(st, 'iso clean', 'own-key', k == self.K if z3.is_bv(k) else z3.BitVecVal(k, 32) == self.K if isc(k) else False, 'accesses another key')

    def c_delkey(self, st, a, ins):
        self.own_key(st, a[0])
        self.ob(st, 'iso clean', 'key-deleted-once', st.g['deleted'] == 0, 'the key is deleted twice')
        st.g['deleted'] = 1
        return [(st, 'ret', None)]

    def c_getv(self, st, a, ins):
        self.own_key(st, a[0])
        return [(st, 'ret', st.g['val'])]

    def c_setv(self, st, a, ins):
        self.own_key(st, a[0])
        outs = [self.thrower(st, 'set_thread_specific')]
        st.g['val'] = a[1]
        return outs + [(st, 'ret', None)]

    # ---- user's types
    def c_copy(self, st, a, ins):
        outs = [self.thrower(st, 'copying the function object')]
        live = dict(st.g['live'])
        src = live.get((a[1].obj, a[1].off)) if isinstance(a[1], Ptr) else None
        self.ob(st, 'exit', 'object-lifetime', src is not None and isinstance(a[0], Ptr) and (a[0].obj, a[0].off) not in live, 'copies %r, which is not a function object, to %r' % (a[1], a[0]))
        live[(a[0].obj, a[0].off)] = src
        st.g['live'] = live
        return outs + [(st, 'ret', None)]

    def c_destroy(self, st, a, ins):
        live = dict(st.g['live'])
        k = (a[0].obj, a[0].off) if isinstance(a[0], Ptr) else None
        self.ob(st, 'exit', 'object-lifetime', k in live and k != ('#user', 0), 'destroys %r, which is not a live copy of the function object' % (a[0],))
        live.pop(k, None)
        st.g['live'] = live
        return [(st, 'ret', None)]

    def c_callfn(self, st, a, ins):
        live = st.g['live']
        k = (a[0].obj, a[0].off) if isinstance(a[0], Ptr) else None
        self.ob(st, 'exit', 'object-lifetime', k in live, 'calls %r, which is not a live function object' % (a[0],))
        self.ob(st, 'exit', 'called-at-exit-only', self.phase == 2, 'the function is called by at_thread_exit itself')
        st.g['called'] += (live.get(k),)
        st.log('call', 'the function object is called')
        return [(st, 'ret', None)]

    phase = 1

    def indirect(self, st, fp, args, ins):
        if isc(fp) and fp == 0:
            st.fail('memory-safety', 'a null function is called')
            return [(st, 'stop', None)]
        if not isinstance(fp, Ptr):
            st.fail('memory-safety', 'call of %r' % (fp,))
            return [(st, 'stop', None)]
        if fp.obj == '#fn:user':
            st.log('call', "the user's function is called")
            if args:
                return self.clean(st, args[0])
            self.ob(st, 'exit', 'called-at-exit-only', self.phase == 2, 'the function is called by at_thread_exit itself')
            st.g['called'] += ('arg',)
            return [(st, 'ret', None)]
        return None

    def clean(self, st, p):
        """the user's cleanup function: it may store another value"""
        st.g['cleaned'] += (p.obj if isinstance(p, Ptr) and p.off == 0 else '?',)
        self.ob(st, 'clean', 'null-not-cleaned', isinstance(p, Ptr), 'a null value is cleaned up')
        if self.phase == 1:
            v = st.g['val']
            self.ob(st, 'clean', 'detached-before-cleanup', not (isinstance(v, Ptr) and isinstance(p, Ptr) and v.obj == p.obj), 'a value is cleaned up while the thread still holds it')
        s = st.clone()
        s.log('env', 'the cleanup function stores another value')
        s.g['val'] = Ptr('#val:late')
        s.g['other'] = 1
        return [(st, 'ret', None), (s, 'ret', None)]

    def c_valdtor(self, st, a, ins):
        p = a[0]
        self.ob(st, 'clean', 'object-lifetime', isinstance(p, Ptr) and p.obj in st.mem and st.mem[p.obj].tags.get('heap') and p.off == 0 and p.obj not in st.g['dead'], 'destroys %r, which is not a live object' % (p,))
        st.g['dead'] += (p.obj if isinstance(p, Ptr) else '?',)
        outs = self.clean(st, p)
        if self.phase == 1 and isinstance(p, Ptr):
            for s, k, v in outs:
                s.g['late_free'] = p.obj
        return outs

    # ---- the mutex of notify_all_at_thread_exit
    def c_mutex(self, st, a, ins):
        name = ins.a['callee'][1]
        self.ob(st, 'notify', 'right-mutex', isinstance(a[0], Ptr) and a[0].obj == self.m.obj, 'another mutex is used')
        if 'unlock' in name:
            self.ob(st, 'notify', 'unlock-held', st.g['held'] == 1, 'the mutex is unlocked though not held')
            st.g['held'] = 0
        else:
            self.ob(st, 'notify', 'no-self-deadlock', st.g['held'] == 0, 'the mutex is locked twice')
            st.g['held'] = 1
        return [(st, 'ret', 0)]

    def c_notify(self, st, a, ins):
        self.ob(st, 'notify', 'notified-at-exit-only', False, 'waiters are notified before thread exit')
        return [(st, 'ret', 0)]

    def heap(self, st, but=()):
        return [k for k, o in st.mem.items() if o.tags.get('heap') and k not in but]

    def on_return(self, st, v):
        self.post(st, v)
        self.outs.append((st.clone(), v))

    def on_throw(self, st, exc):
        self.ob(st, 'exit iso clean notify', 'exception-from-callee', bool(st.g['threw']), 'throws %r although nothing failed' % (exc,))
        self.failed(st)

    def post(self, st, v):
        pass

    def failed(self, st):
        pass


class Register(Hdr):
    def post(self, st, v):
        self.ob(st, 'exit', 'registered-once', len(st.g['regs']) == 1, 'registered %d times' % len(st.g['regs']))

    def failed(self, st):
        self.ob(st, 'exit', 'failure-registers-nothing', not st.g['regs'], 'the exception leaves a function registered')
        self.ob(st, 'exit', 'no-leak', not self.heap(st) and set(st.g['live']) <= {('#user', 0)}, 'the copy of the function object leaks when registration fails')


class AtExit(Hdr):
    phase = 2

    def post(self, st, v):
        self.ob(st, 'exit', 'called-once', st.g['called'] == ('arg',), 'the function is called %d times' % len(st.g['called']))
        self.ob(st, 'exit', 'no-leak', not self.heap(st) and set(st.g['live']) <= {('#user', 0)}, 'the copy of the function object leaks after it is called')


def at_exit(ctx, aspects):
    for fn in ('exit_functor', 'exit_fnptr'):
        sp = Register(aspects=aspects, outs=[])
        def setup(st):
            sp.init(st)
            if fn == 'exit_fnptr':
                return [(st, [Ptr('#fn:user')])]
            st.g['live'] = {('#user', 0): 'arg'}
            return [(st, [Ptr('#user')])]
        ctx.verify(fn, sp, setup, must_throw=True)
        for s0, v in sp.outs:
            # the caller's object is gone by the time the thread exits
            if len(s0.g['regs']) != 1 or not isinstance(s0.g['regs'][0][0], Ptr):
                continue
            f, x = s0.g['regs'][0]
            sp2 = AtExit(aspects=aspects, outs=[])
            def setup2(st):
                sp2.K = sp.K
                load(st, s0)
                st.g['live'] = {k: o for k, o in s0.g['live'].items() if k != ('#user', 0)}
                st.g['threw'] = 0
                return [(st, [x])]
            if f.obj not in ctx.engine(sp2).funcs:
                ctx.fail(fn, 'registered-function', 'what is registered is not the function called at thread exit', '?', [])
                continue
            ctx.verify(f.obj[1:], sp2, setup2, label=fn + ' (at thread exit)')


class Ctor(Hdr):
    def post(self, st, v):
        self.ob(st, 'iso', 'one-key', len(st.g['keys']) == 1, 'the pointer has no key of its own')
        if len(st.g['keys']) == 1:
            self.ob(st, 'iso clean', 'cleaned-at-delete', isc(st.g['keys'][0][1]) and st.g['keys'][0][1] & 1 == 1, "the values of other threads are not cleaned up with the pointer")

    def failed(self, st):
        self.ob(st, 'iso', 'no-leak', st.g['deleted'] == len(st.g['keys']), 'the key leaks')


class Op(Hdr):
    kind = None

    def post(self, st, v):
        g = st.g
        same = lambda a, b: (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off) or (isc(a) and isc(b) and a == b)
        k = self.kind
        if k != 'dtor':
            self.ob(st, 'iso clean', 'key-kept', not g['deleted'], 'the key is deleted although the pointer lives on')
        else:
            self.ob(st, 'iso clean', 'key-deleted', g['deleted'] == 1, 'the key is not deleted with the pointer')
            self.ob(st, 'clean', 'cleaned-once', not g['cleaned'], 'the destructor cleans up values itself')
            return
        if k in ('get', 'get_pointer', 'arrow', 'star'):
            self.ob(st, 'iso', 'returns-own-value', same(v, self.old), 'does not return the value of the calling thread')
        if k in ('not', 'bool'):
            want = int(isinstance(self.old, Ptr)) if k == 'bool' else int(not isinstance(self.old, Ptr))
            self.ob(st, 'iso', 'returns-own-value', isc(v) and v & 1 == want, 'does not tell whether the calling thread has a value')
        if k == 'release':
            self.ob(st, 'iso clean', 'returns-own-value', same(v, self.old), 'release() does not return the value')
        want = self.new if k in ('reset', 'reset_v') else 0 if k == 'release' else self.old
        if g['other']:
            want = Ptr('#val:late')
        self.ob(st, 'iso', 'value-stored', same(g['val'], want), 'the value afterwards is %r, not %r' % (g['val'], want))
        cl = k in ('reset', 'reset_v') and isinstance(self.old, Ptr) and not same(self.old, self.new) and self.ckind != 'none'
        self.ob(st, 'clean', 'cleaned-once', g['cleaned'] == ((self.old.obj,) if cl else ()), 'values cleaned up: %r' % (g['cleaned'],))
        gone = self.old.obj if cl and self.ckind == 'default' else None
        for p in (self.old, self.new):
            if isinstance(p, Ptr):
                self.ob(st, 'clean', 'object-lifetime', (p.obj in st.mem) == (p.obj != gone), 'a value is deleted that must not be, or the other way round')

    def failed(self, st):
        g = st.g
        self.ob(st, 'iso clean', 'failure-changes-nothing', not g['cleaned'] and g['val'] is self.old or g['val'] == self.old and not g['cleaned'], 'a value is cleaned up or changed although the operation fails')
        self.ob(st, 'iso clean', 'key-kept', not g['deleted'], 'the key is deleted although the pointer lives on')


class Cleanup(Hdr):
    """the registered cleanup function"""
    phase = 2

    def post(self, st, v):
        self.ob(st, 'clean', 'cleaned-once', st.g['cleaned'] == (() if self.ckind == 'none' else (self.old.obj,)), 'the cleanup function does not clean up the value once')
        self.ob(st, 'clean', 'object-lifetime', (self.old.obj in st.mem) == (self.ckind != 'default'), 'the default cleanup must delete the value, another must not')


def ptr(ctx, aspects):
    for ckind in ('default', 'user', 'none'):
        sp = Ctor(aspects=aspects, outs=[])
        def setup(st):
            sp.init(st)
            sp.p = st.new_obj('ptr', 64)
            args = [sp.p] + ([] if ckind == 'default' else [Ptr('#fn:user') if ckind == 'user' else 0])
            return [(st, args)]
        ctx.verify('p_ctor' if ckind == 'default' else 'p_ctor_f', sp, setup, label='thread_specific_ptr(%s)' % ckind, must_throw=True)
        n = 0
        for s0, v in sp.outs:
            n += 1
            if len(s0.g['keys']) != 1:
                continue
            f = s0.g['keys'][0][0]
            def phase(cls, fn, label, old, new, kind, args, **kw):
                s2 = cls(aspects=aspects, outs=[], kind=kind, ckind=ckind)
                def setup2(st):
                    s2.K = sp.K
                    load(st, s0)
                    st.g['threw'] = 0
                    vals = {}
                    for n in ('A', 'B'):
                        vals[n] = st.new_obj('val' + n, 8, heap=True)
                    s2.old = vals[old] if old else 0
                    s2.new = vals[new] if new else 0
                    st.g['val'] = s2.old
                    return [(st, args(s2))]
                ctx.verify(fn, s2, setup2, label=label, **kw)
            # the registered cleanup function
            if isinstance(f, Ptr) and f.obj in ctx.engine(sp).funcs:
                phase(Cleanup, f.obj[1:], 'cleanup function (%s)' % ckind, 'A', None, 'cleanup', lambda s: [s.old])
            elif 'clean' in (aspects or ('clean',)):
                ok = isinstance(f, Ptr) and f.obj == '#fn:user' if ckind == 'user' else isc(f) and f == 0 if ckind == 'none' else False
                if ok:
                    ctx.passed('thread_specific_ptr(%s)' % ckind, 'registered-cleanup', 'specs/tsshdr.py')
                else:
                    ctx.fail('thread_specific_ptr(%s)' % ckind, 'registered-cleanup', 'the cleanup function registered is %r' % (f,), '?', [])
            for old in (None, 'A'):
                for kind in ('get', 'get_pointer', 'arrow', 'star', 'not', 'bool', 'release', 'dtor', 'reset'):
                    if kind in ('arrow', 'star') and not old:
                        continue      # precondition
                    phase(Op, 'p_' + kind, '%s (%s, %s)' % (kind, ckind, 'value' if old else 'null'), old, None, kind, lambda s: [sp.p])
                for new in (None, 'A', 'B'):
                    phase(Op, 'p_reset_v', 'reset (%s, %s to %s)' % (ckind, old or 'null', new or 'null'), old, new, 'reset_v', lambda s: [sp.p, s.new])


class Notify(Hdr):
    def post(self, st, v):
        n = st.g['notes']
        ok = len(n) == 1 and all(isinstance(x, Ptr) for x in n[0]) and n[0][0].obj == self.m.obj and n[0][0].off == 0 and n[0][1].obj == self.c.obj and n[0][1].off == 0
        self.ob(st, 'notify', 'registered-once', ok, 'the notification is not registered exactly once')
        self.ob(st, 'notify', 'mutex-kept-locked', st.g['held'] == 1, 'the mutex does not stay locked until the thread exits')

    def failed(self, st):
        self.ob(st, 'notify', 'failure-unlocks', st.g['held'] == 0 and not st.g['notes'], 'the mutex stays locked, or the notification registered, although registration fails')


def notify(ctx, aspects):
    sp = Notify(aspects=aspects, outs=[])
    def setup(st):
        sp.init(st)
        sp.c, sp.m = st.new_obj('cond', 64, init='lazy'), st.new_obj('mutex', 64, init='lazy')
        st.g['held'] = 1
        return [(st, [sp.c, sp.m])]
    ctx.verify('notify_exit', sp, setup, must_throw=True)


def run(ctx, aspects=None, part=None, **kw):
    {'at_exit': at_exit, 'ptr': ptr, 'notify': notify}[part](ctx, aspects)

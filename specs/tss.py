"""Contracts of the thread specific storage library (src/tss_pthread.cpp, src/tss_manager.hpp): C15 - C19.

The layout of the registry and of a thread context is found by running the real code once symbolically (initialisation, one
registration of each kind), not by names of members; after that every operation is verified from an arbitrary state of the
registry that satisfies the invariant:
  - K live  : the table has K's cleanup function; K is not in the list of free keys
  - K free  : K is in the list of free keys once and no context holds a value for K
  - a context is linked into the registry iff it is the context of a running thread; its storage is no longer than the table
Other threads may act whenever the registry lock is not held (rely): create and delete keys, change their own contexts; deleting
key K takes the value of K out of every context."""
import re
import z3
from engine.sym import Ptr, Exc, UNDEF, BadAccess, Obj, State
from engine.arith import isc, Unsupported, mask, fresh_name
from .common import Aspects
from .containers import Containers, MAXN

NSP = '_ZN5boost4sync6detail'
ENOMEM, EAGAIN = 12, 11
KEY = 7
MUTEX_SIZE = 40


class Reveal(Exception):
    pass


class Base(Containers, Aspects):
    """system calls"""
    intercepts = (
        (r'^pthread_once$', 'c_once'), (r'^pthread_key_create$', 'c_key_create'), (r'^pthread_getspecific$', 'c_getspecific'),
        (r'^pthread_setspecific$', 'c_setspecific'), (r'^pthread_mutex_lock$', 'c_lock'), (r'^pthread_mutex_unlock$', 'c_unlock'),
        (r'^pthread_mutex_trylock$', 'c_trylock'), (r'^pthread_cond_(broadcast|signal)$', 'c_notify'), (r'^abort$', 'c_abort'),
        (r'^pthread_(mutex|cond)_(init|destroy)$', 'c_initdestroy'), (r'^pthread_condattr_\w+$', 'c_initdestroy'),
    )

    def c_initdestroy(self, st, a, ins):
        return [(st, 'ret', 0)]

    def c_new(self, st, a, ins):
        outs = super().c_new(st, a, ins)
        for s, k, v in outs:
            if k == 'throw':
                s.g['oom'] = 1
        return outs

    def c_abort(self, st, a, ins):
        st.oblige('abort', bool(st.g.get('oom')), 'abort() although no resource is exhausted')
        return [(st, 'stop', None)]

    def c_key_create(self, st, a, ins):
        s = st.clone()
        s.g['oom'] = 1
        s.log('call', 'pthread_key_create fails')
        if not isinstance(a[1], Ptr):
            st.fail('key-destructor', 'the pthread key has no destructor: nothing would run at thread exit')
            return [(st, 'stop', None)]
        st.g['keys'] = st.g.get('keys', ()) + ((a[0].obj, a[0].off, a[1].obj),)
        st.wr(a[0], 4, KEY)
        return [(s, 'ret', EAGAIN), (st, 'ret', 0)]

    def key_ok(self, st, k):
        if not (isc(k) and k == KEY):
            st.fail('right-key', 'wrong pthread key %r' % (k,))
            return False
        return True

    def c_getspecific(self, st, a, ins):
        if not self.key_ok(st, a[0]):
            return [(st, 'stop', None)]
        return [(st, 'ret', st.g['slot'])]

    def c_setspecific(self, st, a, ins):
        if not self.key_ok(st, a[0]):
            return [(st, 'stop', None)]
        outs = []
        if not st.g['slot_ever'] and not (isc(a[1]) and a[1] == 0):
            s = st.clone()
            s.log('call', 'pthread_setspecific fails')
            outs.append((s, 'ret', ENOMEM))
        st.g['slot'] = a[1]
        st.g['slot_ever'] = 1
        outs.append((st, 'ret', 0))
        return outs

    def c_trylock(self, st, a, ins):
        s = st.clone()
        return [(s, 'ret', 16)] + self.c_lock(st, a, ins)

    # ---- the tracked state of the registry may be touched while the lock is held only
    def is_root(self, p):
        return False


class Disco(Base):
    """records what the real code does on its first use"""
    aspects = ()
    track_new = True

    def __init__(self, **kw):
        super().__init__(**kw)
        self.vecs, self.pushes, self.resizes, self.links, self.locks, self.stacks, self.once, self.outs = [], [], [], [], [], [], [], []

    def c_once(self, st, a, ins):
        self.once.append((a[0], a[1]))
        if not st.g['inited']:
            raise Reveal()
        return [(st, 'ret', 0)]

    def c_lock(self, st, a, ins):
        self.locks.append(a[0])
        return [(st, 'ret', 0)]

    def c_unlock(self, st, a, ins):
        return [(st, 'ret', 0)]

    def c_stack(self, st, a, ins):
        d = self.demangled(ins.a['callee'][1])
        m = re.search(r'>::(~?\w+)(?:<.*>)?\(.*\)', d)
        if m.group(1) == 'stack':
            self.stacks.append(a[0])
            return [self.bad_alloc(st, 'std::stack()'), (st, 'ret', None)]
        if m.group(1) == 'empty':
            return [(st, 'ret', 1)]
        if m.group(1) == 'size':
            return [(st, 'ret', 0)]
        if m.group(1) == '~stack':
            return [(st, 'ret', None)]
        raise Unsupported('std::stack::' + m.group(1))

    def c_link(self, st, a, ins):
        d = self.demangled(ins.a['callee'][1])
        if 'link_' in d:
            self.links.append((a[0], a[1]))
        return NotImplemented

    def note_vector(self, st, h, T):
        self.vecs.append((h.obj, h.off, T))

    def note_push(self, st, h, T, n, el, nd):
        self.pushes.append((h.obj, h.off, T, el))

    def note_resize(self, st, h, T, nd):
        self.resizes.append((h.obj, h.off, T))

    def on_return(self, st, v):
        self.outs.append((st.clone(), v))

    def on_throw(self, st, exc):
        pass


class Layout:
    pass


def find_func(ctx, rx):
    from engine.spec import demangle_all, _dem
    names = [n for m in ctx.mods for n in m.funcs]
    demangle_all(names)
    r = [n for n in names if re.search(rx, _dem[n])]
    if len(set(r)) != 1:
        raise Unsupported('function %s: %d candidates' % (rx, len(set(r))))
    return r[0][1:]


API = {n: r'^boost::sync::detail::%s\(' % n for n in ('add_thread_exit_notify_entry', 'add_thread_exit_callback', 'new_thread_specific_key', 'delete_thread_specific_key',
                                                   'get_thread_specific', 'set_thread_specific')}


def adopt(st, src, g=True):
    st.mem = {k: o.clone() for k, o in src.mem.items() if not o.tags.get('alloca')}
    if g:
        st.g = dict(src.g)
    st.pc = list(src.pc)


def discover(ctx):
    L = Layout()
    L.fn = {n: find_func(ctx, rx) for n, rx in API.items()}
    # which function initialises the registry
    sp = Disco()
    eng = ctx.engine(sp, (32, 64))
    def zero(st):
        st.g.update(inited=0, slot=0, slot_ever=0, oom=0)
        return [(st, [Ptr('#fn:0'), Ptr('#arg:0')])]
    try:
        eng.run('@' + L.fn['add_thread_exit_callback'], zero)
        raise Unsupported('no pthread_once in add_thread_exit_callback')
    except Reveal:
        pass
    L.flag, L.init = sp.once[0]
    L.flag = (L.flag.obj, L.flag.off)
    # the initialisation
    sp0 = Disco()
    def zero0(st):
        st.g.update(inited=0, slot=0, slot_ever=0, oom=0)
        return [(st, [])]
    ctx.verify(L.init.obj[1:], sp0, zero0, intw=(32, 64), label='initialisation')
    outs = [s for s, v in sp0.outs if s.g.get('keys')]
    if not outs:
        ctx.fail('initialisation', 'exit-hook', 'initialisation does not arrange for anything to be called at thread exit', '?', [])
    if len(outs) != 1 or len(sp0.outs) != 1:
        raise Unsupported('initialisation has %d outcomes' % len(sp0.outs))
    L.s0 = outs[0]
    L.keyvar = L.s0.g['keys'][0][:2]
    L.dtor = L.s0.g['keys'][0][2]
    def run(fn, args, base, **kw):
        sp = Disco()
        def setup(st):
            adopt(st, base)
            st.g['inited'] = 1
            return [(st, args)]
        eng = ctx.engine(sp, (32, 64))
        eng.run('@' + L.fn[fn], setup)
        if eng.res.fails:
            f = eng.res.fails[0]
            ctx.fail(fn, f.name, f.detail, f.where, f.trace_lines())
            raise Unsupported('first use of %s fails' % fn)
        if len(sp.outs) > 1:
            # keep the ones in which the thread has a context
            sp.outs = [(s, v) for s, v in sp.outs if isinstance(s.g['slot'], Ptr)]
        if len(sp.outs) != 1:
            raise Unsupported('first use of %s has %d outcomes' % (fn, len(sp.outs)))
        return sp, sp.outs[0]
    F, X = Ptr('#fn:0'), Ptr('#arg:0')
    d1, (s1, _) = run('add_thread_exit_callback', [F, X], L.s0)
    d1.pushes = list({p[:3]: p for p in d1.pushes}.values())
    d1.links = list({(a.obj, a.off, b.obj, b.off): (a, b) for a, b in d1.links}.values())
    if len(d1.links) != 1 or len(d1.pushes) != 1 or not d1.locks:
        raise Unsupported('first registration: %d links, %d pushes' % (len(d1.links), len(d1.pushes)))
    L.s1 = s1
    root, node = d1.links[0]
    L.M, L.root = root.obj, root.off
    L.C, L.hook = node.obj, node.off
    L.mutex = d1.locks[0].off
    if d1.locks[0].obj != L.M:
        raise Unsupported('registry lock is not part of the registry')
    L.slot = s1.g['slot']
    if not isinstance(L.slot, Ptr) or L.slot.obj != L.C:
        raise Unsupported('thread slot holds %r' % (L.slot,))
    L.stack = [(p.obj, p.off) for p in sp0.stacks]
    L.T = {(o, f): T for o, f, T in sp0.vecs + d1.vecs}
    def role(push, want, s):
        obj, off, T, el = push
        c = s.mem[obj].cells.get(off) if obj in s.mem else None
        if c and isinstance(c[1], Ptr) and c[1].obj in s.mem:
            # the new element as the operation leaves it
            el = {k[1]: (w // 8, v) for k, (w, v) in s.mem[c[1].obj].cells.items() if isinstance(k, tuple) and k[0] == 'w' and k[1] != 'pos'}
        pos = {}
        for o, (sz, v) in el.items():
            for nm, w in want.items():
                if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj == w.obj or (isc(w) and isc(v) and v == w and sz == 1):
                    pos[nm] = o
        if set(pos) != set(want):
            raise Unsupported('pushed element %r' % (el,))
        L.T[(obj, off)] = T
        return obj, off, pos
    o, L.atexit, p = role(d1.pushes[0], {'f': F, 'x': X}, s1)
    L.af, L.ax = p['f'], p['x']
    d2, (s2, _) = run('add_thread_exit_notify_entry', [Ptr('#mtx:0'), Ptr('#cond:0')], s1)
    o2, L.notify, p = role(d2.pushes[0], {'m': Ptr('#mtx:0'), 'c': Ptr('#cond:0')}, s2)
    L.nm, L.nc = p['m'], p['c']
    d3, (s3, r) = run('new_thread_specific_key', [F, 1], s1)
    o3, L.table, p = role(d3.pushes[0], {'f': F, 'flag': 1}, s3)
    L.tf, L.tflag = p['f'], p['flag']
    if not (o == o2 == L.C and o3 == L.M and isc(r)):
        raise Unsupported('registry layout')
    d4, _ = run('set_thread_specific', [r, X], s3)
    if len(d4.resizes) != 1:
        raise Unsupported('%d vectors resized on first store' % len(d4.resizes))
    _, L.storage, T = d4.resizes[0]
    L.T[(L.C, L.storage)] = T
    L.tls = [n for m in ctx.mods for n, t in m.globals.items() if 'thread_local' in t and not t.startswith('external')]
    L.tls = [n for n in L.tls if n in s1.mem and any(isinstance(v, Ptr) and v.obj == L.C for _, v in s1.mem[n].cells.values())]
    return L


FN = Ptr('#fn:f')


class Tss(Base):
    forget_dead = True
    simple_solver = True

    def live_vars(self):
        out = set()
        for x in (self.K, self.K2, getattr(self, 'tn0', None), getattr(self, 'sn0', None), getattr(self, 'v0', None), getattr(self, 'v2', None)):
            if z3.is_expr(x):
                out |= self.eng.vars(x)
        return out

    ukey = None          # key the calling thread may access without the lock
    cleanup = False      # thread exit: other threads may delete K meanwhile, user code may do anything
    intercepts = ()

    def ob(self, st, aspect, name, cond, detail=None):
        if aspect == 'lock' or self.on(aspect):
            st.oblige(name, cond, detail)

    # ------------------------------------------------------------ pre-state
    def build(self, st, own=True, cold=False, kstate='live', flag=1, f=FN, value=None):
        """arbitrary registry; own: the thread has a context.  value: content of the slot of K of the context (None: arbitrary)"""
        L = self.L
        A = self.eng.A
        self.tokens = set(self.tokens)
        adopt(st, L.s1 if own else L.s0, g=False)
        st.g.update(locked=0, slot=L.slot if own else 0, slot_ever=1 if own else 0, oom=0, ctx=L.C if own else None, linked=1 if own else 0,
                    visited=0, once=0 if cold else 1, users=0, popped=None, pushed=(), calls=())
        self.heap0 = set()
        self.C0 = L.C if own else None
        self.K = K = z3.Int('K')
        st.assume(z3.And(K >= 0, K < MAXN - 1))
        self.K2 = K2 = z3.Int('K2')
        st.assume(z3.And(K2 >= 0, K2 < MAXN - 1, K2 != K))
        self.tn0 = tn = z3.Int('table_size')
        st.assume(z3.And(tn >= 0, tn < MAXN - 1))
        if kstate != 'none':
            st.assume(K < tn)
        self.kstate = kstate
        st.g['K'] = kstate
        # the list of contexts and the free keys live in ghost state; the table is a vector with K tracked
        for o in (L.M, L.C):
            if o in st.mem:
                st.wobj(o).tags['hooked'] = True
        h = Ptr(L.M, L.table)
        self.flag, self.f = flag, f
        if kstate == 'live':
            t = self.mkdata(st, h, self.elem_size(L.T[(L.M, L.table)]), tn, tn, 'table')
            self.set_slot(st, t, 'K', K, {L.tf: (8, f), L.tflag: (1, flag)})
        else:
            t = self.mkdata(st, h, self.elem_size(L.T[(L.M, L.table)]), tn, tn, 'table')
        st.g['nfree'] = z3.Int('free_keys')
        st.assume(st.g['nfree'] >= 0)
        if own:
            for off, role in ((L.storage, 'storage'), (L.atexit, 'atexit'), (L.notify, 'notify')):
                hd = Ptr(L.C, off)
                n = z3.Int('n_' + role)
                st.assume(z3.And(n >= 0, n < MAXN - 1))
                for k in list(st.mem):
                    if k.startswith('vd:%s+%s:' % (L.C, off)):
                        del st.mem[k]
                d = self.mkdata(st, hd, self.elem_size(L.T[(L.C, off)]), n, n, role)
                if role == 'storage':
                    st.assume(n <= tn)
                    self.sn0 = n
                    self.v0 = value if value is not None else A.fresh(st, 64, 'value')
                    self.v2 = A.fresh(st, 64, 'value2')
                    self.set_slot(st, d, 'K', K, {0: (8, self.v0)})
                    self.set_slot(st, d, 'K2', K2, {0: (8, self.v2)})
        self.init_globals = {n for n, o in L.s0.mem.items() if o.tags.get('global') and not o.tags.get('const') and o.cells and n != L.flag[0]}
        if cold:
            for n in self.init_globals:
                o = st.wobj(n)
                o.cells = {}
                o.init = 'zero'
                o.tags['hooked'] = True
            self.saved = {k: st.mem[k].clone() for k in st.mem if k == L.M or k.startswith('vd:%s+' % L.M)}
            for k in self.saved:
                del st.mem[k]
        return st

    def role_of(self, st, h, T):
        L = self.L
        if h.obj == st.g.get('ctx') or h.obj == 'ctxO':
            r = {L.storage: 'storage', L.atexit: 'atexit', L.notify: 'notify'}.get(h.off - (0 if h.obj == L.C else 0))
            if r:
                return r
        if (h.obj, h.off) == (L.M, L.table):
            return 'table'
        # vectors of a context under construction
        if st.mem[h.obj].tags.get('heap'):
            r = {L.storage: 'storage', L.atexit: 'atexit', L.notify: 'notify'}.get(h.off)
            if r and L.T[(L.C, h.off)] == T:
                return r
        return 'local:' + T

    def fields(self, st, o, size):
        L = self.L
        r = o.tags['role']
        if r == 'table':
            return {L.tf: 8, L.tflag: 1}
        return super().fields(st, o, size)

    def other(self, st, role, off, size, idx):
        L = self.L
        A = self.eng.A
        if role == 'atexit' and off == L.af:
            return [(st, Ptr('#fn:other'))]
        if role == 'notify':
            return [(st, Ptr('#mtx:other' if off == L.nm else '#cond:other'))]
        if role == 'table' and off == L.tf:
            s = st.clone()
            return [(s, 0), (st, Ptr('#fn:otherkey'))]
        return [(st, A.fresh(st, 8 * size, 'other'))]

    # ------------------------------------------------------------ lock discipline
    def locked(self, st, what):
        self.ob(st, 'lock', 'registry-lock', st.g['locked'] == 1, what + ' without holding the registry lock')

    def on_field(self, st, o, p, size, what):
        L = self.L
        if o.id in self.init_globals:
            self.ob(st, 'lock', 'initialised-first', st.g['once'] == 1, 'the registry is used before pthread_once')
            return
        if o.id == L.M:
            if not (L.mutex <= p.off < L.mutex + MUTEX_SIZE):
                self.locked(st, 'registry data are accessed (%s)' % what)
        elif o.id == 'ctxO':
            if L.storage <= p.off < L.storage + 24:
                self.locked(st, "another thread's values are accessed")
            else:
                self.ob(st, 'lock', 'private-data', False, "another thread's private data are accessed")
        elif o.id == st.g.get('ctx') and st.g['linked'] and what == 'write':
            if p.off < L.storage + 24 and L.storage < p.off + size:
                self.locked(st, 'the storage of a registered context is changed')

    def on_vec(self, st, h, what):
        o = st.mem[h.obj]
        if o.tags.get('hooked'):
            self.on_field(st, o, h, 24, what)

    def on_elem(self, st, o, p, what):
        r = o.tags['role']
        if r == 'table':
            self.locked(st, 'the key table is accessed')
        elif r == 'storageO':
            self.locked(st, "another thread's value is accessed")
        elif r == 'storage' and st.g['linked']:
            if self.ukey is not None and st.proves(self.eng.A.z(64, p.idx) == self.ukey):
                return
            self.locked(st, 'the value of a key that may be deleted concurrently is accessed')

    def c_lock(self, st, a, ins):
        L = self.L
        p = a[0]
        if not (isinstance(p, Ptr) and p.obj == L.M and p.off == L.mutex):
            raise Unsupported('pthread_mutex_lock(%r)' % (p,))
        self.ob(st, 'lock', 'no-self-deadlock', st.g['locked'] == 0, 'the registry lock is locked twice')
        self.forget_reads(st)
        st.g['locked'] = 1
        st.log('call', 'registry lock acquired')
        return [(s, 'ret', 0) for s in self.rely(st)]

    def c_unlock(self, st, a, ins):
        L = self.L
        self.forget_reads(st)
        p = a[0]
        if isinstance(p, Ptr) and p.obj == L.M and p.off == L.mutex:
            self.ob(st, 'lock', 'unlock-held', st.g['locked'] == 1, 'the registry lock is unlocked though not held')
            st.g['locked'] = 0
            st.log('call', 'registry lock released')
            self.invariant(st)
            return [(st, 'ret', 0)]
        if isinstance(p, Ptr) and p.obj.startswith('#mtx:'):
            self.user_unlock(st, p.obj[5:])
            return [(st, 'ret', 0)]
        raise Unsupported('pthread_mutex_unlock(%r)' % (p,))

    def c_notify(self, st, a, ins):
        p = a[0]
        if isinstance(p, Ptr) and p.obj.startswith('#cond:'):
            self.user_notify(st, p.obj[6:], 'broadcast' in ins.a['callee'][1])
            return [(st, 'ret', 0)]
        raise Unsupported('pthread_cond_broadcast(%r)' % (p,))

    def c_once(self, st, a, ins):
        L = self.L
        if not (isinstance(a[0], Ptr) and (a[0].obj, a[0].off) == L.flag and isinstance(a[1], Ptr) and a[1].obj == L.init.obj):
            st.fail('one-initialisation', 'pthread_once with another flag or function')
            return [(st, 'stop', None)]
        if not st.g['once']:
            st.g['once'] = 1
            for k, o in self.saved.items():
                st.mem[k] = o.clone()
            for n in self.init_globals:
                o = L.s0.mem[n].clone()
                st.mem[n] = o
        return [(st, 'ret', 0)]

    def table(self, st):
        return self.hdr(st, Ptr(self.L.M, self.L.table))

    def store(self, st, obj=None):
        """(data object, size) of the values of the thread's context"""
        c = obj or st.g['ctx']
        if c is None or c not in st.mem:
            return None, 0
        od, n, cap = self.hdr(st, Ptr(c, self.L.storage))
        return od, n

    def kslot(self, st, name='K'):
        """value the calling thread sees for K: [(cond, value)]; concrete representation of the slot, ignoring the size"""
        od, n = self.store(st)
        if od is None:
            return None
        c = st.mem[od].cells.get((name, 0))
        return None if c is None else c[1]

    def value(self, st, name='K'):
        """the abstract value of K (or K2) for the calling thread, as z3 term or Ptr or 0, per case: [(cond, value)]"""
        od, n = self.store(st)
        if od is None:
            return [(z3.BoolVal(True), 0)]
        pos = self.K if name == 'K' else self.K2
        v = self.kslot(st, name)
        n = self.eng.A.z(64, n)
        return [(pos >= n, 0), (pos < n, v)]

    def eqv(self, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return z3.BoolVal(isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off)
        if a is UNDEF or b is UNDEF or a is None or b is None:
            return z3.BoolVal(False)
        return self.eng.A.z(64, a) == self.eng.A.z(64, b)

    def value_is(self, st, want, name='K'):
        """condition: the thread's value of K equals want (itself a case list)"""
        return z3.And([z3.Implies(z3.And(c1, c2), self.eqv(v1, v2)) for c1, v1 in self.value(st, name) for c2, v2 in want])

    def is_null(self, st, name='K'):
        return self.value_is(st, [(z3.BoolVal(True), 0)], name)

    # ------------------------------------------------------------ rely / invariant
    def rely(self, st):
        """what other threads may have done to the registry since it was last seen"""
        L = self.L
        A = self.eng.A
        h = Ptr(L.M, L.table)
        od, n, cap = self.table(st)
        n2 = z3.Int(fresh_name('tn'))
        st.assume(z3.And(n2 >= A.z(64, n), n2 < MAXN - 1))
        sd, sn = self.store(st)
        if sd is not None:
            st.assume(n2 >= A.z(64, sn))
        self.grow(st, h, L.T[(L.M, L.table)], n2)
        st.g['nfree'] = z3.Int(fresh_name('free'))
        st.assume(st.g['nfree'] >= 0)
        st.g['top'] = None
        st.g['tn'] = n2
        if self.cleanup and st.g['v'] == 'set':
            s = st.clone()
            s.log('env', 'another thread deletes the key and takes the value')
            self.take(s)
            return [st, s]
        return [st]

    def take(self, st):
        od, n = self.store(st)
        st.wobj(od).cells[('K', 0)] = (64, 0)
        st.g['v'] = 'gone'
        self.forget_key(st)

    def forget_key(self, st):
        td = self.table(st)[0]
        self.drop_slot(st, td, 'K')

    def invariant(self, st):
        """guarantee: holds whenever the registry lock is released"""
        if 'K' in st.g and st.g['K'] == 'free' and self.kstate == 'live':
            self.ob(st, 'iso', 'free-key-has-no-value', self.is_null(st), 'the key is available for reuse while a thread still has a value for it')

    # ------------------------------------------------------------ list of contexts
    def node_load(self, st, o, p, size):
        L = self.L
        ctx = st.g.get('ctx')
        rel = None
        if o.id == L.M and p.off in (L.root, L.root + 8):
            rel = 'root'
        elif o.id == 'ctxO' and p.off in (L.hook, L.hook + 8):
            rel = 'O'
        elif o.id == ctx and st.g['linked'] and p.off in (L.hook, L.hook + 8):
            rel = 'C'
        if rel is None:
            return None
        self.locked(st, 'the list of contexts is walked')
        outs = []
        if rel == 'root':
            st.g['visited'] = 0
        if rel == 'C':
            st.g['visited'] = 1
        s = st.clone()
        self.mkother(s)
        outs.append((s, Ptr('ctxO', L.hook)))
        if st.g['linked'] and not st.g['visited']:
            s = st.clone()
            s.g['visited'] = 1
            outs.append((s, Ptr(ctx, L.hook)))
        else:
            s = st.clone()
            outs.append((s, Ptr(L.M, L.root)))
        return outs

    def node_store(self, st, o, p, size, v):
        L = self.L
        if o.id == L.M and L.root <= p.off < L.root + 16:
            raise Unsupported('list of contexts is changed directly')
        if o.id == st.g.get('ctx') and L.hook <= p.off < L.hook + 16 and st.g['linked']:
            self.ob(st, 'lock', 'list-consistent', False, 'the links of a registered context are overwritten')
        return False

    def mkother(self, st):
        L = self.L
        for k in list(st.mem):
            if k == 'ctxO' or k.startswith('vd:ctxO+'):
                del st.mem[k]
        o = Obj('ctxO', None, 'undef', None, {'hooked': True})
        o.owner = st
        st.mem['ctxO'] = o
        n = z3.Int(fresh_name('on'))
        st.assume(z3.And(n >= 0, n < MAXN - 1))
        self.mkdata(st, Ptr('ctxO', L.storage), self.elem_size(L.T[(L.C, L.storage)]), n, n, 'storageO')

    def c_link(self, st, a, ins):
        L = self.L
        d = self.demangled(ins.a['callee'][1])
        self.locked(st, 'the list of contexts is changed')
        if '::unlink(' in d:
            n = a[0]
            ok = isinstance(n, Ptr) and n.obj == st.g['ctx'] and n.off == L.hook and st.g['linked'] == 1
            self.ob(st, 'lock', 'list-consistent', ok, 'a context is removed that is not the registered context of this thread')
            st.g['linked'] = 0
            return [(st, 'ret', None)]
        pos, n = a[0], a[1]
        ok = isinstance(n, Ptr) and n.off == L.hook and n.obj in st.mem and not st.g['linked'] and isinstance(pos, Ptr) and pos.obj == L.M and pos.off == L.root
        self.ob(st, 'lock', 'list-consistent', ok, 'a context is registered that is registered already')
        if not ok:
            return [(st, 'stop', None)]
        st.g['ctx'] = n.obj
        st.g['linked'] = 1
        st.wobj(n.obj).tags['hooked'] = True
        for off, role in ((L.storage, 'storage'), (L.atexit, 'atexit'), (L.notify, 'notify')):
            od = self.hdr(st, Ptr(n.obj, off))[0]
            if od:
                st.wobj(od).tags['role'] = role
        return [(st, 'ret', None)]

    # ------------------------------------------------------------ free keys
    def c_stack(self, st, a, ins):
        d = self.demangled(ins.a['callee'][1])
        m = re.search(r'>::(~?\w+)(?:<.*>)?\(.*\)', d).group(1)
        A = self.eng.A
        if not (isinstance(a[0], Ptr) and (a[0].obj, a[0].off) in self.L.stack):
            raise Unsupported('std::stack outside of the registry')
        self.locked(st, 'the list of free keys is accessed')
        nf = st.g['nfree']
        if m == 'size':
            return [(st, 'ret', nf)]
        if m == 'empty':
            outs = []
            for c, v in ((nf == 0, 1), (nf > 0, 0)):
                if st.feasible(c):
                    s = st.clone()
                    s.assume(c)
                    outs.append((s, 'ret', v))
            return outs
        if m == 'top':
            st.oblige('stack-not-empty', nf > 0, 'top() of an empty stack')
            outs = []
            for s in self.mktop(st):
                outs.append((s, 'ret', Ptr('#top')))
            return outs
        if m == 'pop':
            st.oblige('stack-not-empty', nf > 0, 'pop() of an empty stack')
            outs = []
            for s in self.mktop(st):
                s.g['popped'] = s.g['top']
                s.g['npopped'] = s.g.get('npopped', 0) + 1
                s.g['top'] = None
                s.g['nfree'] = z3.simplify(s.g['nfree'] - 1)
                s.mem.pop('#top', None)
                outs.append((s, 'ret', None))
            return outs
        if m in ('push', 'emplace'):
            k = A.z(32, st.rd(a[1], 4))
            outs = [self.bad_alloc(st, 'std::stack::push')]
            st.g['pushed'] = st.g['pushed'] + (k,)
            st.g['top'] = None
            st.g['nfree'] = z3.simplify(nf + 1)
            if self.kstate == 'live':
                same = k == self.K
                self.ob(st, 'lock', 'frees-own-key', same, 'a key other than the deleted one becomes available')
                self.ob(st, 'lock', 'key-freed-once', st.g['K'] == 'live', 'the key is put into the list of free keys twice')
            st.g['K'] = 'free'
            outs.append((st, 'ret', None))
            return outs
        raise Unsupported('std::stack::' + m)

    def mktop(self, st):
        """free keys are distinct, in the table and not live"""
        if st.g.get('top') is None:
            t = self.eng.A.fresh(st, 32, 'freekey')
            tn = self.eng.A.z(64, self.table(st)[1])
            st.assume(z3.And(t >= 0, t < tn))
            if self.kstate == 'live':
                st.assume(t != self.K)
            st.g['top'] = t
        o = Obj('#top', 4, 'undef', None, {})
        o.owner = st
        o.cells[0] = (4, st.g['top'])
        st.mem['#top'] = o
        return [st]

    # ------------------------------------------------------------ user functions
    def indirect(self, st, fp, args, ins):
        if isc(fp) and fp == 0:
            st.fail('memory-safety', 'a null function is called')
            return [(st, 'stop', None)]
        if not (isinstance(fp, Ptr) and fp.obj.startswith('#fn:')):
            if fp is UNDEF:
                st.fail('memory-safety', 'an undefined function is called')
                return [(st, 'stop', None)]
            raise Unsupported('indirect call %r' % (fp,))
        self.ob(st, 'lock', 'user-code-unlocked', st.g['locked'] == 0, 'a user function is called while the registry lock is held')
        self.forget_reads(st)
        st.log('call', 'user function %s(%s)' % (fp.obj, args[0]))
        return [(s, 'ret', None) for s in self.user(st, fp.obj[4:], args[0])]

    def user(self, st, name, arg):
        st.fail('no-user-code', 'unexpected call of a user function')
        return [st]

    def not_null(self, st, arg):
        if not isinstance(arg, Ptr):
            self.ob(st, 'clean', 'null-not-cleaned', False if arg is UNDEF or arg is None else self.eng.A.z(64, arg) != 0, 'a null value is cleaned up')

    def user_unlock(self, st, name):
        st.fail('no-user-code', 'unexpected unlock')

    def user_notify(self, st, name, every):
        st.fail('no-user-code', 'unexpected notification')

    # ------------------------------------------------------------ lookup of the context
    def seen_ctx(self, st):
        if self.L.tls:
            o = st.mem.get(self.L.tls[0])
            if o is None:
                return 0
            return st.rd(Ptr(self.L.tls[0]), 8)
        return st.g['slot']

    def c_delete(self, st, a, ins):
        p = a[0]
        if isinstance(p, Ptr) and p.obj == st.g.get('ctx'):
            self.ob(st, 'lock', 'deleted-after-removal', st.g['linked'] == 0, 'a context is destroyed while it is registered')
        return super().c_delete(st, a, ins)

    def ctx_consistent(self, st):
        """at the end of an operation: the thread's context is registered and found again, or there is none and nothing leaks"""
        L = self.L
        self.ob(st, 'lock', 'lock-released', st.g['locked'] == 0, 'the registry lock is still held')
        c = st.g['ctx'] if st.g['ctx'] in st.mem else None
        if c is None or not st.g['linked']:
            self.ob(st, 'lock exit', 'context-registered', isc(self.seen_ctx(st)) and self.seen_ctx(st) == 0 and isc(st.g['slot']) and st.g['slot'] == 0,
                    'the thread refers to a context that is not registered')
            left = [k for k in st.mem if k not in self.before and st.mem[k].tags.get('heap') and not k.startswith(('vd:%s+' % L.M, 'vd:ctxO+'))]
            self.ob(st, 'lock', 'no-leak', not left, 'memory is leaked: %s' % left)
        else:
            for v in (self.seen_ctx(st), st.g['slot']):
                self.ob(st, 'lock exit', 'context-registered', isinstance(v, Ptr) and v.obj == c and v.off == L.slot.off,
                        'a registered context is not the one the thread will use and destroy at exit')

    def mark(self, st):
        self.before = {k for k, o in st.mem.items() if o.tags.get('heap')} | {self.L.M}

    def loc_value(self, st, loc):
        return st.frames[-1].env[loc[1]] if loc[0] == 'phi' else st.mem[loc[1]].cells[loc[2]][1]

    def auto_candidate(self, st, loc):
        if loc[0] == 'mem':
            if loc[1].startswith('vd:'):
                return False
            v = self.loc_value(st, loc)
            if isinstance(v, Ptr) and v.obj.startswith('vd:'):
                o = st.mem[loc[1]]
                return not any(k in o.cells and isinstance(o.cells[k][1], Ptr) and o.cells[k][1].obj == v.obj and isc(o.cells[k][1].idx) and o.cells[k][1].idx == 0 for k in (loc[2] - 8, loc[2] - 16))
        return loc[0] != 'g'

    def loop_invariants(self, st, base, wide):
        out = []
        A = self.eng.A
        def idx(cells, loc):
            if loc not in cells:
                return None
            w, v = cells[loc]
            if isinstance(v, Ptr):
                return A.z(64, v.idx) if v.obj.startswith('vd:') else None
            if loc[0] == 'g':
                return None
            if isc(v):
                return A.z(w, v) if w in (32, 64) else None
            if z3.is_expr(v) and z3.is_int(v):
                return v
            return None
        def cell_idx(s, loc):
            try:
                v = s.frames[-1].env[loc[1]] if loc[0] == 'phi' else s.mem[loc[1]].cells[loc[2]][1]
            except KeyError:
                return None
            return v if z3.is_expr(v) and z3.is_int(v) else z3.IntVal(v) if isc(v) else None
        # vectors: size = distance of the header's pointers, tracked positions inside
        heads = []
        for oid, o in st.mem.items():
            if o.stride:
                continue
            for off, (s, v) in o.cells.items():
                if isinstance(off, int) and s == 8 and isinstance(v, Ptr) and v.obj.startswith('vd:') and isc(v.idx) and v.idx == 0:
                    heads.append((oid, off))
        def vec(f):
            def mk(oid, off):
                def inv(eng, s, cells):
                    if oid not in s.mem:
                        return None
                    c = s.mem[oid].cells
                    if not all(off + k in c and isinstance(c[off + k][1], Ptr) for k in (0, 8, 16)):
                        return None
                    d = s.mem.get(c[off][1].obj)
                    if d is None:
                        return None
                    return f(s, d, *(A.z(64, c[off + k][1].idx) for k in (8, 16)))
                return inv
            return [mk(*h) for h in heads]
        out += vec(lambda s, d, fin, cap: fin >= 0)
        out += vec(lambda s, d, fin, cap: fin <= MAXN)
        out += vec(lambda s, d, fin, cap: fin == 0)
        out += vec(lambda s, d, fin, cap: cap >= fin)
        def tn(s):
            try:
                return A.z(64, self.table(s)[1])
            except Unsupported:
                return None
        def le(s, d, fin, cap):
            t = tn(s) if d.tags['role'] == 'storage' else None
            return None if t is None else fin <= t
        out += vec(le)
        names = ['e1', 'e2', 'n1', 't:#arg:v', 't:null']
        for nm in names:
            def inside(s, d, fin, cap, nm=nm):
                c = d.cells.get((nm, 'pos'))
                return None if c is None else z3.And(A.z(64, c[1]) >= 0, A.z(64, c[1]) < fin)
            out += vec(inside)
            def outside(s, d, fin, cap, nm=nm):
                c = d.cells.get((nm, 'pos'))
                return None if c is None else A.z(64, c[1]) >= fin
            out += vec(outside)
        def order(s, d, fin, cap):
            c, e = d.cells.get(('e1', 'pos')), d.cells.get(('e2', 'pos'))
            return None if c is None or e is None else A.z(64, c[1]) < A.z(64, e[1])
        out += vec(order)
        def kin(s, d, fin, cap):
            return self.K < fin if d.tags['role'] == 'storage' and isinstance(d.cells.get(('K', 0), (0, 0))[1], Ptr) else None
        out += vec(kin)
        # positions reached by the loops relative to tracked ones
        up = [lambda x, p: x > p, lambda x, p: x >= p]
        down = [lambda x, p: x < p, lambda x, p: x <= p]
        def pos(s, nm):
            if nm == 'K':
                return self.K
            for o in s.mem.values():
                if o.stride and (nm, 'pos') in o.cells:
                    return A.z(64, o.cells[(nm, 'pos')][1])
            return None
        hdrs = {('mem', o, f + k) for o, f in heads for k in (0, 8, 16)}
        for loc in wide:
            if loc[0] == 'g' or loc in hdrs or (loc[0] == 'mem' and loc[1].startswith('vd:')):
                continue
            ptr = isinstance(self.loc_value(st, loc), Ptr)
            def own(s, cells, loc, nm):
                # position of the tracked element nm in the vector loc points into
                v = cells[loc][1] if loc in cells else None
                if not isinstance(v, Ptr) or v.obj not in s.mem:
                    return None
                c = s.mem[v.obj].cells.get((nm, 'pos'))
                return None if c is None else A.z(64, c[1])
            for nm in ['K'] + names:
                for f in up + down:
                    def inv(eng, s, cells, loc=loc, nm=nm, f=f, ptr=ptr):
                        x, p = idx(cells, loc), (own(s, cells, loc, nm) if ptr else pos(s, nm))
                        return None if x is None or p is None else f(x, p)
                    inv.chain = (loc, nm, f in up)
                    out.append(inv)
            # within the vector it points into / the values of the context
            def inb(eng, s, cells, loc=loc):
                if loc not in cells:
                    return None
                v = cells[loc][1]
                if not isinstance(v, Ptr) or v.obj not in s.mem or not v.obj.startswith('vd:'):
                    return None
                n = self.vec_n(s, s.mem[v.obj])
                return None if n is None else z3.And(A.z(64, v.idx) >= 0, A.z(64, v.idx) <= n)
            out.append(inb)
            if not ptr:
                # an index: within the size of a vector
                out += vec(lambda s, d, fin, cap, loc=loc: None if cell_idx(s, loc) is None else z3.And(cell_idx(s, loc) >= 0, cell_idx(s, loc) <= fin))
            if not ptr and st.g.get('ctx') in st.mem:
                def ub(eng, s, cells, loc=loc):
                    x = idx(cells, loc)
                    if x is None or s.g['ctx'] not in s.mem:
                        return None
                    c = s.mem[s.g['ctx']].cells.get(self.L.storage + 8)
                    if c is None or not isinstance(c[1], Ptr):
                        return None
                    return z3.And(x >= 0, x <= A.z(64, c[1].idx))
                out.append(ub)
        return out


# ---------------------------------------------------------------------------------------------------- operations
class AddCallback(Tss):
    """appends exactly one entry; on failure nothing is registered"""
    track_new = True
    kind = 'atexit'

    def setup(self, own, cold):
        def f(st):
            self.build(st, own=own, cold=cold)
            self.mark(st)
            self.x = [Ptr('#fn:new'), Ptr('#arg:new')] if self.kind == 'atexit' else [Ptr('#mtx:new'), Ptr('#cond:new')]
            self.n0 = self.counts(st) if own else None
            return [(st, self.x)]
        return f

    def other(self, st, role, off, size, idx):
        # an earlier entry may refer to the same function, argument, mutex or condition variable
        outs = super().other(st, role, off, size, idx)
        L = self.L
        if role == self.kind and size == 8:
            f1, f2 = (L.af, L.ax) if role == 'atexit' else (L.nm, L.nc)
            if off in (f1, f2):
                s = st.clone()
                outs.append((s, self.x[0 if off == f1 else 1]))
        return outs

    def counts(self, st):
        L = self.L
        return {r: self.hdr(st, Ptr(st.g['ctx'], o)) for r, o in (('atexit', L.atexit), ('notify', L.notify), ('storage', L.storage))}

    def unchanged(self, st, but=None):
        A = self.eng.A
        asp = 'exit' if self.kind == 'atexit' else 'notify'
        if st.g['ctx'] is None or st.g['ctx'] not in st.mem:
            return
        now = self.counts(st)
        for r in now:
            want = (A.z(64, self.n0[r][1]) if self.n0 else z3.IntVal(0)) + (1 if r == but else 0)
            if r in ('atexit', 'notify') or not self.n0:
                self.ob(st, asp, 'registers-one-entry' if but else 'failure-registers-nothing', A.z(64, now[r][1]) == want, 'wrong number of %s entries' % r)

    def on_return(self, st, v):
        L = self.L
        A = self.eng.A
        asp = 'exit' if self.kind == 'atexit' else 'notify'
        self.ctx_consistent(st)
        c = st.g['ctx']
        if c is None or c not in st.mem:
            self.ob(st, asp, 'registers-one-entry', False, 'nothing is registered')
            return
        self.unchanged(st, self.kind)
        od, n, cap = self.counts(st)[self.kind]
        ok = False
        if od:
            w = self.slot(st.mem[od], 'w')
            f1, f2 = (L.af, L.ax) if self.kind == 'atexit' else (L.nm, L.nc)
            ok = 'pos' in w and isinstance(w.get(f1), Ptr) and isinstance(w.get(f2), Ptr) and w[f1].obj == self.x[0].obj and w[f2].obj == self.x[1].obj and w[f1].off == w[f2].off == 0
            if ok:
                ok = A.z(64, w['pos']) == A.z(64, n) - 1
        self.ob(st, asp, 'registers-given-entry', ok, 'the last entry is not the one given')
        self.own_context(st)

    def own_context(self, st):
        if self.C0 is not None:
            self.ob(st, 'exit', 'same-context', st.g['ctx'] == self.C0, "the entry goes to a context other than the thread's")

    def on_throw(self, st, exc):
        self.ctx_consistent(st)
        self.unchanged(st)


class AddNotify(AddCallback):
    kind = 'notify'


class GetValue(Tss):
    def setup(self, own):
        def f(st):
            self.build(st, own=own)
            self.mark(st)
            self.ukey = self.K
            return [(st, [self.K])]
        return f

    def on_return(self, st, v):
        self.ctx_consistent(st)
        self.ob(st, 'iso', 'returns-own-value', self.value_is(st, [(z3.BoolVal(True), v)]), "does not return the calling thread's value of this key")
        if self.C0 is not None:
            self.ob(st, 'iso', 'value-unchanged', self.value_is(st, [(z3.BoolVal(True), self.v0)]) if False else self.same(st), 'reading changes a value')

    def same(self, st):
        cases = [(self.K >= self.sn0, 0), (self.K < self.sn0, self.v0)]
        cases2 = [(self.K2 >= self.sn0, 0), (self.K2 < self.sn0, self.v2)]
        return z3.And(self.value_is(st, cases), self.value_is(st, cases2, 'K2'))


class SetValue(GetValue):
    def setup(self, own):
        def f(st):
            self.build(st, own=own)
            self.mark(st)
            self.ukey = self.K
            self.v = self.eng.A.fresh(st, 64, 'new_value')
            return [(st, [self.K, self.v])]
        return f

    def on_return(self, st, v):
        A = self.eng.A
        self.ctx_consistent(st)
        T = z3.BoolVal(True)
        if st.g['ctx'] is not None and st.g['ctx'] != self.C0:
            self.adopt_fresh(st)
        self.ob(st, 'iso', 'value-stored', self.value_is(st, [(T, self.v)]), "the calling thread's value of the key is not the one stored")
        if self.C0 is not None:
            self.ob(st, 'iso', 'same-context', st.g['ctx'] == self.C0, 'the thread changes its context')
            self.ob(st, 'iso', 'other-values-kept', self.value_is(st, [(self.K2 >= self.sn0, 0), (self.K2 < self.sn0, self.v2)], 'K2'), 'the value of another key changes')
        elif st.g['ctx'] in st.mem:
            self.ob(st, 'iso', 'other-values-null', self.is_null(st, 'K2'), 'the value of another key becomes non-null')
        od, n = self.store(st)
        if od:
            self.ob(st, 'lock', 'storage-within-table', A.z(64, n) <= st.g.get('tn', self.tn0), 'storage larger than the key table')

    def adopt_fresh(self, st):
        pass

    def grow(self, st, h, T, n2):
        od = self.hdr(st, h)[0]
        nd = super().grow(st, h, T, n2)
        if not od and st.mem[nd].tags['role'] == 'storage':
            # first storage of a context: no element has been written yet
            self.set_slot(st, nd, 'K', self.K, {})
            self.set_slot(st, nd, 'K2', self.K2, {})
        return nd

    def on_throw(self, st, exc):
        self.ctx_consistent(st)
        if self.C0 is not None:
            self.ob(st, 'iso', 'failure-changes-nothing', self.same(st), 'a value changes although storing fails')


class NewKey(Tss):
    track_new = True

    def setup(self, cold, withf=True):
        def f(st):
            self.build(st, own=True, cold=cold)
            self.mark(st)
            self.newf = Ptr('#fn:new') if withf else 0
            self.fl = self.eng.A.fresh(st, 8, 'flag')
            st.assume(z3.ULE(self.fl, 1))
            return [(st, [self.newf, self.eng.A.cast(st, 'trunc', 8, 1, self.fl)])]
        return f

    def on_return(self, st, v):
        A = self.eng.A
        L = self.L
        self.ctx_consistent(st)
        r = A.z(32, v)
        tn = st.g.get('tn')
        od, n, cap = self.table(st)
        n = A.z(64, n)
        if tn is None:
            self.ob(st, 'iso lock', 'key-unique', False, 'a key is handed out without consulting the registry')
            return
        if st.g.get('popped') is not None:
            self.ob(st, 'iso', 'key-unique', z3.And(r == st.g['popped'], n == tn, st.g['npopped'] == 1), 'the key handed out is not the one taken from the free keys')
        else:
            self.ob(st, 'iso', 'key-unique', z3.And(r == tn, n == tn + 1), 'the key handed out is not a new one')
        self.ob(st, 'iso clean', 'key-not-shared', r != self.K, 'a key in use is handed out again')
        k = self.slot(st.mem[od], 'K')
        self.ob(st, 'iso clean', 'other-keys-kept', isinstance(k.get(L.tf), Ptr) and k[L.tf].obj == self.f.obj and k.get(L.tflag) == self.flag, "another key's cleanup changes")
        w = self.slot(st.mem[od], 'w')
        nf = w.get(L.tf)
        okf = 'pos' in w and (isinstance(nf, Ptr) and nf.obj == '#fn:new' if isinstance(self.newf, Ptr) else isc(nf) and nf == 0)
        self.ob(st, 'clean', 'cleanup-recorded', (A.z(64, w['pos']) == r) if okf else False, 'the cleanup function of the new key is not recorded')
        fl = w.get(L.tflag)
        self.ob(st, 'clean', 'cleanup-flag-recorded', self.eng.A.z(8, fl) == self.fl if fl is not None and fl is not UNDEF else False, 'cleanup at deletion of the new key is not recorded')

    def on_throw(self, st, exc):
        A = self.eng.A
        self.ctx_consistent(st)
        if st.g['once']:
            n = A.z(64, self.table(st)[1])
            self.ob(st, 'iso', 'failure-changes-nothing', z3.And(n == st.g.get('tn', self.tn0), st.g['popped'] is None), 'the table changes although creating a key fails')


class DeleteKey(Tss):
    """the values of all threads are cleaned up exactly once, the key becomes available once"""
    def setup(self, own, has, withf, flag=1):
        def f(st):
            self.tokens = {'#arg:v'} if has else {'null'}
            self.build(st, own=own, f=FN if withf else 0, flag=flag, value=Ptr('#arg:v') if has else 0)
            self.mark(st)
            self.has, self.withf = has and own, withf
            st.g['cleaned'] = 0
            if own and has:
                st.assume(self.K < self.sn0)
            return [(st, [self.K])]
        return f

    def user(self, st, name, arg):
        self.ob(st, 'clean', 'own-cleanup', name == 'f', "a function other than the key's cleanup is called")
        if isinstance(arg, Ptr) and arg.obj == '#arg:v':
            self.ob(st, 'clean', 'cleaned-once', st.g['cleaned'] == 0, 'a value is cleaned up twice')
            self.ob(st, 'clean', 'detached-before-cleanup', self.is_null(st), 'a value is cleaned up while the thread still holds it')
            st.g['cleaned'] = 1
        if isc(arg):
            # a value of another thread stands for any: the thread whose value is null is the one tracked
            self.not_null(st, arg)
        return [st]

    def on_return(self, st, v):
        self.ctx_consistent(st)
        if self.flag:
            self.ob(st, 'iso lock', 'key-freed-once', st.g['K'] == 'free', 'the key never becomes available again')
            if self.C0:
                self.ob(st, 'iso', 'no-value-left', self.is_null(st), 'a thread keeps its value of the deleted key')
        else:
            self.ob(st, 'iso lock', 'key-kept', st.g['K'] == 'live', 'a key whose values survive is made available for reuse')
        if self.C0:
            self.ob(st, 'iso', 'other-values-kept', self.value_is(st, [(self.K2 >= self.sn0, 0), (self.K2 < self.sn0, self.v2)], 'K2'), 'the value of another key changes')
        if self.has and self.withf and self.flag:
            self.ob(st, 'clean', 'cleaned-once', st.g['cleaned'] == 1, 'a value is not cleaned up when its key is deleted')
        else:
            self.ob(st, 'clean', 'not-cleaned', st.g['cleaned'] == 0, 'a value is cleaned up that must not be')


class Exit(Tss):
    """thread exit.  tokens: e1, e2 exit functions (e1 registered before e2), v a value, n1 a notification; each present at
       the start or registered late, by user code called at exit"""
    cleanup = True

    def setup(self, early, late, withf=True, null=False):
        def f(st):
            L = self.L
            A = self.eng.A
            self.tokens = {'#arg:v'}
            self.build(st, own=True, f=FN if withf else 0, value=Ptr('#arg:v') if 'v' in early else None)
            self.withf = withf
            st.g['slot'] = 0
            st.g['v'] = 'set' if 'v' in early else 'pending' if 'v' in late else 'none'
            st.g['late'] = tuple(sorted(set(late) - {'v'}))
            st.g['reg'] = tuple(sorted(set(early) - {'v'}))
            st.g['done'] = ()
            st.g['notified'] = ()
            st.g['dup'] = 0
            if 'v' in early:
                st.assume(self.K < self.sn0)
            last = None
            for e in ('e1', 'e2', 'n1'):
                if e in early:
                    last = self.place(st, e, z3.IntVal(0), last if e == 'e2' else None)
            self.mark(st)
            return [(st, [0 if null else L.slot])]
        return f

    def normalise(self, st):
        super().normalise(st)
        # a value that is not the tracked one is arbitrary
        od = self.store(st)[0]
        if od is not None:
            for name in ('K2',) if st.g['v'] == 'set' else ('K2', 'K'):
                if (name, 0) in st.mem[od].cells:
                    del st.wobj(od).cells[(name, 0)]
            if ('K2', 'pos') in st.mem[od].cells:
                self.drop_slot(st, od, 'K2')

    def place(self, st, e, lo, after):
        L = self.L
        od, n, cap = self.hdr(st, Ptr(st.g['ctx'], L.notify if e == 'n1' else L.atexit))
        pos = z3.Int(fresh_name('pos_' + e))
        st.assume(z3.And(pos >= lo, pos < self.eng.A.z(64, n)))
        if after is not None:
            st.assume(pos > after)
        if e == 'n1':
            el = {L.nm: (8, Ptr('#mtx:n1')), L.nc: (8, Ptr('#cond:n1'))}
        else:
            el = {L.af: (8, Ptr('#fn:' + e)), L.ax: (8, Ptr('#arg:' + e))}
        self.set_slot(st, od, e, pos, el)
        return pos

    def other(self, st, role, off, size, idx):
        outs = super().other(st, role, off, size, idx)
        if role == 'notify' and off == self.L.nc:
            # the same condition variable with another mutex is not excluded
            s = st.clone()
            s.g['dup'] = 1
            outs.append((s, Ptr('#cond:n1')))
        return outs

    def user(self, st, name, arg):
        c = st.g['ctx']
        alive = c in st.mem and st.g['linked']
        self.ob(st, 'exit iso clean notify', 'context-available', alive and all(isinstance(v, Ptr) and v.obj == c for v in (self.seen_ctx(st), st.g['slot'])),
                'a function called at thread exit cannot reach the context of its thread: what it registers may be lost')
        self.ob(st, 'notify', 'notify-last', not st.g['notified'], 'a function is called at thread exit after waiters have been notified')
        a = arg.obj[5:] if isinstance(arg, Ptr) and arg.obj.startswith('#arg:') else None
        if a in ('e1', 'e2') or name in ('e1', 'e2'):
            self.ob(st, 'exit', 'own-argument', a == name, 'an exit function is called with the argument of another one')
            self.ob(st, 'exit', 'called-once', a not in st.g['done'], 'an exit function is called twice')
            if a == 'e1' and 'e2' in st.g['reg']:
                self.ob(st, 'exit', 'reverse-order', 'e2' in st.g['done'], 'exit functions are not called in reverse order of registration')
            st.g['done'] = tuple(sorted(set(st.g['done']) | {a}))
        if a == 'v':
            self.ob(st, 'clean', 'own-cleanup', name == 'f', 'a value is passed to a function that is not its cleanup function')
            self.ob(st, 'clean', 'cleaned-once', st.g['v'] == 'set', 'a value is cleaned up that is cleaned up elsewhere')
            k = self.kslot(st)
            self.ob(st, 'clean', 'detached-before-cleanup', not (isinstance(k, Ptr) and k.obj == '#arg:v'), 'a value is cleaned up while the thread still holds it')
            st.g['v'] = 'gone'
            self.forget_key(st)
        if name in ('f', 'otherkey'):
            self.not_null(st, arg)
        return self.effects(st)

    def more(self, st, off, role):
        """user code appends any number of entries"""
        L = self.L
        h = Ptr(st.g['ctx'], off)
        od, n, cap = self.hdr(st, h)
        n2 = z3.Int(fresh_name('n'))
        st.assume(z3.And(n2 >= self.eng.A.z(64, n), n2 < MAXN - 1))
        if od is None:
            self.mkdata(st, h, self.elem_size(L.T[(L.C, off)]), n2, n2, role)
        else:
            self.grow(st, h, L.T[(L.C, off)], n2)
        return self.eng.A.z(64, n)

    def effects(self, st):
        L = self.L
        A = self.eng.A
        if st.g['ctx'] not in st.mem:
            return [st]
        na = self.more(st, L.atexit, 'atexit')
        nn = self.more(st, L.notify, 'notify')
        od = self.store(st)[0]
        ks = None if od is None else st.mem[od].cells.get(('K', 0), (0, None))[1]
        self.more(st, L.storage, 'storage')
        od = self.store(st)[0]
        if ('K', 'pos') not in st.mem[od].cells:
            self.set_slot(st, od, 'K', self.K, {})
        outs = [st]
        # late registrations
        if st.g['late']:
            s = st.clone()
            late = s.g['late']
            last = None
            for e in late:
                last = self.place(s, e, nn if e == 'n1' else na, last if e == 'e2' else None)
            if s.feasible():
                s.g['reg'] = tuple(sorted(set(s.g['reg']) | set(late)))
                s.g['late'] = ()
                s.log('env', 'the function registers ' + ', '.join(late))
                outs.append(s)
        res = []
        for s in outs:
            def setk(x, v):
                x.wobj(self.store(x)[0]).cells[('K', 0)] = (64, v)
            held = s.g['v'] == 'set'
            if held:
                res.append(s)
                s2 = s.clone()
                s2.g['v'] = 'gone'
                setk(s2, A.fresh(s2, 64, 'other'))
                self.forget_key(s2)
                s2.log('env', 'the function takes the value')
                res.append(s2)
            else:
                setk(s, A.fresh(s, 64, 'other'))
                if s.g['v'] == 'pending':
                    s2 = s.clone()
                    od, n = self.store(s2)
                    s2.assume(self.K < A.z(64, n))
                    if s2.feasible():
                        s2.g['v'] = 'set'
                        setk(s2, Ptr('#arg:v'))
                        s2.log('env', 'the function stores the value')
                        res.append(s2)
                res.append(s)
        return res

    def settled(self, st, name):
        missing = [e for e in st.g['reg'] if e[0] == 'e' and e not in st.g['done']]
        self.ob(st, 'exit' if name == 'end' else 'notify', 'called-once' if name == 'end' else 'notify-last', not missing, 'an exit function is not called' if name == 'end' else 'waiters are notified before an exit function is called')
        self.ob(st, 'clean' if name == 'end' else 'notify', 'cleaned-once' if name == 'end' else 'notify-last', not (st.g['v'] == 'set' and self.withf),
                'a value is not cleaned up' if name == 'end' else 'waiters are notified before a value is cleaned up')

    def user_unlock(self, st, name):
        if name == 'n1':
            self.ob(st, 'notify', 'unlock-once', 'unlock' not in st.g['notified'], 'the mutex is unlocked twice')
            st.g['notified'] = tuple(sorted(set(st.g['notified']) | {'unlock'}))
        else:
            st.g['notified'] = tuple(sorted(set(st.g['notified']) | {'other'}))
        self.settled(st, 'notify')
        self.ob(st, 'lock', 'user-code-unlocked', st.g['locked'] == 0, 'waiters are released while the registry lock is held')

    def user_notify(self, st, name, every):
        # the mutex is held since the registration, so whoever waits has been waiting since: the order of the two does not matter
        if name == 'n1':
            self.ob(st, 'notify', 'notify-all', every, 'only one waiter is notified')
            self.ob(st, 'notify', 'notify-once', st.g['dup'] or 'notify' not in st.g['notified'], 'waiters are notified twice')
            st.g['notified'] = tuple(sorted(set(st.g['notified']) | {'notify'}))
        self.settled(st, 'notify')

    def on_return(self, st, v):
        L = self.L
        if self.nullp:
            return
        self.settled(st, 'end')
        if 'n1' in st.g['reg']:
            self.ob(st, 'notify', 'notify-once', {'unlock', 'notify'} <= set(st.g['notified']), 'a notification requested for thread exit is not delivered')
        self.ob(st, 'lock', 'lock-released', st.g['locked'] == 0, 'the registry lock is still held')
        gone = st.g['ctx'] not in st.mem
        self.ob(st, 'lock', 'context-removed', gone and not st.g['linked'], 'the context of the thread stays behind')
        self.ob(st, 'lock exit', 'context-forgotten', isc(self.seen_ctx(st)) and self.seen_ctx(st) == 0 and isc(st.g['slot']) and st.g['slot'] == 0,
                'the thread still refers to its destroyed context')
        left = [k for k in st.mem if (k not in self.before or k.startswith('vd:%s+' % L.C)) and st.mem[k].tags.get('heap') and not k.startswith(('vd:%s+' % L.M, 'vd:ctxO+'))]
        self.ob(st, 'lock', 'no-leak', not left, 'memory is leaked: %s' % left)

    nullp = False

    def on_throw(self, st, exc):
        st.fail('no-exception', 'thread exit throws %r' % (exc,))


def lib(ctx, aspects=None, part=None, **kw):
    L = discover(ctx)
    W = (32, 64)
    def run(label, cls, fn, *a, **k):
        vk = k.pop('vk', {})
        sp = cls(L=L, aspects=aspects, **k.pop('sk', {}))
        ctx.verify(fn, sp, sp.setup(*a, **k), intw=W, label=label, **vk)
    P = lambda p: part is None or part == p
    for own in (True, False):
        o = 'with context' if own else 'first use'
        if P('register'):
            for cold in ((False,) if own else (False, True)):
                c = ', cold' if cold else ''
                run('add_thread_exit_callback (%s%s)' % (o, c), AddCallback, L.fn['add_thread_exit_callback'], own, cold, vk={'must_throw': True})
                run('add_thread_exit_notify_entry (%s%s)' % (o, c), AddNotify, L.fn['add_thread_exit_notify_entry'], own, cold, vk={'must_throw': True})
        if P('values'):
            run('get_thread_specific (%s)' % o, GetValue, L.fn['get_thread_specific'], own)
            run('set_thread_specific (%s)' % o, SetValue, L.fn['set_thread_specific'], own, vk={'must_throw': True})
    if P('keys'):
        for cold in (False, True):
            for withf in (True, False):
                run('new_thread_specific_key (%s%s)' % ('cleanup' if withf else 'no cleanup', ', cold' if cold else ''), NewKey, L.fn['new_thread_specific_key'], cold, withf, vk={'must_throw': True})
        for own, has in ((True, True), (True, False), (False, False)):
            for withf in (True, False):
                for flag in (1, 0):
                    run('delete_thread_specific_key (%s, %s, %s)' % ('value' if has else 'no value' if own else 'unknown thread', 'cleanup' if withf else 'no cleanup', 'at delete' if flag else 'kept'),
                        DeleteKey, L.fn['delete_thread_specific_key'], own, has, withf, flag)
    ex = L.dtor[1:]
    for i, (early, late, wf) in enumerate(EXITS):
        if P('exit%d' % i):
            run('thread exit (%s; later %s%s)' % (' '.join(early) or '-', ' '.join(late) or '-', '' if wf else '; no cleanup'), Exit, ex, early, late, wf)
    if P('exit0'):
        run('thread exit (no context)', Exit, ex, (), (), True, True, sk={'nullp': True})


# other entries of every kind are there in any number in each case
EXITS = [(('e1', 'e2'), (), True), ((), ('e1', 'e2'), True), (('e1',), (), True), ((), ('e1',), True), (('v',), (), True), ((), ('v',), True), (('v',), (), False), (('n1',), (), True), ((), ('n1',), True)]

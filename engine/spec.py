"""Base classes for contracts.  A Spec supplies: contracts of callees (intercepts), the rely condition and the transition
contract for shared memory, and the postcondition of the function under verification (on_return / on_throw)."""
import re, subprocess
import z3
from .arith import Unsupported, isc, mask, sgn, fresh_name
from .sym import Ptr, Agg, UNDEF, Exc, BadAccess, Obj

ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}

_dem = {}


def demangle_all(names):
    todo = [n for n in names if n not in _dem]
    if not todo:
        return
    out = subprocess.run(['llvm-cxxfilt-18' if False else 'llvm-cxxfilt'], input='\n'.join(n.lstrip('@') for n in todo) + '\n', capture_output=True, text=True).stdout.split('\n')
    for n, d in zip(todo, out):
        _dem[n] = d


class Spec:
    check_overflow = False
    stop_first = False
    intercepts = ()          # (regex, method name)

    def __init__(self, **kw):
        self.__dict__.update(kw)
        self._lk = {}
        self.extra = []

    # ---- names
    def demangled(self, name):
        if name not in _dem:
            demangle_all([name])
        return _dem[name]

    def lookup(self, name, eng):
        if name in self._lk:
            return self._lk[name]
        h = None
        plain = name[1:]
        d = self.demangled(name)
        for rx, m in list(self.extra) + self.all_intercepts():
            if re.search(rx, d) or plain == rx:
                h = m if callable(m) else getattr(self, m)
                break
        self._lk[name] = h
        return h

    def all_intercepts(self):
        out = []
        for c in type(self).__mro__:
            out += list(c.__dict__.get('intercepts', ()))
        return out

    # ---- contract hooks
    def on_return(self, st, v):
        pass

    def on_throw(self, st, exc):
        st.fail('no-exception', 'exception %r leaves the function' % exc)

    def on_global(self, st, name, o):
        pass

    def exc_matches(self, exc, tinfo):
        return False

    def lazy_cell(self, st, o, off, size, ty):
        return self.eng.A.fresh(st, 8 * size, '%s_%d' % (o.id.split('#')[0].strip('@'), off))

    def gep_symbolic(self, st, base, ty, idx):
        return None

    def cmp_distinct(self, st, pred, a, b):
        return None

    def cmp_opaque(self, st, pred, p, x):
        return None

    def opaque_load(self, st, p, ty):
        return None

    def opaque_store(self, st, p, ty, v):
        return False

    def on_plain_load(self, st, p, ins, v):
        pass

    def on_plain_store(self, st, p, ins, v):
        pass

    # ---- memory orders: an access takes part in a synchronises-with edge through its own order or through a fence
    def need_acq(self, st, order, what):
        if order in ACQ:
            st.oblige('acquire-order', True)
        else:
            st.g['#pend_acq'] = what        # an acquire fence before the return would still do

    def need_rel(self, st, order, what):
        st.oblige('release-order', order in REL or bool(st.g.get('#relfence')), '%s must have release semantics' % what)

    def orders_done(self, st):
        p = st.g.get('#pend_acq')
        st.oblige('acquire-order', p is None, '%s must have acquire semantics' % p)

    def on_fence(self, st, order):
        if order in ACQ:
            st.g['#pend_acq'] = None
        if order in REL:
            st.g['#relfence'] = True

    def word_facts(self, st):
        """list of (ghost key of a Bool, width, predicate on values): locals holding an observed word value satisfy
           predicate(value) => ghost (predicate(value) alone if the key is None); offered as loop invariants (kept only where inductive)"""
        return []

    def loop_invariants(self, st, base, wide):
        out = []
        for key, w, pred in self.word_facts(st):
            for loc in wide:
                if loc[0] == 'g':
                    continue
                def inv(eng, s, cells, loc=loc, key=key, w=w, pred=pred):
                    if loc not in cells or cells[loc][0] != w or (key is not None and key not in s.g):
                        return None
                    v = cells[loc][1]
                    if not (isc(v) or (z3.is_expr(v) and not z3.is_array(v))):
                        return None
                    return z3.Implies(pred(eng.A.z(w, v)), s.g[key]) if key is not None else pred(eng.A.z(w, v))
                out.append(inv)
        return out

    def fixed_ptr(self, st, loc, v):
        """pointer at loc that loop generalisation starts out leaving alone"""
        return False

    forget_dead = False
    simple_solver = False

    def auto_candidate(self, st, loc):
        return True

    def live_vars(self):
        return ()

    def normalise(self, st):
        """canonical names at loop heads"""

    def havoc_ghost(self, st, k):
        pass

    def indirect(self, st, fp, args, ins):
        return None

    def asm(self, st, tmpl, cons, args, ins):
        return None

    def sym_copy(self, st, d, s, n):
        return False

    # array objects: cells[off] = (size, z3 array Int->sort)
    def array_read(self, st, o, p, size):
        c = o.cells.get(p.off)
        if c is None or c[0] != size:
            raise Unsupported('array field %d size %d of %s' % (p.off, size, o.id))
        self.array_bounds(st, o, p)
        return z3.Select(c[1], self.eng.A.z(64, p.idx))

    def array_write(self, st, o, p, size, v):
        c = o.cells.get(p.off)
        if c is None or c[0] != size:
            raise Unsupported('array field %d size %d of %s' % (p.off, size, o.id))
        self.array_bounds(st, o, p)
        o.cells[p.off] = (size, z3.Store(c[1], self.eng.A.z(64, p.idx), self.eng.A.z(8 * size, v)))

    def array_bounds(self, st, o, p):
        pass

    # ---- boost::sync exceptions
    intercepts = (
        (r'^void boost::sync::detail::throw_exception<', 'c_throw'),
        (r'^boost::throw_exception|^void boost::throw_exception<', 'c_bthrow'),
        (r'^boost::assertion_failed', 'c_assert'),
        (r'^operator new\(unsigned long\)$|^operator new\[\]\(unsigned long\)$', 'c_new'),
        (r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$', 'c_delete'),
    )

    def c_throw(self, st, a, ins):
        d = self.demangled(ins.a['callee'][1])
        m = re.match(r'void boost::sync::detail::throw_exception<([\w:]+)(?:, ([^<>(]*))?', d)
        typ = m.group(1)
        code = None
        if m.group(2) and re.match(r'int\b', m.group(2)):
            code = st.rd(a[1], 4)
        st.log('throw', typ, code=code)
        return [(st, 'throw', Exc(typ, code))]

    def c_bthrow(self, st, a, ins):
        d = self.demangled(ins.a['callee'][1])
        m = re.search(r'throw_exception<([\w:]+)', d)
        return [(st, 'throw', Exc(m.group(1) if m else 'unknown'))]

    def c_assert(self, st, a, ins):
        st.fail('assertion', 'BOOST_ASSERT fails')
        return [(st, 'stop', None)]

    def c_new(self, st, a, ins):
        sz = a[0] if isc(a[0]) else None
        outs = []
        s = st.clone()
        s.log('call', 'operator new throws bad_alloc')
        outs.append((s, 'throw', Exc('std::bad_alloc')))
        p = st.new_obj('heap', sz, heap=True)
        st.g['#heap'] = st.g.get('#heap', ()) + (p.obj,)
        outs.append((st, 'ret', p))
        return outs

    def c_delete(self, st, a, ins):
        p = a[0]
        if isc(p) and p == 0:
            return [(st, 'ret', None)]
        if not isinstance(p, Ptr) or p.off != 0 or p.obj not in st.mem or not st.mem[p.obj].tags.get('heap'):
            st.fail('memory-safety', 'delete of %r which is not a live heap object' % (p,))
            return [(st, 'stop', None)]
        st.g['#heap'] = tuple(x for x in st.g.get('#heap', ()) if x != p.obj)
        del st.mem[p.obj]
        return [(st, 'ret', None)]

    # ---- shared words
    def on_load(self, st, o, p, ins, order):
        w = 8 * (ins.ty.n // 8 if ins.ty.k == 'int' and ins.ty.n >= 8 else 8 if ins.ty.k == 'ptr' else 1)
        if order is None:
            self.plain_shared(st, o, p, 'read')
        v = self.env(st, o, p, w)
        st.log('atomic', 'load %s (%s)' % (p, order), value=v)
        outs = self.observe(st, o, p, w, v, order)
        if outs is None:
            outs = [st]
        r = v
        if ins.ty.k == 'int' and ins.ty.n == 1:
            r = self.eng.A.cast(st, 'trunc', 8, 1, v)
        return [(s, r) for s in outs]

    def on_store(self, st, o, p, ins, v, order):
        w = {1: 8}.get(ins.ty.n, ins.ty.n) if ins.ty.k == 'int' else 64
        if order is None:
            self.plain_shared(st, o, p, 'write')
        if ins.ty.k == 'int' and ins.ty.n == 1:
            v = self.eng.A.cast(st, 'zext', 1, 8, v)
        old = self.env(st, o, p, w)
        st.log('atomic', 'store %s (%s)' % (p, order), old=old, new=v)
        outs = self.trans(st, o, p, w, old, v, order, 'store')
        return [st] if outs is None else outs

    def on_rmw(self, st, o, p, w, upd, order, rop):
        old = self.env(st, o, p, w)
        new = upd(st, old)
        st.log('atomic', '%s %s (%s)' % (rop, p, order), old=old, new=new)
        outs = self.trans(st, o, p, w, old, new, order, 'rmw')
        return [(s, old) for s in ([st] if outs is None else outs)]

    def on_cas(self, st, o, p, w, ev, nv, so, fo, weak):
        A = self.eng.A
        old = self.env(st, o, p, w)
        eq = A.icmp(st, 'eq', w, old, ev)
        res = []
        ok = eq if not isc(eq) else z3.BoolVal(bool(eq))
        if st.feasible(ok):
            s = st.clone()
            s.assume(ok)
            s.log('atomic', 'cmpxchg %s succeeds (%s)' % (p, so), old=old, new=nv)
            outs = self.trans(s, o, p, w, old, nv, so, 'cas')
            res += [(x, Agg([old, 1])) for x in ([s] if outs is None else outs)]
        fail = z3.BoolVal(True) if weak else z3.Not(ok)
        if st.feasible(fail):
            s = st.clone()
            s.assume(fail)
            s.log('atomic', 'cmpxchg %s fails (%s)' % (p, fo), old=old, expected=ev)
            outs = self.observe(s, o, p, w, old, fo)
            res += [(x, Agg([old, 0])) for x in ([s] if outs is None else outs)]
        return res

    def plain_shared(self, st, o, p, what):
        st.fail('data-race', 'non-atomic %s of memory shared between threads (%r)' % (what, p))

    def env(self, st, o, p, w):
        raise Unsupported('env')

    def observe(self, st, o, p, w, v, order):
        return None

    def trans(self, st, o, p, w, old, new, order, kind):
        raise Unsupported('trans')

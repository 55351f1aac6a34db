"""Containers in the unbounded setting.

std::vector keeps its real header (three pointers) and its real code for everything that does not grow it; the element storage
is an abstract array of which only finitely many *tracked* positions are known (an arbitrary one is tracked, so what is shown for it
holds for all); every other element is arbitrary.  Operations that grow a vector are used by contract: they either throw
std::bad_alloc and change nothing, or reallocate (which invalidates all iterators and references) and keep the elements.

The intrusive list of thread contexts is abstracted to one tracked context and arbitrarily many others: walking it meets the
tracked one exactly once iff it is linked.  std::stack of keys is used by contract."""
import re
import z3
from engine.spec import Spec
from engine.sym import Ptr, Exc, UNDEF, BadAccess, Obj, State
from engine.ir import sizeof, strip
from engine.arith import isc, Unsupported, mask, sgn, fresh_name

MAXN = 1 << 31
VEC = re.compile(r'^(?:[\w:&<>*, ]+ )?std::(?:_*cxx\w*::)?vector<(.*), std::allocator<\1>>::(~?\w+|operator\[\]|operator=)(?:<[^()]*>)?\((.*)\)(?: const)?$')


def split_vec(d):
    m = VEC.match(d)
    return (m.group(1), m.group(2), m.group(3)) if m else None


class Containers(Spec):
    tokens = ()
    intercepts = (
        (r'^(?:.* )?std::vector<.*>::(push_back|emplace_back|resize|reserve|insert|assign|shrink_to_fit|operator=|vector)(?:<.*>)?\(.*\)$', 'c_vec'),
        (r'^std::stack<', 'c_stack'),
        (r'circular_list_algorithms<.*>::(unlink|link_before|link_after)\(', 'c_link'),
    )

    # ------------------------------------------------------------ vectors
    def elem_size(self, T):
        """sizeof(T) of a std::vector<T>, as the destructor of its base divides by it"""
        c = getattr(self, '_esz', None)
        if c is None:
            c = self._esz = {}
        if T in c:
            return c[T]
        for n, f in self.eng.funcs.items():
            d = self.demangled(n)
            if d.startswith('std::_Vector_base<%s, ' % T) and '::~_Vector_base()' in d:
                f.blocks
                for b in f._blocks.values():
                    for i in b:
                        if i.op == 'bin' and i.a[0] == 'sdiv' and i.a[3][0] == 'int':
                            c[T] = i.a[3][1]
                            return c[T]
                c[T] = 1
                return 1
        raise Unsupported('element size of std::vector<%s>' % T)

    def hdr(self, st, h):
        """(data object or None, size, capacity) of the vector with header at h"""
        s, f, e = (st.rd(h, 8, off=o) for o in (0, 8, 16))
        if isc(s) and s == 0:
            return None, 0, 0
        if not (isinstance(s, Ptr) and isinstance(f, Ptr) and s.obj == f.obj):
            raise Unsupported('vector header %r %r' % (s, f))
        return s.obj, self.eng.A.z(64, f.idx), (self.eng.A.z(64, e.idx) if isinstance(e, Ptr) else 0)

    def mkdata(self, st, h, stride, n, cap, role):
        """fresh element storage for the vector with header at h; the header is updated"""
        # a name never used before: pointers into storage that is gone must not come to life again
        self.eng.objctr += 1
        oid = 'vd:%s+%s:n%d' % (h.obj, h.off, self.eng.objctr)
        o = Obj(oid, None, 'undef', stride, {'hooked': True, 'heap': True, 'role': role, 'vec': True})
        o.owner = st
        st.mem[oid] = o
        o.tags['hdr'] = (h.obj, h.off)
        st.wr(h, 8, Ptr(oid, 0, 0))
        st.wr(h, 8, Ptr(oid, 0, n), off=8)
        st.wr(h, 8, Ptr(oid, 0, cap), off=16)
        return oid

    def vec_n(self, st, o):
        """number of elements, as the header of the vector that owns the storage o has it"""
        def at(oid, off):
            c = st.mem[oid].cells if oid in st.mem else {}
            s, f = c.get(off), c.get(off + 8)
            if s and f and isinstance(s[1], Ptr) and s[1].obj == o.id and isc(s[1].idx) and s[1].idx == 0 and isinstance(f[1], Ptr) and f[1].obj == o.id and off + 16 in c:
                return self.eng.A.z(64, f[1].idx)
            return None
        n = at(*o.tags['hdr'])
        if n is not None:
            return n
        for oid, x in st.mem.items():
            if not x.stride:
                for off in x.cells:
                    if isinstance(off, int):
                        n = at(oid, off)
                        if n is not None:
                            st.wobj(o.id).tags['hdr'] = (oid, off)
                            return n
        return None

    def set_slot(self, st, oid, name, pos, fields):
        self.forget_reads(st)
        o = st.wobj(oid)
        o.cells[(name, 'pos')] = (64, pos)
        for off, (sz, v) in fields.items():
            o.cells[(name, off)] = (8 * sz, v)

    def slots(self, o):
        return [k[0] for k in o.cells if isinstance(k, tuple) and k[1] == 'pos']

    def slot(self, o, name):
        return {k[1]: v[1] for k, v in o.cells.items() if isinstance(k, tuple) and k[0] == name}

    def drop_slot(self, st, oid, name):
        self.forget_reads(st)
        o = st.wobj(oid)
        for k in list(o.cells):
            if isinstance(k, tuple) and k[0] == name:
                del o.cells[k]

    def role_of(self, st, h, T):
        return self.roles.get((h.obj, h.off)) or 'local:' + T

    roles = {}

    def grow(self, st, h, T, n2):
        """reallocates; returns id of the new storage with the tracked positions carried over"""
        od, n, cap = self.hdr(st, h)
        role = st.mem[od].tags['role'] if od else self.role_of(st, h, T)
        stride = self.elem_size(T)
        c2 = z3.Int(fresh_name('cap'))
        st.assume(z3.And(c2 >= self.eng.A.z(64, n2), c2 < 2 * MAXN))
        nd = self.mkdata(st, h, stride, n2, c2, role)
        if od:
            for k, v in st.mem[od].cells.items():
                if isinstance(k, tuple):
                    st.wobj(nd).cells[k] = v
            del st.mem[od]
        return nd

    def fixed_ptr(self, st, loc, v):
        if loc[0] == 'mem' and v.obj.startswith('vd:') and isc(v.idx) and v.idx == 0 and isinstance(loc[2], int):
            c = st.mem[loc[1]].cells
            return all(loc[2] + k in c and isinstance(c[loc[2] + k][1], Ptr) and c[loc[2] + k][1].obj == v.obj for k in (8, 16))
        return False

    def normalise(self, st):
        """names the storage of every vector after its owner; pointers into storage that is gone stay dangling"""
        self.forget_reads(st)
        vds = [k for k in st.mem if k.startswith('vd:')]
        ren = {}
        for oid in sorted(st.mem):
            o = st.mem[oid]
            if o.stride:
                continue
            for off, (s, v) in o.cells.items():
                if isinstance(off, int) and isinstance(v, Ptr) and v.obj in st.mem and v.obj.startswith('vd:') and isc(v.idx) and v.idx == 0 and v.obj not in ren:
                    n, e = o.cells.get(off + 8), o.cells.get(off + 16)
                    if n and e and isinstance(n[1], Ptr) and isinstance(e[1], Ptr) and n[1].obj == e[1].obj == v.obj:
                        ren[v.obj] = 'vd:%s+%s:0' % (oid, off)
        used = set(ren.values())
        for k in vds:
            if k not in ren:
                i = 0
                while 'vd:unowned:%d' % i in used:
                    i += 1
                ren[k] = 'vd:unowned:%d' % i
                used.add(ren[k])
        def r(v):
            if isinstance(v, Ptr) and v.obj.startswith('vd:'):
                n = ren.get(v.obj)
                return Ptr('#stale') if n is None else v if n == v.obj else Ptr(n, v.off, v.idx)
            return v
        for oid in list(st.mem):
            o = st.mem[oid]
            ch = {off: (s, r(v)) for off, (s, v) in o.cells.items() if r(v) is not v}
            if ch:
                st.wobj(oid).cells.update(ch)
        if any(a != b for a, b in ren.items()):
            objs = {}
            for a, b in ren.items():
                o = st.mem.pop(a)
                if a != b:
                    o = o.clone()
                    o.id = b
                    o.owner = st
                objs[b] = o
            st.mem.update(objs)
        for f in st.frames:
            for k, v in f.env.items():
                n = r(v)
                if n is not v:
                    f.env[k] = n

    def bad_alloc(self, st, what):
        s = st.clone()
        s.log('call', what + ' throws bad_alloc')
        s.g['oom'] = 1
        return (s, 'throw', Exc('std::bad_alloc'))

    def c_vec(self, st, a, ins):
        d = self.demangled(ins.a['callee'][1])
        sv = split_vec(d)
        if sv is None:
            raise Unsupported('vector operation ' + d)
        T, m, args = sv
        h = a[0]
        A = self.eng.A
        if m == 'vector':
            if args == '':
                self.note_vector(st, h, T)
                return NotImplemented
            if args.startswith('std::vector<') and args.endswith('&&'):
                return NotImplemented
            raise Unsupported('vector constructor (%s)' % args)
        if m == 'operator=' and args.endswith('&&'):
            return NotImplemented
        self.on_vec(st, h, 'write')
        at = None
        if m == 'insert' and len(a) in (3, 4) and isinstance(a[1], Ptr) or m == 'insert' and len(a) in (3, 4) and isc(a[1]) and a[1] == 0:
            # at the end only
            od, n, cap = self.hdr(st, h)
            n = A.z(64, n)
            if od is not None and not (isinstance(a[1], Ptr) and a[1].obj == od and st.proves(A.z(64, a[1].idx) == n)):
                raise Unsupported('vector insertion elsewhere than at the end')
            at = n
            if len(a) == 3 and not re.match(r'^[^,]*(<.*>)?, .*&', args):
                raise Unsupported('vector insertion ' + args)
            m = 'push_back' if len(a) == 3 else 'resize'
            a = [h, a[2]] if len(a) == 3 else [h, z3.simplify(n + A.z(64, a[2])), a[3]]
        if m in ('push_back', 'emplace_back'):
            if m == 'emplace_back' and len(a) != 2:
                raise Unsupported('emplace_back(%s)' % args)
            outs = [self.bad_alloc(st, 'vector::' + m)]
            for s, el in self.load_elem(st, a[1], self.elem_size(T)):
                od, n, cap = self.hdr(s, h)
                s.assume(A.z(64, n) < MAXN - 1)
                n1 = z3.simplify(A.z(64, n) + 1)
                nd = self.grow(s, h, T, n1)
                self.note_push(s, h, T, n, el, nd)
                tok = [t for t in (self.token(v) for o, (z, v) in el.items()) if t]
                if tok:
                    self.set_slot(s, nd, tok[0], n, el)
                if self.track_new:
                    self.set_slot(s, nd, 'w', n, el)
                outs.append((s, 'ret', Ptr(nd, 0, n) if m == 'emplace_back' or at is not None else None))
            return outs
        if m == 'resize':
            outs = [self.bad_alloc(st, 'vector::resize')]
            if len(a) == 3:
                fills = self.load_elem(st, a[2], self.elem_size(T))
            else:
                fills = [(st, {o: (8, 0) for o in range(0, self.elem_size(T), 8)})]
            n2 = A.z(64, a[1])
            for s, el in fills:
                od, n, cap = self.hdr(s, h)
                n = A.z(64, n)
                for c, grows in ((n2 <= n, False), (n2 > n, True)):
                    if not s.feasible(c):
                        continue
                    s2 = s.clone()
                    s2.assume(c)
                    self.ob_len(s2, n2)
                    if not grows:
                        s2.wr(h, 8, Ptr(od, 0, n2) if od else 0, off=8)
                        outs.append((s2, 'ret', None if at is None else Ptr(od, 0, at) if od else 0))
                        continue
                    nd = self.grow(s2, h, T, n2)
                    self.note_resize(s2, h, T, nd)
                    outs += [(x, 'ret', None if at is None else Ptr(nd, 0, at)) for x in self.fill(s2, nd, n, n2, el)]
            return outs
        if m == 'reserve':
            outs = [self.bad_alloc(st, 'vector::reserve')]
            od, n, cap = self.hdr(st, h)
            c = A.z(64, a[1]) <= A.z(64, cap)
            if st.feasible(c):
                s = st.clone()
                s.assume(c)
                outs.append((s, 'ret', None))
            if st.feasible(z3.Not(c)):
                s = st.clone()
                s.assume(z3.Not(c))
                self.grow(s, h, T, n)
                outs.append((s, 'ret', None))
            return outs
        raise Unsupported('vector operation ' + d)

    def ob_len(self, st, n):
        st.assume(n < MAXN)

    def fill(self, st, oid, n, n2, el):
        """elements [n, n2) become el: the tracked positions among them too"""
        outs = [st]
        for name in self.slots(st.mem[oid]):
            nxt = []
            for s in outs:
                o = s.mem[oid]
                pos = self.eng.A.z(64, o.cells[(name, 'pos')][1])
                c = z3.And(pos >= n, pos < n2)
                if s.feasible(c):
                    s2 = s.clone()
                    s2.assume(c)
                    for off, (sz, v) in el.items():
                        s2.wobj(oid).cells[(name, off)] = (8 * sz, v)
                    nxt.append(s2)
                if s.feasible(z3.Not(c)):
                    s2 = s.clone()
                    s2.assume(z3.Not(c))
                    nxt.append(s2)
            outs = nxt
        return outs

    track_new = False

    def note_vector(self, st, h, T):
        pass

    def note_push(self, st, h, T, n, el, nd):
        pass

    def note_resize(self, st, h, T, nd):
        pass

    def on_vec(self, st, h, what):
        pass

    def load_elem(self, st, p, size):
        """the cells of an element of `size` bytes at p: [(state, {off: (size, value)})]"""
        o = st.mem.get(p.obj)
        if o is None:
            raise BadAccess('read of dead object ' + p.obj)
        if o.stride:
            self.bounds(st, o, p)
            return self.read_elem(st, o, p, self.fields(st, o, size))
        out = {}
        for off, (s, v) in sorted((k, c) for k, c in o.cells.items() if isinstance(k, int)):
            if p.off <= off and off + s <= p.off + size:
                out[off - p.off] = (s, v)
        if o.init == 'zero':
            for off in range(0, size, 8):
                out.setdefault(off, (8, 0))
        return [(st, out)]

    def fields(self, st, o, size):
        return {off: 8 for off in range(0, size, 8)}

    def read_elem(self, st, o, p, fields):
        outs = []
        for s, name in self.at(st, o, p.idx):
            el = {}
            res = [(s, {})]
            for off, sz in fields.items():
                nres = []
                for s1, e1 in res:
                    for s2, v in self.field(s1, o.id, name, off, sz, p.idx):
                        nres.append((s2, {**e1, off: (sz, v)}))
                res = nres
            outs += res
        return outs

    def bounds(self, st, o, p):
        i, n = self.eng.A.z(64, p.idx), self.vec_n(st, o)
        if n is None:
            raise Unsupported('element of a vector without owner')
        st.oblige('vector-bounds', z3.And(i >= 0, i < n), 'access past the end of a vector')

    def at(self, st, o, idx):
        """which tracked position idx is: [(state, slot name or None)]"""
        i = self.eng.A.z(64, idx)
        outs = []
        rest = []
        for name in self.slots(o):
            pos = self.eng.A.z(64, o.cells[(name, 'pos')][1])
            c = z3.simplify(i == pos)
            if st.feasible(c) and st.feasible(z3.And([c] + rest)):
                s = st.clone()
                for r in rest:
                    s.assume(r)
                s.assume(c)
                outs.append((s, name))
            rest.append(z3.Not(c))
        if not rest:
            return [(st, None)]
        if st.feasible(z3.And(rest)):
            s = st.clone()
            for r in rest:
                s.assume(r)
            outs.append((s, None))
        return outs

    def field(self, st, oid, name, off, size, idx):
        """value of one field: [(state, value)]"""
        if name is not None:
            c = st.mem[oid].cells.get((name, off))
            if c is not None:
                if c[0] != 8 * size:
                    raise Unsupported('field size')
                return [(st, c[1])]
        if name is None:
            # an element that is not tracked: reading it again yields the same value until somebody else may have changed it
            for o, f, z, i, v in st.g.get('#el', ()):
                if (o, f, z) == (oid, off, size) and st.proves(self.eng.A.z(64, i) == self.eng.A.z(64, idx)):
                    return [(st, v)]
        outs = self.other(st, st.mem[oid].tags['role'], off, size, idx)
        for s, v in outs:
            if name is not None:
                s.wobj(oid).cells[(name, off)] = (8 * size, v)
            else:
                self.remember(s, oid, off, size, idx, v)
        return outs

    def remember(self, st, oid, off, size, idx, v):
        st.g['#el'] = tuple(x for x in st.g.get('#el', ()) if x[:2] != (oid, off)) + ((oid, off, size, idx, v),)

    def forget_reads(self, st):
        st.g.pop('#el', None)

    def other(self, st, role, off, size, idx):
        return [(st, self.eng.A.fresh(st, 8 * size, 'elem'))]

    # ------------------------------------------------------------ loads and stores
    def hook_load(self, st, o, p, ty):
        A = self.eng.A
        t = strip(ty)
        size = sizeof(t)
        if o.stride:
            if t.k not in ('int', 'ptr'):
                raise Unsupported('aggregate load from a vector')
            self.on_elem(st, o, p, 'read')
            self.bounds(st, o, p)
            outs = []
            for s, name in self.at(st, o, p.idx):
                outs += self.field(s, o.id, name, p.off, size, p.idx)
            if t.k == 'int' and t.n == 1:
                outs = [(s, v if isc(v) and v < 2 else A.cast(s, 'trunc', 8, 1, v)) for s, v in outs]
            return outs
        r = self.node_load(st, o, p, size)
        if r is not None:
            return r
        self.on_field(st, o, p, size, 'read')
        v = self.eng.read_ty(st, p, ty)
        if t.k == 'int' and t.n == 1 and not isc(v) and z3.is_expr(v) and not z3.is_bool(v):
            v = A.cast(st, 'trunc', 8, 1, v)
        return [(st, v)]

    def hook_store(self, st, o, p, ty, v):
        t = strip(ty)
        size = sizeof(t)
        if o.stride:
            self.on_elem(st, o, p, 'write')
            self.bounds(st, o, p)
            return self.put(st, o.id, p, size, v)
        self.on_field(st, o, p, size, 'write')
        if self.node_store(st, o, p, size, v):
            return [st]
        self.eng.write_ty(st, p, ty, v)
        return [st]

    def token(self, v):
        if isinstance(v, Ptr) and v.obj in self.tokens:
            return 't:' + v.obj
        if isc(v) and v == 0 and 'null' in self.tokens:
            return 't:null'
        return None

    def put(self, st, oid, p, size, v):
        outs = []
        for s, name in self.at(st, st.mem[oid], p.idx):
            w = s.wobj(oid)
            if name is not None:
                w.cells[(name, p.off)] = (8 * size, v)
            elif self.token(v) and st.mem[oid].tags['role'].startswith('local:'):
                self.set_slot(s, oid, self.token(v), p.idx, {p.off: (size, v)})
            elif isinstance(v, Ptr) and v.obj in self.tokens:
                self.set_slot(s, oid, 't:' + v.obj, p.idx, {p.off: (size, v)})
            elif self.track_new:
                self.drop_slot(s, oid, 'w')
                self.set_slot(s, oid, 'w', p.idx, {p.off: (size, v)})
                self.forget_reads(s)
            else:
                self.remember(s, oid, p.off, size, p.idx, v)
            outs.append(s)
        return outs

    def hook_copy(self, st, d, s, n):
        if not isc(n):
            raise Unsupported('memcpy of symbolic size')
        so, do = st.mem.get(s.obj), st.mem.get(d.obj)
        if so is None or do is None:
            raise BadAccess('memcpy on a dead object')
        if so.stride:
            if n != so.stride or s.off != 0:
                raise Unsupported('partial element copy')
            self.on_elem(st, so, s, 'read')
            self.bounds(st, so, s)
            src = self.read_elem(st, so, s, self.fields(st, so, n))
        else:
            if so.tags.get('hooked'):
                self.on_field(st, so, s, n, 'read')
            src = self.load_elem(st, s, n)
        outs = []
        for x, el in src:
            if do.stride:
                self.on_elem(x, x.mem[d.obj], d, 'write')
                self.bounds(x, x.mem[d.obj], d)
                cur = [x]
                for off, (sz, v) in el.items():
                    cur = [z for y in cur for z in self.put(y, d.obj, Ptr(d.obj, d.off + off, d.idx), sz, v)]
                outs += cur
            else:
                for off, (sz, v) in el.items():
                    x.wr(d, sz, v, off=off)
                outs.append(x)
        return outs

    def on_elem(self, st, o, p, what):
        pass

    def on_field(self, st, o, p, size, what):
        pass

    def node_load(self, st, o, p, size):
        return None

    def node_store(self, st, o, p, size, v):
        return False

    # ------------------------------------------------------------ stack of keys
    def c_stack(self, st, a, ins):
        raise Unsupported('std::stack')

    def c_link(self, st, a, ins):
        raise Unsupported('list')

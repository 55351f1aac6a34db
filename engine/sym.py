"""Verification-condition generator: symbolic execution of LLVM IR against contracts.

 * Functions with a contract (spec.intercept) are replaced by it at call sites; everything else that has a body is executed in
   place (private helpers carry no specification of their own).
 * Loops are cut at their headers: the state there is generalised until it is inductive (cells that change are replaced by fresh
   constants, constrained by the invariants that survive), so no bound on iterations is involved.
 * Every proof obligation is an SMT query pc /\\ not(cond); `unsat` discharges it.
"""
import re, time, subprocess, sys, os, tempfile
import z3
from . import ir
from .ir import sizeof, strip, field_off, INT, PTR
from .arith import Arith, Unsupported, mask, sgn, isc, fresh_name

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'idx', 'off')

    def __init__(self, obj, off=0, idx=0):
        self.obj, self.off, self.idx = obj, off, idx

    def __repr__(self):
        return '&%s%s%s' % (self.obj, '' if isc(self.idx) and self.idx == 0 else '[%s]' % self.idx, '+%s' % self.off if not (isc(self.off) and self.off == 0) else '')


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class FP:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Exc:
    """an exception in flight"""
    __slots__ = ('type', 'code', 'tag')

    def __init__(self, type, code=None, tag=None):
        self.type, self.code, self.tag = type, code, tag

    def key(self):
        return (self.type, self.tag)

    def __repr__(self):
        return 'exception(%s%s)' % (self.type, '' if self.code is None else ', code=%s' % (self.code,))


def xid(x):
    try:
        return x._vp_id
    except AttributeError:
        i = x._vp_id = x.get_id()
        return i


class Obj:
    __slots__ = ('id', 'size', 'cells', 'init', 'owner', 'stride', 'tags', 'alive')

    def __init__(self, id, size, init='undef', stride=None, tags=None):
        self.id, self.size, self.init, self.stride = id, size, init, stride
        self.cells = {}
        self.owner = None
        self.tags = tags or {}
        self.alive = True

    def clone(self):
        o = Obj(self.id, self.size, self.init, self.stride, dict(self.tags))
        o.cells = dict(self.cells)
        o.alive = self.alive
        return o


class Frame:
    __slots__ = ('f', 'block', 'prev', 'ip', 'env', 'allocas', 'loops', 'ret', 'caught')

    def __init__(self, f):
        self.f = f
        self.block = None
        self.prev = None
        self.ip = 0
        self.env = {}
        self.allocas = ()
        self.loops = ()
        self.ret = None     # calling Inst in the parent frame
        self.caught = ()

    def clone(self):
        n = Frame(self.f)
        n.block, n.prev, n.ip, n.env = self.block, self.prev, self.ip, dict(self.env)
        n.allocas, n.loops, n.ret, n.caught = self.allocas, self.loops, self.ret, self.caught
        return n


class LoopInst:
    __slots__ = ('header', 'gens', 'base', 'count', 'base_ids', 'wide', 'site', 'hold')

    def __init__(self, header):
        self.header = header
        self.gens = {}
        self.count = 0
        self.wide = set()


class Peel:
    """a loop whose first header visits are still followed one by one (engine.peel)"""
    __slots__ = ('header', 'n')

    def __init__(self, header, n):
        self.header, self.n = header, n


class Gen:
    """generalised state at a loop header for one shape key; version counts its weakenings"""
    __slots__ = ('state', 'wide', 'invs', 'core', 'version')

    def __init__(self, state):
        self.state = state
        self.wide = set()
        self.invs = []
        self.core = list(state.pc)
        self.version = 0


class State:
    def __init__(self, eng):
        self.eng = eng
        self.A = eng.A
        self.pc = []
        self.frames = []
        self.mem = {}
        self.g = {}
        self.trace = []
        self.memo = {}
        self.exc = None
        self.depth = 0
        self.gv = {}        # generalised loop states this path descends from: id -> (gen, version)

    @property
    def ub(self):
        return self.eng.spec.check_overflow

    def clone(self):
        n = State.__new__(State)
        n.eng, n.A = self.eng, self.A
        n.pc = list(self.pc)
        n.frames = [f.clone() for f in self.frames]
        n.mem = dict(self.mem)
        for o in n.mem.values():
            o.owner = None
        n.g = dict(self.g)
        n.trace = list(self.trace)
        n.memo = dict(self.memo)
        n.exc = self.exc
        n.depth = self.depth
        n.gv = self.gv
        return n

    def stale(self):
        """an ancestor loop state has been weakened since: everything below is covered by its successor"""
        return any(g.version != v for g, v in self.gv.values())

    # ---- logic
    def assume(self, c):
        if isinstance(c, int):
            c = z3.BoolVal(bool(c))
        c = z3.simplify(c) if not z3.is_true(c) else c
        if z3.is_true(c):
            return
        if z3.is_and(c):
            self.pc.extend(c.children())
        else:
            self.pc.append(c)

    def feasible(self, c=None):
        if c is not None:
            if isinstance(c, int):
                c = z3.BoolVal(bool(c))
            c = z3.simplify(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        return self.eng.sat(self.pc, c)

    def proves(self, c):
        if isinstance(c, int):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.eng.sat(self.pc, None)
        k = ('p', c.get_id())
        if k in self.memo:
            return True
        if not self.eng.sat(self.pc, z3.Not(c)):
            self.memo[k] = c
            return True
        return False

    def oblige(self, name, cond, detail=None):
        self.eng.oblige(self, name, cond, detail)

    def fail(self, name, detail=None):
        self.eng.oblige(self, name, z3.BoolVal(False), detail)

    def log(self, kind, text, **vals):
        self.trace.append((kind, text, self.where(), vals))

    def where(self):
        # innermost frame located in a /repo source
        best = None
        for f in reversed(self.frames):
            if f.block is not None:
                ins = f.f._blocks[f.block]
                i = ins[min(f.ip, len(ins) - 1)]
                l = f.f.mod.loc(i.loc)
                if best is None:
                    best = l
                if 'boost/sync' in l or '/repo/' in l:
                    return l
        return best or '?'

    # ---- objects
    def new_obj(self, name, size, init='undef', stride=None, **tags):
        self.eng.objctr += 1
        oid = '%s#%d' % (name, self.eng.objctr)
        while oid in self.mem:
            self.eng.objctr += 1
            oid = '%s#%d' % (name, self.eng.objctr)
        o = Obj(oid, size, init, stride, tags)
        o.owner = self
        self.mem[oid] = o
        return Ptr(oid)

    def obj(self, p):
        return self.mem[p.obj]

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self:
            o = o.clone()
            o.owner = self
            self.mem[oid] = o
        return o

    def tag(self, p, **kw):
        self.wobj(p.obj).tags.update(kw)

    # raw cell access (no hooks)
    def rd(self, p, size, ty=None, off=0):
        return self.eng.mem_read(self, Ptr(p.obj, p.off + off, p.idx), size, ty)

    def wr(self, p, size, v, off=0):
        self.eng.mem_write(self, Ptr(p.obj, p.off + off, p.idx), size, v)


class Result:
    def __init__(self):
        self.obl = {}          # (name, where) -> [checked, failed]
        self.fails = []
        self.returns = 0
        self.throws = 0
        self.queries = 0
        self.solver_s = 0.0
        self.backends = {}
        self.paths = 0
        self.loops = 0
        self.funcs = set()
        self.contracts = set()


class Engine:
    def __init__(self, mods, spec, intw=(), timeout=8000):
        self.mods = mods
        self.spec = spec
        spec.eng = self
        self.A = Arith(intw)
        self.objctr = 0
        self.res = Result()
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.timeout = timeout
        self.stack = []
        self.work = []
        self.globs = {}
        self.funcs = {}
        for m in mods:
            for n, f in m.funcs.items():
                self.funcs.setdefault(n, f)
        self.max_paths = 20000
        self.max_steps = 3000000
        self.unroll = None       # bounded mode: max header visits, no generalisation
        self.peel = 0            # loop header visits followed one by one before the loop is generalised
        self.endless = set()     # loops not to be followed that way
        self.learn = False       # restart without following a loop that does not end by itself
        self.deadline = None
        self._icache = {}
        self._vars = {}
        self.loopmem = {}
        self._qcache = {}

    # ------------------------------------------------------------------ solver
    def vars(self, e):
        try:
            return e._vp_vars
        except AttributeError:
            pass
        r = e._vp_vars = self._vars_of(e)
        return r

    def _vars_of(self, e):
        k = e.get_id()
        r = self._vars.get(k)
        if r is not None:
            return r[0]
        if z3.is_const(e):
            r = frozenset([k]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        elif z3.is_quantifier(e):
            r = self.vars(e.body())
        elif z3.is_var(e):
            r = frozenset()
        else:
            r = frozenset().union(*[self.vars(x) for x in e.children()])
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = r | frozenset([('f', e.decl().name())])
        self._vars[k] = (r, e)
        return r

    def sat(self, pc, c):
        """satisfiability of pc /\\ c.  Only the constraints connected to c through shared variables are handed to the solver;
           pc itself is kept satisfiable along every path (a reported failure is re-checked against all of it)."""
        if c is not None:
            return self._check(self.slice(pc, c), c) == z3.sat
        todo = list(pc)
        while todo:
            comp = self.slice(todo[1:], todo[0])
            ids = {xid(x) for x in comp}
            ids.add(todo[0].get_id())
            if self._check(comp, todo[0]) != z3.sat:
                return False
            todo = [x for x in todo if xid(x) not in ids]
        return True

    def slice(self, pc, c):
        vs = set(self.vars(c))
        rest = [(x, self.vars(x)) for x in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for x, xv in rest:
                if not xv or xv & vs:
                    out.append(x)
                    vs |= xv
                    ch = True
                else:
                    nr.append((x, xv))
            rest = nr
        return out

    def _check(self, pc, c):
        key = frozenset([xid(x) for x in pc] + [xid(c)])
        hit = self._qcache.get(key)
        if hit is not None:
            self._model = hit[1]
            return hit[0]
        t0 = time.time()
        S = z3.SimpleSolver() if self.spec.simple_solver else z3.Solver()
        S.set('timeout', self.timeout)
        cr, sv = S.ctx.ref(), S.solver
        for x in pc:
            z3.Z3_solver_assert(cr, sv, x.as_ast())
        z3.Z3_solver_assert(cr, sv, c.as_ast())
        r = S.check()
        self._model = S.model() if r == z3.sat else None
        self.res.queries += 1
        dt = time.time() - t0
        self.res.solver_s += dt
        if dt > 2 and os.environ.get('VP_SLOW'):
            open('/tmp/slow_%d_%.1f.smt2' % (self.res.queries, dt), 'w').write(S.to_smt2())
            print('slow query', r, dt, flush=True)
        be = 'z3'
        if r == z3.unknown:
            r, be = self._fallback(pc, c)
        self.res.backends[be] = self.res.backends.get(be, 0) + 1
        self._qcache[key] = (r, self._model, list(pc), c)
        return r

    def _fallback(self, pc, c):
        t0 = time.time()
        try:
            s = z3.Solver()
            s.set('timeout', self.timeout * 4)
            for x in pc:
                s.add(x)
            if c is not None:
                s.add(c)
            r = s.check()
            if r == z3.sat:
                self._model = s.model()
            if r != z3.unknown:
                return r, 'z3-fresh'
            smt = '(set-logic ALL)\n' + s.to_smt2()
            for args in (['--solve-bv-as-int=sum'], []):
                try:
                    out = subprocess.run(['cvc5', '--tlimit=%d' % (self.timeout * 4)] + args + ['-'], input=smt, capture_output=True, text=True,
                                         timeout=self.timeout * 5 / 1000)
                    o = out.stdout.strip().split('\n')[0]
                except subprocess.TimeoutExpired:
                    o = 'timeout'
                if o == 'unsat':
                    return z3.unsat, 'cvc5'
                if o == 'sat':
                    self._model = None
                    return z3.sat, 'cvc5'
            raise Undecided('solver gave no answer within its limit')
        finally:
            self.res.solver_s += time.time() - t0

    def oblige(self, st, name, cond, detail=None):
        where = st.where()
        key = (name, where)
        e = self.res.obl.setdefault(key, [0, 0])
        e[0] += 1
        if isinstance(cond, int):
            cond = z3.BoolVal(bool(cond))
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if self.sat(st.pc, z3.Not(cond)) and self.sat(st.pc, None):
            e[1] += 1
            if not any(f.name == name and f.where == where for f in self.res.fails):
                self._check(list(st.pc), z3.Not(cond))
                self.res.fails.append(Failure(name, where, detail, st, self._model, cond))
            if self.spec.stop_first:
                raise StopFirst()
        st.assume(cond)

    # ------------------------------------------------------------------ memory
    def mem_read(self, st, p, size, ty=None):
        if not isinstance(p, Ptr):
            raise BadAccess('read through non-object pointer %r' % (p,))
        o = st.mem.get(p.obj)
        if o is None:
            raise BadAccess('read of dead object ' + p.obj)
        if o.stride:
            return self.spec.array_read(st, o, p, size)
        off = p.off
        if not isc(off):
            raise Unsupported('symbolic offset in %s' % p.obj)
        if isc(p.idx) and p.idx == 0:
            pass
        else:
            raise Unsupported('index into non-array')
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # composite
        covering = [(k, s, v) for k, (s, v) in o.cells.items() if k < off + size and off < k + s]
        if not covering:
            if o.init == 'zero':
                return 0
            if o.init == 'lazy':
                v = self.spec.lazy_cell(st, o, off, size, ty)
                w = st.wobj(o.id)
                w.cells[off] = (size, v)
                return v
            return UNDEF
        if len(covering) == 1:
            k, s, v = covering[0]
            if k <= off and off + size <= k + s:
                return self.extract(st, v, s, off - k, size)
        # assemble bytes
        bs = []
        i = off
        while i < off + size:
            hit = None
            for k, s, v in covering:
                if k <= i < k + s:
                    hit = (k, s, v)
            if hit:
                bs.append(self.extract(st, hit[2], hit[1], i - hit[0], 1))
            elif o.init == 'zero':
                bs.append(0)
            elif o.init == 'lazy':
                raise Unsupported('partial lazy read')
            else:
                return UNDEF
            i += 1
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isc(b) for b in bs):
            return sum(b << (8 * j) for j, b in enumerate(bs))
        zs = [z3.BitVecVal(b, 8) if isc(b) else b for b in bs]
        if 8 in self.A.intw:
            raise Unsupported('byte assembly in int mode')
        r = z3.Concat(*zs[::-1]) if len(zs) > 1 else zs[0]
        if size * 8 in self.A.intw:
            return self.A.wrap(st, size * 8, z3.BV2Int(r, True))
        return self.A.simp(size * 8, r)

    def extract(self, st, v, s, boff, size):
        if v is UNDEF:
            return UNDEF
        if isc(v):
            return (v >> (8 * boff)) & mask(8 * size)
        if isinstance(v, (Ptr, Agg, FP)):
            raise Unsupported('partial access to a pointer')
        w = 8 * s
        if w in self.A.intw:
            x = z3.Int2BV(v, w)
        else:
            x = v
        r = z3.Extract(8 * (boff + size) - 1, 8 * boff, x)
        if 8 * size in self.A.intw:
            return self.A.wrap(st, 8 * size, z3.BV2Int(r, True))
        return self.A.simp(8 * size, r)

    def mem_write(self, st, p, size, v):
        if not isinstance(p, Ptr):
            raise BadAccess('write through non-object pointer %r' % (p,))
        if p.obj not in st.mem:
            raise BadAccess('write to dead object ' + p.obj)
        o = st.wobj(p.obj)
        if o.stride:
            return self.spec.array_write(st, o, p, size, v)
        off = p.off
        if not isc(off):
            raise Unsupported('symbolic offset in %s' % p.obj)
        if o.size is not None and off + size > o.size:
            raise BadAccess('write past end of ' + p.obj)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v)
            return
        for k, (s, ov) in list(o.cells.items()):
            if k < off + size and off < k + s:
                del o.cells[k]
                for b in range(k, k + s):
                    if not (off <= b < off + size):
                        o.cells[b] = (1, self.extract(st, ov, s, b - k, 1))
        o.cells[off] = (size, v)

    def read_ty(self, st, p, ty):
        t = strip(ty)
        if t.k == 'struct':
            return Agg([self.read_ty(st, Ptr(p.obj, p.off + field_off(t, i), p.idx), f) for i, f in enumerate(t.a)])
        if t.k == 'arr':
            s = sizeof(t.a)
            return Agg([self.read_ty(st, Ptr(p.obj, p.off + i * s, p.idx), t.a) for i in range(t.n)])
        return self.mem_read(st, p, sizeof(t), t)

    def write_ty(self, st, p, ty, v):
        t = strip(ty)
        if t.k == 'struct' and isinstance(v, Agg):
            for i, f in enumerate(t.a):
                self.write_ty(st, Ptr(p.obj, p.off + field_off(t, i), p.idx), f, v.v[i])
            return
        if t.k == 'arr' and isinstance(v, Agg):
            s = sizeof(t.a)
            for i in range(t.n):
                self.write_ty(st, Ptr(p.obj, p.off + i * s, p.idx), t.a, v.v[i])
            return
        if t.k in ('struct', 'arr') and v is UNDEF:
            return
        self.mem_write(st, p, sizeof(t), v)

    # ------------------------------------------------------------------ values
    def const(self, st, ty, v):
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'reg':
            return st.frames[-1].env[v[1]]
        if k == 'null':
            return 0
        if k == 'undef':
            t = strip(ty)
            if t.k == 'struct':
                return Agg([UNDEF] * len(t.a))
            return UNDEF
        if k == 'zero':
            t = strip(ty)
            if t.k == 'struct':
                return Agg([self.const(st, f, ('zero',)) for f in t.a])
            if t.k == 'arr':
                return Agg([self.const(st, t.a, ('zero',)) for _ in range(t.n)])
            return 0
        if k == 'glob':
            return self.glob(st, v[1])
        if k == 'agg':
            return Agg([self.const(st, t, x) for t, x in v[1]])
        if k == 'gep':
            base = self.const(st, PTR, v[2][0][1])
            return self.gep(st, v[1], base, [(t, self.const(st, t, x)) for t, x in v[2][1:]])
        if k == 'cast':
            x = self.const(st, v[2], v[3])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return x
            return self.A.cast(st, v[1], v[2].n, v[4].n, x)
        if k == 'cbin':
            return self.A.bin(st, v[1], v[2].n, self.const(st, v[2], v[3]), self.const(st, v[2], v[4]))
        if k == 'fp':
            return FP(v[1])
        raise Unsupported('const %r' % (v,))

    def glob(self, st, name):
        for m in self.mods:
            while name in m.aliases:
                name = m.aliases[name]
        if name in self.funcs or any(name in m.decls for m in self.mods):
            return Ptr(name)
        if name not in st.mem:
            text, mod = None, None
            for m in self.mods:
                if name in m.globals:
                    t = m.globals[name]
                    if text is None or text.startswith('external'):
                        text, mod = t, m
            if text is None:
                raise Unsupported('global ' + name)
            toks = ir.tokenize(re.sub(r', (section|comdat|align|!dbg).*$', '', text))
            p = ir.P(mod, toks)
            ext = False
            while p.peek() in ir.LINK:
                if p.peek() in ('external', 'extern_weak'):
                    ext = True
                p.next()
                if p.peek() == '(':
                    p.skip_parens()
            isconst = p.peek() == 'constant'
            p.next()
            ty = p.type()
            try:
                sz = sizeof(ty)
            except ir.IRError:
                sz = None
            o = Obj(name, sz, 'undef', None, {'global': True, 'const': isconst})
            st.mem[name] = o
            o.owner = st
            if ext:
                o.init = 'lazy'
            else:
                init = p.value(ty)
                if init == ('zero',):
                    o.init = 'zero'
                else:
                    self.write_ty(st, Ptr(name), ty, self.const(st, ty, init))
            self.spec.on_global(st, name, o)
        return Ptr(name)

    def gep(self, st, ty, base, idx):
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            if isc(base) and all(isc(v) and v == 0 for _, v in idx):
                return base
            # opaque pointer arithmetic
            total = self.gep_offset(st, ty, idx)
            if isc(base) and isc(total):
                return (base + total) & mask(64)
            raise Unsupported('gep on opaque pointer')
        o = st.mem.get(base.obj)
        if o is not None and o.stride:
            return self.gep_arr(st, o, ty, base, idx)
        total = self.gep_offset(st, ty, idx)
        if isc(total):
            if isc(base.off):
                return Ptr(base.obj, base.off + sgn(64, total), base.idx)
        r = self.spec.gep_symbolic(st, base, ty, idx)
        if r is not None:
            return r
        raise Unsupported('symbolic gep in %s' % base.obj)

    def gep_offset(self, st, ty, idx):
        (t0, i0) = idx[0]
        total = 0
        def add(n):
            nonlocal total
            total = self.A.bin(st, 'add', 64, total, n)
        def scaled(t, i, s):
            if t.n != 64:
                i = self.A.cast(st, 'sext', t.n, 64, i)
            return self.A.bin(st, 'mul', 64, i, s)
        add(scaled(t0, i0, sizeof(ty)))
        t = ty
        for (it, i) in idx[1:]:
            t = strip(t)
            if t.k == 'struct':
                add(field_off(t, i))
                t = t.a[i]
            elif t.k in ('arr', 'vec'):
                add(scaled(it, i, sizeof(t.a)))
                t = t.a
            else:
                raise Unsupported('gep into %r' % t)
        return total

    def gep_arr(self, st, o, ty, base, idx):
        """pointer into an array object: (element index, byte offset in the element)"""
        (t0, i0) = idx[0]
        if t0.n != 64:
            i0 = self.A.cast(st, 'sext', t0.n, 64, i0)
        rest = self.gep_offset(st, ty, [(INT(64), 0)] + list(idx[1:])) if len(idx) > 1 else 0
        sz = sizeof(ty)
        if isc(i0) and i0 == 0:
            k = 0
            extra = 0
        elif sz % o.stride == 0:
            k = self.A.bin(st, 'mul', 64, i0, sz // o.stride)
            extra = 0
        elif isc(i0):
            tot = sgn(64, i0) * sz
            k, extra = (tot // o.stride) & mask(64), tot % o.stride
        elif sz == 1:
            q, r = self.A._divmod_trunc(st, self.A.z(64, i0), o.stride)
            if not st.proves(r == 0):
                raise Unsupported('byte gep not multiple of element')
            k, extra = q, 0
        else:
            raise Unsupported('gep stride mismatch %d/%d' % (sz, o.stride))
        if not isc(rest):
            raise Unsupported('symbolic rest in array gep')
        off = base.off + sgn(64, rest) + extra
        nidx = self.A.bin(st, 'add', 64, base.idx, k)
        if off < 0 or off >= o.stride:
            nidx = self.A.bin(st, 'add', 64, nidx, (off // o.stride) & mask(64))
            off = off % o.stride
        return Ptr(base.obj, off, nidx)

    # pointer comparison -> i1
    def pcmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if isc(a.idx) and isc(b.idx) and isc(a.off) and isc(b.off):
                    if a.idx == b.idx:
                        return self.A.icmp(st, pred, 64, a.off & mask(64), b.off & mask(64))
                    return self.A.icmp(st, {'e': pred, 'n': pred}.get(pred[0], 's' + pred[1:]) if pred in ('eq', 'ne') else 's' + pred[1:], 64, a.idx, b.idx)
                if isc(a.off) and isc(b.off) and a.off == b.off:
                    p = pred if pred in ('eq', 'ne') else 's' + pred[1:]
                    return self.A.icmp(st, p, 64, a.idx, b.idx)
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')   # different field offsets
                raise Unsupported('pointer comparison')
            r = self.spec.cmp_distinct(st, pred, a, b)
            if r is not None:
                return r
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            raise Unsupported('relational comparison of pointers into different objects')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p, x = (a, b) if isinstance(a, Ptr) else (b, a)
            if isc(x):
                if x == 0 or x < 4096:
                    if pred in ('eq', 'ne'):
                        return int(pred == 'ne')
                    if pred in ('ult', 'ule'):
                        return int(p is b)
                    return int(p is a)
            r = self.spec.cmp_opaque(st, pred, p, x)
            if r is not None:
                return r
            raise Unsupported('comparing %r with opaque %r' % (p, x))
        return self.A.icmp(st, pred, 64, a, b)

    # ------------------------------------------------------------------ control
    def goto(self, st, label):
        """returns True if the path continues in st, False if it ended (subsumed at a loop head)"""
        fr = st.frames[-1]
        prev = fr.block
        fr.prev = prev
        fr.block = label
        fr.ip = 0
        blk = fr.f._blocks[label]
        # phis, in parallel
        vals = []
        n = 0
        for ins in blk:
            if ins.op != 'phi':
                break
            vals.append((ins.res, self.const(st, ins.ty, ins.a[prev])))
            n += 1
        for r, v in vals:
            fr.env[r] = v
        fr.ip = n
        loops = fr.f.loops()
        left = False
        if fr.loops:
            nl = tuple(l for l in fr.loops if label in loops[l.header])
            left = self.unroll is None and any(isinstance(l, LoopInst) and l not in nl for l in fr.loops)
            fr.loops = nl
        if label in loops:
            self.spec.normalise(st)
            cur = None
            for l in fr.loops:
                if l.header == label:
                    cur = l
            if self.unroll is not None:
                if cur is None:
                    fr.loops = fr.loops + (LoopInst(label),)
                    st.g = dict(st.g)
                    st.g[('#unroll', len(st.frames), label)] = 0
                else:
                    k = ('#unroll', len(st.frames), label)
                    st.g[k] = st.g.get(k, 0) + 1
                    if st.g[k] > self.unroll:
                        return False
                return True
            if self.peel and (cur is None or isinstance(cur, Peel)) and (fr.f.name, label) not in self.endless:
                n = cur.n if cur is not None else 0
                rest = tuple(l for l in fr.loops if l is not cur)
                if n < self.peel:
                    fr.loops = rest + (Peel(label, n + 1),)
                    return True
                if self.learn:
                    self.endless.add((fr.f.name, label))
                    raise Restart()
                fr.loops, cur = rest, None
            if cur is None:
                li = LoopInst(label)
                fr.loops = fr.loops + (li,)
                self.res.loops += 1
                li.site = tuple((x.f.name, x.block, x.ip) for x in st.frames[:-1]) + (fr.f.name, label)
                li.base = self.snapshot(st)
                li.base_ids = {xid(c) for c in st.pc}
                li.hold = list(st.pc)
                key = self.shape(st)
                gen = li.gens[key] = Gen(st.clone())
                W = self.loopmem.get(li.site)
                if W:
                    ac = self.cells(st)
                    wide = {l for l in W if l in ac and self.widenable(st, l, *ac[l])}
                    if wide:
                        self.generalise(st, li, gen, ac, wide, list(st.pc), None, None)
                        return False
                st.gv = dict(st.gv)
                st.gv[id(gen)] = (gen, 0)
                return True
            return self.back_edge(st, cur)
        if left:
            self.work.append(st)        # let the loop converge before following its exits
            return False
        return True

    # ---- loop generalisation
    def cells(self, st):
        """all mutable locations of the state: {loc: (width, value)}"""
        out = {}
        fr = st.frames[-1]
        for ins in fr.f._blocks[fr.block]:
            if ins.op != 'phi':
                break
            t = strip(ins.ty)
            out[('phi', ins.res)] = (t.n if t.k == 'int' else 64, fr.env[ins.res])
        for oid, o in st.mem.items():
            if o.tags.get('const') or o.tags.get('shared'):
                continue        # shared words are re-read under the rely condition at every access
            for off, (s, v) in o.cells.items():
                out[('mem', oid, off)] = (8 * s if not o.stride else s, v)
        for k, v in st.g.items():
            out[('g', k)] = (0, v)
        return out

    snapshot = cells

    def shape(self, st):
        sh = []
        for loc, (w, v) in self.cells(st).items():
            if loc[0] == 'g':
                if z3.is_expr(v):
                    continue
                if isinstance(v, Exc):
                    v = v.key()
                sh.append((loc, repr(v)))
            elif isinstance(v, Ptr):
                o = st.mem.get(v.obj)
                sh.append((loc, v.obj, v.off if isc(v.off) else '?', v.idx if isc(v.idx) and not (o and o.stride) else '*'))
            elif v is UNDEF:
                sh.append((loc, 'undef'))
            elif isinstance(v, (Agg, FP)):
                sh.append((loc, 'agg'))
            elif isc(v) and w in (1, 8):
                sh.append((loc, v))
            elif w == 64 and isc(v) and v == 0:
                sh.append((loc, 'zero'))
        sh.append(('exc', st.exc.key() if st.exc else None))
        sh.append(('objs', tuple(sorted(k for k, o in st.mem.items() if not o.tags.get('global')))))
        return frozenset(map(repr, sh))

    def back_edge(self, st, li):
        """st arrives again at a loop head: drop it if covered by the generalised state of its shape, else generalise further"""
        if st.stale():
            return False
        key = self.shape(st)
        gen = li.gens.get(key)
        if gen is None:
            if len(li.gens) > 80:
                raise Unsupported('too many loop shapes')
            gen = li.gens[key] = Gen(st.clone())
            ac = self.cells(st)
            wide = {l for l in ac if ((l in li.base and not self.same(li.base[l][1], ac[l][1])) or l in li.wide) and self.widenable(st, l, *ac[l])}
            keep = set()
            for l, (w, v) in ac.items():
                if l not in wide:
                    for x in (v.v if isinstance(v, Agg) else [v.idx, v.off] if isinstance(v, Ptr) else [v]):
                        if z3.is_expr(x):
                            keep |= self.vars(x)
            inside = {i.res for b in st.frames[-1].f.loops()[li.header] for i in st.frames[-1].f._blocks[b]}
            for f in st.frames:
                for r, x in f.env.items():
                    if z3.is_expr(x) and (f is not st.frames[-1] or r not in inside):
                        keep |= self.vars(x)
            core = [c for c in st.pc if xid(c) in li.base_ids or (self.vars(c) and self.vars(c) <= keep)]
            self.generalise(st, li, gen, ac, wide, core, None, None)
            return False
        G = gen.state
        gc, ac = self.cells(G), self.cells(st)
        diff = []
        for loc in ac:
            if loc in gen.wide:
                continue
            if loc not in gc:
                if loc[0] == 'mem' and loc[1] in G.mem and G.mem[loc[1]].init == 'lazy':
                    continue        # a lazy cell not yet read stands for any value
                diff.append(loc)
            elif not self.same(gc[loc][1], ac[loc][1]):
                diff.append(loc)
        ids = {xid(c) for c in st.pc}
        core = [c for c in gen.core if xid(c) in ids]
        if not diff and len(core) == len(gen.core):
            ok = self.valid(st, [inv(self, st, ac) for inv in gen.invs])
            if all(ok):
                return False
            gen.invs = [x for x, o in zip(gen.invs, ok) if o]
            refresh = False
        else:
            refresh = True
        li.count += 1
        if os.environ.get('VP_LOOPS'):
            print('loop', st.frames[-1].f.name[-40:], li.header, id(li) % 10000, 'key', hash(key) % 1000, 'gens', len(li.gens), 'diff', diff, 'core %d->%d' % (len(gen.core), len(core)), 'refresh', refresh, 'invs', len(gen.invs), flush=True)
        if li.count > 300:
            raise Unsupported('loop does not stabilise')
        self.generalise(st, li, gen, ac, gen.wide | set(diff), core, G if refresh else False, gc)
        return False

    def widenable(self, st, loc, w, v):
        if z3.is_expr(v):
            return True
        if loc[0] == 'g':
            return False
        if isinstance(v, Ptr):
            if self.spec.fixed_ptr(st, loc, v):
                return False
            o = st.mem.get(v.obj)
            return bool(o is not None and o.stride)
        return isc(v) and w not in (1, 8) and not (w == 64 and v == 0)

    def generalise(self, st, li, gen, ac, wide, core, G, gc):
        """(re)build the generalised state of gen from the arriving state st: havoc `wide`, keep the path facts `core` and the
           candidate invariants that hold in st (and in the previous generalised state G); G False: keep gen.invs as they are"""
        gen.wide = set(wide)
        li.wide |= gen.wide
        self.loopmem.setdefault(li.site, set()).update(gen.wide)
        gen.core = core
        gen.version += 1
        N = st.clone()
        N.pc = list(core)
        N.memo = {}
        if G:
            N.trace = list(G.trace)
        wl = sorted((l for l in gen.wide if l in ac), key=repr)
        for loc in wl:
            w, v = ac[loc]
            self.havoc_loc(N, loc, w, v)
        if self.spec.forget_dead:
            self.forget_dead(N, li.base)
            ids = {xid(c) for c in N.pc}
            gen.core = [c for c in core if xid(c) in ids]
        if G is not False:
            cand = list(self.candidates(N, li.base, wl, ac)) + list(self.spec.loop_invariants(N, li.base, wl))
            cand = [i for i, o in zip(cand, self.valid(st, [inv(self, st, ac) for inv in cand])) if o]
            if G is not None:
                cand = [i for i, o in zip(cand, self.valid(G, [inv(self, G, gc) for inv in cand])) if o]
            gen.invs = cand
        nc = self.cells(N)
        seen, ids, hold = set(), {xid(x) for x in N.pc}, list(N.pc)
        for inv in gen.invs:
            chain = getattr(inv, 'chain', None)        # candidates of a chain are listed strongest first
            if chain is not None and chain in seen:
                continue
            c = inv(self, N, nc)
            if c is not None:
                if not isinstance(c, (bool, int)):
                    c = z3.simplify(c)
                    if c.get_id() in ids:
                        continue
                    ids.add(c.get_id())
                    hold.append(c)          # ids of expressions that are gone are used again
                N.assume(c)
                if chain is not None:
                    seen.add(chain)
        gen.state = N.clone()
        N.gv = dict(N.gv)
        N.gv[id(gen)] = (gen, gen.version)
        N.log('loop', 'generalised state at loop head')
        self.work.append(N)

    def forget_dead(self, st, base):
        """drop path facts that speak about values no longer part of the state (weaker, hence sound)"""
        live = set(self.spec.live_vars())
        def add(x):
            if isinstance(x, Ptr):
                add(x.idx)
                add(x.off)
            elif isinstance(x, Agg):
                for y in x.v:
                    add(y)
            elif isinstance(x, (tuple, list)):
                for y in x:
                    add(y)
            elif z3.is_expr(x):
                live.update(self.vars(x))
        for o in st.mem.values():
            for s, v in o.cells.values():
                add(v)
        for v in st.g.values():
            add(v)
        for w, v in base.values():
            add(v)
        for f in st.frames:
            for v in f.env.values():
                add(v)
            for l in f.loops:
                for w, v in (l.base.values() if isinstance(l, LoopInst) else ()):
                    add(v)
        st.pc = [c for c in st.pc if self.vars(c) <= live]

    def valid(self, st, conds):
        """which of the conditions hold in st (None: holds); discards those a model refutes in bulk, the rest by one unsat answer"""
        res = [True] * len(conds)
        todo = {}
        for i, c in enumerate(conds):
            if c is None:
                continue
            if isinstance(c, (bool, int)):
                c = z3.BoolVal(bool(c))
            c = z3.simplify(c)
            if z3.is_true(c) or ('p', c.get_id()) in st.memo:
                continue
            todo.setdefault(c.get_id(), (c, []))[1].append(i)
        def drop(k):
            for i in todo.pop(k)[1]:
                res[i] = False
        while todo:
            neg = z3.Or([z3.Not(c) for c, _ in todo.values()])
            if len(todo) == 1:
                k = next(iter(todo))
                if st.proves(todo[k][0]):
                    break
                drop(k)
                break
            self._model = None
            try:
                sat = self.sat(st.pc, neg)
            except Undecided:
                sat, self._model = True, None
            if not sat:
                for c, _ in todo.values():
                    st.memo[('p', c.get_id())] = c
                break
            m = self._model
            dead = [] if m is None else [k for k, (c, _) in todo.items() if z3.is_false(m.eval(c, model_completion=True))]
            if not dead:
                for k in list(todo):
                    if not st.proves(todo[k][0]):
                        drop(k)
                break
            for k in dead:
                drop(k)
        return res

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj == b.obj and self.same(a.off, b.off) and self.same(a.idx, b.idx)
        if isc(a) and isc(b):
            return a == b
        if z3.is_expr(a) and z3.is_expr(b):
            return a.get_id() == b.get_id()
        if isinstance(a, Agg) and isinstance(b, Agg):
            return len(a.v) == len(b.v) and all(self.same(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, Exc) and isinstance(b, Exc):
            return a.key() == b.key()
        if a is UNDEF or b is UNDEF or isinstance(a, (Ptr, Agg, FP)) or isinstance(b, (Ptr, Agg, FP)):
            return False
        if isc(a) and z3.is_expr(b) or isc(b) and z3.is_expr(a):
            return False
        return a == b

    def havoc_loc(self, st, loc, w, v):
        def fresh(v, w):
            if isinstance(v, Ptr):
                return Ptr(v.obj, v.off, self.A.fresh(st, 64, 'widx'))
            if z3.is_expr(v):
                if loc[0] == 'g' or z3.is_array(v):
                    return z3.Const(fresh_name('w'), v.sort())
                return self.A.fresh(st, w, 'w')
            if isc(v):
                return self.A.fresh(st, w, 'w')
            if isinstance(v, Agg):
                raise Unsupported('aggregate changes in a loop')
            return v
        if loc[0] == 'phi':
            st.frames[-1].env[loc[1]] = fresh(v, w)
        elif loc[0] == 'mem':
            o = st.wobj(loc[1])
            s, ov = o.cells[loc[2]]
            o.cells[loc[2]] = (s, fresh(ov, w))
        else:
            st.g[loc[1]] = fresh(v, w)
            self.spec.havoc_ghost(st, loc[1])

    def candidates(self, st, base, wide, ac):
        """automatic invariant candidates over integer-mode cells"""
        A = self.A
        num = []
        for loc in wide:
            if loc not in base or not self.spec.auto_candidate(st, loc):
                continue
            w, v = ac[loc]
            bv = base[loc][1]
            def get(cells, loc=loc):
                w, v = cells[loc]
                if isinstance(v, Ptr):
                    return A.z(64, v.idx) if (64 in A.intw or isc(v.idx) or z3.is_int(v.idx)) else None
                if loc[0] == 'g' and z3.is_expr(v) and z3.is_int(v):
                    return v
                if isc(v) and w in A.intw:
                    return A.z(w, v)
                if z3.is_expr(v) and z3.is_int(v):
                    return v
                return None
            b = get(base)
            if b is None or get(ac) is None:
                continue
            num.append((loc, get, b))
        out = []
        for loc, get, b in num:
            def mk(f, get=get, b=b):
                def inv(eng, s, cells):
                    x = get(cells) if loc in cells else None
                    return None if x is None else f(x, b)
                return inv
            out.append(mk(lambda x, b: x >= b))
            out.append(mk(lambda x, b: x <= b))
            out.append(mk(lambda x, b: x >= 0))
        for i in range(len(num)):
            for j in range(i):
                (l1, g1, b1), (l2, g2, b2) = num[i], num[j]
                if len(num) > 10:
                    continue
                for sg in (1, -1):
                    def inv(eng, s, cells, g1=g1, g2=g2, b1=b1, b2=b2, sg=sg):
                        x, y = g1(cells), g2(cells)
                        if x is None or y is None:
                            return None
                        return (x - b1) == sg * (y - b2)
                    out.append(inv)
        return out

    # ------------------------------------------------------------------ run
    def run(self, fname, setup):
        """verify one contract: setup(st) -> list of (st, args) pre-states"""
        f = self.funcs[fname]
        self.res.funcs.add(fname)
        st = State(self)
        pre = setup(st)
        if pre is None:
            pre = []
        for s, args in pre:
            if not s.feasible():
                continue
            fr = Frame(f)
            f.blocks
            for (t, nm, at), a in zip(f.params, args):
                fr.env[nm] = a
            if len(args) != len(f.params):
                raise Unsupported('arity of ' + fname)
            s.frames.append(fr)
            fr.block = f.entry
            fr.ip = 0
            self.work.append(s)
            self.drain()

    def drain(self):
        steps = 0
        while self.work:
            best = max(range(len(self.work)), key=lambda i: (sum(len(f.loops) for f in self.work[i].frames), i))
            st = self.work.pop(best)
            if st.stale():
                continue
            self.res.paths += 1
            if self.res.paths > self.max_paths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time budget of this attempt')
            t0 = time.time()
            while st is not None:
                steps += 1
                if steps > self.max_steps:
                    raise Unsupported('too many steps')
                st = self.step(st)

    def fork(self, st, conds):
        """conds: list of (cond, fn(state) or None). Pushes feasible alternatives, returns the list of states"""
        outs = []
        for c in conds:
            if isc(c):
                if c:
                    outs.append((st.clone(), c))
                continue
            if st.feasible(c):
                s = st.clone()
                s.assume(c)
                outs.append((s, c))
        return [s for s, _ in outs]

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.f._blocks[fr.block][fr.ip]
        h = getattr(self, 'i_' + ins.op)
        try:
            return h(st, fr, ins)
        except BadAccess as e:
            st.fail('memory-safety', str(e))
            return None

    def nxt(self, st):
        st.frames[-1].ip += 1
        return st

    def val(self, st, tv):
        return self.const(st, tv[0], tv[1])

    def setres(self, st, ins, v):
        if ins.res is not None:
            st.frames[-1].env[ins.res] = v

    def i_bin(self, st, fr, ins):
        op, flags, a, b = ins.a
        a, b = self.const(st, ins.ty, a), self.const(st, ins.ty, b)
        w = ins.ty.n if ins.ty.k == 'int' else None
        if a is UNDEF or b is UNDEF:
            self.setres(st, ins, UNDEF)
            return self.nxt(st)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            v = self.ptr_bin(st, op, a, b)
        else:
            if w is None:
                raise Unsupported('vector/fp arithmetic')
            v = self.A.bin(st, op, w, a, b, flags)
        self.setres(st, ins, v)
        return self.nxt(st)

    def ptr_bin(self, st, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                raise Unsupported('difference of unrelated pointers')
            o = st.mem.get(a.obj)
            d = self.A.bin(st, 'sub', 64, a.off & mask(64), b.off & mask(64))
            if o is not None and o.stride:
                k = self.A.bin(st, 'sub', 64, a.idx, b.idx)
                d = self.A.bin(st, 'add', 64, d, self.A.bin(st, 'mul', 64, k, o.stride))
            return d
        if op in ('add', 'sub') and isinstance(a, Ptr) and isc(b):
            d = sgn(64, b)
            return Ptr(a.obj, a.off + (d if op == 'add' else -d), a.idx)
        if op == 'and' and isinstance(a, Ptr) and isc(b):
            # alignment test of an aligned object
            if b < 16:
                return a.off & b
            if (mask(64) ^ b) < 16:
                return Ptr(a.obj, a.off & ~(mask(64) ^ b), a.idx)
        raise Unsupported('pointer arithmetic %s' % op)

    def i_icmp(self, st, fr, ins):
        pred, a, b = ins.a
        a, b = self.const(st, ins.ty, a), self.const(st, ins.ty, b)
        if ins.ty.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            v = self.pcmp(st, pred, a, b)
        elif a is UNDEF or b is UNDEF:
            v = UNDEF
        else:
            v = self.A.icmp(st, pred, ins.ty.n, a, b)
        self.setres(st, ins, v)
        return self.nxt(st)

    def i_cast(self, st, fr, ins):
        op, t, v = ins.a
        v = self.const(st, t, v)
        if v is UNDEF:
            pass
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            pass
        elif isinstance(v, (FP,)) or op.startswith('fp') or op.endswith('fp'):
            raise Unsupported('floating point')
        elif isinstance(v, Ptr):
            raise Unsupported('cast of pointer bits')
        else:
            v = self.A.cast(st, op, t.n, ins.ty.n, v)
        self.setres(st, ins, v)
        return self.nxt(st)

    def i_freeze(self, st, fr, ins):
        self.setres(st, ins, self.val(st, ins.a))
        return self.nxt(st)

    def truth(self, st, c):
        if c is UNDEF:
            st.fail('uninitialised-value', 'branch on an uninitialised value')
            c = z3.Const(fresh_name('undef'), z3.BoolSort())
        return c

    def i_br(self, st, fr, ins):
        c, a, b = ins.a
        if c is None:
            return st if self.goto(st, a) else None
        c = self.truth(st, self.const(st, INT(1), c))
        if isc(c):
            return st if self.goto(st, a if c else b) else None
        return self.branch(st, [(c, a), (z3.Not(c), b)])

    def branch(self, st, alts):
        live = [(c, l) for c, l in alts if st.feasible(c)]
        out = None
        for i, (c, l) in enumerate(live):
            s = st if i == len(live) - 1 else st.clone()
            if len(live) > 1:
                s.assume(c)
            if self.goto(s, l):
                if i == len(live) - 1:
                    out = s
                else:
                    self.work.append(s)
        return out

    def i_switch(self, st, fr, ins):
        v, d, cs = ins.a
        v = self.const(st, ins.ty, v)
        w = ins.ty.n
        if v is UNDEF:
            st.fail('uninitialised-value', 'switch on an uninitialised value')
            v = self.A.fresh(st, w, 'undef')
        if isc(v):
            for cv, l in cs:
                if cv == v:
                    return st if self.goto(st, l) else None
            return st if self.goto(st, d) else None
        alts = []
        rest = []
        bylab = {}
        for cv, l in cs:
            c = self.A.z(1, self.A.icmp(st, 'eq', w, v, cv))
            alts.append((c, l))
            rest.append(z3.Not(c))
        alts.append((z3.And(rest) if rest else z3.BoolVal(True), d))
        return self.branch(st, alts)

    def i_unreachable(self, st, fr, ins):
        if not st.g.get('#noreturn'):
            st.fail('unreachable-code', 'execution reaches code the compiler may assume unreachable')
        return None

    def i_phi(self, st, fr, ins):
        return self.nxt(st)

    def i_select(self, st, fr, ins):
        c, a, b = ins.a
        c = self.truth(st, self.val(st, c))
        a, b = self.val(st, a), self.val(st, b)
        if isc(c):
            self.setres(st, ins, a if c else b)
            return self.nxt(st)
        if self.same(a, b):
            self.setres(st, ins, a)
            return self.nxt(st)
        t = strip(ins.ty)
        if t.k == 'int' and not isinstance(a, Ptr) and not isinstance(b, Ptr) and a is not UNDEF and b is not UNDEF:
            self.setres(st, ins, self.A.simp(t.n, z3.If(c, self.A.z(t.n, a), self.A.z(t.n, b))))
            return self.nxt(st)
        live = [(cc, v) for cc, v in ((c, a), (z3.Not(c), b)) if st.feasible(cc)]
        for i, (cc, v) in enumerate(live):
            s = st if i == len(live) - 1 else st.clone()
            s.assume(cc)
            self.setres(s, ins, v)
            self.nxt(s)
            if s is not st:
                self.work.append(s)
        return st

    def i_alloca(self, st, fr, ins):
        sz = sizeof(ins.ty)
        if ins.a is not None:
            n = self.val(st, ins.a)
            if not isc(n):
                raise Unsupported('variable alloca')
            sz *= n
        # stable identity: one object per (frame depth, function, instruction) so that loops converge
        oid = '%s/%s/%d' % (fr.f.name[:60], ins.res, len(st.frames))
        o = Obj(oid, sz, 'undef', None, {'alloca': True})
        o.owner = st
        st.mem[oid] = o
        fr.allocas = fr.allocas + (oid,)
        self.setres(st, ins, Ptr(oid))
        return self.nxt(st)

    def shared(self, st, p):
        if not isinstance(p, Ptr):
            return None
        o = st.mem.get(p.obj)
        return o if o is not None and o.tags.get('shared') else None

    def i_load(self, st, fr, ins):
        pv, order, vol = ins.a
        p = self.val(st, pv)
        if p is UNDEF:
            raise BadAccess('read through an uninitialised pointer')
        if not isinstance(p, Ptr):
            r = self.spec.opaque_load(st, p, ins.ty)
            if r is None:
                raise BadAccess('read through null or wild pointer %r' % (p,))
            self.setres(st, ins, r)
            return self.nxt(st)
        o = self.shared(st, p)
        if o is not None:
            outs = self.spec.on_load(st, o, p, ins, order)
            return self.finish(outs, ins)
        o = st.mem.get(p.obj)
        if o is not None and o.tags.get('hooked'):
            outs = self.spec.hook_load(st, o, p, ins.ty)
            return self.finish(outs, ins)
        v = self.read_ty(st, p, ins.ty)
        if strip(ins.ty).k == 'int' and strip(ins.ty).n == 1 and not isc(v) and z3.is_bv(v):
            v = self.A.cast(st, 'trunc', 8, 1, v)
        self.spec.on_plain_load(st, p, ins, v)
        self.setres(st, ins, v)
        return self.nxt(st)

    def finish(self, outs, ins):
        """outs: list of (state, value)"""
        last = None
        for s, v in outs:
            if last is not None:
                self.work.append(last)
            self.setres(s, ins, v)
            self.nxt(s)
            last = s
        return last

    def i_store(self, st, fr, ins):
        v, pv, order, vol = ins.a
        v = self.val(st, v)
        p = self.val(st, pv)
        if p is UNDEF:
            raise BadAccess('write through an uninitialised pointer')
        if not isinstance(p, Ptr):
            if self.spec.opaque_store(st, p, ins.ty, v):
                return self.nxt(st)
            raise BadAccess('write through null or wild pointer %r' % (p,))
        o = self.shared(st, p)
        if o is not None:
            outs = self.spec.on_store(st, o, p, ins, v, order)
            return self.finish([(s, None) for s in outs], ins)
        o = st.mem.get(p.obj)
        if o is not None and o.tags.get('hooked'):
            outs = self.spec.hook_store(st, o, p, ins.ty, v)
            return self.finish([(s, None) for s in outs], ins)
        self.write_ty(st, p, ins.ty, v)
        self.spec.on_plain_store(st, p, ins, v)
        return self.nxt(st)

    def i_rmw(self, st, fr, ins):
        rop, pv, v, order = ins.a
        p, v = self.val(st, pv), self.val(st, v)
        return self.finish(self.do_rmw(st, p, ins.ty.n, rop, v, order), ins)

    def do_rmw(self, st, p, w, rop, v, order):
        o = self.shared(st, p)
        def upd(s, old):
            if rop == 'xchg':
                return v
            if rop in ('add', 'sub', 'and', 'or', 'xor'):
                return self.A.bin(s, rop, w, old, v)
            if rop == 'nand':
                return self.A.bin(s, 'xor', w, self.A.bin(s, 'and', w, old, v), mask(w))
            raise Unsupported('atomicrmw ' + rop)
        if o is None:
            if not isinstance(p, Ptr):
                raise BadAccess('atomic on wild pointer')
            old = self.mem_read(st, p, w // 8)
            self.mem_write(st, p, w // 8, upd(st, old))
            return [(st, old)]
        return self.spec.on_rmw(st, o, p, w, upd, order, rop)

    def i_cmpxchg(self, st, fr, ins):
        weak, pv, e, n, so, fo = ins.a
        p, ev, nv = self.val(st, pv), self.val(st, e), self.val(st, n)
        w = strip(e[0]).n if strip(e[0]).k == 'int' else 64
        o = self.shared(st, p)
        if o is None:
            old = self.mem_read(st, p, w // 8)
            c = self.A.icmp(st, 'eq', w, old, ev)
            outs = []
            for cc, ok in ((c, 1), (1 - c if isc(c) else z3.Not(c), 0)):
                if (isc(cc) and cc) or (not isc(cc) and st.feasible(cc)):
                    s = st.clone()
                    if not isc(cc):
                        s.assume(cc)
                    if ok:
                        self.mem_write(s, p, w // 8, nv)
                    outs.append((s, Agg([old, ok])))
            return self.finish(outs, ins)
        return self.finish(self.spec.on_cas(st, o, p, w, ev, nv, so, fo, weak), ins)

    def i_fence(self, st, fr, ins):
        order, ss = ins.a
        if ss is None:
            self.spec.on_fence(st, order)
        return self.nxt(st)

    def i_gep(self, st, fr, ins):
        b, idx = ins.a
        v = self.gep(st, ins.ty, self.val(st, b), [(t, self.const(st, t, x)) for t, x in idx])
        self.setres(st, ins, v)
        return self.nxt(st)

    def i_extractvalue(self, st, fr, ins):
        v, idx = ins.a
        x = self.val(st, v)
        for i in idx:
            if x is UNDEF:
                break
            x = x.v[i]
        self.setres(st, ins, x)
        return self.nxt(st)

    def i_insertvalue(self, st, fr, ins):
        v, e, idx = ins.a
        x = self.val(st, v)
        e = self.val(st, e)
        def ins_(a, idx):
            n = Agg(a.v)
            n.v[idx[0]] = e if len(idx) == 1 else ins_(n.v[idx[0]], idx[1:])
            return n
        self.setres(st, ins, ins_(x, idx))
        return self.nxt(st)

    # ------------------------------------------------------------------ calls
    def pop_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        return fr

    def i_ret(self, st, fr, ins):
        v = None if ins.a is None else self.const(st, ins.ty, ins.a)
        if len(st.frames) == 1:
            self.res.returns += 1
            st.g['#ret'] = True
            self.spec.on_return(st, v)
            return None
        self.pop_frame(st)
        call = fr.ret
        if call is None:
            # engine-driven nested call
            raise Unsupported('nested')
        return self.after_call(st, call, v)

    def after_call(self, st, call, v):
        if call.res is not None:
            st.frames[-1].env[call.res] = v
        if call.op == 'invoke':
            return st if self.goto(st, call.a['normal']) else None
        st.frames[-1].ip += 1
        return st

    def throw(self, st, exc):
        """unwind from the current instruction of the top frame"""
        st.exc = exc
        while True:
            fr = st.frames[-1]
            ins = fr.f._blocks[fr.block][fr.ip]
            if ins.op == 'invoke':
                return st if self.goto(st, ins.a['unwind']) else None
            if ins.op == 'call' and ins.a['nounwind']:
                st.fail('noexcept', 'exception %r escapes from a call the compiler assumes cannot throw' % exc)
                return None
            if fr.f.nounwind:
                st.fail('noexcept', 'exception %r would escape a noexcept function (std::terminate)' % exc)
                return None
            if len(st.frames) == 1:
                self.res.throws += 1
                self.spec.on_throw(st, exc)
                return None
            self.pop_frame(st)

    def i_resume(self, st, fr, ins):
        if st.exc is None:
            raise Unsupported('resume without exception')
        exc = st.exc
        if len(st.frames) == 1:
            self.res.throws += 1
            self.spec.on_throw(st, exc)
            return None
        if fr.f.nounwind:
            st.fail('noexcept', 'exception escapes noexcept function')
            return None
        self.pop_frame(st)
        return self.throw(st, exc)

    def i_landingpad(self, st, fr, ins):
        cleanup, cl = ins.a
        sel = 0
        for k, v in cl:
            if k == 'catch':
                if v == ('null',) or self.spec.exc_matches(st.exc, v[1]):
                    sel = self.typeid(v)
                    break
        else:
            if not cleanup:
                # nothing matches and no cleanup: unwinding continues past this frame
                exc = st.exc
                if len(st.frames) == 1:
                    self.res.throws += 1
                    self.spec.on_throw(st, exc)
                    return None
                self.pop_frame(st)
                return self.throw(st, exc)
        self.setres(st, ins, Agg([Ptr('#exc'), sel]))
        return self.nxt(st)

    def typeid(self, v):
        name = v[1] if v[0] == 'glob' else 'null'
        d = self._icache.setdefault('#tid', {})
        return d.setdefault(name, len(d) + 1)

    def i_call(self, st, fr, ins):
        d = ins.a
        callee = d['callee']
        if callee[0] == 'asm':
            return self.asm(st, ins, callee)
        args = [self.const(st, t, v) for t, v in d['args']]
        if callee[0] == 'glob':
            name = callee[1]
            for m in self.mods:
                while name in m.aliases:
                    name = m.aliases[name]
        else:
            fp = self.const(st, PTR, callee)
            if isinstance(fp, Ptr) and (fp.obj in self.funcs or any(fp.obj in m.decls for m in self.mods)):
                name = fp.obj
            else:
                h = self.spec.indirect(st, fp, args, ins)
                if h is None:
                    raise Unsupported('indirect call through %r' % (fp,))
                return self.outcomes(st, ins, h)
        return self.call(st, ins, name, args)

    i_invoke = i_call

    def call(self, st, ins, name, args):
        h = self.spec.lookup(name, self)
        if h is not None:
            outs = h(st, args, ins)
            if outs is not NotImplemented:
                self.res.contracts.add(self.spec.demangled(name))
                return self.outcomes(st, ins, outs)
        b = self.builtin(name)
        if b is not None:
            outs = b(st, args, ins)
            if outs is not NotImplemented:
                return self.outcomes(st, ins, outs)
        f = self.funcs.get(name)
        if f is None:
            raise Unsupported('call to external function without a contract: %s (%s)' % (self.spec.demangled(name), name))
        if len(st.frames) > 60:
            raise Unsupported('recursion: ' + name)
        for x in st.frames:
            if x.f is f and sum(1 for y in st.frames if y.f is f) > 3:
                raise Unsupported('recursion: ' + name)
        self.res.funcs.add(name)
        nf = Frame(f)
        f.blocks
        for (t, nm, at), a in zip(f.params, args):
            nf.env[nm] = a
        nf.ret = ins
        nf.block = f.entry
        st.frames.append(nf)
        # entry block may be a loop header? never (entry has no predecessors)
        return st

    def outcomes(self, st, ins, outs):
        """outs: list of (state, 'ret'|'throw'|'stop', value)"""
        conts = []
        for s, k, v in outs:
            if k == 'ret':
                r = self.after_call(s, ins, v)
            elif k == 'throw':
                r = self.throw(s, v)
            elif k == 'stop':
                r = None
            elif k == 'cont':
                r = s
            else:
                raise Unsupported(k)
            if r is not None:
                conts.append(r)
        if not conts:
            return None
        for c in conts[:-1]:
            self.work.append(c)
        return conts[-1]

    def asm(self, st, ins, callee):
        tmpl = callee[1].replace('\\0A', ' ').replace('\\09', ' ').replace('\\0D', ' ').strip()
        args = [(t, self.const(st, t, v)) for t, v in ins.a['args']]
        if tmpl in ('', 'pause', 'pause;', 'rep; nop', 'rep;nop', 'nop'):
            if ins.res is not None:
                raise Unsupported('asm: ' + tmpl)
            if callee[2].find('~{memory}') >= 0 and tmpl == '':
                pass
            return self.nxt(st)
        m = re.fullmatch(r'lock;? *(inc|dec|add|sub|and|or|xor|not|neg)([bwlq]) (?:\$(\d+|\{\d+\}), *)?\$0;?', tmpl.replace('$$', '#'))
        m = m or re.fullmatch(r'lock;? *(inc|dec|add|sub|and|or|xor|not)([bwlq]) (#\d+|\$\d+, *)?\$0;?', tmpl.replace('$$', '#'))
        if m and ins.res is None:
            op, sz = m.group(1), m.group(2)
            w = {'b': 8, 'w': 16, 'l': 32, 'q': 64}[sz]
            p = args[0][1]
            if op in ('inc', 'dec'):
                rop, v = ('add' if op == 'inc' else 'sub'), 1
            elif op == 'not':
                rop, v = 'xor', mask(w)
            else:
                rop = op
                # constraint string: "=*m,ir,*m" -> operand list of non-pointer value
                vals = [a for t, a in args if t.k == 'int']
                if len(vals) != 1:
                    raise Unsupported('asm: ' + tmpl)
                v = vals[0]
            outs = self.do_rmw(st, p, w, rop, v, 'seq_cst')
            return self.finish([(s, None) for s, _ in outs], ins)
        r = self.spec.asm(st, tmpl, callee[2], args, ins)
        if r is not None:
            return self.finish(r, ins)
        raise Unsupported('inline asm: %r %r' % (tmpl, callee[2]))

    # ------------------------------------------------------------------ builtins
    def builtin(self, name):
        n = name[1:]
        if n.startswith('llvm.'):
            return lambda st, a, ins: self.llvm(n, st, a, ins)
        return getattr(self, 'b_' + n, None)

    def llvm(self, n, st, a, ins):
        A = self.A
        if re.match(r'llvm\.(lifetime|dbg|invariant|donothing|experimental\.noalias|prefetch|assume|stackrestore|va_)', n):
            return [(st, 'ret', None)]
        if n.startswith('llvm.expect'):
            return [(st, 'ret', a[0])]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if any(isinstance(x, Ptr) and x.obj in st.mem and st.mem[x.obj].tags.get('hooked') for x in a[:2]):
                return [(s, 'ret', None) for s in self.spec.hook_copy(st, a[0], a[1], a[2])]
            self.copy(st, a[0], a[1], a[2])
            return [(st, 'ret', None)]
        if n.startswith('llvm.memset'):
            p, v, sz = a[0], a[1], a[2]
            if not isc(sz) or not isc(v):
                raise Unsupported('memset')
            o = st.wobj(p.obj)
            if o.tags.get('shared'):
                raise Unsupported('memset of shared object')
            k = 0
            while k < sz:
                s = 8 if (p.off + k) % 8 == 0 and sz - k >= 8 else 4 if (p.off + k) % 4 == 0 and sz - k >= 4 else 1
                self.mem_write(st, Ptr(p.obj, p.off + k, p.idx), s, int.from_bytes(bytes([v]) * s, 'little'))
                k += s
            return [(st, 'ret', None)]
        if n.startswith('llvm.eh.typeid.for'):
            nm = a[0]
            d = self._icache.setdefault('#tid', {})
            key = nm.obj if isinstance(nm, Ptr) else 'null'
            return [(st, 'ret', d.setdefault(key, len(d) + 1))]
        m = re.match(r'llvm\.(umax|umin|smax|smin|abs)\.i(\d+)', n)
        if m:
            w = int(m.group(2))
            op = m.group(1)
            if op == 'abs':
                c = A.icmp(st, 'slt', w, a[0], 0)
                x, y = A.bin(st, 'sub', w, 0, a[0]), a[0]
            else:
                c = A.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op], w, a[0], a[1])
                x, y = a[0], a[1]
            if isc(c):
                return [(st, 'ret', x if c else y)]
            return [(st, 'ret', A.simp(w, z3.If(c, A.z(w, x), A.z(w, y))))]
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(3))
            sg = m.group(1) == 's'
            f = A.sval if sg else A.uval
            x, y = f(st, w, a[0]), f(st, w, a[1])
            e = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if sg else (0, 1 << w)
            ov = A.simp(1, z3.Or(e < lo, e >= hi))
            return [(st, 'ret', Agg([A.bin(st, m.group(2), w, a[0], a[1]), ov]))]
        if n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'):
            st.fail('trap', 'llvm.trap reached')
            return [(st, 'stop', None)]
        if n.startswith('llvm.objectsize'):
            return [(st, 'ret', mask(64))]
        if n.startswith('llvm.is.constant'):
            return [(st, 'ret', 0)]
        if n.startswith('llvm.stacksave'):
            return [(st, 'ret', 0)]
        m = re.match(r'llvm\.threadlocal\.address', n)
        if m:
            return [(st, 'ret', a[0])]
        m = re.match(r'llvm\.ctpop\.i(\d+)', n)
        raise Unsupported(n)

    def copy(self, st, d, s, n):
        if not isc(n):
            r = self.spec.sym_copy(st, d, s, n)
            if r:
                return
            raise Unsupported('memcpy of symbolic size')
        if n == 0:
            return
        so = st.mem.get(s.obj) if isinstance(s, Ptr) else None
        if so is None:
            raise BadAccess('memcpy from bad pointer %r' % (s,))
        if so.tags.get('shared') or st.mem[d.obj].tags.get('shared'):
            raise Unsupported('memcpy on shared object')
        if so.stride or st.mem[d.obj].stride:
            return self.spec.array_copy(st, d, s, n)
        items = []
        k = s.off
        end = s.off + n
        parts = sorted((o, c) for o, c in so.cells.items() if o < end and s.off < o + c[0])
        for o, (sz, v) in parts:
            if o >= s.off and o + sz <= end:
                items.append((o - s.off, sz, v))
            else:
                for b in range(max(o, s.off), min(o + sz, end)):
                    items.append((b - s.off, 1, self.extract(st, v, sz, b - o, 1)))
        if so.init in ('zero', 'lazy'):
            cov = set()
            for o, sz, v in items:
                cov.update(range(o, o + sz))
            gaps = [i for i in range(n) if i not in cov]
            if gaps and so.init == 'zero':
                i = 0
                gs = set(gaps)
                while i < n:
                    if i not in gs:
                        i += 1
                        continue
                    size = next(z for z in (8, 4, 2, 1) if (s.off + i) % z == 0 and all(i + q in gs for q in range(z)))
                    items.append((i, size, 0))
                    i += size
            elif gaps:
                i = 0
                while i < n:
                    if i in cov:
                        i += 1
                        continue
                    j = i
                    while j < n and j not in cov and j - i < 8:
                        j += 1
                    size = 8 if j - i >= 8 else 4 if j - i >= 4 else 1
                    items.append((i, size, self.mem_read(st, Ptr(s.obj, s.off + i), size)))
                    i += size
        # clear destination
        do = st.wobj(d.obj)
        for o, (sz, v) in list(do.cells.items()):
            if o < d.off + n and d.off < o + sz:
                if o >= d.off and o + sz <= d.off + n:
                    del do.cells[o]
        for o, sz, v in items:
            self.mem_write(st, Ptr(d.obj, d.off + o, d.idx), sz, v)

    def b_memcpy(self, st, a, ins):
        if any(isinstance(x, Ptr) and x.obj in st.mem and st.mem[x.obj].tags.get('hooked') for x in a[:2]):
            return [(s, 'ret', a[0]) for s in self.spec.hook_copy(st, a[0], a[1], a[2])]
        self.copy(st, a[0], a[1], a[2])
        return [(st, 'ret', a[0])]

    b_memmove = b_memcpy

    def b___cxa_begin_catch(self, st, a, ins):
        fr = st.frames[-1]
        st.g['#caught'] = st.g.get('#caught', ()) + (st.exc,)
        st.exc = None
        return [(st, 'ret', Ptr('#exc'))]

    def b___cxa_end_catch(self, st, a, ins):
        st.g['#caught'] = st.g['#caught'][:-1]
        return [(st, 'ret', None)]

    def b___cxa_rethrow(self, st, a, ins):
        exc = st.g['#caught'][-1]
        # the handler's cleanup will call __cxa_end_catch
        return [(st, 'throw', exc)]

    def b___clang_call_terminate(self, st, a, ins):
        st.fail('noexcept', 'std::terminate: %r escapes a noexcept region' % (st.exc,))
        return [(st, 'stop', None)]

    def b__ZSt9terminatev(self, st, a, ins):
        st.fail('terminate', 'std::terminate called')
        return [(st, 'stop', None)]

    def b___assert_fail(self, st, a, ins):
        st.fail('assertion', 'assertion fails')
        return [(st, 'stop', None)]

    def b_abort(self, st, a, ins):
        st.fail('abort', 'abort() called')
        return [(st, 'stop', None)]

    def b___cxa_allocate_exception(self, st, a, ins):
        p = st.new_obj('exc', a[0] if isc(a[0]) else None)
        return [(st, 'ret', p)]

    def b___cxa_free_exception(self, st, a, ins):
        return [(st, 'ret', None)]

    def b___cxa_throw(self, st, a, ins):
        t = a[1].obj if isinstance(a[1], Ptr) else '?'
        return [(st, 'throw', Exc(self.spec.demangled(t).replace('typeinfo for ', ''), None, None))]

    def b___errno_location(self, st, a, ins):
        return [(st, 'ret', self.errno(st))]

    def errno(self, st):
        if 'errno' not in st.mem:
            o = Obj('errno', 4, 'lazy')
            o.owner = st
            st.mem['errno'] = o
        return Ptr('errno')


class BadAccess(Exception):
    pass


class Restart(Exception):
    pass


class StopFirst(Exception):
    pass


class Failure:
    def __init__(self, name, where, detail, st, model, cond):
        self.name, self.where, self.detail, self.cond = name, where, detail, cond
        self.state = st.clone()
        self.model = model
        self.stackf = [f.f.name for f in st.frames]

    def trace_lines(self):
        out = []
        m = self.model
        def ev(v):
            if z3.is_expr(v) and m is not None:
                try:
                    r = m.eval(v, model_completion=True)
                    return str(r)
                except Exception:
                    return str(v)
            return str(v)
        for kind, text, where, vals in self.state.trace:
            out.append('%-8s %-60s %s%s' % (kind, where, text, ''.join(' %s=%s' % (k, ev(v)) for k, v in vals.items())))
        return out

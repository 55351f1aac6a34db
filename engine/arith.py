"""Machine integers.  Each bit width is represented either as z3 bit-vectors (exact) or as z3 mathematical integers in the
signed canonical range with explicit wrap-around (exact too: every operation that may leave the range is wrapped unless the
path condition proves it cannot).  Concrete values are Python ints, canonical unsigned."""
import z3


def _exact(e, c):
    """e / c if every term of the sum e is a multiple of the constant c, syntactically"""
    if z3.is_int_value(e):
        v = e.as_long()
        return z3.IntVal(v // c) if v % c == 0 else None
    if z3.is_add(e):
        t = [_exact(x, c) for x in e.children()]
        return None if any(x is None for x in t) else z3.simplify(z3.Sum(t))
    if z3.is_mul(e) and z3.is_int_value(e.arg(0)) and e.arg(0).as_long() % c == 0:
        k = e.arg(0).as_long() // c
        x = [e.arg(i) for i in range(1, e.num_args())]
        r = x[0]
        for y in x[1:]:
            r = r * y
        return z3.simplify(k * r)
    return None


class Unsupported(Exception):
    pass


def mask(w):
    return (1 << w) - 1


def sgn(w, n):
    n &= mask(w)
    return n - (1 << w) if n >> (w - 1) else n


def isc(v):
    return isinstance(v, int) and not isinstance(v, bool)


_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


class Arith:
    def __init__(self, intw=()):
        self.intw = set(intw)
        self.origin = {}

    def sort(self, w):
        if w == 1:
            return z3.BoolSort()
        return z3.IntSort() if w in self.intw else z3.BitVecSort(w)

    def z(self, w, v):
        """to z3"""
        if isc(v):
            if w == 1:
                return z3.BoolVal(bool(v))
            if w in self.intw:
                return z3.IntVal(sgn(w, v))
            return z3.BitVecVal(v, w)
        return v

    def fresh(self, st, w, name='v'):
        v = z3.Const(fresh_name(name), self.sort(w))
        if w in self.intw:
            h = 1 << (w - 1)
            st.assume(z3.And(v >= -h, v < h))
        return v

    def norm(self, w, v):
        """z3 constant -> python int"""
        if isc(v):
            return v & mask(w)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_int_value(v):
            return v.as_long() & mask(w)
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return v

    def simp(self, w, v):
        if isc(v):
            return v & mask(w)
        return self.norm(w, z3.simplify(v))

    # views
    def sval(self, st, w, v):
        """mathematical signed value as z3 Int"""
        if isc(v):
            return z3.IntVal(sgn(w, v))
        if w in self.intw:
            return v
        if w == 1:
            return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
        return z3.BV2Int(v, True)

    def uval(self, st, w, v):
        if isc(v):
            return z3.IntVal(v & mask(w))
        if w in self.intw:
            if st is not None and st.proves(v >= 0):
                return v
            return z3.If(v < 0, v + (1 << w), v)
        if w == 1:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return z3.BV2Int(v, False)

    def wrap(self, st, w, x):
        """z3 Int -> canonical signed in width w"""
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long() & mask(w)
        h = 1 << (w - 1)
        if st.proves(z3.And(x >= -h, x < h)):
            return x
        if st.proves(z3.And(x >= 0, x < 2 * h)):
            return z3.If(x >= h, x - 2 * h, x)
        return ((x + h) % (2 * h)) - h

    def from_int(self, st, w, x):
        if w in self.intw:
            return self.wrap(st, w, x)
        return self.norm(w, z3.simplify(z3.Int2BV(x, w)))

    def _divmod_trunc(self, st, a, c):
        """C division of z3 Int a by nonzero python int c: fresh q, r with defining constraints"""
        key = ('dm', a.get_id(), c)
        memo = st.memo
        if key in memo:
            return memo[key][:2]
        e = _exact(z3.simplify(a), c)
        if e is not None:
            memo[key] = (e, z3.IntVal(0), a)
            return memo[key][:2]
        q = z3.Int(fresh_name('q'))
        r = z3.Int(fresh_name('r'))
        ac = abs(c)
        st.assume(a == q * c + r)
        if st.proves(a >= 0):
            st.assume(z3.And(r >= 0, r < ac))
        else:
            st.assume(z3.If(a >= 0, z3.And(r >= 0, r < ac), z3.And(r <= 0, r > -ac)))
        memo[key] = (q, r, a)
        return q, r

    def bin(self, st, op, w, a, b, flags=()):
        if isc(a) and isc(b):
            return self._cbin(op, w, a, b)
        if w == 1:
            A, B = self.z(1, a), self.z(1, b)
            if op == 'and' or op == 'mul':
                return self.simp(1, z3.And(A, B))
            if op == 'or':
                return self.simp(1, z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                return self.simp(1, z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        if w in self.intw:
            return self._ibin(st, op, w, a, b, flags)
        A, B = self.z(w, a), self.z(w, b)
        f = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B,
             'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B,
             'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]
        r = f()
        if st.ub and flags and op in ('add', 'sub', 'mul') and 'nsw' in flags:
            ok = {'add': lambda: z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)),
                  'sub': lambda: z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)),
                  'mul': lambda: z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))}[op]()
            st.oblige('no-signed-overflow', ok)
        return self.simp(w, r)

    def _cbin(self, op, w, a, b):
        m = mask(w)
        sa, sb = sgn(w, a), sgn(w, b)
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = a >> b
        elif op == 'ashr':
            r = sa >> b
        elif op == 'udiv':
            r = a // b
        elif op == 'urem':
            r = a % b
        elif op in ('sdiv', 'srem'):
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            r = q if op == 'sdiv' else sa - q * sb
        return r & m

    def _ibin(self, st, op, w, a, b, flags):
        A, B = self.z(w, a), self.z(w, b)
        if op in ('add', 'sub', 'mul'):
            x = A + B if op == 'add' else A - B if op == 'sub' else A * B
            if 'nsw' in flags and st.ub:
                h = 1 << (w - 1)
                x = z3.simplify(x)
                st.oblige('no-signed-overflow', z3.And(x >= -h, x < h))
                return self.norm(w, x)
            return self.wrap(st, w, x)
        if op in ('sdiv', 'srem'):
            if not isc(b):
                raise Unsupported('division by a variable')
            c = sgn(w, b)
            q, r = self._divmod_trunc(st, A, c)
            return q if op == 'sdiv' else r
        if op in ('udiv', 'urem'):
            if not isc(b):
                raise Unsupported('division by a variable')
            U = self.uval(st, w, a)
            q, r = self._divmod_trunc(st, U, b & mask(w))
            return self.wrap(st, w, q if op == 'udiv' else r)
        if op == 'shl' and isc(b):
            return self.wrap(st, w, A * (1 << b))
        if op == 'lshr' and isc(b):
            return self.wrap(st, w, self.uval(st, w, a) / (1 << b))
        if op == 'ashr' and isc(b):
            return self.simp(w, A / (1 << b))
        if isc(a) and op in ('and', 'or', 'xor'):
            a, b, A, B = b, a, B, A
        if op == 'and' and isc(b):
            n = b & mask(w)
            if n == 0:
                return 0
            if n == mask(w):
                return a
            if n & (n + 1) == 0:
                return self.wrap(st, w, self.uval(st, w, a) % (n + 1))
            neg = mask(w) ^ n
            if neg & (neg + 1) == 0:
                return self.wrap(st, w, A - (self.uval(st, w, a) % (neg + 1)))
        if op == 'xor' and isc(b) and b == mask(w):
            return self.simp(w, -A - 1)
        if op in ('or', 'xor') and isc(b) and b == 0:
            return a
        # fall back to bit-vectors
        X, Y = z3.Int2BV(A, w), z3.Int2BV(B, w)
        r = {'and': lambda: X & Y, 'or': lambda: X | Y, 'xor': lambda: X ^ Y}.get(op)
        if r is None:
            raise Unsupported('int op ' + op)
        return z3.BV2Int(r(), True)

    def icmp(self, st, pred, w, a, b):
        if isc(a) and isc(b):
            sa, sb = (sgn(w, a), sgn(w, b))
            a &= mask(w); b &= mask(w)
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb, 'sle': sa <= sb}[pred])
        A, B = self.z(w, a), self.z(w, b)
        if pred == 'eq':
            return self.simp(1, A == B)
        if pred == 'ne':
            return self.simp(1, A != B)
        if w == 1:
            raise Unsupported('icmp i1 ' + pred)
        if w in self.intw:
            if pred[0] == 'u':
                A, B = self.uval(st, w, a), self.uval(st, w, b)
            r = {'gt': A > B, 'ge': A >= B, 'lt': A < B, 'le': A <= B}[pred[1:]]
            return self.simp(1, r)
        r = {'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
        return self.simp(1, r)

    def cast(self, st, op, w1, w2, v):
        if isc(v):
            if op == 'sext':
                return sgn(w1, v) & mask(w2)
            return v & mask(min(w1, w2))
        if w1 == 1:
            if op == 'zext':
                one = 1
            elif op == 'sext':
                one = mask(w2)
            else:
                return v
            return self.simp(w2, z3.If(v, self.z(w2, one), self.z(w2, 0)))
        if w2 == 1:  # trunc to i1
            if w1 in self.intw:
                return self.simp(1, v % 2 == 1)
            return self.simp(1, z3.Extract(0, 0, v) == 1)
        i1, i2 = w1 in self.intw, w2 in self.intw
        if op == 'trunc':
            if i1 and i2:
                return self.wrap(st, w2, v)
            if i1:
                r = self.simp(w2, z3.Int2BV(v, w2))
                if z3.is_expr(r):
                    self.origin[r.get_id()] = (v, r)
                return r
            r = z3.Extract(w2 - 1, 0, v)
            return self.wrap(st, w2, z3.BV2Int(r, True)) if i2 else self.simp(w2, r)
        if op == 'sext':
            if i1 and i2:
                return v
            if i2:
                o = self.origin.get(v.get_id())
                if o is not None and st.proves(z3.And(o[0] >= -(1 << (w1 - 1)), o[0] < (1 << (w1 - 1)))):
                    return o[0]
                return z3.BV2Int(v, True)
            if i1:
                return self.simp(w2, z3.Int2BV(v, w2))
            return self.simp(w2, z3.SignExt(w2 - w1, v))
        if op == 'zext':
            if i1 and i2:
                return self.simp(w2, self.uval(st, w1, v))
            if i2:
                o = self.origin.get(v.get_id())
                if o is not None and st.proves(z3.And(o[0] >= 0, o[0] < (1 << w1))):
                    return o[0]
                return z3.BV2Int(v, False)
            if i1:
                return self.simp(w2, z3.Int2BV(self.uval(st, w1, v), w2))
            return self.simp(w2, z3.ZeroExt(w2 - w1, v))
        raise Unsupported(op)

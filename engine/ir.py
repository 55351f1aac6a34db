"""Parser for textual LLVM IR (LLVM 18, opaque pointers), as produced by clang from /repo's sources.

Only syntax is handled here; meaning lives in sym.py.  Anything not understood raises IRError, which a
check reports as an error of the check (exit 2), never as a violation."""
import re
from functools import lru_cache


class IRError(Exception):
    pass


# ----------------------------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "n", "_size", "_align")

    def __init__(self, k, a=None, n=None):
        self.k, self.a, self.n = k, a, n
        self._size = self._align = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.a)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        return self.k


VOID = Ty('void')
PTR = Ty('ptr')
LABEL = Ty('label')
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty('int', None, n)
    return _ints[n]


TOK = re.compile(r'''\s*(
    c"(?:[^"])*" | "(?:[^"])*" |
    [%@](?:[-a-zA-Z$._0-9]+|"[^"]*") |
    ![-a-zA-Z$._0-9]*(?:\([^)]*\))? | \#\d+ |
    -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-fKLMHR]+ | -?\d+ |
    [a-zA-Z_][-a-zA-Z0-9_.$]* | \.\.\. |
    [][(){}<>,=*:]
)''', re.X)


def tokenize(s):
    out, p, n = [], 0, len(s)
    while p < n:
        m = TOK.match(s, p)
        if not m:
            if s[p:].strip() == '':
                break
            raise IRError('tokenize: %r' % s[p:p + 60])
        out.append(m.group(1))
        p = m.end()
    return out


def unq(name):
    # %"foo" -> %foo
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'returned', 'immarg', 'nofree',
               'readnone', 'writeonly', 'inreg', 'noext', 'nest', 'swiftself', 'allocptr', 'dead_on_unwind', 'writable', 'nobuiltin'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory', 'allocsize', 'elementtype', 'range', 'allockind'}
LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak', 'linkonce_odr',
        'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'unnamed_addr',
        'local_unnamed_addr', 'dllimport', 'dllexport', 'fastcc', 'ccc', 'coldcc', 'thread_local', 'externally_initialized'}


class P:
    """token cursor"""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise IRError('expected %r got %r in %s' % (x, self.peek(), ' '.join(self.t)))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # types
    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
        elif x == 'void':
            t = VOID
        elif x == 'label':
            t = LABEL
        elif re.fullmatch(r'i\d+', x):
            t = INT(int(x[1:]))
        elif x in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            t = Ty('fp', None, {'half': 2, 'float': 4, 'double': 8}.get(x, 16))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', e, n)
        elif x == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.type())
                self.eat(',')
            t = Ty('struct', fs, False)
        elif x == '<':
            if self.eat('{'):
                fs = []
                while not self.eat('}'):
                    fs.append(self.type())
                    self.eat(',')
                self.expect('>')
                t = Ty('struct', fs, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vec', e, n)
        elif x[0] == '%':
            t = self.m.named(unq(x))
        elif x in ('metadata', 'token', 'opaque'):
            t = Ty(x)
        else:
            raise IRError('type? %r in %s' % (x, ' '.join(self.t)))
        # function type
        while self.peek() == '(':
            self.skip_parens()
            t = Ty('fn', t)
        return t

    def attrs(self):
        """skip parameter / return attributes; returns set of seen names"""
        seen = set()
        while True:
            x = self.peek()
            if x is None:
                return seen
            if x in PARAM_ATTRS:
                self.next()
                seen.add(x)
            elif x in PARAM_ATTRS_ARG:
                self.next()
                seen.add(x)
                if self.peek() == '(':
                    self.skip_parens()
                elif x == 'align':
                    self.next()
            elif x[0] == '"' and x != '"':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return seen

    # values: ('reg',name) ('int',n) ('null',) ('undef',) ('zero',) ('glob',name) ('agg',[...]) ('gep',...) ('cast',...)
    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('reg', unq(x))
        if x[0] == '@':
            return ('glob', unq(x))
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if re.fullmatch(r'-?\d+', x):
            if ty.k == 'int':
                return ('int', int(x) & ((1 << ty.n) - 1))
            return ('fp', x)
        if x[0:2] == 'c"':
            bs = []
            s = x[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    bs.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(s[i]))
                    i += 1
            return ('agg', [(INT(8), ('int', b)) for b in bs])
        if x in ('[', '{') or (x == '<' and self.peek() in ('{', 'i8', 'i16', 'i32', 'i64', 'i1', 'ptr')):
            packed = x == '<' and self.eat('{')
            close = {'[': ']', '{': '}', '<': '}' if packed else '>'}[x]
            els = []
            while not self.eat(close):
                t = self.type()
                els.append((t, self.value(t)))
                self.eat(',')
            if packed:
                self.expect('>')
            return ('agg', els)
        if x == 'getelementptr':
            inb = self.eat('inbounds')
            self.eat('nuw'); self.eat('nusw')
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                t = self.type()
                ops.append((t, self.value(t)))
                if not self.eat(','):
                    break
                if self.peek() == 'inrange':
                    self.next()
            self.expect(')')
            return ('gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'zext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('sub', 'add'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type(); a = self.value(t)
            self.expect(',')
            t = self.type(); b = self.value(t)
            self.expect(')')
            return ('cbin', x, t, a, b)
        if x[:2] == '0x' or re.match(r'-?\d+\.', x):
            return ('fp', x)
        raise IRError('value? %r in %s' % (x, ' '.join(self.t)))

    def tval(self):
        t = self.type()
        self.attrs()
        return (t, self.value(t))


class Inst:
    __slots__ = ("op", "res", "ty", "a", "loc", "text")

    def __init__(self, op, res, ty, a, loc, text):
        self.op, self.res, self.ty, self.a, self.loc, self.text = op, res, ty, a, loc, text


class Func:
    def __init__(self, mod, name, ret, params, lines, attrs):
        self.mod, self.name, self.ret, self.params, self._lines, self.attrs = mod, name, ret, params, lines, attrs
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    @property
    def nounwind(self):
        return 'nounwind' in self.mod.attrgroups.get(self.attrs, ())

    def _parse(self):
        blocks, order, cur = {}, [], None
        first = self._lines[0] if self._lines else ''
        lines = self._lines
        i = 0
        entry = None
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1).strip('"')
                cur = []
                blocks['%' + nm] = cur
                order.append('%' + nm)
                continue
            if cur is None:
                # unnamed entry block: its number = number of unnamed params
                cur = []
                blocks['%entry#'] = cur
                order.append('%entry#')
            if re.match(r'\s*switch ', ln) or ' switch ' in ln[:12]:
                while ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            while i < len(lines) and re.match(r'\s+(to label|catch |cleanup|filter )', lines[i]):
                s += ' ' + lines[i].strip()
                i += 1
            cur.append(s)
        self._blocks = {k: [parse_inst(self.mod, x) for x in v] for k, v in blocks.items()}
        self.order = order
        self.entry = order[0]
        self._loops = None

    # natural loop headers
    def loops(self):
        """header -> set of blocks in the natural loop"""
        if self._blocks is None:
            self._parse()
        if self._loops is not None:
            return self._loops
        succ = {b: succs(ins[-1]) for b, ins in self._blocks.items()}
        # dominators
        order, seen = [], set()
        st = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        idx = {b: k for k, b in enumerate(rpo)}
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
                elif idx[s] <= idx[b]:
                    raise IRError('irreducible loop in ' + self.name)
        self._loops = loops
        return loops


def succs(ins):
    if ins.op == 'br':
        return [x for x in ins.a[1:] if x is not None]
    if ins.op == 'switch':
        return [ins.a[1]] + [l for _, l in ins.a[2]]
    if ins.op == 'invoke':
        return [ins.a['normal'], ins.a['unwind']]
    return []


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'}
ORD = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}


def parse_inst(mod, s):
    loc = None
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        loc = int(m.group(1))
    body = re.sub(r',? ![-a-zA-Z._]+ !\d+', '', s)
    body = re.sub(r',? !srcloc !\d+', '', body)
    c = body
    # strip inline asm strings from tokenization trouble: handled by the "..." token
    toks = tokenize(c)
    p = P(mod, toks)
    res = None
    if p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()

    def mk(op, ty, a):
        return Inst(op, res, ty, a, loc, s)

    if op in BIN:
        flags = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            flags.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return mk('bin', t, (op, flags, a, b))
    if op == 'icmp':
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return mk('icmp', t, (pred, a, b))
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        t2 = p.type()
        return mk('cast', t2, (op, t, v))
    if op == 'ret':
        if p.eat('void'):
            return mk('ret', VOID, None)
        t = p.type()
        return mk('ret', t, p.value(t))
    if op == 'br':
        if p.eat('label'):
            return mk('br', None, (None, unq(p.next()), None))
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        b = unq(p.next())
        return mk('br', None, (c, a, b))
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cs = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cs.append((cv[1], unq(p.next())))
        return mk('switch', t, (v, d, cs))
    if op == 'unreachable':
        return mk('unreachable', None, None)
    if op == 'phi':
        while p.peek() in ('nnan', 'ninf', 'nsz', 'fast'):
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((unq(p.next()), v))
            p.expect(']')
            if not p.eat(','):
                break
        return mk('phi', t, dict(inc))
    if op == 'select':
        c = p.tval()
        p.expect(',')
        a = p.tval()
        p.expect(',')
        b = p.tval()
        return mk('select', a[0], (c, a, b))
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        n = None
        if p.eat(',') and p.peek() != 'align':
            n = p.tval()
        return mk('alloca', t, n)
    if op == 'load':
        at = p.eat('atomic')
        vol = p.eat('volatile')
        t = p.type()
        p.expect(',')
        pv = p.tval()
        if p.peek() == 'syncscope':
            p.next(); p.skip_parens()
        o = p.next() if p.peek() in ORD else None
        return mk('load', t, (pv, o if at else None, vol))
    if op == 'store':
        at = p.eat('atomic')
        vol = p.eat('volatile')
        v = p.tval()
        p.expect(',')
        pv = p.tval()
        if p.peek() == 'syncscope':
            p.next(); p.skip_parens()
        o = p.next() if p.peek() in ORD else None
        return mk('store', v[0], (v, pv, o if at else None, vol))
    if op == 'atomicrmw':
        p.eat('volatile')
        rop = p.next()
        pv = p.tval()
        p.expect(',')
        v = p.tval()
        if p.peek() == 'syncscope':
            p.next(); p.skip_parens()
        return mk('rmw', v[0], (rop, pv, v, p.next()))
    if op == 'cmpxchg':
        weak = p.eat('weak')
        p.eat('volatile')
        pv = p.tval()
        p.expect(',')
        e = p.tval()
        p.expect(',')
        n = p.tval()
        if p.peek() == 'syncscope':
            p.next(); p.skip_parens()
        so = p.next()
        fo = p.next()
        return mk('cmpxchg', Ty('struct', [e[0], INT(1)], False), (weak, pv, e, n, so, fo))
    if op == 'fence':
        ss = None
        if p.peek() == 'syncscope':
            p.next(); p.skip_parens(); ss = 1
        return mk('fence', None, (p.next(), ss))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type()
        p.expect(',')
        b = p.tval()
        idx = []
        while p.eat(','):
            idx.append(p.tval())
        return mk('gep', t, (b, idx))
    if op == 'extractvalue':
        v = p.tval()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return mk('extractvalue', None, (v, idx))
    if op == 'insertvalue':
        v = p.tval()
        p.expect(',')
        e = p.tval()
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return mk('insertvalue', v[0], (v, e, idx))
    if op in ('call', 'invoke'):
        while p.peek() in LINK or p.peek() in ('nnan', 'fast'):
            p.next()
        p.attrs()
        while p.peek() in LINK:
            p.next()
        rt = p.type()
        if rt.k == 'fn':
            rt = rt.a
        if p.peek() == 'asm':
            p.next()
            flags = []
            while p.peek()[0] != '"':
                flags.append(p.next())
            tmpl = p.next()[1:-1]
            p.expect(',')
            cons = p.next()[1:-1]
            callee = ('asm', tmpl, cons)
        else:
            callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.eat(')'):
            t = p.type()
            if t.k == 'metadata':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    d += (x == '(') - (x == ')')
                args.append((t, ('undef',)))
            else:
                at = p.attrs()
                args.append((t, p.value(t)) if 'byval' not in at else (t, p.value(t)))
            p.eat(',')
        d = {'callee': callee, 'args': args, 'normal': None, 'unwind': None, 'nounwind': False}
        while p.peek() is not None:
            x = p.next()
            if x[0] == '#':
                d['nounwind'] = 'nounwind' in mod.attrgroups.get(x, ())
                d['attrs'] = x
            elif x == 'to':
                p.expect('label')
                d['normal'] = unq(p.next())
                p.expect('unwind')
                p.expect('label')
                d['unwind'] = unq(p.next())
            elif x == 'nounwind':
                d['nounwind'] = True
            elif x == ',':
                pass
            elif x == 'noreturn' or x == '[':
                if x == '[':
                    while p.next() != ']':
                        pass
            elif x[0] in '"':
                if p.eat('='):
                    p.next()
            else:
                break
        return mk(op, rt, d)
    if op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.peek() is not None:
            x = p.next()
            if x == 'cleanup':
                cleanup = True
            elif x == 'catch':
                tt = p.type()
                cl.append(('catch', p.value(tt)))
            elif x == 'filter':
                tt = p.type()
                cl.append(('filter', p.value(tt)))
            elif x == ',':
                pass
            else:
                raise IRError('landingpad ' + s)
        return mk('landingpad', t, (cleanup, cl))
    if op == 'resume':
        return mk('resume', None, p.tval())
    if op == 'freeze':
        return mk('freeze', None, p.tval())
    raise IRError('unknown instruction: ' + s)


class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self.typetext = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.attrgroups = {}
        self.dbg = {}
        self.aliases = {}
        self._parse(text)

    def named(self, n):
        if n not in self.types:
            self.types[n] = t = Ty('named', n)
            tt = self.typetext.get(n)
            if tt is not None and tt != 'opaque':
                t.n = P(self, tokenize(tt)).type()
        return self.types[n]

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        heads = []
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            if ln[0] == '%':
                m = re.match(r'(%(?:"[^"]*"|\S+)) = type (.*)$', ln)
                self.typetext[unq(m.group(1))] = m.group(2)
            elif ln[0] == '@':
                m = re.match(r'(@(?:"[^"]*"|[^ ]+)) = (.*)$', ln)
                if ' alias ' in ln:
                    t = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', m.group(2))
                    self.aliases[unq(m.group(1))] = unq(t[-1])
                else:
                    self.globals[unq(m.group(1))] = m.group(2)
            elif ln.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                heads.append((ln, lines[i:j]))
                i = j + 1
            elif ln.startswith('declare '):
                heads.append((ln, None))
            elif ln.startswith('attributes '):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                self.attrgroups[m.group(1)] = set(m.group(2).split())
            elif ln[0] == '!':
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.dbg[int(m.group(1))] = m.group(2)
        for ln, body in heads:
            self._head(ln, body)

    def _head(self, ln, body):
        s = re.sub(r' (?:comdat|!dbg !\d+|personality .*)(?=[ {]|$)', ' ', ln)
        s = re.sub(r' personality .*$', '', s)
        s = s.rstrip(' {')
        toks = tokenize(s)
        p = P(self, toks)
        p.next()
        while p.peek() in LINK:
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        p.attrs()
        while p.peek() in LINK:
            p.next()
        rt = p.type()
        name = unq(p.next())
        p.expect('(')
        params = []
        vararg = False
        k = 0
        while not p.eat(')'):
            if p.eat('...'):
                vararg = True
                continue
            t = p.type()
            at = p.attrs()
            if p.peek() and p.peek()[0] == '%':
                nm = unq(p.next())
            else:
                nm = '%' + str(k)
                k += 1
            params.append((t, nm, at))
            p.eat(',')
        ag = None
        for x in p.t[p.i:]:
            if x[0] == '#':
                ag = x
        f = Func(self, name, rt, params, body, ag)
        f.vararg = vararg
        f.hasbody = body is not None
        if body is not None:
            self.funcs[name] = f
        else:
            self.decls[name] = f

    def loc(self, n):
        """file:line for a !dbg number; code inlined by the compiler is attributed to the innermost /repo location"""
        first = None
        while n is not None:
            d = self.dbg.get(n, '')
            m = re.search(r'line: (\d+)', d)
            here = '%s:%s' % (self._file(n), m.group(1) if m else '?')
            if first is None:
                first = here
            if 'boost/sync' in here or '/repo/' in here:
                return here
            m = re.search(r'inlinedAt: !(\d+)', d)
            n = int(m.group(1)) if m else None
        return first or '?'

    @lru_cache(None)
    def _file(self, n, depth=0):
        d = self.dbg.get(n, '')
        m = re.search(r'\bfile: !(\d+)', d)
        if m:
            f = self.dbg.get(int(m.group(1)), '')
            mm = re.search(r'filename: "([^"]*)"', f)
            return mm.group(1) if mm else '?'
        m = re.search(r'scope: !(\d+)', d)
        if m and depth < 20:
            return self._file(int(m.group(1)), depth + 1)
        return '?'


# ------------------------------------------------------------------------------------------- data layout (x86-64)
def strip(t):
    while t.k == 'named':
        if t.n is None:
            raise IRError('opaque type %s' % t.a)
        t = t.n
    return t


def sizeof(t):
    t = strip(t)
    if t._size is not None:
        return t._size
    k = t.k
    if k == 'int':
        r = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n) or (t.n + 7) // 8
    elif k == 'ptr' or k == 'fn':
        r = 8
    elif k == 'fp':
        r = t.n
    elif k == 'arr':
        r = t.n * sizeof(t.a)
    elif k == 'vec':
        r = t.n * sizeof(t.a)
    elif k == 'struct':
        o = 0
        for f in t.a:
            if not t.n:
                al = alignof(f)
                o = (o + al - 1) // al * al
            o += sizeof(f)
        if not t.n:
            al = alignof(t)
            o = (o + al - 1) // al * al
        r = o
    else:
        raise IRError('sizeof %r' % t)
    t._size = r
    return r


def alignof(t):
    t = strip(t)
    if t._align is not None:
        return t._align
    k = t.k
    if k in ('int', 'ptr', 'fp'):
        r = min(sizeof(t), 16) if k != 'int' or t.n != 128 else 16
    elif k in ('arr',):
        r = alignof(t.a)
    elif k == 'vec':
        r = sizeof(t)
    elif k == 'struct':
        r = 1 if t.n else max([alignof(f) for f in t.a] or [1])
    else:
        r = 8
    t._align = r
    return r


def field_off(t, i):
    t = strip(t)
    o = 0
    for j, f in enumerate(t.a):
        if not t.n:
            al = alignof(f)
            o = (o + al - 1) // al * al
        if j == i:
            return o
        o += sizeof(f)
    raise IRError('field %d of %r' % (i, t))

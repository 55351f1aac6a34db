"""Contracts of the library's exceptions (C07, C09, C10): the exception that leaves throw_exception is of the type asked for and carries the
OS error code in the system category.  Boost.System and std::string are used by contract: an error_code is a (value, category) pair,
a system_error keeps the code it is given."""
import re
import z3
from engine.spec import Spec
from engine.sym import Ptr, UNDEF
from engine.arith import isc, Unsupported
from .common import Aspects, tristate

TYPES = ('lock_error', 'wait_error', 'resource_error', 'overflow_error', 'runtime_exception')
EC = r'^boost::system::error_code::'
SE = r'^boost::system::system_error::'
CODE = 16       # where the contract of system_error keeps the code (this side of the contract only)


class Exceptions(Aspects):
    intercepts = (
        (EC + r'error_code\(int, boost::system::error_category const&\)$', 'c_code'),
        (EC + r'value\(\) const$', 'c_value'), (EC + r'category\(\) const$', 'c_category'),
        (SE + r'system_error\(boost::system::error_code const&', 'c_se_code'),
        (SE + r'system_error\(int, boost::system::error_category const&', 'c_se_int'),
        (SE + r'code\(\) const$', 'c_se_get'),
        (SE + r'~system_error\(\)$', 'c_nothing'), (r'^boost::sync::\w+::~\w+\(\)$', 'c_nothing'),
        (r'^boost::system::operator==\(boost::system::error_category const&', 'c_same'),
        (r'^boost::system::(system|generic)_category\(\)$', 'c_cat'),
        (r'^boost::source_location::source_location', 'c_nothing'),
        (r'^std::__cxx11::basic_string<.*>::(basic_string|~basic_string)|^std::allocator<char>::|^std::__new_allocator<char>::', 'c_nothing'),
    )

    def lookup(self, name, eng):
        if re.match(r'void boost::sync::detail::throw_exception<', self.demangled(name)):
            return None         # under contract here
        return super().lookup(name, eng)

    def put(self, st, p, off, val, cat):
        st.wr(p, 4, val, off=off)
        st.wr(p, 8, cat, off=off + 8)

    def c_code(self, st, a, ins):
        self.put(st, a[0], 0, a[1], a[2])
        return [(st, 'ret', None)]

    def c_value(self, st, a, ins):
        return [(st, 'ret', st.rd(a[0], 4))]

    def c_category(self, st, a, ins):
        return [(st, 'ret', st.rd(a[0], 8, off=8))]

    def c_se_code(self, st, a, ins):
        self.put(st, a[0], CODE, st.rd(a[1], 4), st.rd(a[1], 8, off=8))
        return [(st, 'ret', None)]

    def c_se_int(self, st, a, ins):
        self.put(st, a[0], CODE, a[1], a[2])
        return [(st, 'ret', None)]

    def c_se_get(self, st, a, ins):
        self.put(st, a[0], 0, st.rd(a[1], 4, off=CODE), st.rd(a[1], 8, off=CODE + 8))
        return [(st, 'ret', None)]

    def c_same(self, st, a, ins):
        return [(st, 'ret', int(a[0] == a[1]))]

    def c_cat(self, st, a, ins):
        return [(st, 'ret', 4096 if 'system_category' in self.demangled(ins.a['callee'][1]) else 8192)]

    def c_nothing(self, st, a, ins):
        return [(st, 'ret', None)]

    def c_bthrow(self, st, a, ins):
        m = re.search(r'throw_exception<([\w:]+)', self.demangled(ins.a['callee'][1]))
        self.ob(st, 'report count', 'error-type', m and m.group(1) == 'boost::sync::' + self.typ, 'throws %s' % (m and m.group(1)))
        self.thrown.append((st, a[0]))
        return [(st, 'stop', None)]

    def setup(self, st):
        self.thrown, self.rets = [], []
        self.e = self.eng.A.fresh(st, 32, 'err')
        st.assume(self.e != 0)
        if self.kind == 'make':
            self.p = st.new_obj('exception', 40)
            return [(st, [self.p, self.e] + ([st.new_obj('string', 32)] if self.text else []))]
        return [(st, [self.e])]

    def on_return(self, st, v):
        if self.kind == 'make':
            self.rets.append((st, self.p))
        else:
            st.fail('error-thrown', 'returns instead of throwing')


class Read(Exceptions):
    """what the accessors say about an exception made earlier"""
    def setup(self, st):
        for c in self.pre.pc:
            st.assume(c)
        st.mem.update(self.pre.clone().mem)
        return [(st, [self.p])]

    def on_return(self, st, v):
        if self.kind == 'system':
            self.ob(st, 'report count', 'error-category', tristate(v, self.eng), 'the error code is not one of the operating system')
        else:
            self.ob(st, 'report count', 'error-code', self.eng.A.z(32, v) == self.eng.A.z(32, self.want), 'the exception does not carry the error code')


def run(ctx, aspects):
    for t in TYPES:
        ways = [('make', 'make', None), ('make1', 'make', None), ('makes', 'make', None), ('throw', 'throw', None), ('throw1', 'throw', None),
                ('throw_perm', 'throw', 1), ('throw_nomem', 'throw', 12)] + ([('throw0', 'throw', 75)] if t == 'overflow_error' else [])
        for fn, kind, code in ways:
            sp = Exceptions(kind=kind, typ=t, aspects=aspects, text=fn == 'makes')
            ctx.verify('%s_%s' % (t, fn), sp, sp.setup, must_return=kind == 'make')
            got = sp.rets if kind == 'make' else sp.thrown
            if not got:
                ctx.fail('%s_%s' % (t, fn), 'error-thrown', 'nothing is thrown')
            for st, p in got:
                for acc in ('native', 'value', 'system'):
                    rd = Read(kind=acc, typ=t, aspects=aspects, pre=st, p=p, want=sp.e if code is None else code)
                    ctx.verify('%s_%s' % (t, acc), rd, rd.setup, label='%s_%s after %s' % (t, acc, fn))
    ctx.assume('Boost.System: an error_code keeps the value and category, a system_error the code it is constructed with; building the message text does not fail')

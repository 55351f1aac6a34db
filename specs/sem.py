"""Contracts of semaphore on POSIX semaphores (C07, C06)."""
import z3
from engine.spec import Spec
from engine.sym import Ptr, Exc
from engine.arith import isc, Unsupported
from .common import tristate
from .posix import Posix, code_is

OPS = [('post', 'post', None), ('wait', 'wait', None), ('try_wait', 'try', None), ('wait_for', 'timed', 'dur'), ('timed_wait_d', 'timed', 'dur'),
       ('wait_until_sys', 'timed', 'sys'), ('timed_wait_tp', 'timed', 'sys'), ('wait_until_ts', 'timed', 'ts'), ('wait_until_steady', 'timed', 'steady')]


class Sem(Posix):
    op = None
    deadline = None
    semoff = None

    def setup(self, st):
        self.p = st.new_obj('semaphore', 256)
        self.time_init(st)
        st.g.update(took=0, posted=0, empty=0, oserr=None, oserrs=0)
        args = [self.p]
        if self.op == 'ctor':
            self.n = z3.BitVec('n', 32)
            args.append(self.n)
        elif self.op == 'ctor0':
            self.n = 0
        if self.deadline:
            args.append(self.deadline_arg(st, self.deadline))
        return [(st, args)]

    def the_sem(self, st, p):
        self.ob(st, 'count time', 'right-semaphore', isinstance(p, Ptr) and p.obj == self.p.obj and p.off == self.semoff, 'operates on a different semaphore')

    def sem_made(self, st, p, n):
        self.ob(st, 'count', 'initial-count', self.eng.A.z(32, n) == self.eng.A.z(32, self.n), 'the semaphore is created with a different count')
        if p.obj != self.p.obj:
            self.ob(st, 'count', 'right-semaphore', False, 'creates a semaphore outside the object')
        self.found = p.off

    def sem_taken(self, st):
        st.g['took'] += 1
        self.ob(st, 'count', 'one-unit-per-wait', st.g['took'] <= 1 and self.op in ('wait', 'try', 'timed'), 'consumes more than one unit')

    def sem_empty(self, st):
        st.g['empty'] = 1

    def sem_posted(self, st):
        st.g['posted'] += 1
        self.ob(st, 'count', 'one-unit-per-post', st.g['posted'] <= 1 and self.op == 'post', 'adds more than one unit')

    def on_return(self, st, v):
        g = st.g
        if self.op in ('ctor', 'ctor0'):
            self.ob(st, 'count', 'constructed', g.get(('sinit', self.p.obj, getattr(self, 'found', -1)), 0) == 1, 'the constructor returns without having created the semaphore')
        elif self.op == 'dtor':
            self.ob(st, 'count', 'destroyed', g.get(('sdead', self.p.obj, self.semoff), 0) == 1, 'the semaphore is not destroyed')
        elif self.op == 'post':
            self.ob(st, 'count', 'post-adds-one', g['posted'] == 1, 'post() returns normally without having added one unit')
        else:
            r = z3.BoolVal(True) if self.op == 'wait' else tristate(v, self.eng)
            self.ob(st, 'count', 'result-is-unit', r == z3.BoolVal(g['took'] == 1), 'success is reported without a unit, or a unit is consumed although failure is reported')
            if not g['took']:
                self.ob(st, 'count time', 'fails-only-empty', z3.Or(r, z3.BoolVal(bool(g['empty']))), 'reports failure although the semaphore was never seen empty')
            self.finish_time(st, r)

    def on_throw(self, st, exc):
        g = st.g
        if not g['oserrs']:
            st.fail('no-exception', 'exception %r although no OS call failed' % exc)
            return
        self.ob(st, 'count', 'nothing-consumed', g['took'] == 0 and g['posted'] == 0, 'a failing operation changes the count')
        want = {'post': 'boost::sync::overflow_error'}.get(self.op, 'boost::sync::resource_error' if self.op.startswith('ctor') else None)
        self.ob(st, 'count', 'error-type', want is None or exc.type == want, 'exception of type %s' % exc.type)
        self.ob(st, 'count', 'error-code', code_is(self.eng, st, exc, g['oserr']), 'the exception does not carry the OS error code')


def posix(ctx, aspects, part):
    off = None
    for op in ('ctor', 'ctor0'):
        sp = Sem(op=op, aspects=aspects)
        ctx.verify('sem_' + op, sp, sp.setup, intw=(64,), must_throw=True)
        f = getattr(sp, 'found', None)
        if f is None or (off is not None and f != off):
            return
        off = f
    if part == 'basic':
        sp = Sem(op='dtor', aspects=aspects, semoff=off)
        ctx.verify('sem_dtor', sp, sp.setup, intw=(64,))
    for fn, op, dl in OPS:
        if fn == part or (part == 'basic' and dl is None):
            sp = Sem(op=op, deadline=dl, aspects=aspects, semoff=off)
            ctx.verify('sem_op_' + fn, sp, sp.setup, intw=(64,), must_throw=op == 'post')

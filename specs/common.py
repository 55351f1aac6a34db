"""Ghost time line and futex contract shared by several specifications."""
import z3
from engine.spec import Spec, ACQ, REL
from engine.sym import Ptr, UNDEF, Exc, BadAccess
from engine.arith import isc, Unsupported, mask, sgn, fresh_name

EINTR, EAGAIN, ENOMEM, EBUSY, EINVAL, EDEADLK, EPERM, EOVERFLOW, ETIMEDOUT = 4, 11, 12, 16, 22, 35, 1, 75, 110
NS = 1000000000
TMAX = 1 << 62            # clock readings stay below 2^62 ns after the epoch (year 2116)
DLO, DHI = -(1 << 61), 1 << 63   # deadlines


class Aspects(Spec):
    """obligations are grouped into aspects; a check discharges the aspects of its property and assumes the others
       (they are discharged by the check of the property they belong to)"""
    aspects = None

    def ob(self, st, aspect, name, cond, detail=None):
        if self.on(aspect):
            st.oblige(name, cond, detail)
        else:
            st.assume(cond)

    def on(self, aspect):
        return self.aspects is None or bool(set(aspect.split()) & set(self.aspects))


class Timed(Aspects):
    """one ghost time line (ns since the epoch of CLOCK_REALTIME); other clocks differ by a constant offset.
       T0: time of the call, N: time spent so far in the operation outside blocking calls, B: time spent blocked; now = T0+N+B.
       D: the deadline of the operation under contract.  Never early: a time-out is reported only if now >= D.  Never late: the
       time it may block in total never exceeds D - T0."""
    intercepts = (
        (r'^clock_gettime$', 'c_clock_gettime'),
        (r'^std::chrono::_V2::system_clock::now\(\)$|^boost::chrono::system_clock::now\(\)$', 'c_sysnow'),
        (r'^std::chrono::_V2::steady_clock::now\(\)$|^boost::chrono::steady_clock::now\(\)$', 'c_steadynow'),
        (r'^user_clock_now', 'c_steadynow'),
    )

    def time_init(self, st):
        self.T0 = T0 = z3.Int('T0')
        st.assume(z3.And(T0 >= 0, T0 < TMAX))
        st.g['N'] = st.g['B'] = z3.IntVal(0)
        self.off = z3.Int('steady_offset')
        st.assume(z3.And(self.off + T0 >= 0, self.off < 0))
        self.D = None

    def deadline_arg(self, st, d):
        """argument of a timed operation: d = 'dur' (ns), 'sys' (system_clock ns), 'ts' (timespec const*), 'steady' (steady_clock ns)"""
        if d == 'ts':
            sec, nsec = z3.Ints('abs_sec abs_nsec')
            st.assume(z3.And(nsec >= 0, nsec < NS, sec * NS + nsec > DLO, sec * NS + nsec < DHI))
            q = st.new_obj('ts', 16)
            st.wr(q, 8, sec)
            st.wr(q, 8, nsec, off=8)
            self.D = sec * NS + nsec
            return q
        x = z3.Int('dur' if d == 'dur' else 'abs')
        if d == 'dur':
            st.assume(z3.And(x >= -(1 << 63), x < (1 << 63)))
            self.D = self.T0 + x
        else:
            st.assume(z3.And(x > DLO, x < DHI))
            self.D = x if d == 'sys' else x - self.off
        return x

    def finish_time(self, st, r):
        if self.D is not None and st.feasible(z3.Not(r)):
            s = st.clone()
            s.assume(z3.Not(r))
            self.timed_out(s)

    def now(self, st):
        return self.T0 + st.g['N'] + st.g['B']

    def tick(self, st, which, atleast=None):
        """time passes: which = 'N' (running) or 'B' (blocked)"""
        d = z3.Int(fresh_name('d' + which))
        st.g[which] = z3.simplify(st.g[which] + d)
        st.assume(d >= 0)
        st.assume(self.now(st) < TMAX + (1 << 60))
        if atleast is not None:
            st.assume(d >= atleast)

    def read_clock(self, st):
        self.tick(st, 'N')
        return z3.simplify(self.now(st))

    def c_clock_gettime(self, st, a, ins):
        if not isc(a[0]) or a[0] not in (0, 1, 4, 5, 6, 7):
            raise Unsupported('clock id')
        T = self.read_clock(st)
        V = T if a[0] in (0, 5) else T + self.off
        sec, nsec = z3.Int(fresh_name('sec')), z3.Int(fresh_name('nsec'))
        st.assume(z3.And(V == sec * NS + nsec, nsec >= 0, nsec < NS))
        st.wr(a[1], 8, sec)
        st.wr(a[1], 8, nsec, off=8)
        st.log('call', 'clock_gettime', now=T)
        return [(st, 'ret', 0)]

    def c_sysnow(self, st, a, ins):
        T = self.read_clock(st)
        st.log('call', 'system_clock::now', now=T)
        return [(st, 'ret', T)]

    def c_steadynow(self, st, a, ins):
        v = z3.simplify(self.read_clock(st) + self.off)
        st.log('call', 'steady clock now', now=v)
        return [(st, 'ret', v)]

    def loop_invariants(self, st, base, wide):
        out = []
        def g(f):
            def inv(eng, s, cells):
                return f(s) if 'N' in s.g else None
            return inv
        out += [g(lambda s: s.g['N'] >= 0), g(lambda s: s.g['B'] >= 0), g(lambda s: self.now(s) < TMAX + (1 << 60))]
        D = getattr(self, 'D', None)
        if D is not None:
            out += [g(lambda s: self.now(s) >= D), g(lambda s: self.now(s) < D)]
        # locals holding clock readings
        for loc in wide:
            if loc[0] == 'g':
                continue
            for o in (0, self.off):
                for f in (lambda v, s, o=o: v - o <= self.now(s), lambda v, s, o=o: v - o >= self.T0 + s.g["B"]) + ((lambda v, s, o=o: v - o < D, lambda v, s, o=o: v - o >= D) if D is not None else ()):
                    def inv(eng, s, cells, loc=loc, f=f):
                        if loc not in cells or cells[loc][0] != 64 or 'N' not in s.g:
                            return None
                        v = cells[loc][1]
                        if not (isc(v) or (z3.is_expr(v) and z3.is_int(v))):
                            return None
                        return f(eng.A.z(64, v), s)
                    out.append(inv)
        return out + list(super().loop_invariants(st, base, wide))

    def timespec(self, st, p):
        sec = self.eng.A.sval(st, 64, st.rd(p, 8))
        nsec = self.eng.A.sval(st, 64, st.rd(p, 8, off=8))
        return sec, nsec

    def block_relative(self, st, sec, nsec):
        """a call that may block for the relative time sec,nsec; returns its length"""
        t = z3.Int(fresh_name('timeout'))
        st.assume(t == sec * NS + nsec)
        self.ob(st, 'time', 'timeout-normalised', z3.And(nsec >= 0, nsec < NS, sec >= 0), 'timeout handed to the OS is not a valid timespec')
        if self.D is not None:
            self.ob(st, 'time', 'blocks-until-deadline', st.g['B'] + t <= z3.If(self.D > self.T0, self.D - self.T0, 0), 'may block past the deadline')
        return t

    def block_absolute(self, st, sec, nsec):
        """a call that may block until the absolute time sec,nsec; returns it"""
        t = z3.Int(fresh_name('abstime'))
        st.assume(t == sec * NS + nsec)
        self.ob(st, 'time', 'deadline-normalised', z3.And(nsec >= 0, nsec < NS), 'deadline handed to the OS is not a valid timespec')
        if self.D is not None:
            self.ob(st, 'time', 'blocks-until-deadline', z3.Or(t <= self.now(st), st.g['B'] + t - self.now(st) <= self.D - self.T0), 'may block past the deadline')
        return t

    def block_forever(self, st):
        if self.D is not None:
            self.ob(st, 'time', 'blocks-until-deadline', False, 'timed operation blocks without a time limit')

    def timed_out(self, st):
        if self.D is not None:
            self.ob(st, 'time', 'not-early', self.now(st) >= self.D, 'reports a time-out before the deadline')


class Futex(Timed):
    intercepts = ((r'^syscall$', 'c_syscall'),)

    def c_syscall(self, st, a, ins):
        A = self.eng.A
        if not isc(a[0]) or a[0] != 202:
            raise Unsupported('syscall %r' % (a[0],))
        addr, op, val = a[1], a[2], a[3]
        if not isc(op):
            raise Unsupported('futex op')
        cmd = op & 127 & ~128
        self.futex_flags.setdefault('wait' if cmd in (0, 9) else 'wake', set()).add(op & 128)
        if op & 256:
            raise Unsupported('futex realtime')
        self.ob(st, 'wake time count', 'futex-address', isinstance(addr, Ptr) and addr.obj == self.p.obj and addr.off == self.wordoff, 'futex call on the wrong address')
        if cmd == 1:
            st.log('call', 'futex wake', count=val)
            self.on_wake(st, val)
            return [(st, 'ret', A.fresh_nonneg(st) if hasattr(A, 'fresh_nonneg') else 0)]
        if cmd != 0:
            raise Unsupported('futex command %d' % cmd)
        t = None
        if isinstance(a[4], Ptr):
            sec, nsec = self.timespec(st, a[4])
            t = self.block_relative(st, sec, nsec)
        elif not (isc(a[4]) and a[4] == 0):
            raise Unsupported('futex timeout pointer')
        else:
            self.block_forever(st)
        self.before_sleep(st, val)
        outs = []
        e = self.eng.errno(st)
        def alt(text, err, fn=None):
            s = st.clone()
            if fn is not None and fn(s) is False:
                return
            s.log('call', 'futex wait: ' + text, expected=val, **({'timeout': t} if t is not None else {}))
            if err:
                s.wr(self.eng.errno(s), 4, err)
            self.after_sleep(s, err)
            outs.append((s, 'ret', mask(64) if err else 0))
        def blocked(s):
            self.tick(s, 'B')
            if t is not None:
                s.assume(s.g['B'] <= st.g['B'] + t)
        def expired(s):
            self.tick(s, 'B', t)
            return s.feasible()
        alt('value changed (EWOULDBLOCK)', EAGAIN)
        alt('woken', 0, blocked)
        alt('interrupted (EINTR)', EINTR, blocked)
        if t is not None:
            alt('timed out', ETIMEDOUT, expired)
        return outs

    def on_wake(self, st, n):
        pass

    def before_sleep(self, st, val):
        pass

    def after_sleep(self, st, err):
        pass


def tristate(v, eng):
    """i1 return value -> z3 Bool"""
    if isc(v):
        return z3.BoolVal(bool(v))
    if z3.is_bool(v):
        return v
    raise Unsupported('boolean result expected')

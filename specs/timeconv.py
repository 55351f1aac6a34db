"""Contracts of the time conversions and the arithmetic of the library's time units (C08)."""
import z3
from engine.sym import Ptr
from engine.arith import isc, Unsupported, mask, sgn, fresh_name
from .common import NS, TMAX
from .posix import Posix
from .mutex import Mutex

W = 1 << 63
#        nanoseconds per tick (num, den), width, signed
UNITS = {'ns': (1, 1, 64, 1), 'us': (1000, 1, 64, 1), 'ms': (10**6, 1, 64, 1), 's': (NS, 1, 64, 1), 'min': (60 * NS, 1, 64, 1), 'h': (3600 * NS, 1, 64, 1),
         'ms32': (10**6, 1, 32, 1), 's32': (NS, 1, 32, 1), 'us_u32': (1000, 1, 32, 0), 'day': (86400 * NS, 1, 64, 1), '100ns': (100, 1, 64, 1), 'ps': (1, 1000, 64, 1)}
DURS = ('ns', 'us', 'ms', 's', 'min', 'h', 'ms32', 's32', 'us_u32', 'day', '100ns', 'ps')
TPS = ('ns', 'us', 'ms', 's', 'min', 'h', 's32', 'ps')


class Conv(Posix):
    check_overflow = True

    def unit_arg(self, st, unit):
        num, den, w, signed = UNITS[unit]
        self.num, self.den = num, den
        v = z3.Int('x')
        lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
        st.assume(z3.And(v >= lo, v < hi, v * num > -W * den, v * num < W * den))   # representable as a 64-bit number of nanoseconds
        self.X = v
        if w == 64:
            return v
        b = z3.BitVec('x%d' % w, w)
        st.assume(v == z3.BV2Int(b, bool(signed)))
        return b

    def exact(self, st, name, got):
        """got (z3 Int, ns) is the converted value of the argument"""
        d = got * self.den - self.X * self.num
        st.oblige(name, d == 0 if self.den == 1 else z3.And(d > -self.den, d < self.den), 'the converted time is not the given one')

    def ival(self, v):
        return self.eng.A.sval(None, 64, v)

    def tspec(self, st, p):
        s, n = self.timespec(st, p)
        st.oblige('normalised', z3.And(n >= 0, n < NS), 'the nanoseconds are not in [0, 10^9)')
        return s * NS + n

    def time_of(self, st):
        """a valid library time point as (seconds, nanoseconds) arguments"""
        i = self.cnt = getattr(self, 'cnt', 0) + 1
        s = z3.Int('sec%d' % i)
        n = z3.BitVec('nsec%d' % i, 32)
        ni = z3.Int('nseci%d' % i)
        st.assume(z3.And(ni == z3.BV2Int(n), ni >= 0, ni < NS, s > -(1 << 62), s < (1 << 62)))
        return [s, n], s * NS + ni

    def dur_of(self, st):
        i = self.cnt = getattr(self, 'cnt', 0) + 1
        d = z3.Int('dur%d' % i)
        st.assume(z3.And(d > -W, d < W))
        return d


class Dur(Conv):
    def setup(self, st):
        self.time_init(st)
        return [(st, [self.unit_arg(st, self.unit)])]

    def on_return(self, st, v):
        self.exact(st, 'duration-exact', self.ival(v))


class TP(Conv):
    def setup(self, st):
        self.time_init(st)
        self.o = st.new_obj('out', 16)
        return [(st, [self.unit_arg(st, self.unit), self.o])]

    def on_return(self, st, v):
        self.exact(st, 'time-point-exact', self.tspec(st, self.o))


class Given(Conv):
    """argument passed by pointer: Boost.Date_Time (one 64-bit tick counter) or timespec"""
    kind = None
    epoch = 0

    def given(self, st):
        if self.kind == 'ts':
            sec, nsec = z3.Ints('sec nsec')
            st.assume(z3.And(nsec >= 0, nsec < NS, sec >= -W, sec < W))
            p = st.new_obj('ts', 16)
            st.wr(p, 8, sec)
            st.wr(p, 8, nsec, off=8)
            self.num = self.den = 1
            self.X = sec * NS + nsec
            return p
        if isinstance(self.epoch, tuple):      # split representation: day number (32 bit), ticks within the day
            b, d, x = z3.BitVec('day', 32), z3.Int('dayi'), z3.Int('ticks')
            st.assume(z3.And(d == z3.BV2Int(b), d < (1 << 32) - 2, x >= 0, x * self.tick_ns < 86400 * NS))
            self.num, self.den, self.X = 1, 1, (d - self.epoch[0]) * 86400 * NS + x * self.tick_ns
            st.assume(z3.And(self.X > -W + 86400 * NS, self.X < W - 86400 * NS))   # Boost.Date_Time itself overflows within a day of the limits
            p = st.new_obj('dt', 16)
            st.wr(p, 4, b)
            st.wr(p, 8, x, off=8)
            return p
        x = z3.Int('ticks')
        self.num, self.den, self.X = self.tick_ns, 1, x
        st.assume(z3.And(x * self.tick_ns > -W, x * self.tick_ns < W))
        e = sgn(64, self.epoch)
        st.assume(z3.And(x + e > -W, x + e < W - 2))          # the special values of Boost.Date_Time are excluded
        p = st.new_obj('dt', 16)
        st.wr(p, 8, x + e if e else x)
        return p

    tick_ns = 1000

    def setup(self, st):
        self.time_init(st)
        p = self.given(st)
        if self.out:
            self.o = st.new_obj('out', 16)
            return [(st, [p, self.o])]
        return [(st, [p])]

    out = False

    def on_return(self, st, v):
        self.exact(st, 'time-point-exact' if self.out else 'duration-exact', self.tspec(st, self.o) if self.out else self.ival(v))


class Ops(Conv):
    """system_time_point / system_duration arithmetic"""
    def setup(self, st):
        self.time_init(st)
        o = self.o = st.new_obj('out', 16)
        op = self.op
        if op == 'st_ctor':
            self.want = z3.IntVal(0)
            return [(st, [o])]
        if op == 'st_now':
            self.want = None
            return [(st, [o])]
        if op == 'st_make':
            a, self.want = self.time_of(st)
            return [(st, a + [o])]
        if op == 'st_from':
            d = self.dur_of(st)
            self.want = d
            return [(st, [d, o])]
        if op in ('st_add', 'st_sub', 'st_adda', 'st_suba'):
            a, t = self.time_of(st)
            d = self.dur_of(st)
            self.want = t + d if 'add' in op else t - d
            return [(st, a + [d, o])]
        if op == 'st_diff':
            a, t = self.time_of(st)
            b, u = self.time_of(st)
            self.want = t - u
            # the difference is representable with less than one second to spare
            st.assume(z3.And(t - u > -W + NS, t - u < W - NS))
            return [(st, a + b)]
        if op == 'sd_ctor':
            self.want = z3.IntVal(0)
            return [(st, [])]
        d = self.dur_of(st)
        if op == 'sd_neg':
            self.want = -d
            return [(st, [d])]
        e = self.dur_of(st)
        self.want = d + e if op == 'sd_add' else d - e
        st.assume(z3.And(self.want >= -W, self.want < W))
        return [(st, [d, e])]

    def on_return(self, st, v):
        if self.op.startswith('sd_') or self.op == 'st_diff':
            st.oblige('arithmetic-exact', self.ival(v) == self.want, 'the result is not the exact one')
        else:
            t = self.tspec(st, self.o)
            if self.want is None:
                st.oblige('arithmetic-exact', z3.And(t >= self.T0, t <= self.now(st)), 'now() is not the current time')
            else:
                st.oblige('arithmetic-exact', t == self.want, 'the result is not the exact one')


class Public(Given, Mutex):
    """what reaches the operating system from timed_mutex's operations taking a time; only the time is looked at here"""
    check_overflow = True
    aspects = ()
    op = 'timed'
    relative = False

    def setup(self, st):
        self.p = st.new_obj('mutex', 256)
        self.time_init(st)
        st.g.update(oserr=None, oserrs=0, busy=0, acq=0, rel=0)
        st.g[('m', self.p.obj, self.moff)] = 0
        st.g['handed'] = 0
        a = self.unit_arg(st, self.unit) if self.unit else self.given(st)
        return [(st, [self.p, a])]

    unit = None

    def block_absolute(self, st, sec, nsec):
        t = super().block_absolute(st, sec, nsec)
        st.g['handed'] = 1
        st.oblige('normalised', z3.And(nsec >= 0, nsec < NS), 'the nanoseconds handed to the OS are not in [0, 10^9)')
        if self.relative:
            x, e = self.X * self.num, self.den - 1
            st.oblige('deadline-exact', z3.And(t * self.den >= self.T0 * self.den + x - e, t * self.den <= self.now(st) * self.den + x + e),
                      'the deadline handed to the OS is not the time of the call plus the duration')
        else:
            self.exact(st, 'deadline-exact', t)
        return t

    def ob(self, st, aspect, name, cond, detail=None):
        pass

    def on_return(self, st, v):
        pass

    def on_throw(self, st, exc):
        pass


class Find(Mutex):
    pass


def run(ctx, part):
    pre = [f for f in ('b', 'c') if any('@d_%s_ns' % f in m.funcs for m in ctx.mods)]
    if part == 'units':
        for op in ('st_ctor', 'st_make', 'st_from', 'st_now', 'st_add', 'st_sub', 'st_adda', 'st_suba', 'st_diff', 'sd_ctor', 'sd_add', 'sd_sub', 'sd_neg'):
            sp = Ops(op=op)
            ctx.verify(op, sp, sp.setup, intw=(64,))
        return
    moff = None
    m = Mutex(op='timed', aspects=())
    hz, epoch = constants(ctx)
    def pub(fn, **kw):
        sp = Public(moff=None, **kw)
        ctx.verify(fn, sp, sp.setup, intw=(64,))
    if part in ('b', 'c'):
        for u in DURS:
            if part in pre:
                sp = Dur(unit=u)
                ctx.verify('d_%s_%s' % (part, u), sp, sp.setup, intw=(64,))
                pub('tm_for_%s_%s' % (part, u), unit=u, relative=True)
                pub('tm_timed_%s_%s' % (part, u), unit=u, relative=True)
        for u in TPS:
            if part in pre:
                sp = TP(unit=u)
                ctx.verify('t_%s_%s' % (part, u), sp, sp.setup, intw=(64,))
                pub('tm_until_%s_%s' % (part, u), unit=u)
                pub('tm_timed_tp_%s_%s' % (part, u), unit=u)
        return
    if NS % hz:
        raise Unsupported('tick of Boost.Date_Time')
    tick = NS // hz
    sp = Given(kind='dt', tick_ns=tick)
    ctx.verify('d_dt', sp, sp.setup, intw=(64,))
    pub('tm_for_dt', kind='dt', tick_ns=tick, relative=True)
    pub('tm_timed_dt', kind='dt', tick_ns=tick, relative=True)
    sp = Given(kind='dt', tick_ns=tick, epoch=epoch, out=True)
    ctx.verify('t_dt', sp, sp.setup, intw=(64,))
    pub('tm_until_dt', kind='dt', tick_ns=tick, epoch=epoch)
    pub('tm_timed_tp_dt', kind='dt', tick_ns=tick, epoch=epoch)
    sp = Given(kind='ts', out=True)
    ctx.verify('t_ts', sp, sp.setup, intw=(64,))
    pub('tm_until_ts', kind='ts')
    pub('tm_timed_tp_ts', kind='ts')


class Const(Posix):
    def setup(self, st):
        self.time_init(st)
        self.o = st.new_obj('out', 16)
        self.got = []
        return [(st, [self.o] if self.out else [])]

    def on_return(self, st, v):
        self.got.append((st.rd(self.o, 4) if 8 in st.mem[self.o.obj].cells else st.rd(self.o, 8), st.mem[self.o.obj].cells.get(8)) if self.out else (v, None))


def constants(ctx):
    r = []
    for fn, out in (('dt_hz', False), ('mk_epoch', True)):
        sp = Const(out=out)
        ctx.verify(fn, sp, sp.setup)
        if len(sp.got) != 1 or not isc(sp.got[0][0]):
            raise Unsupported('%s is not a constant' % fn)
        v, tod = sp.got[0]
        r.append((v,) if tod else v)
    return r

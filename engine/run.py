"""Compiles the harness translation units against /repo's current headers, runs the contracts, writes evidence, reports."""
import os, sys, json, time, subprocess, tempfile, shutil, traceback, importlib, multiprocessing, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import ir
from .sym import Engine, Result, Undecided, StopFirst, Restart
from .arith import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = ['clang++', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-gline-tables-only', '-Wno-everything',
         '-S', '-emit-llvm', '-pthread']
PASSES = 'sroa,instsimplify,simplifycfg'


class CompileError(Exception):
    pass


def compile_tu(src, flags, outdir):
    """src relative to /verif/harness (or absolute); returns path of the .ll"""
    key = hashlib.sha1((src + ' '.join(flags)).encode()).hexdigest()[:12]
    path = src if src.startswith('/') else os.path.join(VERIF, 'harness', src)
    raw = os.path.join(outdir, key + '.raw.ll')
    out = os.path.join(outdir, key + '.ll')
    std = [] if any(f.startswith('-std') for f in flags) else ['-std=c++17']
    cmd = CLANG + std + ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/harness'] + list(flags) + [path, '-o', raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(' '.join(cmd) + '\n' + r.stderr)
    r = subprocess.run(['opt', '-S', '-passes=' + PASSES, raw, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError('opt: ' + r.stderr)
    return out


class Ctx:
    """what one task sees"""
    def __init__(self, mods, tier, seed, label, until=0):
        self.mods, self.tier, self.seed, self.label = mods, tier, seed, label
        self.out = {'obl': {}, 'fails': [], 'queries': 0, 'solver_s': 0.0, 'backends': {}, 'paths': 0, 'loops': 0, 'funcs': set(), 'contracts': set(),
                    'verified': [], 'assume': set(), 'bounded': []}
        self.data = {}
        self.endless = set()
        self.retry_until = until
        self.retry_s = 180.0        # time left in this task for second attempts at failed contracts

    def engine(self, spec, intw=()):
        e = Engine(self.mods, spec, intw)
        return e

    def merge(self, res, fname, label, counted=True):
        o = self.out
        for k, (n, f) in res.obl.items():
            kk = '%s|%s|%s' % (label, k[0], k[1])
            a = o['obl'].setdefault(kk, [0, 0])
            a[0] += n
            a[1] += f
        o['queries'] += res.queries
        o['solver_s'] += res.solver_s
        for b, n in res.backends.items():
            o['backends'][b] = o['backends'].get(b, 0) + n
        o['paths'] += res.paths
        o['loops'] += res.loops
        o['funcs'] |= res.funcs
        o['contracts'] |= res.contracts

    def verify(self, fname, spec, setup, intw=(), label=None, must_return=True, must_throw=False, unroll=None):
        """discharge the contract `spec` of function fname from every pre-state made by setup"""
        label = label or fname
        def attempt(peel, learn=False):
            end = min(time.time() + self.retry_s, self.retry_until)
            while True:
                eng = self.engine(spec, intw)
                eng.unroll = unroll
                if peel:
                    eng.peel, eng.learn, eng.deadline = peel, learn, end
                    if learn:
                        eng.endless = self.endless
                err = None
                try:
                    eng.run('@' + fname, setup)
                except Restart:
                    continue
                except StopFirst:
                    pass
                except (Unsupported, Undecided, ir.IRError) as e:
                    if not eng.res.fails:
                        err = e
                    # else: a definite violation was already established on this function; the rest is moot
                return eng, err
        _t = time.time()
        eng, err = attempt(0)
        if os.environ.get('VP_SLOW'): print('attempt 0', label, round(time.time()-_t,1), err, [f.name for f in eng.res.fails][:3], eng.res.paths, flush=True)
        definite = any(not any(e[0] == 'loop' for e in f.state.trace) for f in eng.res.fails)     # a failing path without generalised loop
        if (err or eng.res.fails) and eng.res.loops and unroll is None and not definite:
            # the invariants inferred for a loop may be too weak for this code: follow loops that end by themselves after a few
            # iterations, or, failing that, the first iterations of every loop before generalising.  Any complete proof counts.
            for peel, learn in ((4, True), (3, False)):
                if self.retry_s < 1 or time.time() > self.retry_until:
                    break
                t0 = time.time()
                e2, err2 = attempt(peel, learn)
                self.retry_s -= time.time() - t0
                if os.environ.get('VP_SLOW'): print('attempt', peel, learn, label, round(time.time()-t0,1), err2, [f.name for f in e2.res.fails][:3], e2.res.paths, sorted(self.endless), flush=True)
                if not err2 and not e2.res.fails:
                    eng, err = e2, None
                    break
        if err:
            raise err
        res = eng.res
        if must_return and not res.fails and res.returns == 0:
            raise Unsupported('vacuous: %s has no normal return under its precondition' % label)
        if must_throw and not res.fails and res.throws == 0:
            raise Unsupported('vacuous: %s has no exceptional exit' % label)
        self.merge(res, fname, label)
        for f in res.fails:
            self.out['fails'].append({'contract': label, 'function': fname, 'obligation': f.name, 'where': f.where, 'detail': f.detail,
                                      'cond': str(f.cond)[:400], 'trace': f.trace_lines(), 'model': str(f.model)[:4000] if f.model is not None else None})
        self.out['verified'].append(label)
        return eng

    def lemma(self, name, hyps, concl, timeout=20000):
        """a pure SMT lemma over the contracts"""
        import z3
        s = z3.Solver()
        s.set('timeout', timeout)
        t0 = time.time()
        for h in hyps:
            s.add(h)
        if s.check() != z3.sat:
            raise Unsupported('vacuous lemma ' + name)
        s.add(z3.Not(concl))
        r = s.check()
        self.out['solver_s'] += time.time() - t0
        self.out['queries'] += 2
        self.out['backends']['z3'] = self.out['backends'].get('z3', 0) + 2
        kk = 'lemma|%s|specs' % name
        a = self.out['obl'].setdefault(kk, [0, 0])
        a[0] += 1
        if r == z3.unknown:
            raise Undecided('lemma ' + name)
        if r == z3.sat:
            a[1] += 1
            self.out['fails'].append({'contract': 'lemma', 'function': '', 'obligation': name, 'where': 'specs', 'detail': 'lemma does not hold',
                                      'cond': str(concl)[:400], 'trace': [], 'model': str(s.model())[:2000]})

    def fail(self, label, name, detail, where='?', trace=()):
        kk = '%s|%s|%s' % (label, name, where)
        a = self.out['obl'].setdefault(kk, [0, 0])
        a[0] += 1
        a[1] += 1
        self.out['fails'].append({'contract': label, 'function': label, 'obligation': name, 'where': where, 'detail': detail, 'cond': '', 'trace': list(trace), 'model': None})

    def passed(self, label, name, where='?'):
        kk = '%s|%s|%s' % (label, name, where)
        self.out['obl'].setdefault(kk, [0, 0])[0] += 1

    def assume(self, text):
        self.out['assume'].add(text)


class Task:
    """label, list of (src, flags) translation units, python function (module, name), kwargs"""
    def __init__(self, label, tus, fn, tier='quick', **kw):
        self.label, self.tus, self.fn, self.kw, self.tier = label, [(s, tuple(f)) for s, f in tus], fn, kw, tier


_modcache = {}


def _run_task(args):
    label, lls, modname, fname, kw, tier, seed, until = args
    t0 = time.time()
    ctx = None
    try:
        mods = [ir.Module(open(p).read(), p) for p in lls]
        ctx = Ctx(mods, tier, seed, label, until)
        m = importlib.import_module(modname)
        getattr(m, fname)(ctx, **kw)
        o = ctx.out
        o['error'] = None
    except (Unsupported, Undecided, ir.IRError) as e:
        o = ctx.out if ctx else {'obl': {}, 'fails': []}
        o['error'] = '%s: %s' % (type(e).__name__, e) + ('\n' + traceback.format_exc() if os.environ.get('VP_DEBUG') else '')
    except Exception as e:
        o = ctx.out if ctx else {'obl': {}, 'fails': []}
        o['error'] = traceback.format_exc()
    o['label'] = label
    o['wall'] = time.time() - t0
    for k in ('funcs', 'contracts', 'assume'):
        if k in o:
            o[k] = sorted(o[k])
    return o


def run_check(prop, tasks, tier, seed, only=None, verbose=False):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        tasks = [t for t in tasks if tier == 'thorough' or t.tier == 'quick']
        if only:
            tasks = [t for t in tasks if only in t.label]
        tus = sorted({tu for t in tasks for tu in t.tus})
        lls = {}
        errs = {}
        def comp(tu):
            try:
                lls[tu] = compile_tu(tu[0], tu[1], tmp)
            except CompileError as e:
                errs[tu] = str(e)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, tus))
        outs = []
        jobs = []
        for t in tasks:
            bad = [tu for tu in t.tus if tu in errs]
            if bad:
                outs.append({'label': t.label, 'obl': {}, 'fails': [], 'error': 'compile error\n' + errs[bad[0]][:3000], 'wall': 0, 'compile': True})
                continue
            jobs.append((t.label, [lls[tu] for tu in t.tus], t.fn[0], t.fn[1], t.kw, tier, seed, t0 + (400 if tier == 'quick' else 3000)))
        if len(jobs) == 1 or os.environ.get('VP_SERIAL'):
            outs += [_run_task(j) for j in jobs]
        else:
            with multiprocessing.Pool(min(8, max(1, len(jobs)))) as pool:
                outs += pool.map(_run_task, jobs, chunksize=1)
        return outs, time.time() - t0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

import os, json, sys, time, subprocess, hashlib
from .run import VERIF, REPO


def known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                # finding: property=C.. contract=<label> obligation=<name> :: text
                d = {}
                head, _, text = ln[8:].partition('::')
                for w in head.split():
                    k, _, v = w.partition('=')
                    d[k] = v
                d['text'] = text.strip()
                out.append(d)
    return out


def report(prop, check, outs, wall, tier, seed, only):
    obl = disch = 0
    fails, errors = [], []
    tot = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'loops': 0}
    backends = {}
    funcs, contracts, assume, verified, bounded = set(), set(), set(), [], []
    names = {}
    for o in outs:
        if o.get('error'):
            errors.append((o['label'], o['error']))
        for k, (n, f) in o['obl'].items():
            obl += n
            disch += n - f
            nm = k.split('|')[1]
            names[nm] = names.get(nm, 0) + n
        for f in o['fails']:
            f['task'] = o['label']
            fails.append(f)
        for k in tot:
            tot[k] += o.get(k, 0)
        for b, n in o.get('backends', {}).items():
            backends[b] = backends.get(b, 0) + n
        funcs |= set(o.get('funcs', ()))
        contracts |= set(o.get('contracts', ()))
        assume |= set(o.get('assume', ()))
        verified += ['%s: %s' % (o['label'], v) for v in o.get('verified', ())]
        bounded += o.get('bounded', [])
    from .spec import demangle_all, _dem
    demangle_all(sorted(funcs))
    repo_funcs = sorted(_dem.get(f, f) for f in funcs)
    repo_funcs = [f for f in repo_funcs if 'boost::sync' in f]
    kf = [k for k in known() if k.get('property') == prop]
    unlisted, listed = [], {}
    for f in fails:
        for k in kf:
            if k.get('contract', f['contract']) == f['contract'] and k.get('obligation', f['obligation']) == f['obligation'] and k.get('task', f['task']) == f['task']:
                listed[k['text']] = k
                break
        else:
            unlisted.append(f)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': check.get('level', 'proof'),
        'coverage': {
            'obligations': obl, 'discharged': disch,
            'checker_cmd': 'cd /verif && ./check %s %s' % (prop, tier),
            'trusted_base': check.get('trusted', []) + TRUSTED,
            'obligations_by_kind': names,
            'contracts_verified': verified,
            'functions_under_contract': repo_funcs,
            'callee_contracts_assumed': sorted(contracts),
            'smt_queries': tot['queries'], 'smt_queries_by_backend': backends, 'solver_seconds': round(tot['solver_s'], 2),
            'symbolic_paths': tot['paths'], 'loops_generalised': tot['loops'],
            'tasks': {o['label']: round(o.get('wall', 0), 2) for o in outs},
        },
        'assumptions': sorted(assume) + check.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(unlisted) or len(errors),
    }
    if bounded:
        ev['coverage']['bounded_not_proved'] = bounded
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s [%s]: %d obligations, %d discharged, %d SMT queries (%s), solver %.1fs, wall %.1fs, %d contracts, %d repo functions'
          % (prop, tier, obl, disch, tot['queries'], backends, tot['solver_s'], wall, len(verified), len(repo_funcs)))
    for t in sorted(listed):
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    if unlisted:
        run, log = find_input(prop, check, {f['task'] for f in unlisted}, wall)
        confirmed = run is not None
        path = write_replay(prop, unlisted, run, log)
        seen = set()
        for f in unlisted:
            k = (f['task'], f['contract'], f['obligation'], f['where'])
            if k in seen:
                continue
            seen.add(k)
            print('  failed obligation: [%s] %s / %s at %s: %s' % (f['task'], f['contract'], f['obligation'], f['where'], f['detail'] or ''))
        if confirmed:
            print('  failing run of the real code: ' + run.split('\n')[1][:300])
        for l, e in errors:
            print('  (also: task %s gave no answer: %s)' % (l, e.strip().split('\n')[-1][:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if confirmed else ' no-failing-input-found'))
        return 1
    if errors:
        # the proof obligations of these contracts could not be generated or discharged from the current source
        for l, e in errors:
            print('  not discharged: task %s: %s' % (l, e if os.environ.get('VP_DEBUG') else '\n'.join(e.strip().split('\n')[-3:])))
        run, log = find_input(prop, check, {l for l, e in errors}, wall)
        path = write_replay(prop, [{'task': l, 'contract': l, 'obligation': 'contract discharged', 'where': '?', 'detail': 'the verifier did not accept the contract on the current source: ' + e[:3000],
                                    'cond': '', 'trace': []} for l, e in errors], run, log)
        if run is not None:
            print('  failing run of the real code: ' + run.split('\n')[1][:300])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if run is not None else ' no-failing-input-found'))
        return 1
    if obl == 0:
        print('ERROR: no obligations generated')
        return 2
    return 0


TRUSTED = [
    'clang 18 (C++ to LLVM IR at -O0) and opt (sroa, instsimplify, simplifycfg) preserve the meaning of the source',
    'the VC generator in /verif/engine (IR semantics, loop generalisation, rely/guarantee encoding)',
    'z3 5.3 (python) / cvc5 as SMT back ends',
    'C++ memory model abstracted: each atomic access sees an interfering environment; acquire/release orders are checked syntactically on the linearising accesses',
]


def find_input(prop, check, tasks, wall):
    """after a failed obligation: look for a run of the real code that shows the failure (engine/replay.py)"""
    if os.environ.get('VP_NOREPLAY'):
        return None, ['(replay switched off)']
    from . import replay
    tus, log = [], []
    for first in (True, False):
        for t in check['tasks']:
            if (t.label in tasks) == first and (first or t.tier == 'quick'):
                for tu in t.tus:
                    if tu not in tus:
                        tus.append(tu)
    try:
        secs = max(10, min(60, 800 - wall - 100))
        run = replay.search(prop, tus, secs, log)
    except Exception as e:
        run = None
        log.append('replay: %s' % e)
    return run, log


def write_replay(prop, fails, run=None, log=()):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.txt')
    with open(p, 'w') as f:
        f.write('property %s: failed proof obligations on the current tree of %s\n\n' % (prop, REPO))
        if run:
            f.write('failing run of the real code on the simulated machine (%s):\n%s\n\n' % ('replay/', run))
        else:
            f.write('search for a failing run of the real code: nothing found\n%s\n\n' % '\n'.join('  ' + l for l in log))
        for x in fails[:40]:
            f.write('== task %s, contract of %s, obligation "%s"\n   at %s\n   %s\n   condition: %s\n' % (x['task'], x['contract'], x['obligation'], x['where'], x['detail'], x['cond']))
            f.write('   path to the failure (values from the verifier\'s model):\n')
            for t in x['trace']:
                f.write('     ' + t + '\n')
            if x.get('model'):
                f.write('   model: ' + x['model'].replace('\n', ' ') + '\n')
            f.write('\n')
    return p

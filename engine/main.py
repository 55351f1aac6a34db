import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.run import run_check, Task, VERIF, REPO


import faulthandler, signal
faulthandler.register(signal.SIGUSR1)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('only='):
            only = a[5:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from specs.registry import CHECKS
    c = CHECKS[prop]
    outs, wall = run_check(prop, c['tasks'], tier, seed, only)
    from engine.report import report
    sys.exit(report(prop, c, outs, wall, tier, seed, only))


if __name__ == '__main__':
    main()

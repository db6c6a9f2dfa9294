#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property from /repo's current source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.report import Report
from sa.build import AnalysisBroken
from sa import registry


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid not in registry.CHECKS:
        print('unknown property', pid)
        return 2
    fn, expl, assume = registry.CHECKS[pid]
    rep = Report(pid, tier, seed)
    rep.assumptions = assume
    try:
        fn(rep, tier, seed)
    except AnalysisBroken as e:
        print('%s: the analysis cannot be carried out: %s' % (pid, e))
        return 2
    return rep.finish('other', expl)


if __name__ == '__main__':
    sys.exit(main())

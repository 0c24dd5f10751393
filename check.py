#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property from /repo's current sources."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from pcheck.load import AnalysisBroken
from pcheck.project import Project
from pcheck.report import Report


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--quick' in sys.argv:
        tier = 'quick'
    prop = args[0]
    mod = importlib.import_module('pcheck.checks.' + prop.lower())
    rep = Report(prop, tier)
    try:
        p = Project()
        rep.count('modules parsed', len(p.modules))
        rep.count('functions in the resolved program', len(p.funcs))
        mod.check(p, rep)
    except AnalysisBroken as e:
        if rep.viol and any(v['key'] not in rep.known() for v in rep.viol):
            rep.rules = {k: dict(v, min=0) for k, v in rep.rules.items()}
            print('note: analysis incomplete: %s' % e)
            rep.finish(mod.__doc__.strip())
        print('ANALYSIS-BROKEN %s: %s' % (prop, e))
        sys.exit(2)
    rep.finish(mod.__doc__.strip())


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(3)

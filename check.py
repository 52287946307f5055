#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property on the current /repo tree (static analysis only)."""
import argparse
import importlib
import os
import pkgutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from checker import rules  # noqa: E402
from checker.rules.util import REGISTRY  # noqa: E402
from checker.core import run_property  # noqa: E402

for m in pkgutil.iter_modules(rules.__path__):
    importlib.import_module(f'checker.rules.{m.name}')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--out', default=None)
    a = ap.parse_args()
    ids = sorted(REGISTRY) if a.property == 'all' else a.property.split(',')
    worst = 0
    for pid in ids:
        m = REGISTRY[pid]
        try:
            rc = run_property(pid, a.tier, m, m['fn'], 'other', m['explanation'], m['assumptions'], a.out)
        except Exception as e:  # an internal error is never a silent pass
            import traceback
            traceback.print_exc()
            print(f"ANALYSIS-ERROR property={pid}: {type(e).__name__}: {e}", file=sys.stderr)
            rc = 3
        worst = max(worst, rc)
    return worst


sys.exit(main())

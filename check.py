#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on the current /repo tree."""

import os
import sys
import threading
import warnings


def main():
    from psa import checks
    from psa.program import AnalysisBroken
    from psa.report import Report
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rc = 0
    for prop in args or checks.properties():
        r = Report(prop, tier)
        try:
            checks.run(prop, r)
        except AnalysisBroken as e:
            print('{}: no verdict: {}'.format(prop, e))
            rc = max(rc, 2)
            continue
        rc = max(rc, r.finish(seed))
    return rc


if __name__ == '__main__':
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(12000)
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.exit(out[0] if out else 3)

"""python3 -m sa.run C01 [C02 ...] — run checks."""

import importlib
import sys

from .engine import AnalysisBroken


def main():
    rc = 0
    for pid in sys.argv[1:]:
        m = importlib.import_module('sa.checks.' + pid.lower())
        try:
            r = m.main()
        except AnalysisBroken as e:
            print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
            r = 2
        rc = max(rc, r) if 1 not in (rc, r) else 1
    sys.exit(rc)


if __name__ == '__main__':
    main()

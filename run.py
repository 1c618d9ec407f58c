#!/usr/bin/env python3-vt
"""run.py ID [--tier quick|thorough] [-v]: decide one property from the current source of /repo."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    a = ap.parse_args()
    from checks import registry
    from sa import report
    if a.pid == 'all':
        rc = 0
        for pid in registry.ids():
            c = registry.get(pid)
            rc |= report.run(c, a.tier, a.v, a.jobs)
        return rc
    c = registry.get(a.pid)
    if a.only:
        c.clients = [x for x in c.clients + c.thorough if a.only in x.name]
        c.thorough = []
    return report.run(c, a.tier, a.v, a.jobs)


if __name__ == '__main__':
    sys.exit(main())

"""Self-test of the engine's model of Python and its libraries: every snippet of selftest.txt sets r; the value CPython
computes is the oracle for the value the engine derives.  (Never part of a check: it tests the engine, not /repo.)"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import numpy as np
from sa import client

EQ = '''
def _eq(a, b):
    if isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not _eq(x, y):
                return False
        return True
    if isinstance(b, float):
        return abs(a - b) < 1e-9
    return a == b
__check__(_eq(r, %s), 'same')
'''


def lit(v):
    if isinstance(v, np.ndarray):
        return lit(v.tolist())
    if isinstance(v, list):
        return '[' + ', '.join(map(lit, v)) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(map(lit, v)) + (',)' if len(v) == 1 else ')')
    if isinstance(v, np.generic):
        return lit(v.item())
    if hasattr(v, '__next__'):
        return lit(list(v))
    return repr(v)


def main():
    only = sys.argv[1] if len(sys.argv) > 1 else ''
    bad = n = 0
    for s in open(os.path.join(HERE, 'selftest.txt')).read().split('\n---\n'):
        if not s.strip() or only not in s:
            continue
        n += 1
        g = {}
        exec(s, g)
        try:
            it = client.run_client('snippet', s + EQ % lit(g['r']))
            res = it.results; ok = len(res) == 2 and all(r.status == client.HOLDS for r in res)
            what = [(r.label, r.status, r.why[:300]) for r in res if r.status != client.HOLDS]
        except BaseException as e:
            ok, what = False, '%s: %s' % (type(e).__name__, e)
        if not ok:
            bad += 1
            print('----\n%s\n=> %s\n   CPython: %s' % (s, what, lit(g['r'])))
    print('%d snippets, %d differ' % (n, bad))
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())

from sa.report import Check, Client
from ._pie import stub

MOD = 'inference.utils.nrmin'

BRENT = '''
from inference.utils.nrmin import brent, IterErr
f = __fun__('f')
a = __sym__('a'); m = __sym__('m'); b = __sym__('b')
__assume__(a < m); __assume__(m < b)
class B(object):
    pass
br = B(); br.x1 = a; br.xm = m; br.x2 = b; br.f1 = f(a); br.fm = f(m); br.f2 = f(b)
__assume__(br.fm < br.f1); __assume__(br.fm < br.f2)
tol = __sym__('tol', dom='pos')
try:
    x, fx = brent(f, br, tol=tol, maxit=%d)
    __eq__('the reported minimum is the function at the reported point', fx, f(x))
    __check__('the minimum is no higher than the middle of the bracket', fx <= f(m))
    __check__('the minimum is not below the bracket', a <= x)
    __check__('the minimum is not above the bracket', x <= b)
except IterErr:
    pass
'''

BRACKET = '''
from inference.utils.nrmin import MinBracket
f = __fun__('f')
a = __sym__('a'); m = __sym__('m')
__assume__(a %s m); __assume__(f(a) %s f(m))
br = MinBracket(f, a, m)
__eq__('the lower end of the bracket has its own function value', br.f1, f(br.x1))
__eq__('the middle of the bracket has its own function value', br.fm, f(br.xm))
__eq__('the upper end of the bracket has its own function value', br.f2, f(br.x2))
__check__('the middle is no higher than the lower end', br.fm <= br.f1)
__check__('the middle is no higher than the upper end', br.fm <= br.f2)
__check__('the middle is no higher than the first start', br.fm <= f(a))
__check__('the middle is no higher than the second start', br.fm <= f(m))
__check__('the ends are in order', br.x1 <= br.x2)
'''

# Contracts of the one-dimensional searches, used when the directional search is analysed.
ONED = '''
class AnyBracket(object):
    pass
def any_bracket(f, x1, x2):
    br = AnyBracket()
    br.x1, br.xm, br.x2 = __sym__('br1'), __sym__('brm'), __sym__('br2')
    __assume__(br.x1 < br.xm); __assume__(br.xm < br.x2)
    br.f1, br.fm, br.f2 = f(br.x1), f(br.xm), f(br.x2)
    __assume__(br.fm <= br.f1); __assume__(br.fm <= br.f2)
    __assume__(br.fm <= f(x1)); __assume__(br.fm <= f(x2))
    return br
def any_brent(f, bracket, tol=1.e-6, maxit=100):
    x = __sym__('xmin')
    fx = f(x)
    __assume__(fx <= f(bracket.xm))
    return (x, fx)
'''
LINMIN = '''
from inference.utils import nrmin
from inference.utils.nrmin import linmin
f = __fun__('f', elementwise=False)
%s
p = __arr__('p', %d); d = __arr__('d', %d)
P = [t + 0 for t in p]; D = [t + 0 for t in d]
nrmin.MinBracket = any_bracket
nrmin.brent = any_brent
q, e, fq = linmin(f, p, d)
__eq__('the reported value is the function at the reported point', fq, f(q))
__check__('a directional search never ends higher than it started', fq <= f(p))
__eq__('the reported step leads from the start to the reported point', [p[k] + e[k] for k in range(len(P))], [q[k] + 0 for k in range(len(P))])
for k in range(len(P)):
    for j in range(k):
        __eq__('the step is along the direction', e[k]*D[j], e[j]*D[k])
__eq__('the start and the direction are left alone', (list(p), list(d)), (P, D))
'''
POWELL = '''
from inference.utils.nrmin import powell, IterErr
f = __fun__('f', elementwise=False)
from numpy import array
search = [__fun__('search' + str(k)) for k in range(4)]
def any_linmin(func, pt, drxn, tol=1.e-4):
    q = array([search[k](*(list(pt) + list(drxn))) for k in range(len(pt))])
    fq = func(q)
    __assume__(fq <= func(pt))
    return q, q - pt, fq
n = %d
p = __arr__('p', n)
P = [t + 0 for t in p]
ftol = __sym__('ftol', dom='pos')
try:
    q, fq, iters = powell(f, p, ftol=ftol, %s)
    __eq__('the reported minimum is the function at the reported point', fq, f(q))
    __check__('the minimum is no higher than the start', fq <= f(p))
    __check__('the number of iterations is positive', iters >= 1)
    __check__('the point has the right length', len(q) == n)
except IterErr:
    pass
__eq__('the start is left alone', list(p), P)
'''
POWELLD = POWELL.replace("P = [t + 0", """drxns = __arr__('u', (n, n))
U = [[t + 0 for t in r] for r in drxns]
ilist = [[3, 1], [1, 2]]
P = [t + 0""").replace("__eq__('the start is", """__eq__('the directions are left alone', [list(r) for r in drxns], U)
__eq__('the list of directions is left alone', ilist, [[3, 1], [1, 2]])
__eq__('the start is""")
PART = (MOD,)
P11 = Check('P11', 'function applications and points stay paired through the minimisers (value numbers of reported values are '
            'the function applied to the reported points) and never rise above the start (inequality facts along the gated paths)', [
    Client('brent 1', BRENT % 1, abbrev=6, unroll=6, partition=PART),
    Client('brent 2', BRENT % 2, abbrev=6, unroll=6, partition=PART),
] + [Client('bracket %s %s' % (o, s), BRACKET % (o, s), abbrev=6, unroll=1, cut=True, partition=PART, timeout=400)
     for o, s in (('<', '<'), ('<', '>'))] + [
    Client('line search %d-d' % n, LINMIN % (ONED, n, n)) for n in (1, 2, 3)] + [
    Client('powell %d-d %s' % (n, how), POWELL % (n, how), abbrev=6, unroll=9, partition=PART,
           opaque=lambda: {(MOD, 'linmin'): stub('any_linmin')})
    for n, how in ((1, 'maxit=1'), (2, 'maxit=1'), (1, 'maxit=2'), (2, 'maxit=2'), (2, 'maxit=1, shuffle=True'))] + [
    Client('powell %d-d %s' % (n, how), POWELLD % (n, how), abbrev=6, unroll=9, partition=PART,
           opaque=lambda: {(MOD, 'linmin'): stub('any_linmin')})
    for n, how in ((2, 'maxit=2, drxns=drxns'), (2, 'maxit=2, drxns=ilist'), (2, 'maxit=1, drxns=drxns, shuffle=True'))],
    thorough=[Client('bracket %s %s' % (o, s), BRACKET % (o, s), abbrev=6, unroll=1, cut=True, partition=PART, timeout=400)
              for o, s in (('>', '<'), ('>', '>'))] + [Client('brent 3', BRENT % 3, abbrev=6, unroll=6, partition=PART)])

CHECKS = [P11]

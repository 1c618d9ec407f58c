import itertools
from sa.report import Check, Client
from ._pie import stub

ZB = {('inference.utils.numutils', 'zbracket'): stub('any_bracket')}

# The level is chosen first; the root finders answer it, after checking that it is a root of what they were given.
ROOT = '''
from numpy import exp, log, array, zeros
expected = [True]
def any_bracket(f, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
    if expected[0]:
        __eq__('the equation solved for the critical level is: fraction above the level = probability', f(t), 0.)
    return t - 1, t + 1
def __brentq__(f, x1, x2, args=(), **kw):
    if expected[0]:
        __eq__('the equation solved by the root finder is: fraction above the level = probability', f(t), 0.)
    return t
'''
REF = '''
def part(y0, y1, c):
    """integral of the linear interpolation from y0 to y1 over the part where it exceeds c"""
    if y0 > c and y1 > c:
        return (y0 + y1)/2
    if y0 > c:
        return (y0 + c)/2*(y0 - c)/(y0 - y1)
    if y1 > c:
        return (y1 + c)/2*(y1 - c)/(y1 - y0)
    return 0
def above(ys, c):
    return sum([part(ys[k], ys[k + 1], c) for k in range(len(ys) - 1)])
def whole(ys):
    return sum([(ys[k] + ys[k + 1])/2 for k in range(len(ys) - 1)])
'''


def imports(kind):
    return 'from inference.grid.%s import *\n' % ('hpdgrid' if kind == 'func' else 'hpd')


def grid1(n, top, bits, log=False, kind='grid', mk=True):
    """n densities with the largest at TOP; bits: which of the others exceed the level t"""
    src = imports(kind) + ROOT + REF
    src += "n = %d\nD = __arr__('D', n)\nt = __sym__('t', dom='neg')\nlow = __sym__('low', dom='neg')\n" % n
    if log:
        src += "a = __sym__('a', dom='pos'); b = __sym__('b', dom='pos'); __assume__(a < b)\nw = log(b/a)\nstep = 'log'\n"
        src += "xs = [a*exp(w*k/(n - 1)) for k in range(n)]\nL = array([D[k] - log(xs[k]) for k in range(n)])\n"
    else:
        src += "a = __sym__('a'); b = __sym__('b'); __assume__(a < b)\nw = b - a\nstep = 'linear'\n"
        src += "xs = [a + w*k/(n - 1.) for k in range(n)]\nL = array([D[k] for k in range(n)])\n"
    src += "M = D[%d]\n" % top
    others = [k for k in range(n) if k != top]
    for k, bit in zip(others, bits):
        src += "__assume__(D[%d] < M)\n__assume__(D[%d] %s M + t)\n__assume__(D[%d] > M + low)\n" % (k, k, '>' if bit else '<', k)
    if kind == 'func':
        src += '''
calls = []
def pdf(x):
    calls.append(x)
    k = len(calls) - 1
    __eq__('the density is evaluated at the grid points in order', x, xs[k])
    return L[k]
def make(c=0.):
    del calls[:]
    return HPDGrid1D(lambda x: pdf(x) + c, a, b, n, step)
'''
    else:
        src += 'def make(c=None):\n    return HPD1D(L if c is None else L + c, a, b, step)\n'
    src += 'LL = [x for x in L]\n'
    if mk:
        src += 'h = make()\n'
    return src


def pats(n):
    return [(top, bits) for top in range(n) for bits in itertools.product((0, 1), repeat=n - 1)]


def nm(top, bits, log, kind):
    return '%s %s top %d above %s' % (kind, 'log' if log else 'lin', top, ''.join(map(str, bits)))


INTEGRALS = '''
S = [exp(D[k] - M) for k in range(n)]
__eq__('the normalisation is the trapezoid integral of the density over the grid', exp(h.lml), whole(S)*exp(M)*w/(n - 1))
__eq__('norm() is the log of the same', h.norm(), h.lml)
__eq__('the fraction above a level is the integral of the part above it', h.fracgt(t), above(S, exp(t))/whole(S))
__eq__('everything lies above a level below the lowest density', h.fracgt(low), 1.)
__eq__('nothing lies above the peak', h.fracgt(0.), 0.)
__eq__('grid points', array(h.xvals), xs)
'''

FLAT = '''
from inference.grid.hpd import HPD1D, HPD2D
from numpy import exp, log, array
a = __sym__('a'); b = __sym__('b'); __assume__(a < b); c = __sym__('c'); d = __sym__('d', dom='pos')
h = HPD1D(array([c, c, c]), a, b)
__eq__('a flat density has the right normalisation', exp(h.lml), exp(c)*(b - a))
h = HPD1D(array([c, c, c + d, c]), a, b)
__eq__('a density with a flat tail has the right normalisation', exp(h.lml), (exp(c)/2 + exp(c) + exp(c + d) + exp(c)/2)*(b - a)/3)
h = HPD2D(array([[c, c], [c, c]]), a, b, 0., 1.)
__eq__('a flat 2-d density has the right normalisation', exp(h.lml), exp(c)*(b - a))
'''
REFUSE = '''
from inference.grid.hpd import HPD1D, HPD2D
from inference.grid.hpdgrid import HPDGrid1D, HPDGrid2D
from numpy import array
L = array([0., 1.]); LL = array([[0., 1.], [2., 0.]])
f = lambda x: x
g = lambda x, y: x + y
for bad in ('', 'logs', 'LINEAR', None, 'quadratic'):
    for make in (lambda: HPD1D(L, 1., 2., bad), lambda: HPDGrid1D(f, 1., 2., 3, bad), lambda: HPD2D(LL, 1., 2., 1., 2., bad), lambda: HPD2D(LL, 1., 2., 1., 2., 'log', bad),
                 lambda: HPDGrid2D(g, 1., 2., 2, 1., 2., 2, bad), lambda: HPDGrid2D(g, 1., 2., 2, 1., 2., 2, 'lin', bad)):
        try:
            make()
            __reach__('an unknown kind of axis is refused')
        except ValueError:
            pass
for one, two in (('lin', 'linear'), ('log', 'logarithmic')):
    for h, k in ((HPD1D(L, 1., 2., one), HPD1D(L, 1., 2., two)), (HPDGrid1D(f, 1., 2., 3, one), HPDGrid1D(f, 1., 2., 3, two)),
                 (HPD2D(LL, 1., 2., 1., 3., one), HPD2D(LL, 1., 2., 1., 3., two)), (HPD2D(LL, 1., 2., 1., 3., 'lin', one), HPD2D(LL, 1., 2., 1., 3., 'linear', two)),
                 (HPDGrid2D(g, 1., 2., 2, 1., 3., 2, one), HPDGrid2D(g, 1., 2., 2, 1., 3., 2, two)),
                 (HPDGrid2D(g, 1., 2., 2, 1., 3., 2, 'log', one), HPDGrid2D(g, 1., 2., 2, 1., 3., 2, 'logarithmic', two))):
        __eq__('both names mean the same', (h.lml, [v for v in h.xvals]), (k.lml, [v for v in k.xvals]))
'''

SHIFT = '''
c = __sym__('c')
g = make(c)
__eq__('the log normalisation follows the density', g.lml, h.lml + c)
__eq__('the fraction above a level ignores the normalisation', g.fracgt(t), h.fracgt(t))
p = h.fracgt(t)
r1, b1 = h.critlevel(p)
r2, b2 = g.critlevel(p)
__eq__('the critical level relative to the peak ignores the normalisation', r2, r1)
__eq__('the absolute level follows the density', g.levels[0], h.levels[0] + c)
__eq__('the boundaries ignore the normalisation', b2, b1)
__eq__('the arrays handed in are unchanged', L, array(LL))
'''

UNITS = '''
s = __sym__('s', dom='pos'); o = %s
g = HPD1D(L, s*a + o, s*b + o, step)
__eq__('the fraction above a level ignores the units', g.fracgt(t), h.fracgt(t))
__eq__('the normalisation scales with the units', exp(g.lml), s*exp(h.lml))
p = h.fracgt(t)
r1, b1 = h.critlevel(p)
r2, b2 = g.critlevel(p)
__eq__('the critical level ignores the units', r2, r1)
__check__('as many boundaries in any units', len(b1) == len(b2))
for k in range(len(b1)):
    __eq__('boundaries follow the units', b2[k], s*b1[k] + o)
__eq__('the array handed in is unchanged', L, array(LL))
'''

CRIT = '''
def crossings(t):
    Y = [D[k] - M for k in range(n)]
    out = []
    for k in range(n - 1):
        if (Y[k] > t and Y[k + 1] < t) or (Y[k] < t and Y[k + 1] > t):
            out.append(xs[k] + (xs[k + 1] - xs[k])*(t - Y[k])/(Y[k + 1] - Y[k]))
    return out
p = h.fracgt(t)
r, bd = h.critlevel(p)
__eq__('the reported level is the root', r, t)
want = crossings(t)
__check__('one boundary per crossing of the level', len(bd) == len(want))
for k in range(len(want)):
    __eq__('boundaries are where the interpolated log density crosses the level', bd[k], want[k])
__eq__('probability recorded', h.probs, [p])
__eq__('relative level recorded', h.deltas, [t])
__eq__('absolute level recorded', h.levels, [M + t])
__check__('boundaries recorded', len(h.bounds) == 1)
__eq__('recorded boundaries', h.bounds[0], bd)
r, bd2 = h.critlevel(p=p, tol=1.e-6)
__check__('records stay in step', len(h.probs) == len(h.deltas) == len(h.levels) == len(h.bounds) == 2)
expected[0] = False
ns = __sym__('ns', dom='pos')
from scipy import stats
r, bd3 = h.critlevel(snsig=ns)
__eq__('a level in standard deviations is the normal probability', h.probs[2], stats.chi2.cdf(ns**2, 1))
__check__('records stay in step again', len(h.probs) == len(h.deltas) == len(h.levels) == len(h.bounds) == 3)
try:
    h.critlevel(p=.5, snsig=1.)
    __reach__('both a probability and a number of deviations')
except ValueError:
    pass
__check__('a refused request records nothing', len(h.probs) == len(h.deltas) == len(h.levels) == len(h.bounds) == 3)
'''


def many(n, first, func=False):
    return ROOT + '''
from inference.grid.hpd import HPD1D
from inference.grid.hpdgrid import HPDGrid1D
n = %d
first = %d
d = __arr__('d', n, dom='pos')
t = -50.
for k in range(n):
    __assume__(d[k] < 40.)
top = max([k for k in range(n) if k %% 2 == first])
L = array([(0. if k == top else t + d[k] if k %% 2 == first else t - d[k]) for k in range(n)])
if %r:
    seq = [v for v in L]
    h = HPDGrid1D(lambda x: seq.pop(0), 0., 1., n)
else:
    h = HPD1D(L, 0., 1.)
expected[0] = False
nc = sum([1 for k in range(len(L) - 1) if (L[k] > t) != (L[k + 1] > t)])
try:
    r, bd = h.critlevel(p=.5)
    __check__('every crossing has a boundary, or the request is refused', len(bd) == nc)
    for k in range(nc - 1):
        __check__('boundaries increase', bd[k] < bd[k + 1])
except RuntimeError:
    __check__('refused only with too many boundaries', nc > 10)
__check__('records stay in step', len(h.probs) == len(h.deltas) == len(h.levels) == len(h.bounds))
''' % (n, first, func)


def grid2(nx, ny, top, bits, xlog, ylog, kind='grid'):
    src = imports(kind) + ROOT + REF + '''
nx, ny = %d, %d
D = __arr__('D', (nx, ny)); t = __sym__('t', dom='neg'); low = __sym__('low', dom='neg')
a = __sym__('a', dom='pos'); b = __sym__('b', dom='pos'); e = __sym__('e', dom='pos'); f = __sym__('f', dom='pos')
__assume__(a < b); __assume__(e < f)
''' % (nx, ny)
    src += ("wx = log(b/a)\nxs = [a*exp(wx*k/(nx - 1)) for k in range(nx)]\njx = [log(x) for x in xs]\n" if xlog else
            "wx = b - a\nxs = [a + wx*k/(nx - 1.) for k in range(nx)]\njx = [0. for x in xs]\n")
    src += ("wy = log(f/e)\nys = [e*exp(wy*k/(ny - 1)) for k in range(ny)]\njy = [log(y) for y in ys]\n" if ylog else
            "wy = f - e\nys = [e + wy*k/(ny - 1.) for k in range(ny)]\njy = [0. for y in ys]\n")
    src += "xstep, ystep = %r, %r\nL = array([[D[i, j] - jx[i] - jy[j] for j in range(ny)] for i in range(nx)])\n" % (
        'log' if xlog else 'linear', 'log' if ylog else 'linear')
    src += "M = D[%d][%d]\n" % divmod(top, ny)
    cells = [divmod(k, ny) for k in range(nx*ny) if k != top]
    for (i, j), bit in zip(cells, bits):
        src += "__assume__(D[%d][%d] < M)\n__assume__(D[%d][%d] %s M + t)\n__assume__(D[%d][%d] > M + low)\n" % (
            i, j, i, j, '>' if bit else '<', i, j)
    if kind == 'func':
        src += '''
calls = []
def pdf(x, y):
    calls.append((x, y))
    i, j = divmod(len(calls) - 1, ny)
    __eq__('the density is evaluated at the grid points', (x, y), (xs[i], ys[j]))
    return L[i, j]
def make(c=0.):
    del calls[:]
    return HPDGrid2D(lambda x, y: pdf(x, y) + c, a, b, nx, e, f, ny, xstep, ystep)
'''
    else:
        src += 'def make(c=None):\n    return HPD2D(L if c is None else L + c, a, b, e, f, xstep, ystep)\n'
    src += '''
LL = [[L[i, j] for j in range(ny)] for i in range(nx)]
h = make()
S = [[exp(D[i][j] - M) for j in range(ny)] for i in range(nx)]
def tot(g):
    q = [g(S[i]) for i in range(nx)]
    return sum([(q[i] + q[i + 1])/2 for i in range(nx - 1)])
'''
    return src


INT2 = '''
cell = wx/(nx - 1)*wy/(ny - 1)
__eq__('the normalisation is the trapezoid integral of the density over the grid', exp(h.lml), tot(whole)*exp(M)*cell)
__eq__('the fraction above a level is the integral of the part above it', h.fracgt(t), tot(lambda s: above(s, exp(t)))/tot(whole))
__eq__('everything lies above a level below the lowest density', h.fracgt(low), 1.)
__eq__('nothing lies above the peak', h.fracgt(0.), 0.)
__eq__('limits', (h.xlo, h.xhi, h.ylo, h.yhi), (a, b, e, f))
'''
SHIFT2 = '''
c = __sym__('c')
g = make(c)
__eq__('the log normalisation follows the density', g.lml, h.lml + c)
__eq__('the fraction above a level ignores the normalisation', g.fracgt(t), h.fracgt(t))
p = h.fracgt(t)
r1 = h.critlevel(p); r2 = g.critlevel(p)
__eq__('the critical level relative to the peak ignores the normalisation', r2, r1)
__eq__('the absolute level follows the density', g.levels[0], h.levels[0] + c)
__eq__('the arrays handed in are unchanged', L, array(LL))
'''
UNITS2 = '''
s = __sym__('s', dom='pos'); u = __sym__('u', dom='pos')
g = HPD2D(L, s*a, s*b, u*e, u*f, xstep, ystep)
__eq__('the fraction above a level ignores the units', g.fracgt(t), h.fracgt(t))
__eq__('the normalisation scales with the units', exp(g.lml), s*u*exp(h.lml))
p = h.fracgt(t)
__eq__('the critical level ignores the units', g.critlevel(p), h.critlevel(p))
'''
CRIT2 = '''
p = h.fracgt(t)
r = h.critlevel(p)
__eq__('the reported level is the root', r, t)
__eq__('records', (h.probs, h.deltas, h.levels), ([p], [t], [M + t]))
r = h.critlevel(p=p, tol=1.e-6)
__check__('records stay in step', len(h.probs) == len(h.deltas) == len(h.levels) == 2)
expected[0] = False
ns = __sym__('ns', dom='pos')
from scipy import stats
r = h.critlevel(snsig=ns)
__eq__('a level in standard deviations is the normal probability', h.probs[2], stats.chi2.cdf(ns**2, 1))
__check__('records stay in step again', len(h.probs) == len(h.deltas) == len(h.levels) == 3)
try:
    h.critlevel(p=.5, snsig=1.)
    __reach__('both a probability and a number of deviations')
except ValueError:
    pass
__check__('a refused request records nothing', len(h.probs) == len(h.deltas) == len(h.levels) == 3)
'''
MIN1 = [(2, 0, (0,), 'grid'), (2, 1, (1,), 'func'), (3, 1, (0, 0), 'grid'), (3, 0, (1, 0), 'grid'), (3, 2, (0, 1), 'func'), (3, 0, (0, 1), 'grid'),
        (3, 1, (1, 0), 'func'), (3, 1, (1, 1), 'grid')]
TWO = [(2, 2, 0, (0, 1, 0)), (2, 2, 3, (1, 0, 1)), (2, 3, 1, (0, 1, 0, 1, 1)), (3, 2, 4, (1, 0, 0, 1, 0)), (3, 3, 4, (0, 1, 0, 1, 0, 0, 1, 1))]
LG = ((False, False), (True, False), (False, True), (True, True))


def c1(tail, cases, logs=(False, True), pre=''):
    return [Client(nm(top, bits, log, kind), grid1(n, top, bits, log, kind) + pre + tail, opaque=lambda: ZB)
            for n, top, bits, kind in cases for log in logs]


def c2(tail, cases, lgs=LG, kinds=('grid', 'func')):
    return [Client('%s %dx%d top %d above %s %s%s' % (kind, nx, ny, top, ''.join(map(str, bits)), 'log' if xl else 'lin',
                                                    '/log' if yl else '/lin'),
                   grid2(nx, ny, top, bits, xl, yl, kind) + tail, opaque=lambda: ZB)
            for nx, ny, top, bits in cases for xl, yl in lgs for kind in kinds]


ALL = [(n, top, bits, 'grid') for n in (2, 3) for top, bits in pats(n)]
DEEP = [(4, top, bits, kind) for top, bits in pats(4) for kind in ('grid', 'func')]

P12 = Check('P12', 'value numbers of the normalisation and of the fraction above a level equal the trapezoid integrals of the piecewise '
            'linear density, for every ordering of grid densities and level',
            c1(INTEGRALS, ALL, (False,)) + c1(INTEGRALS, MIN1, (True,)) + c1(INTEGRALS, [m for m in MIN1 if m[3] == 'func'], (False,)) +
            c2(INT2, TWO[:4]) + [Client('flat', FLAT), Client('kinds of axes', REFUSE)],
            thorough=c1(INTEGRALS, DEEP) + c2(INT2, TWO[4:]))
P13 = Check('P13', 'value numbers of levels, fractions and boundaries are unchanged by a constant added to the log density and follow '
            'a change of units',
            c1(SHIFT, MIN1) + c1(UNITS % "__sym__('o')", [m for m in MIN1 if m[3] == 'grid'], (False,)) +
            c1(UNITS % '0.', [m for m in MIN1 if m[3] == 'grid'], (True,)) + c2(SHIFT2, TWO[:3], LG[:2] + LG[3:]) +
            c2(UNITS2, TWO[:3], LG, ('grid',)),
            thorough=c1(SHIFT, DEEP) + c2(SHIFT2, TWO[3:]) + c2(UNITS2, TWO[3:], LG, ('grid',)))
P14 = Check('P14', 'critical levels solve the right equation, boundaries are the crossings of the level, and the recorded lists stay in step '
            'on every exit, including refusals',
            c1(CRIT, MIN1) + c2(CRIT2, TWO[:2], LG[:1] + LG[3:]) +
            [Client('%d points %s' % (n, 'low' if f else 'high'), many(n, f), opaque=lambda: ZB) for n in (2, 3, 10, 11, 12, 13, 15) for f in (0, 1)] +
            [Client('function, %d points %s' % (n, 'low' if f else 'high'), many(n, f, True), opaque=lambda: ZB) for n in (3, 11, 12, 13) for f in (0, 1)],
            thorough=c1(CRIT, DEEP))
CHECKS = [P12, P13, P14]

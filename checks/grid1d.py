from sa.report import Check, Client
from ._pie import stub

MOD = 'inference.grid.grid1d'

LIN = '''
from inference.grid.grid1d import BasicGrid1D, Grid1D
from numpy import exp, log, array
n = %d
a = __sym__('a'); b = __sym__('b'); __assume__(a < b)
stype = 'linear'
xs = [a + (b - a)*k/(n - 1.) for k in range(n)]
'''
LOGW = '''
from inference.grid.grid1d import BasicGrid1D, Grid1D
from numpy import exp, log, array
n = %d
a = __sym__('a', dom='pos'); W = __sym__('W', dom='pos'); b = a*exp(W)
stype = 'log'
xs = [a*exp(W*k/(n - 1.)) for k in range(n)]
'''
LOG = '''
from inference.grid.grid1d import BasicGrid1D, Grid1D
from numpy import exp, log, array
n = %d
a = __sym__('a', dom='pos'); b = __sym__('b', dom='pos'); __assume__(a < b)
stype = 'log'
xs = [a*exp(log(b/a)*k/(n - 1.)) for k in range(n)]
'''
QUAD = '''
def trap(ys):
    return sum([(xs[k + 1] - xs[k])*(ys[k] + ys[k + 1])/2 for k in range(n - 1)])
f = __fun__('f')
V = [f(x) for x in xs]
seen = []
def func(x):
    seen.append(x)
    return f(x)
g = BasicGrid1D(a, b, n, stype)
for k in range(n):
    x, w, v = g.point(k)
    __eq__('grid point before evaluation', x, xs[k])
    __check__('no value before evaluation', v is None)
try:
    g.trapzd()
    __reach__('quadrature of a grid without values')
except RuntimeError:
    pass
g.stepfunc(func)
__eq__('the function is evaluated at the grid points, once each', seen, xs)
__eq__('values on the grid', g.vals, V)
for k in range(n):
    x, w, v = g.point(k)
    __eq__('grid point', x, xs[k])
    __eq__('width of a point is the step to the next', w, (xs[k + 1] - xs[k]) if k < n - 1 else 0.)
    __eq__('value of a point', v, V[k])
for k in (-1, n):
    try:
        g.point(k)
        __reach__('a point that does not exist')
    except ValueError:
        pass
__eq__('trapezoid quadrature', g.trapzd(), trap(V))
__eq__('log quadrature', exp(g.logtrapzd()), trap([exp(v) for v in V]))
q = g.logtrapzd_mom()
__eq__('log quadrature without moments', exp(q), trap([exp(v) for v in V]))
q, m1 = g.logtrapzd_mom(1)
Z = trap([exp(v) for v in V])
__eq__('log quadrature with a moment', exp(q), Z)
__eq__('first moment', m1, trap([xs[k]*exp(V[k]) for k in range(n)])/Z)
q, m1, m2 = g.logtrapzd_mom(2)
__eq__('log quadrature with two moments', exp(q), Z)
__eq__('first of two moments', m1, trap([xs[k]*exp(V[k]) for k in range(n)])/Z)
__eq__('second moment', m2, trap([xs[k]**2*exp(V[k]) for k in range(n)])/Z)
for bad in (-1, 3):
    try:
        g.logtrapzd_mom(bad)
        __reach__('more moments than are available')
    except ValueError:
        pass
__eq__('values unchanged by quadratures', g.vals, V)
__eq__('trapezoid quadrature after the moments', g.trapzd(), trap(V))
h = BasicGrid1D(a, b, n, stype)
h.vecfunc(lambda v: array([f(x) for x in v]))
__eq__('a vector function gives the same values', h.vals, V)
__eq__('and the same quadrature', h.trapzd(), trap(V))
__eq__('and the same log quadrature', exp(h.logtrapzd()), trap([exp(v) for v in V]))
try:
    g.trapzd(0)
    __reach__('a component of a scalar function')
except ValueError:
    pass
'''
ORDER = '''
for k in range(n - 1):
    __assume__(f(xs[k]) > -100.); __assume__(f(xs[k]) < 100.)
'''
TUPLE = '''
def trap(ys):
    return sum([(xs[k + 1] - xs[k])*(ys[k] + ys[k + 1])/2 for k in range(n - 1)])
f0 = __fun__('f0'); f1 = __fun__('f1')
g = BasicGrid1D(a, b, n, stype)
g.stepfunc(lambda x: (f0(x), f1(x)), select=1)
V = [[f0(x) for x in xs], [f1(x) for x in xs]]
for j in (0, 1):
    __eq__('quadrature of the selected component', g.trapzd(j), trap(V[j]))
    __eq__('log quadrature of the selected component', exp(g.logtrapzd(j)), trap([exp(v) for v in V[j]]))
    q, m1 = g.logtrapzd_mom(1, j)
    __eq__('moment of the selected component', m1*exp(q), trap([xs[k]*exp(V[j][k]) for k in range(n)]))
for k in range(n):
    __eq__('values of all components', g.point(k)[2], [V[0][k], V[1][k]])
for q in (g.trapzd, g.logtrapzd):
    try:
        q()
        __reach__('quadrature of a tuple without a selection')
    except ValueError:
        pass
h = BasicGrid1D(a, b, n, stype)
try:
    h.stepfunc(lambda x: (f0(x), f1(x)))
    __reach__('tuples without a selection')
except ValueError:
    pass
'''
SUB = '''
f = __fun__('f')
g = BasicGrid1D(a, b, n, stype)
g.%s(f)
i, j = %d, %d
s = g.subgrid(xs[i], xs[j])
__check__('a subgrid has the points in between', s.n == j - i + 1)
__eq__('its step is that of the grid', s.step, g.step)
for k in range(j - i + 1):
    x, w, v = s.point(k)
    __eq__('points of the subgrid', x, xs[i + k])
    __eq__('values of the subgrid', v, f(xs[i + k]))
V = [f(x) for x in xs]
__eq__('quadrature of the subgrid', s.trapzd(), sum([(xs[k + 1] - xs[k])*(V[k] + V[k + 1])/2 for k in range(i, j)]))
try:
    g.subgrid(xs[0]*.75 + xs[1]*.25 if stype == 'linear' else a*exp(W*.25/(n - 1.)), xs[n - 1])
    __reach__('a subgrid that starts between grid points')
except ValueError:
    pass
try:
    g.subgrid(xs[0], xs[n - 1]*2 - xs[0] + 1 if stype == 'linear' else a*exp(2*W))
    __reach__('a subgrid beyond the grid')
except ValueError:
    pass
'''
PEAK = '''
from inference.grid.grid1d import PeakParams, IsPeak
A = __sym__('A'); m = __sym__('m'); s = __sym__('s', dom='pos')
x = __arr__('x', 3)
__assume__(x[0] < x[1]); __assume__(x[1] < x[2])
y = [A - (t - m)**2/(2*s**2) for t in x]
r = PeakParams(x, y)
__eq__('height of a Gaussian through three points', r[0], A)
__eq__('centre of a Gaussian through three points', r[1], m)
__eq__('width of a Gaussian through three points', r[2]**2, s**2)
u = __arr__('u', 3)
__assume__(u[0] < u[1])
p = IsPeak(u)
if u[1] > u[2]:
    __check__('a maximum in the middle is a peak', p)
elif u[1] < u[2]:
    __check__('a rising triplet is no peak', not p)
else:
    __check__('the start of a flat top is a peak', p)
v = __arr__('v', 3)
__assume__(v[0] >= v[1])
__check__('no peak unless it rises to the middle', not IsPeak(v))
'''
MAXLIST = '''
from inference.grid.grid1d import LabeledMaxList
from numpy import log
n = %d; nmax = %r; dyn = %r
L = LabeledMaxList(nmax, dyn)
q = __arr__('q', n)
for k in range(n):
    __assume__(q[k] > -3.); __assume__(q[k] < 3.)
big = None
for k in range(n):
    L.update(q[k], k)
    __check__('never longer than allowed', nmax is None or len(L) <= nmax)
    __check__('not empty', len(L) >= 1)
    if nmax is None and dyn is None:
        __check__('everything is kept', len(L) == k + 1)
    if nmax is not None and dyn is None:
        __check__('filled up to the limit', len(L) == min(k + 1, nmax))
    for i in range(k + 1):
        __check__('the largest value is first', L[0][0] >= q[i])
for i in range(len(L) - 1):
    __check__('values are in decreasing order', L[i][0] >= L[i + 1][0])
for i in range(len(L)):
    v, l = L[i]
    __eq__('every value keeps its label', v, q[l])
    if dyn is not None:
        __check__('values span the dynamic range at most', L[0][0] - v <= log(dyn))
'''
RANGE = '''
from inference.grid.grid1d import LabeledMaxList
from numpy import log
off = %r; nmax = %r
z = __sym__('z'); D = log(10.)
L = LabeledMaxList(nmax, 10.)
seen = []
for k in range(len(off)):
    L.update(z + D*off[k], ('label', k))
    seen.append(k)
    top = max([off[j] for j in seen])
    want = sorted([j for j in seen if top - off[j] < 1], key=lambda j: -off[j])
    if nmax is not None:
        want = want[:nmax]
    __check__('the largest values within the dynamic range are kept', len(L) == len(want))
    __eq__('values in decreasing order', [L[i][0] for i in range(len(L))], [z + D*off[j] for j in want])
    __eq__('labels stay with their values', [L[i][1][1] for i in range(len(L))], want)
'''
KEPT = '''
from inference.grid.grid1d import LabeledMaxList
from numpy import log
q = __arr__('q', 4)
__assume__(q[%d] > q[%d]); __assume__(q[%d] > q[%d]); __assume__(q[%d] > q[%d])
for k in range(4):
    __assume__(q[k] > -3.); __assume__(q[k] < 3.)
order = %r
L = LabeledMaxList(%r)
for k in range(4):
    L.update(q[k], ('label', k))
want = sorted(range(4), key=lambda k: order.index(k))[:len(L)]
__check__('as many as fit', len(L) == %d)
__eq__('the largest values, in decreasing order', [L[i][0] for i in range(len(L))], [q[k] for k in want])
__eq__('with their labels', [L[i][1][1] for i in range(len(L))], want)
L.limitRange(1.e9)
__check__('a wide range removes nothing', len(L) == %d)
R = LabeledMaxList()
for k in range(5):
    R.update(q[0] + log(10.)*[0., -.5, .25, -.8, -3.][k], k)
R.limitRange(10.)
__eq__('a narrow range removes the values too far below the largest', [R[i][1] for i in range(len(R))], [2, 0, 1])
del L[0]
__check__('an entry can be deleted', len(L) == %d)
E = LabeledMaxList()
E.limitRange(10.)
__check__('limiting an empty list leaves it empty', len(E) == 0)
d = __sym__('d', dom='pos')
M = LabeledMaxList(None, 10.)
M.update(0., 'a'); M.update(log(10.) + d, 'b')
__eq__('a much larger value drives the others out', [m[1] for m in M.list], ['b'])
M.update(d, 'c')
__eq__('a value at the edge of the range stays', len(M), 2)
'''

MAXREC = '''
from inference.grid.grid1d import LabeledMaxList
from numpy import sqrt, pi
n = %d; order = %r          # grid points from the largest value to the smallest
rank = %r; how = %r
f = __fun__('f')
if stype == 'linear':
    a = __sym__('a0'); h = __sym__('h', dom='pos'); b = a + h*(n - 1)
    xs = [a + h*k for k in range(n)]
else:
    a = __sym__('a0', dom='pos'); h = __sym__('h', dom='pos'); b = a*exp(h*(n - 1))
    xs = [a*exp(h*k) for k in range(n)]
V = [f(x) for x in xs]
for k in range(n - 1):
    __assume__(V[order[k]] > V[order[k + 1]])
S = __fun__('S', dom='pos')
def peak_params(x, y):
    k = [j for j in range(n) if x[1] == xs[j]][0]
    __eq__('a peak is described from the three points around it', list(x), [xs[k - 1], xs[k], xs[k + 1]])
    __eq__('and the function there', y, [V[k - 1], V[k], V[k + 1]])
    return (y[1], x[1] + 1, S(x[1]))
up = [V[k + 1] - V[k] for k in range(n - 1)]
want = []
for k in order:
    l = k == 0 or order.index(k) < order.index(k - 1)
    r = k == n - 1 or order.index(k) < order.index(k + 1)
    if l and r:
        if k == 0:
            s = (xs[1] - xs[0])/(V[0] - V[1])/2; m = xs[0]; w = s/2
        elif k == n - 1:
            s = (xs[k] - xs[k - 1])/(V[k] - V[k - 1])/2; m = xs[k]; w = s/2
        else:
            s = w = S(xs[k]); m = xs[k] + 1
        want.append((V[k] if rank == 'peak' else V[k] + log(w*sqrt(2*pi)), (k, V[k], m, s)))
L = LabeledMaxList()
if how == 'tuple':
    g = BasicGrid1D(a, b, n, stype, lml=L, rank=rank)
    g.stepfunc(lambda x: (f(x)**2, f(x)), select=1)
else:
    g = BasicGrid1D(a, b, n, stype, lml=L, rank=rank)
    if how == 'step':
        g.stepfunc(f)
    else:
        g.vecfunc(lambda v: array([f(x) for x in v]))
__check__('as many maxima as the function has on the grid', len(L) == len(want))
if rank == 'peak' or len(want) == 1:
    __eq__('largest first, with their grid points and parameters', L.list, want)
'''

# ------------------------------------------------------------------ interval lists
INV = '''
from inference.grid.grid1d import RefinedIntervalList1D, BasicInterval
from numpy import log, exp, floor, ceil
def size(lo, hi):
    return hi - lo if lin else log(hi/lo)
def inv(L, lo, hi, n):
    I = L.ilist
    __check__('number of intervals', L.nint == len(I))
    __eq__('the list starts where the base interval starts', I[0].lo, lo)
    __eq__('the list ends where the base interval ends', I[len(I) - 1].hi, hi)
    tot = 1
    for k in range(len(I)):
        __check__('every interval has at least two points', I[k].n >= 2)
        __eq__('step, size and number of points of an interval agree', I[k].step*(I[k].n - 1), size(I[k].lo, I[k].hi))
        __check__('no interval is sampled less densely than the base interval', I[k].step <= size(lo, hi)/(n - 1))
        if k:
            __eq__('intervals are adjacent', I[k].lo, I[k - 1].hi)
        tot = tot + I[k].n - 1
    __eq__('total number of points', L.npts, tot)
    __eq__('refined intervals are those denser than the base', [I.lo for I in L.nonbase()], [I.lo for I in L if I.step < size(lo, hi)/(n - 1)])
    __eq__('the base interval keeps its definition', (L.base.lo, L.base.hi, L.base.n), (lo, hi, n))
def points(L):
    """every point by number: intervals joined end to end"""
    m = 0
    for k in range(len(L.ilist)):
        last = 1 if k == len(L.ilist) - 1 else 0
        for j in range(L.ilist[k].n - 1 + last):
            r = L.nlocate(m)
            __check__('point number to interval', r[0] == k)
            __check__('point number to index within the interval', r[1] == j)
            __check__('interval of a point', r[2] is L.ilist[k])
            m += 1
    __check__('points counted', m == L.npts)
    for bad in (-1, m):
        try:
            L.nlocate(bad)
            __reach__('a point that does not exist')
        except ValueError:
            pass
'''
BASE = {True: '''
symbolic = True
lin = True
a = __sym__('a'); h = __sym__('h', dom='pos')
def at(r):
    return a + h*r
stype = 'linear'
''', False: '''
symbolic = True
lin = False
a = __sym__('a', dom='pos'); h = __sym__('h', dom='pos')
def at(r):
    return a*exp(h*r)
stype = 'log'
'''}
CONST = {True: '''
symbolic = False
lin = True
a = 3.; h = .5
def at(r):
    return a + h*r
stype = 'linear'
''', False: '''
symbolic = False
lin = False
a = 3.; h = .5
def at(r):
    return a*exp(h*r)
stype = 'log'
'''}
HIST = '''
N = 11
L = RefinedIntervalList1D(at(0), at(N - 1), N, stype)
inv(L, at(0), at(N - 1), N)
for lo, hi, m in %r:
    L.update(at(lo), at(hi), m)
    inv(L, at(0), at(N - 1), N)
    # the requested region is at least as dense as requested (unless it was not resolved)
    want = h*(hi - lo)/(m - 1)
    for I in L.ilist:
        if I.lo < at(min(hi, N - 1)) and I.hi > at(max(lo, 0)):
            __check__('a refined region has the requested number of points, at least', I.step <= h*(ceil(min(hi, N - 1)) - floor(max(lo, 0)))/(m - 1))
    if 5*want > h:
        for I in L.ilist:
            if I.lo < at(hi) and I.hi > at(lo):
                __check__('the requested region is as dense as requested', I.step <= want)
    points(L)
for I in L.ilist:
    x = I.lo + (I.hi - I.lo)/3 if lin else I.lo*exp(log(I.hi/I.lo)/3)
    __check__('a location is found in its interval', L.locate(x) is I)
    i, l, r = I.locate(x)
    __check__('a location lies in its subinterval', l <= x)
    __check__('a location lies in its subinterval', x <= r)
__check__('the end belongs to the last interval', L.locate(at(N - 1)) is L.ilist[L.nint - 1])
for x in (at(-1), at(N)):
    try:
        L.locate(x)
        __reach__('a location outside the list')
    except ValueError:
        pass
try:
    L.update(at(N), at(N + 2), 5)
    __reach__('an interval outside the list')
except ValueError:
    pass
'''
SYMB = '''
N = 11
i, j = %d, %d
u = __sym__('u', dom='unit'); v = __sym__('v', dom='unit')
__assume__(u > 0); __assume__(u < 1); __assume__(v > 0); __assume__(v < 1)
__assume__(u < v)
L = RefinedIntervalList1D(at(0), at(N - 1), N, stype)
L.update(at(i + u), at(j + v), 7*(j - i + 1))
inv(L, at(0), at(N - 1), N)
want = [k for k in ((0, i), (i, j + 1), (j + 1, N - 1)) if k[1] > k[0]]
__check__('the refined interval and the rest', len(L.ilist) == len(want))
__eq__('intervals end at base points', [(I.lo, I.hi) for I in L.ilist], [(at(k[0]), at(k[1])) for k in want])
__eq__('the rest keeps the base density', [I.n - 1 for I in L.ilist if I.lo == at(j + 1) or I.hi == at(i)],
       [k[1] - k[0] for k in want if k != (i, j + 1)])
'''
REV = '''
N = 11
L = RefinedIntervalList1D(at(N - 1), at(0), N, stype)
inv(L, at(0), at(N - 1), N)
L.update(at(6.5), at(2.25), 15)
inv(L, at(0), at(N - 1), N)
points(L)
for I in L.ilist:
    if I.lo < at(6.5) and I.hi > at(2.25):
        __check__('the requested region is as dense as requested', I.step <= h*4.25/14)
'''
BAD = '''
lin = True
a = __sym__('a')
def bad(f):
    try:
        f()
        __reach__('a bad interval')
    except ValueError:
        pass
b = __sym__('b', dom='pos')
bad(lambda: RefinedIntervalList1D(a, a, 5))
bad(lambda: RefinedIntervalList1D(a, a + 1, 1))
bad(lambda: RefinedIntervalList1D(-b, b, 5, 'log'))
bad(lambda: RefinedIntervalList1D(a, a + 1, 5, 'cubic'))
bad(lambda: BasicInterval(a, a + 1, 1))
bad(lambda: BasicInterval(a, a + 1, 5, 'cubic'))
for t in ('lin', 'linear', 'Linear'):
    r = RefinedIntervalList1D(a, a + b, 5, t)
    __eq__('names of linear steps', r.base.step, b/4)
for t in ('log', 'logarithmic', 'Log'):
    r = RefinedIntervalList1D(b, 2*b, 5, t)
    __eq__('names of log steps', r.base.step, log(2)/4)
bad(lambda: BasicInterval(-b, b, 5, 'log'))
i = BasicInterval(b, 2*b, 5, 'log')
i.resample(9)
k, l, r = i.locate(b*exp(log(2.)*2.5/8))
__check__('a resampled interval: subinterval number', k == 2)
__eq__('a resampled interval: lower end', l, b*exp(log(2.)*2/8))
__eq__('a resampled interval: upper end', r, b*exp(log(2.)*3/8))
'''

GRID = '''
from inference.grid.grid1d import Grid1D
A = __sym__('A') if symbolic else .75
N, nsig, sigpts, peaks = %r
rpts = nsig*(sigpts - 1) + 1
xs = [at(k) for k in range(N)]
def u(x):
    return (x - a)/h if lin else log(x/a)/h
def near(t):
    best = None
    for p in peaks:
        if best is None or abs(t - p[0]) < abs(t - best[0]):
            best = p
    return best
def f(x):
    t = u(x)
    r, s, C = near(t)
    return A + C - (t - r)**2/(2*s**2)
calls = []
def peak_params(x, y):
    t = u(x[1])
    r, s, C = near(t)
    if len(calls) < len(peaks):
        k = round(r)
        __eq__('a peak is described from the three points around it', x, (xs[k - 1], xs[k], xs[k + 1]))
        __eq__('and the function there', y, [f(xs[k - 1]), f(xs[k]), f(xs[k + 1])])
    calls.append(t)
    lo, hi = at(r - nsig*s), at(r + nsig*s)
    return (A + C, (lo + hi)/2, (hi - lo)/(2*nsig))
g = Grid1D(xs[0], xs[N - 1], N, stype, sigpts=sigpts, nsig=nsig)
__check__('number of points before refinement', len(g) == N)
try:
    g.refine()
    __reach__('refinement without a first pass')
except RuntimeError:
    pass
g.firstpass(f)
ranked = sorted(peaks, key=lambda p: -p[2])
__eq__('the maxima are found, largest first', [m[0] for m in g.lml.list], [A + p[2] for p in ranked])
__eq__('with their grid points', [m[1][0] for m in g.lml.list], [round(p[0]) for p in ranked])
for k in range(N):
    __eq__('point before refinement', g.point(k)[0], xs[k])
    __eq__('value before refinement', g.point(k)[2], f(xs[k]))
g.refine()
P = [g.point(k) for k in range(len(g))]
__check__('refinement adds points', len(P) > N)
__eq__('first point', P[0][0], xs[0])
__eq__('last point', P[len(P) - 1][0], xs[N - 1])
for k in range(len(P)):
    __eq__('every point carries the function value there', P[k][2], f(P[k][0]))
    if k < len(P) - 1:
        __eq__('every width is the distance to the next point', P[k][1], P[k + 1][0] - P[k][0])
        __check__('points are in increasing order', P[k][0] < P[k + 1][0])
        for r, s, C in peaks:
            if u(P[k][0]) >= r - nsig*s and u(P[k + 1][0]) <= r + nsig*s:
                __check__('the neighbourhood of a maximum is sampled as densely as asked', u(P[k + 1][0]) - u(P[k][0]) <= 2*nsig*s/(rpts - 1))
__eq__('last width', P[len(P) - 1][1], 0.)
def trap(w):
    return sum([P[k][1]*(w(P[k]) + w(P[k + 1]))/2 for k in range(len(P) - 1)])
__eq__('quadrature over all points', g.trapzd(), trap(lambda p: p[2]))
__eq__('log quadrature over all points', exp(g.logtrapzd()), trap(lambda p: exp(p[2])))
__eq__('points by index', [g[k] for k in (0, 3)], [P[0], P[3]])
__eq__('iteration gives all the points', [p[0] for p in g], [p[0] for p in P])
'''
MOM = '''
q, m1, m2 = g.logtrapzd_mom(2)
__eq__('log quadrature with moments', exp(q), trap(lambda p: exp(p[2])))
__eq__('first moment over all points', m1*exp(q), trap(lambda p: p[0]*exp(p[2])))
__eq__('second moment over all points', m2*exp(q), trap(lambda p: p[0]**2*exp(p[2])))
__eq__('no moments', exp(g.logtrapzd_mom()), trap(lambda p: exp(p[2])))
'''


def c(name, src, **k):
    k.setdefault('timeout', 40)
    return Client(name, src, **k)


P17 = Check('P17', 'value numbers of grid points, widths, quadratures, log quadratures and moments equal the trapezoid sums',
            [c('%s %d' % (s, n), src % n + QUAD, abbrev=30) for s, src in (('lin', LIN), ('log', LOG)) for n in (2, 3, 4)] +
            [c('%s tuple' % s, src % 3 + TUPLE, abbrev=30) for s, src in (('lin', LIN), ('log', LOG))] +
            [c('%s subgrid %d-%d %s' % (s, i, j, how), src % 6 + SUB % (how, i, j))
             for s, src in (('lin', LIN), ('log', LOGW)) for i, j, how in ((0, 5, 'stepfunc'), (1, 4, 'stepfunc'), (2, 3, 'stepfunc'))],
            thorough=[c('%s %d' % (s, n), src % n + QUAD, abbrev=30) for s, src in (('lin', LIN), ('log', LOG)) for n in (5, 8)])
PERM = [(3, 1, 0, 2), (0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2)]
P18 = Check('P18', 'the list of maxima is sorted, bounded and complete on every path; peak parameters are exact for Gaussians',
            [c('peak', PEAK, abbrev=30)] +
            [c('list of %d nmax %s range %s' % (n, m, d), MAXLIST % (n, m, d), abbrev=0) for n, m, d in
             ((2, None, None), (2, 1, None), (2, 1, 10.))] +
            [c('range %s %s' % (o, m), RANGE % (o, m)) for o in ((0, 1.5, .75, 2.25, 2, 1), (2.25, 2.1, .5, 1.3, 1.2, 3), (0, .5, -.25, -1.5, .25, -.75))
             for m in (None, 1, 2, 4)] +
            [c('kept %s %s' % (o, m), KEPT % (o[0], o[1], o[1], o[2], o[2], o[3], o, m, min(m or 4, 4), min(m or 4, 4), min(m or 4, 4) - 1))
             for o in PERM for m in (None, 1, 2, 3)] +
            [c('maxima %s %s %s %s' % (s, o, r, w), src % 3 + MAXREC % (len(o), o, r, w), opaque=lambda: {(MOD, 'PeakParams'): stub('peak_params')})
             for s, src in (('lin', LIN), ('log', LOG)) for o in ((1, 0, 2), (0, 1, 2), (2, 0, 1), (3, 1, 0, 2), (2, 3, 1, 0), (1, 3, 2, 0), (1, 4, 2, 0, 3), (4, 2, 0, 3, 1))
             for r, w in (('peak', 'step'), ('area', 'vec'), ('peak', 'vec'), ('area', 'step'), ('peak', 'tuple'))
             if r == 'peak' or len(o) < 5],
            thorough=[c('list of 3 nmax %s range %s' % (m, d), MAXLIST % (3, m, d)) for m, d in ((None, None), (2, None), (1, None))])
H = [((2.25, 6.5, 31),), ((2.25, 6.5, 31), (5.5, 8.75, 61)), ((2.25, 4.5, 31), (6.5, 8.25, 31), (3.5, 7.75, 41)),
     ((0, 3.5, 21), (7.25, 10, 21)), ((-1, 2.5, 21), (1.5, 12, 41)), ((2, 5, 31), (5, 8, 31)), ((2.25, 6.5, 3),), ((4.1, 4.2, 41),),
     ((3.25, 4.75, 41), (3.4, 3.6, 41), (3.25, 8.5, 61))]
H += [((2.25, 6.5, 15), (5.5, 8.75, 14)), ((5.5, 8.75, 14), (2.25, 6.5, 15)), ((2.25, 4.5, 12), (6.5, 8.25, 9), (3.5, 7.75, 22)),
      ((2.25, 4.5, 9), (6.5, 8.25, 9), (1.5, 9.5, 40)), ((3.25, 4.75, 8), (1.5, 8.5, 20)), ((1.5, 8.5, 20), (3.25, 6.75, 17)),
      ((1, 4, 8), (4, 7, 10), (2.5, 5.5, 15)), ((2, 5, 13), (5, 8, 16), (3.5, 6.5, 12)), ((2, 5, 9), (2, 5, 13)),
      ((2, 8, 15), (0, 5.5, 15), (4.5, 10, 21)), ((2, 5, 13), (1, 4, 5), (4, 8, 11)), ((2, 4, 6), (6, 8, 7), (3, 7, 15), (0, 10, 30)),
      ((1, 2, 4), (4, 5, 5), (7, 8, 4), (1.5, 7.5, 25)), ((2.5, 3.5, 3), (0, 10, 25), (9.5, 10, 4))]
G = [(6, 2, 5, [(2.25, .5, 0)]), (5, 1, 4, [(1.125, 1.5, 0)]), (9, 1, 5, [(2.25, .75, -1), (6.125, .5, 2)])]
P19 = Check('P19', 'after every history of refinements the interval list is contiguous, complete, consistently counted and dense enough; refined '
            'grids carry the right values and quadratures',
            [c('%s history %s' % ('lin' if l else 'log', hh), INV + BASE[l] + HIST % (hh,)) for l in (True, False) for hh in H] +
            [c('%s constant %s' % ('lin' if l else 'log', hh), INV + CONST[l] + HIST % (hh,)) for l in (True, False) for hh in H] +
            [c('any interval %s %d-%d' % ('lin' if l else 'log', i, j), INV + BASE[l] + SYMB % (i, j)) for l in (True, False)
             for i, j in ((2, 6), (0, 4), (5, 9), (0, 9), (4, 4))] +
            [c('reversed %s' % ('lin' if l else 'log'), INV + BASE[l] + REV) for l in (True, False)] + [c('bad', INV + BAD)] +
            [c('grid %s %d' % ('lin' if l else 'log', k), INV + BASE[l] + GRID % (g,) + MOM, abbrev=200,
               opaque=(lambda: {}) if l else (lambda: {(MOD, 'PeakParams'): stub('peak_params')}))
             for l in (True, False) for k, g in enumerate(G)] +
            [c('constant grid %s %d' % ('lin' if l else 'log', k), INV + CONST[l] + GRID % (g,) + MOM, abbrev=200,
               opaque=(lambda: {}) if l else (lambda: {(MOD, 'PeakParams'): stub('peak_params')}))
             for l in (True, False) for k, g in enumerate(G)])
CHECKS = [P17, P18, P19]

"""Contour and grid plots: what is handed to the plotting library."""
from sa.report import Check, Client
from ._pie import model

# The plotting library, by contract: it records what it is asked to draw.  Contour levels have to increase.
PYPLOT = '''
calls = []
class Obj(object):
    pass
def _flag(x):
    return len(x) if hasattr(x, '__len__') else 0
class Axes(object):
    def contour(self, X, Y, Z, levels=None, colors=None, linewidths=None, origin=None, **kw):
        ny, nx = Z.shape
        xs = [[X[r, c] if len(X.shape) == 2 else X[c] for c in range(nx)] for r in range(ny)]
        ys = [[Y[r, c] if len(Y.shape) == 2 else Y[r] for c in range(nx)] for r in range(ny)]
        zs = [[Z[r, c] + 0 for c in range(nx)] for r in range(ny)]
        lv = [t + 0 for t in levels]
        for k in range(1, len(lv)):
            if not lv[k-1] < lv[k]:
                raise ValueError('Contour levels must be increasing')
        cs = colors if colors is None or isinstance(colors, str) else list(colors)
        calls.append(('contour', xs, ys, zs, lv, cs, linewidths))
        return 'the contours'
    def imshow(self, Z, cmap=None, aspect=None, interpolation=None, vmin=None, vmax=None, origin=None, extent=None, **kw):
        ny, nx = Z.shape
        calls.append(('imshow', [[Z[r, c] + 0 for c in range(nx)] for r in range(ny)], vmin, vmax, origin, extent, aspect))
        return 'the image'
    def clabel(self, cs, **kw):
        calls.append(('clabel', cs))
    def plot(self, x, y, *a, **kw):
        calls.append(('plot', list(x), list(y)))
    def axhline(self, y, *a, **kw):
        calls.append(('hlines', y, 'all', 'all'))
    def axvline(self, x, *a, **kw):
        calls.append(('vlines', x, 'all', 'all'))
    def hlines(self, y, xmin, xmax, *a, **kw):
        calls.append(('hlines', y, xmin, xmax))
    def vlines(self, x, ymin, ymax, *a, **kw):
        calls.append(('vlines', x, ymin, ymax))
    def set_xlabel(self, s, **kw):
        calls.append(('xlabel', s))
    def set_ylabel(self, s, **kw):
        calls.append(('ylabel', s))
    def get_xlim(self):
        return XLIM
    def get_ylim(self):
        return YLIM
XLIM = (-11., 12.)
YLIM = (-13., 14.)
ax = Axes()
cm = Obj()
cm.gray = 'gray'
class Figure(object):
    def gca(self):
        return ax
    def add_subplot(self, *a, **kw):
        return ax
def figure(*a, **kw):
    calls.append(('figure',))
    return Figure()
def gca(**kw):
    return ax
def xlim():
    return XLIM
def ylim():
    return YLIM
def colorbar(im, **kw):
    calls.append(('colorbar', im))
contour = ax.contour
imshow = ax.imshow
clabel = ax.clabel
plot = ax.plot
hlines = ax.hlines
vlines = ax.vlines
axhline = ax.axhline
axvline = ax.axvline
xlabel = ax.set_xlabel
ylabel = ax.set_ylabel
'''

HEAD = '''
import matplotlib.pyplot as mpl
from inference.utils import plot_bivar
from numpy import array, linspace, log
NX, NY = 3, 2
x0 = __sym__('x0'); dx = __sym__('dx', dom='pos'); y0 = __sym__('y0'); dy = __sym__('dy', dom='pos')
x = array([x0 + i*dx for i in range(NX)]); y = array([y0 + i*dy for i in range(NY)])
def got(name):
    r = [c for c in mpl.calls if c[0] == name]
    __check__('drawn once: ' + name, len(r) == 1)
    return r[0]
def none(name):
    __check__('not drawn: ' + name, [c for c in mpl.calls if c[0] == name] == [])
'''
DATA = '''
big = __sym__('big')
f = [[big - (0 if (i, j) == PEAK else __sym__('d%d%d' % (i, j), dom='pos')) for j in range(NY)] for i in range(NX)]
PEAKV = big
logpdf = array(f) if ORDER == 'xy' else array([[f[i][j] for i in range(NX)] for j in range(NY)])
'''
CHECKC = '''
def contours(absolute, colors):
    """the contours drawn are those of the function, at the levels (given as absolute values, in the order given)"""
    _, xs, ys, zs, lv, cs, lw = got('contour')
    __check__('one contour for each level', len(lv) == len(absolute))
    for r in range(NY):
        for c in range(NX):
            __eq__('x of a plotted value', xs[r][c], x0 + c*dx)
            __eq__('y of a plotted value', ys[r][c], y0 + r*dy)
    for k in range(len(lv)):
        # levels come out in increasing order: the k-th lowest of those given
        rank = [m for m in range(len(absolute)) if len([n for n in absolute if n < absolute[m]]) == k]
        __check__('levels given are different', len(rank) == 1)
        m = rank[0]
        for r in range(NY):
            for c in range(NX):
                __eq__('the function relative to the level', zs[r][c] - lv[k], f[c][r] - absolute[m])
        if not isinstance(colors, str):
            __check__('colour of a level', cs[k % len(cs)] == colors[m % len(colors)])
        else:
            __check__('colour of all levels', cs == colors)
    return lw
def image(gs, lowest):
    _, zs, vmin, vmax, origin, extent, aspect = got('imshow')
    __check__('the image is drawn upwards', origin == 'lower')
    __eq__('extent of the image', list(extent), [x0, x0 + (NX - 1)*dx, y0, y0 + (NY - 1)*dy])
    for r in range(NY):
        for c in range(NX):
            __eq__('grey value', zs[r][c] - vmax, f[c][r] - PEAKV)
    __eq__('white is the peak and black is below the lowest level', vmax - vmin, gs*(PEAKV - lowest))
def unchanged():
    for i in range(NX):
        for j in range(NY):
            __eq__('the grid of values is left alone', logpdf[i, j] if ORDER == 'xy' else logpdf[j, i], f[i][j])
        __eq__('the abscissas are left alone', x[i], x0 + i*dx)
    for j in range(NY):
        __eq__('the ordinates are left alone', y[j], y0 + j*dy)
NORMAL = ['blue', 'darkgreen', 'firebrick', 'saddlebrown', 'dimgray', 'k', 'k', 'k', 'k', 'k']
'''
LEVELS = '''
e1 = __sym__('e1', dom='pos'); e2 = __sym__('e2', dom='pos')
given = [%s]
mine = array(given) if %d else list(given)
plot_bivar(x, y, logpdf, levels=mine%s)
__eq__('the given levels are left alone', list(mine), given)
lw = contours(given, %s)
unchanged()
none('hlines'); none('vlines'); none('colorbar')
'''
PL = '''
pr = %s
mine = %s(pr)
plot_bivar(x, y, logpdf, plevels=mine%s)
__eq__('the given probabilities are left alone', list(mine), pr)
contours([PEAKV + log(1 - t) for t in pr], %s)
unchanged()
'''
OPQ = {'modules': {'matplotlib.pyplot': PYPLOT}}


def cl(name, body, order='xy', peak=(0, 0), shape='3, 2', **k):
    pre = HEAD.replace('3, 2', shape) + 'ORDER = %r\nPEAK = %r\n' % (order, peak) + DATA + CHECKC
    kw = '' if order == 'xy' else ', iorder=%r' % order
    return Client(name, pre + body.replace('PLOT(', 'plot_bivar(x, y, logpdf%s, ' % kw), opaque=lambda: OPQ, **k)


def io(order):
    return '' if order == 'xy' else ", iorder='yx'"


UP = 'PEAKV - e1 - e2, PEAKV - e1'
DOWN = 'PEAKV - e1, PEAKV - e1 - e2'
CL = []
for order in ('xy', 'yx'):
    for peak in ((0, 0), (2, 0), (1, 1)):
        CL.append(cl('levels %s %s' % (order, peak), LEVELS % (UP, 0, io(order), 'NORMAL'), order, peak))
    CL.append(cl('levels, decreasing %s' % order, LEVELS % (DOWN, 1, io(order), 'NORMAL'), order))
    CL.append(cl('probabilities %s' % order, PL % ('[.5, .9, .99]', 'array', io(order), 'NORMAL'), order))
CL += [
    cl('a level above the peak', LEVELS % ('PEAKV - e1, PEAKV + e2', 0, '', 'NORMAL')),
    cl('levels above the peak', LEVELS % ('PEAKV + e1 + e2, PEAKV + e1', 1, io('yx'), 'NORMAL'), 'yx'),
    cl('a level at the peak', LEVELS % ('PEAKV, PEAKV - e1', 1, '', 'NORMAL')),
    cl('levels anywhere', LEVELS % ("__sym__('anywhere'), __sym__('anywhere') + e1", 0, '', 'NORMAL')),
    cl('named order', LEVELS % (UP, 1, ", iorder='xy', lw=3", 'NORMAL') + "__check__('line width', lw == 3)\n"),
    cl('colours', LEVELS % (DOWN, 1, ", colors=('r', 'g')", "('r', 'g')")),
    cl('fewer colours than levels', LEVELS % ('PEAKV - e1 - e2, PEAKV - e1, PEAKV - e1/2', 0, ", colors=['r', 'g']", "('r', 'g')")),
    cl('one colour', LEVELS % (DOWN, 0, ", colors='k'", "'k'")),
    cl('probabilities, decreasing', PL % ('[.9, .5]', 'list', ', iorder="yx"', 'NORMAL'), 'yx'),
    cl('default levels', '''
plot_bivar(x, y, logpdf)
from scipy.stats import chi2
# the probability within k standard deviations of a normal variable, as the level of a bivariate normal
contours([PEAKV + log(chi2.sf(k**2, 1)) for k in (1, 2, 3, 4, 5, 6)], NORMAL)
unchanged()
none('imshow'); none('clabel'); none('colorbar')
__check__('line width', got('contour')[6] == 1)
__check__('labels', got('xlabel')[1] == 'X' and got('ylabel')[1] == 'Y')
plot_bivar(x, y, logpdf, gscale=True)
none('colorbar')
'''),
    cl('labels', '''
plot_bivar(x, y, logpdf, plevels=array([.5]), xlabel='first', ylabel='second', clabel=True)
__check__('x label', got('xlabel')[1] == 'first')
__check__('y label', got('ylabel')[1] == 'second')
__check__('contours are labelled', got('clabel')[1] == 'the contours')
'''),
] + [cl('cross ' + order, '''
xc = __sym__('xc'); yc = __sym__('yc')
plot_bivar(x, y, logpdf, plevels=array([.5]), cross=(xc, yc)%s)
for c, at, lim in ((got('hlines'), yc, mpl.XLIM), (got('vlines'), xc, mpl.YLIM)):
    __eq__('position of a cross hair', c[1], at)
    __check__('a cross hair spans the plot', (c[2], c[3]) == lim or c[2] == 'all')
unchanged()
z = mpl.ax.format_coord(x[1], y[1])
__eq__('the value shown at a point', z, 'x=%%1.4f, y=%%1.4f, z=%%1.4f' %% (x[1], y[1], f[1][1] - PEAKV))
''' % io(order), order) for order in ('xy', 'yx')] + [cl('image %s %s' % (order, gs), '''
e1 = __sym__('e1', dom='pos'); e2 = __sym__('e2', dom='pos'); gs = __sym__('gs', dom='pos')
plot_bivar(x, y, logpdf, levels=[PEAKV - e1, PEAKV - e1 - e2], gscale=%s, gscale_bar=%s%s)
image(%s, PEAKV - e1 - e2)
contours([PEAKV - e1, PEAKV - e1 - e2], NORMAL)
if %s:
    __check__('the scale is that of the image', got('colorbar')[1] == 'the image')
else:
    none('colorbar')
unchanged()
''' % (gs, bar, io(order), 10 if gs == 'True' else gs, bar), order, (2, 1))
    for order, gs, bar in (('xy', 'True', 'False'), ('xy', 'gs', 'True'), ('yx', 'gs', 'False'), ('yx', 'True', 'True'))] + [
    cl('coordinates %s %s' % (order, sh), '''
plot_bivar(x, y, logpdf, plevels=array([.5])%s)
show = mpl.ax.format_coord
u = __sym__('u', dom='unit'); v = __sym__('v', dom='unit')
for i in range(-2, NX + 2):
    for j in range(-2, NY + 2):
        # anywhere in the cell around grid point (i, j)
        px, py = x0 + (i - .5 + u)*dx, y0 + (j - .5 + v)*dy
        if i >= 0 and i < NX and j >= 0 and j < NY:
            __eq__('the value shown is that of the nearest grid point', show(px, py), 'x=%%1.4f, y=%%1.4f, z=%%1.4f' %% (px, py, f[i][j] - PEAKV))
        else:
            __eq__('no value is shown outside the grid', show(px, py), 'x=%%1.4f, y=%%1.4f' %% (px, py))
''' % io(order), order, shape=sh) for order, sh in (('xy', '3, 2'), ('yx', '3, 2'), ('xy', '2, 4'))] + [
    cl('illegal order', '''
for bad in ('', 'x', 'yxx', 'XY', None):
    try:
        plot_bivar(x, y, logpdf, bad)
        __reach__('an unknown index order is refused')
    except ValueError:
        pass
__check__('nothing is drawn', mpl.calls == [])
unchanged()
''')]

GRIDP = '''
import matplotlib.pyplot as mpl
x = X()
lo = __sym__('lo'); hi = __sym__('hi'); lo2 = __sym__('lo2'); hi2 = __sym__('hi2')
__assume__(lo < hi); __assume__(lo2 < hi2)
'''
GRID1 = '''
x.p.linstep(lo, hi, 3)
g = x.fit()
mpl.calls[:] = []
g.plot(%s)
c = [c for c in mpl.calls if c[0] == 'plot']
__check__('one curve', len(c) == 1)
for k in range(3):
    __eq__('abscissa', c[0][1][k], lo + k*(hi - lo)/2.)
    __eq__('ordinate', c[0][2][k], want(lo + k*(hi - lo)/2., x.q))
__check__('labels', [d for d in mpl.calls if d[0] in ('xlabel', 'ylabel')] == [('xlabel', 'p'), ('ylabel', %r)])
__check__('figures', len([d for d in mpl.calls if d[0] == 'figure']) == %d)
'''
GRID2 = '''
x.q.linstep(lo2, hi2, 2)
x.p.linstep(lo, hi, 3)
g = x.fit()
mpl.calls[:] = []
class AnyLevels(object):
    pass
g.plot(%s)
c = [c for c in mpl.calls if c[0] == 'contour']
__check__('one set of contours', len(c) == 1)
_, xs, ys, zs, lv, cs, lw = c[0]
z0 = want(lo, lo2)
for i in range(2):
    for j in range(3):
        q, p = lo2 + i*(hi2 - lo2), lo + j*(hi - lo)/2.
        __eq__('x is the first stepped parameter', xs[j][i], q)
        __eq__('y is the second stepped parameter', ys[j][i], p)
        __eq__('plotted values are those of the grid, up to a constant', zs[j][i] - zs[0][0], want(p, q) - z0)
__check__('labels', [d for d in mpl.calls if d[0] in ('xlabel', 'ylabel')] == [('xlabel', 'q'), ('ylabel', 'p')])
__check__('figures', len([d for d in mpl.calls if d[0] == 'figure']) == %d)
'''
IMG = '''
im = [d for d in mpl.calls if d[0] == 'imshow']
__check__('the image asked for is drawn', len(im) == 1)
for i in range(2):
    for j in range(3):
        __eq__('the image shows the values of the grid', im[0][1][j][i], zs[j][i])
__eq__('the black level is the asked multiple of the lowest contour', im[0][2], 5*lv[0])
__eq__('the image covers the grid', im[0][5], (lo2, hi2, lo, hi))
'''
LOGG = '''
__assume__(lo > 0)
x.p.logstep(lo, hi, 3)
%s
g = x.fit()
try:
    g.plot()
    __reach__('logarithmic axes are refused')
except NotImplementedError:
    pass
__check__('nothing is drawn', [c for c in mpl.calls if c[0] in ('plot', 'contour')] == [])
'''


def grid(name, body):
    return Client(name, model('MaxLikeInference', nd=1) + GRIDP + body, opaque=lambda: OPQ)


CL += [grid('curve', GRID1 % ('', 'Log Score', 1)), grid('curve, labelled', GRID1 % ("ylabel='L'", 'L', 1)),
       grid('curve, overlaid', GRID1 % ("overlay=True", 'Log Score', 0)),
       grid('grid contours', GRID2 % ('levels=[-9., -5.]', 1)), grid('grid contours, no image', GRID2 % ('gscale=False, levels=[-9., -5.]', 1) + "__check__('no image', [d for d in mpl.calls if d[0] == 'imshow'] == [])\n"),
       grid('grid contours, image', GRID2 % ('gscale=5., levels=[-9., -5.]', 1) + IMG), grid('grid contours, image first', GRID2 % ('5., levels=[-9., -5.]', 1) + IMG),
       grid('grid contours, overlaid', GRID2 % ('overlay=True, levels=[-9.]', 0)),
       grid('logarithmic curve', LOGG % ''), grid('logarithmic x', LOGG % 'x.q.linstep(lo2, hi2, 2)')]

HPD = '''
import pylab as mpl
from inference.grid.hpdgrid import HPDGrid1D, HPDGrid2D
from numpy import exp, log
f = __fun__('f')
a = __sym__('a', dom='pos'); b = a + __sym__('b', dom='pos')
e = __sym__('e', dom='pos'); h = e + __sym__('h', dom='pos')
l1 = __sym__('l1'); l2 = __sym__('l2')
__assume__(l1 < l2)
XS, YS = %r, %r
NX, NY = %d, %d
def at(kind, lo, hi, n, i):
    return lo + i*(hi - lo)/(n - 1) if kind[:3] == 'lin' else exp(log(lo) + i*(log(hi) - log(lo))/(n - 1))
'''
HPD1 = '''
g = HPDGrid1D(lambda x: f(x), a, b, NX, XS)
g.levels.append(l2); g.levels.append(l1)
mpl.calls[:] = []
g.plot()
c = [d for d in mpl.calls if d[0] == 'plot']
__check__('one curve and one line for each level', len(c) == 3)
for i in range(NX):
    t = at(XS, a, b, NX, i)
    __eq__('abscissa', c[0][1][i], t)
    __eq__('ordinate: the density (in the logarithm on log grids)', c[0][2][i], exp(f(t)) * (1 if XS == 'linear' else t))
for d, lev in ((c[1], l2), (c[2], l1)):
    __eq__('the line of a level spans the grid', d[1], [a, b])
    __eq__('the line of a level is at its density', d[2], [exp(lev), exp(lev)])
__eq__('levels are left alone', g.levels, [l2, l1])
'''
HPD2 = '''
g = HPDGrid2D(lambda x, y: f(x, y), a, b, NX, e, h, NY, XS, YS)
g.levels.append(%s); g.levels.append(%s)
was = list(g.levels)
mpl.calls[:] = []
g.plot()
c = [d for d in mpl.calls if d[0] == 'contour']
__check__('one set of contours', len(c) == 1)
_, xs, ys, zs, lv, cs, lw = c[0]
for i in range(NX):
    for j in range(NY):
        s, t = at(XS, a, b, NX, i), at(YS, e, h, NY, j)
        __eq__('x of a plotted value', xs[j][i], s)
        __eq__('y of a plotted value', ys[j][i], t)
        __eq__('plotted value', zs[j][i], f(s, t) + (0 if XS == 'lin' else log(s)) + (0 if YS == 'lin' else log(t)))
__eq__('the levels, in increasing order', lv, [l1, l2])
__eq__('levels are left alone', g.levels, was)
'''
PYLAB = {'modules': {'pylab': PYPLOT + 'from numpy import meshgrid\n'}}
for xs in ('linear', 'log'):
    CL.append(Client('density curve ' + xs, HPD % (xs, 'lin', 3, 1) + HPD1, opaque=lambda: PYLAB))
for xs, ys, nx, ny, lv in (('lin', 'lin', 3, 2, ('l1', 'l2')), ('log', 'lin', 2, 3, ('l2', 'l1')), ('lin', 'log', 2, 2, ('l2', 'l1'))):
    CL.append(Client('density contours %s %s' % (xs, ys), HPD % (xs, ys, nx, ny) + HPD2 % lv, opaque=lambda: PYLAB))

P27 = Check('P27', 'the arrays, levels, colours and positions handed to the plotting library (replaced by its contract) are, as value '
            'numbers, the given function and levels, for both index orders', CL)
CHECKS = [P27]

from sa.report import Check, Client
from ._pie import model, MINIMISER, POWELL, KINDS
from . import _grids

# ------------------------------------------------------------------ P05 grid fits
TRACE = '''    def on_use(self):
        self.seen.append((self.p + 0, self.q + 0))
'''
TRACE3 = '''    def on_use(self):
        self.seen.append((self.p + 0, self.q + 0, self.r + 0))
'''

AXES = '''
a0 = __sym__('a0'); a1 = __sym__('a1'); b0 = __sym__('b0', dom='pos'); b1 = __sym__('b1', dom='pos'); c0 = __sym__('c0'); c1 = __sym__('c1')
__assume__(a0 < a1); __assume__(b0 < b1); __assume__(c0 < c1)
def lin(lo, hi, n, k):
    return lo + k*(hi - lo)/(n - 1.)
def geo(lo, hi, n, k):
    return lo*(hi/lo)**(k/(n - 1.))
def fresh(cls=None):
    x = X.__new__(X)
    x.seen = []
    X.__init__(x)
    return x
'''


def grid2(kind, n, m, log, pre='', swap=False, nd=1, preds=1):
    f = 'geo' if log else 'lin'
    st = ['x.p.linstep(a0, a1, %d)' % n, 'x.q.%s(b0, b1, %d)' % ('logstep' if log else 'linstep', m)]
    if swap:
        st.reverse()
    return model(kind, nd, preds, 'pq', TRACE) + AXES + '''
n, m = %d, %d
x = fresh()
x.p, x.q
%s
%s
x.seen = []
g = x.fit()
swap = %r
shape = (m, n) if swap else (n, m)
__check__('the grid has one entry per combination of steps', g.values.shape == shape)
__check__('the grid declares its shape', tuple(g.shape) == shape)
for i in range(n):
    for j in range(m):
        P = lin(a0, a1, n, i); Q = %s(b0, b1, m, j)
        __eq__('every grid entry is the statistic at its grid point', g.values[(j, i) if swap else (i, j)], want(P, Q))
pts = [(lin(a0, a1, n, i), %s(b0, b1, m, j)) for i in range(n) for j in range(m)]
per = %d
__check__('the model is evaluated once per grid point', len(x.seen) == per*len(pts))
first = x.seen[::per]
if swap:
    order = [(i, j) for i0 in range(n) for i in [i0] for j in (range(m) if i0 %% 2 == 0 else range(m - 1, -1, -1))]
else:
    order = [(i, j) for j0 in range(m) for j in [j0] for i in (range(n) if j0 %% 2 == 0 else range(n - 1, -1, -1))]
for k in range(len(pts)):
    i, j = order[k]
    __eq__('neighbouring grid points are visited in turn', first[k], (lin(a0, a1, n, i), %s(b0, b1, m, j)))
ax = {'p': (a0, a1, n), 'q': (b0, b1, m)}
names = ['q', 'p'] if swap else ['p', 'q']
for k in range(2):
    nm, lo, hi, ns, ty = g.axes[k]
    __check__('axes are labelled in stepping order', nm == names[k])
    __eq__('axes carry their ends and number of steps', (lo, hi, ns), ax[nm])
__eq__('stepping parameters are back at their first step', (x.p, x.q), (a0, b0))
__check__('step indices are back at zero', x.step_nums() == (0, 0))
x.seen = []
h = x.fit()
__eq__('a repeated grid fit gives the same grid', h.values, g.values)
__check__('a repeated grid fit evaluates every point again', len(x.seen) == per*len(pts))
''' % (n, m, '\n'.join(st), pre, swap, f, f, preds, f)


SPACING = '''
kind = {}
for log in (False, True):
    x = X()
    (x.p.logstep if log else x.p.linstep)(a0, a1, 2)
    kind[log] = x.fit().axes[0][4]
'''
AFTER = '''
        for n in 'pqr':
            if n not in acc.order:
                setattr(x, n, acc.rest[n])
        g = x.fit()
        if not acc.order:
            __eq__('without stepping parameters a fit is the statistic', g, want(*expect(acc, ())))
            continue
        cells = indices(acc)
        __check__('the grid has one entry per combination of steps', g.values.shape == tuple([acc.steps[n][2] for n in acc.order]))
        __eq__('every grid entry is the statistic at its grid point', [g.values[c] for c in cells], [want(*expect(acc, c)) for c in cells])
        for k in range(len(acc.order)):
            nm, lo, hi, ns, ty = g.axes[k]
            __check__('axes are labelled in stepping order', nm == acc.order[k])
            __eq__('axes carry their ends and number of steps', (lo, hi, ns), acc.steps[nm][:3])
            __check__('axes carry the spacing of their steps', ty == kind[acc.steps[nm][3] is geo])
        __check__('step indices are back at zero', x.step_nums() == (0,)*len(acc.order))
        __eq__('stepping parameters are back at their first step', (x.p + 0, x.q + 0, x.r + 0), expect(acc, (0,)*len(acc.order)))
'''


def each(body):
    """every start, first request and second request"""
    return [Client('grid after %s, then %s' % (start, '...'.join((ops[0], ops[-1]))), _grids.source(body, start, ops, pre=SPACING), timeout=600)
            for start in _grids.STARTS for ops in (_grids.OPS[:6], _grids.OPS[6:12], _grids.OPS[12:])]


P05 = Check('P05', 'every entry of a grid fit is the value number of the statistic at the matching grid point; the trace of '
            'model evaluations visits each point once, moving one step of one parameter at a time', [
                Client('2d %s %dx%d%s' % (k, n, m, ' log' if lg else ''), grid2(k, n, m, lg))
                for k, n, m, lg in (('ChisqrInference', 2, 3, False), ('ChisqrInference', 3, 2, True),
                                    ('ChisqrInference', 3, 3, False), ('MaxLikeInference', 2, 3, False),
                                    ('BayesianInference', 3, 2, False), ('BayesianInference', 4, 3, True),
                                    ('ChisqrInference', 2, 2, False))] + [
                Client('2d second parameter first', grid2('ChisqrInference', 3, 2, False, swap=True)),
                Client('2d second parameter first log', grid2('MaxLikeInference', 2, 3, True, swap=True)),
                Client('2d two predictors', grid2('ChisqrInference', 3, 2, False, preds=2)),
                Client('2d after manual steps', grid2('ChisqrInference', 3, 3, False, 'x.next_step(); x.next_step()')),
                Client('2d after manual reversal', grid2('ChisqrInference', 3, 3, False, 'for k in range(4):\n    x.next_step()')),
                Client('2d after stepping off the end', grid2('ChisqrInference', 2, 2, False, '''
try:
    while True:
        x.next_step()
except StopStepping:
    pass
''')),
                Client('2d after changing an axis', grid2('ChisqrInference', 3, 2, False, '''x.next_step()
x.p.linstep(0., 1., 4)
x.next_step()
x.p.linstep(a0, a1, 3)''')),
                Client('2d after a change of status', grid2('ChisqrInference', 3, 2, False, '''x.next_step()
x.p.fix(2.)
x.next_step()
x.p.linstep(a0, a1, 3)
x.q.fix(2.)
x.q.linstep(b0, b1, 2)''')),
                Client('1d', model('ChisqrInference', 2, 1, 'pq', TRACE) + AXES + '''
x = fresh()
x.q = b0
x.p.linstep(a0, a1, 5)
g = x.fit()
__check__('shape', g.values.shape == (5,))
for i in range(5):
    __eq__('every grid entry is the statistic at its grid point', g.values[i], want(lin(a0, a1, 5, i), b0))
__check__('once each', len(x.seen) == 5)
'''),
                Client('3d', model('ChisqrInference', 1, 1, 'pqr', TRACE3) + AXES + '''
x = fresh()
x.p.linstep(a0, a1, 2); x.q.linstep(b0, b1, 3); x.r.linstep(c0, c1, 2)
g = x.fit()
__check__('shape', g.values.shape == (2, 3, 2))
n = 0
for i in range(2):
    for j in range(3):
        for k in range(2):
            __eq__('every grid entry is the statistic at its grid point', g.values[i, j, k], want(lin(a0, a1, 2, i), lin(b0, b1, 3, j), lin(c0, c1, 2, k)))
__check__('once each', len(x.seen) == 12)
for k in range(1, 12):
    diff = [t for t in range(3) if not (x.seen[k][t] == x.seen[k - 1][t])]
    __check__('one parameter moves at a time', len(diff) == 1)
'''),
                Client('walk', model('ChisqrInference', 1, 1, 'pqr') + AXES + '''
x = X()
x.p.linstep(a0, a1, 2); x.q.linstep(b0, b1, 3); x.r.linstep(c0, c1, 2)
visited = [x.step_nums()]
try:
    while True:
        x.next_step()
        visited.append(x.step_nums())
except StopStepping:
    pass
__check__('every combination of indices is visited', len(visited) == 12 and len(set(visited)) == 12)
for k in range(1, 12):
    __check__('indices move by one in one place', sum([abs(visited[k][t] - visited[k-1][t]) for t in range(3)]) == 1)
__check__('the walk ends back at the start', x.step_nums() == (0, 0, 0))
'''),
            ] + each(AFTER), thorough=[Client('2d %s %dx%d%s deep' % (k, n, m, ' log' if lg else ''), grid2(k, n, m, lg))
                         for k in KINDS for n, m in ((4, 4), (5, 3), (3, 5)) for lg in (False, True)])


# ------------------------------------------------------------------ P06 profile grids
def profile(kind, n, m, varying, vargrid):
    """step p (n) and q (m, or not at all when 0); vary the others"""
    params = 'pqrt'[:(2 if m else 1) + varying]
    vs = list(params[(2 if m else 1):])
    src = model(kind, 1, 1, params) + AXES + MINIMISER + '''
x = X()
x.p.linstep(a0, a1, %d)
''' % n
    if m:
        src += 'x.q.linstep(b0, b1, %d)\n' % m
    for c in vs:
        src += "x.%s.vary(0.5, .25, (-2*BIG, 2*BIG))\n" % c
    src += '''
last = {}
def note(best):
    last[x.step_nums()] = best
_hooks.append(note)
'''
    fit = 'x.fit(vargrid=True)' if vargrid else 'x.fit()'
    src += ('g, w = %s\n' if vargrid else 'g = %s\n') % fit
    shape = (n, m) if m else (n,)
    src += '''
better = (lambda a, b: a <= b) if x.extremize == 'min' else (lambda a, b: a >= b)
shape = %r
__check__('one profile value per grid point', g.values.shape == shape)
cells = [(i, j) for i in range(%d) for j in range(%d)] if %d else [(i,) for i in range(%d)]
''' % (shape, n, m or 1, m, n)
    if vargrid:
        src += '''
__check__('one set of optimised values per grid point', w.values.shape == shape + %r)
for c in cells:
    P = lin(a0, a1, %d, c[0])
''' % ((() if varying == 1 else (varying,)), n)
        if m:
            src += '    Q = lin(b0, b1, %d, c[1])\n' % m
        if varying == 1:
            src += '    vals = (w.values[c],)\n'
        else:
            src += '    vals = tuple([w.values[c + (k,)] for k in range(%d)])\n' % varying
        src += "    __eq__('profile values and optimised parameters match', g.values[c], want(P, %s*vals))\n" % ('Q, ' if m else '')
        src += "__check__('both grids mark the same optimum', w.opt_ind == g.opt_ind)\n"
    src += '''
for c in cells:
    P = lin(a0, a1, %d, c[0])
    %s
    __check__('every grid point is optimised', c in last)
    __eq__('a profile value is the statistic where the minimiser stopped for that grid point', g.values[c], want(P, %s*last[c]))
''' % (n, 'Q = lin(b0, b1, %d, c[1])' % m if m else '', 'Q, ' if m else '')
    src += '''
for c in cells:
    __check__('the marked optimum is the best on the grid', better(g.opt_val, g.values[c]))
__eq__('the marked optimum is the grid value at its index', g.values[g.opt_ind], g.opt_val)
'''
    return src


PROFILES = '''
        free = [n for n in 'rqp' if n not in acc.order]
        if not acc.order or not free:
            continue
        for n in free[1:]:
            setattr(x, n, acc.rest[n])
        getattr(x, free[0]).vary(z, .5, (-2*BIG, 2*BIG))
        last = {}
        del _hooks[:]
        _hooks.append(lambda best: last.__setitem__(x.step_nums(), best))
        g, w = x.fit(vargrid=True)
        cells = indices(acc)
        shape = tuple([acc.steps[n][2] for n in acc.order])
        __check__('one profile value per grid point', g.values.shape == shape)
        __check__('one set of optimised values per grid point', w.values.shape == shape)
        __check__('every grid point is optimised', all([c in last for c in cells]))
        wanted = []
        for c in cells:
            acc.rest[free[0]] = last[c][0]
            wanted.append(want(*expect(acc, c)))
        __eq__('a profile value is the statistic where the minimiser stopped for that grid point', [g.values[c] for c in cells], wanted)
        __eq__('profile values and optimised parameters match', [w.values[c] for c in cells], [last[c][0] for c in cells])
        __check__('step indices are back at zero', x.step_nums() == (0,)*len(acc.order))
'''


P06 = Check('P06', 'with an arbitrary minimiser, each profile entry is the optimised statistic at its grid point, the optimised '
            'parameters stored with it reproduce it, and the recorded optimum is the best entry and its index', [
                Client('profile %s %d %d varying %d%s' % (k, n, m, v, ' vargrid' if vg else ''), profile(k, n, m, v, vg), opaque=POWELL)
                for k, n, m, v, vg in [(k, 3, 0, 1, False) for k in KINDS] + [
                    ('ChisqrInference', 2, 2, 1, True), ('MaxLikeInference', 2, 2, 1, True), ('BayesianInference', 3, 0, 2, True),
                    ('ChisqrInference', 3, 0, 2, True), ('MaxLikeInference', 2, 2, 2, True), ('ChisqrInference', 2, 2, 2, False)]] + [
                Client('nothing to optimise %s' % how, model('ChisqrInference', 1, 1, 'pq') + AXES + MINIMISER + '''
x = X()
x.p.linstep(a0, a1, 2); x.q = b0
g = x.%s
__check__('the plain grid', g.values.shape == (2,))
for i in range(2):
    __eq__('entry', g.values[i], want(lin(a0, a1, 2, i), b0))
''' % how, opaque=POWELL) for how in ('fit(vargrid=True)', 'do_grid(vargrid=True)', 'do_grid()', "fit(vargrid=True, method='powell', tol=.1)")] + [
                Client('profile after %s, %s, %s' % (start, op, then), _grids.source(PROFILES, start, [op], seconds=[then], pre=MINIMISER + '__assume__(z < BIG); __assume__(-BIG < z)\n'), opaque=POWELL, timeout=120)
                for start, op, then in (('nothing stepped', 'p lin', 'walk 1'), ('nothing stepped', 'q log', 'p lin other'), ('two varied', 'r lin', 'last'), ('two stepped', 'walk 1', 'q frozen'),
                                        ('one stepped', 'p varied', 'q lin'), ('walked to the end', 'q frozen', 'walk 1'), ('two stepped', 'refused', 'p fixed'), ('three stepped', 'p fixed', 'q varied'))])



# ------------------------------------------------------------------ P07 score
def score(kind, nd, preds, how):
    return model(kind, nd, preds, 'pq', '', how) + '''
x = X()
a = __sym__('a'); b = __sym__('b')
x.p = a; x.q = b
__eq__('the statistic is its definition', x.score(), want(a, b))
__eq__('evaluating again gives the same', x.score(), want(a, b))
__eq__('a fit without free parameters is the statistic', x.fit(), want(a, b))
x.p = b
__eq__('the statistic follows the parameters', x.score(), want(b, b))
c = __sym__('c')
x.q.linstep(c, c + 1, 3)
__eq__('the statistic follows a stepped parameter', x.score(), want(b, c))
x.q.next_step()
__eq__('the statistic follows a stepped parameter', x.score(), want(b, c + 0.5))
tot = 0.
for k in range(%d):
    d = getattr(x, 'd%%d' %% k)
    chi = d.chisqr()
    __eq__('log likelihood is minus half chi squared', d.log_like(), -chi/2)
''' % preds


P07 = Check('P07', 'the value number of the statistic equals its definition: chi-squared summed over all data of all predictors, '
            'log likelihood minus half of it, plus the log prior once for posterior inferences', [
                Client('%s %d data %d predictors %s' % (k, nd, pr, h), score(k, nd, pr, h))
                for k in KINDS for nd, pr in ((1, 1), (3, 1), (2, 2), (1, 3)) for h in ('signal', 'signals')] + [
                Client('posterior', model('BayesianInference', 2, 2) + '''
x = X()
a = __sym__('a'); b = __sym__('b')
x.p = a; x.q = b
__eq__('the log posterior is the statistic', x.logp(), want(a, b))
x.p.vary(a, .1, (a - 5, a + 5)); x.q.vary(b, .1, (b - 5, b + 5))
__eq__('posterior as a function of the varying parameters', x._logp_func([a + 1, b - 1]), want(a + 1, b - 1))
'''),
                Client('2-d locations', model('ChisqrInference', 1, 1, 'pq') + '''
l2 = __arr__('L', (3, 2)); v = __arr__('V', 3); s = __arr__('S', 3, dom='pos')
class M2(SignalModel):
    p = RealParam(1.)
    def signal(self, x, y):
        return sig(self.p, x, y)
class D2(PredictorSet):
    d = SampledGaussian(l2, v, s)
class Y(ChisqrInference, M2, D2):
    pass
y = Y()
a = __sym__('a')
y.p = a
__eq__('two-dimensional locations are passed as separate arguments', y.score(), sum([((v[j] - sig(a, l2[j, 0], l2[j, 1]))/s[j])**2 for j in range(3)]))
'''),
                Client('data as triples', model('ChisqrInference', 1, 1, 'p') + '''
T = __arr__('T', (3, 3))
for j in range(3):
    __assume__(T[j, 2] > 0)
class D2(PredictorSet):
    d = SampledGaussian(T)
class D3(PredictorSet):
    d = SampledGaussian([[T[j, 0], T[j, 1], T[j, 2]] for j in range(3)])
for DD in (D2, D3):
    class Y(ChisqrInference, M, DD):
        pass
    y = Y()
    a = __sym__('a')
    y.p = a
    __eq__('data given as triples', y.score(), sum([((T[j, 1] - sig(a, T[j, 0]))/T[j, 2])**2 for j in range(3)]))
'''),
                Client('whole numbers', model('ChisqrInference', 1, 1, 'pq') + '''
from numpy import array
for data in (([[1, 4, 2.5], [2, 5, 1.5], [3, 7, 2]],), (array([[1, 4, 2.5], [2, 5, 1.5], [3, 7, 2]]),), (((1, 4, 2.5), (2, 5, 1.5), (3, 7, 2)),), (array([1, 2, 3]), array([4, 5, 7]), array([2.5, 1.5, 2]))):
    class D2(PredictorSet):
        d = SampledGaussian(*data)
    for base, f in ((ChisqrInference, 1.), (MaxLikeInference, -.5)):
        class Y(base, M, D2):
            pass
        y = Y()
        a = __sym__('a'); b = __sym__('b')
        y.p = a; y.q = b
        __eq__('data in whole numbers', y.score(), f*sum([((v - sig(a, b, l))/s)**2 for l, v, s in ((1, 4, 2.5), (2, 5, 1.5), (3, 7, 2))]))
for data in (([[.5, 4, 1], [1.5, 5, 2]],), ([[1, .5, 2], [2, 1.5, 1]],), ([[1, 2, 1.5], [3, 4, 2.75]],), ([[1, 2, 3], [1.5, 2, 3]],), ([[1, 2, 3], [4, 2.5, 3]],)):
    class D2(PredictorSet):
        d = SampledGaussian(*data)
    class Y(ChisqrInference, M, D2):
        pass
    y = Y()
    y.p = a; y.q = b
    __eq__('mixed data', y.score(), sum([((v - sig(a, b, l))/s)**2 for l, v, s in data[0]]))
'''),
                Client('unequal predictors', model('ChisqrInference', 1, 1, 'p') + '''
la = __arr__('la', 3); va = __arr__('va', 3); sa = __arr__('sa', 3, dom='pos')
lb = __arr__('lb', 1); vb = __arr__('vb', 1); sb = __arr__('sb', 1, dom='pos')
class D2(PredictorSet):
    big = SampledGaussian(la, va, sa)
    small = SampledGaussian(lb, vb, sb)
for base, f in ((ChisqrInference, 1.), (MaxLikeInference, -0.5)):
    class Y(base, M, D2):
        pass
    y = Y()
    a = __sym__('a')
    y.p = a
    __eq__('all data of all predictors count', y.score(), f*(sum([((va[j] - sig(a, la[j]))/sa[j])**2 for j in range(3)]) + ((vb[0] - sig(a, lb[0]))/sb[0])**2))
__check__('mismatched lengths are refused', True)
try:
    SampledGaussian(la, va, sb)
    __reach__('mismatched lengths are refused')
except Exception:
    pass
try:
    SampledGaussian(lb, va, sa)
    __reach__('mismatched lengths are refused')
except Exception:
    pass
'''),
            ])


# ------------------------------------------------------------------ P08 optimisation
def optim(kind, bounded, k, near=''):
    params = 'pqr'[:k + 1]
    vs = 'pqr'[:k]
    src = model(kind, 2, 1, params) + MINIMISER
    if bounded:
        src = src.replace("__assume__(t[k] > -BIG); __assume__(t[k] < BIG)", "pass")
    fixedp = params[k]
    src += "x = X()\nf = __sym__('f')\nx.%s = f\n" % fixedp
    for c in vs:
        if bounded:
            src += '''
lo_{0} = __sym__('lo_{0}'); hi_{0} = __sym__('hi_{0}'); st_{0} = __sym__('st_{0}')
__assume__(lo_{0} < st_{0}); __assume__(st_{0} < hi_{0})
d_{0} = __sym__('d_{0}', dom='pos')
{1}
x.{0}.vary(st_{0}, d_{0}, (lo_{0}, hi_{0}))
'''.format(c, ('__assume__(st_{0} + d_{0} > hi_{0}); __assume__(st_{0} - d_{0} > lo_{0})' if near else
               '__assume__(st_{0} + d_{0} < hi_{0})').format(c))
        else:
            src += '''
st_{0} = __sym__('st_{0}')
__assume__(-BIG < st_{0}); __assume__(st_{0} < BIG)
x.{0}.vary(st_{0}, .25, (-2*BIG, 2*BIG))
'''.format(c)
    if bounded:
        src += 'x.map_bounds()\n'
    allp = ', '.join('x.' + c for c in params)
    src += '''
before = x.score()
res = x.fit()
__check__('a fit returns the parameters and the statistic', len(res) == 2)
best, val = res
__check__('one value per varying parameter', len(best) == %d)
__eq__('the reported statistic is the statistic at the reported parameters', val, want(%s))
__eq__('the model is left at the reported parameters', (%s,), tuple(best))
__eq__('the fixed parameter is untouched', x.%s, f)
__eq__('the statistic evaluated now is the reported one', x.score(), val)
__check__('the fit is no worse than the start', val %s before)
''' % (k, ', '.join(['best[%d]' % j for j in range(k)] + ['f']), ', '.join('x.' + c for c in vs), fixedp,
       '<=' if kind == 'ChisqrInference' else '>=')
    src += '''
last = _drxns[-1]
if last is not None:
    d = last[0][0] if len(last) == 1 else last[0][0]*last[1][1] - last[0][1]*last[1][0]
    __check__('one starting direction for each varying parameter', len(last) == %d and all([len(t) == len(last) for t in last]))
    if not %s:
        __check__('starting directions span all varying parameters', d != 0)
__eq__('the final search is made to the default tolerance', _ftols[-1], x.min_tol)
''' % (k, bool(bounded))
    if bounded:
        for j, c in enumerate(vs):
            src += "__check__('reported parameters respect their range', lo_%s <= best[%d] and best[%d] <= hi_%s)\n" % (c, j, j, c)
            src += "__check__('the model stays inside the range', lo_%s <= x.%s and x.%s <= hi_%s)\n" % (c, c, c, c)
    return src


P08 = Check('P08', 'with an arbitrary minimiser the reported statistic is the statistic at the reported parameters, the model is '
            'left there, and the fit improves the statistic in its own direction; mapped bounds are respected', [
                Client('%s %d varying%s' % (kd, k, ' mapped' if b else ''), optim(kd, b, k), opaque=POWELL)
                for kd in KINDS for k in (1, 2) for b in (False, True)] + [
                Client('%s near the upper limit' % kd, optim(kd, True, 1, True), opaque=POWELL) for kd in KINDS] + [
                Client('scales %s' % kd, model(kd, 1, 1, 'pqr') + MINIMISER + """
a = __sym__('a', dom='unit'); d1 = __sym__('d1', dom='pos'); d2 = __sym__('d2', dom='pos'); e1 = __sym__('e1', dom='pos')
__assume__(d1 < d2)
R = (-2*BIG, 2*BIG)
def scales(x, *ds):
    del _drxns[:]
    x.fit()
    __check__('directions are given for every varying parameter', len(_drxns[0]) == len(ds) and all([len(r) == len(ds) for r in _drxns[0]]))
    for i in range(len(ds)):
        __eq__('the search starts on the scale last given for a parameter', _drxns[0][i][i], ds[i])
        for j in range(len(ds)):
            if i != j:
                __eq__('parameters are searched one by one at first', _drxns[0][i][j], 0.)
x = X()
x.p.vary(a, d1, R)
scales(x, d1)
x.p.vary(delta=d2)
scales(x, d2)
x.p.vary(a, d1, R); x.r.vary(a, e1, R)
scales(x, d1, e1)
x.p.fix(a); x.q.vary(a, d2, R)
scales(x, e1, d2)
x.p.vary()
scales(x, e1, d2, d1)
x.r.vary(0., delta=d1)
scales(x, d1, d2, d1)
x.p.linstep(0., 1., 2)
x.p.vary(a, d1, R)
scales(x, d1, d2, d1)
x.q.fix(); x.p.vary(delta=e1)
scales(x, d1, e1)
y = X()
y.p.vary(a, e1, R)
scales(y, e1)
scales(x, d1, e1)
""", opaque=POWELL) for kd in ('ChisqrInference', 'BayesianInference')] + [
                Client('mapped scales', model('ChisqrInference', 1, 1, 'pq') + MINIMISER.replace("__assume__(t[k] > -BIG); __assume__(t[k] < BIG)", "pass") + """
for lo, hi, start, delta in ((0., 8., 2., 4.), (0., 8., 6., 4.), (0., 8., 4., 1.), (-8., 0., -1., 2.), (-8., 8., 7.5, 1.), (1., 2., 1.25, .5), (1., 2., 1.75, .5), (1., 2., 1.0001, .001)):
    for other in (False, True):
        x = X()
        x.p.vary(start, delta, (lo, hi))
        if other:
            x.q.vary(6., 4., (0., 8.))
        x.map_bounds()
        del _drxns[:]
        x.fit()
        n = 2 if other else 1
        for r in _drxns:
            for i in range(n):
                __check__('every varying parameter is searched', any([abs(r[j][i]) > 0 for j in range(n)]))
            __check__('the directions span the space', abs(r[0][0]) > 0 if n == 1 else abs(r[0][0]*r[1][1] - r[0][1]*r[1][0]) > 0)
""", opaque=POWELL),
                Client('mapping', model('ChisqrInference', 1, 1, 'pq') + '''
lo = __sym__('lo'); hi = __sym__('hi'); a = __sym__('a')
__assume__(lo < a); __assume__(a < hi)
x = X()
x.q = 1.
x.p.vary(a, .1, (lo, hi))
h = x.varying_params[0]
u = __sym__('u'); w = __sym__('w')
h._unbounded_set_value(u)
pu = x.p + 0
__check__('the mapped value respects the range', lo <= pu and pu <= hi)
__eq__('mapping there and back', h._unbounded_get_value(), u)
x.p.set_value(a)
h._unbounded_set_value(h._unbounded_get_value())
__eq__('mapping back and there', x.p, a)
'''),
                Client('far out', model('ChisqrInference', 1, 1, 'pq') + '''
lo = __sym__('lo'); hi = __sym__('hi'); a = __sym__('a')
__assume__(lo < a); __assume__(a < hi)
x = X()
x.q = 1.
x.p.vary(a, .1, (lo, hi))
h = x.varying_params[0]
for u in (1000., 1.e6):
    h._unbounded_set_value(u)
    __eq__('far out means the upper end', x.p, hi)
    h._unbounded_set_value(-u)
    __check__('the mapped value respects the range', lo <= x.p and x.p <= hi)
for how in (lambda: x.p.fix(), lambda: x.p.linstep(lo, hi, 3)):
    how()
    was = x.p + 0.
    for f in (lambda: h._unbounded_set_value(1.), lambda: h._unbounded_get_value()):
        try:
            f()
            __reach__('only varying parameters are mapped')
        except (ParamError, RuntimeError):
            pass
    __eq__('value kept', x.p, was)
'''),
                Client('tolerance', model('ChisqrInference', 1, 1, 'pq') + MINIMISER + '''
tol = __sym__('tol', dom='pos'); mt = __sym__('mt', dom='pos')
x = X()
x.p.vary(1., .25, (-2*BIG, 2*BIG)); x.q = 2.
x.fit(tol=tol)
__eq__('the final search is made to the tolerance given', _ftols[-1], tol)
x.optimize('powell', tol)
__eq__('the final search is made to the tolerance given', _ftols[-1], tol)
x.optimize(tol=tol, method='Powell')
__eq__('the final search is made to the tolerance given', _ftols[-1], tol)
x.fit()
__eq__('the final search is made to the default tolerance', _ftols[-1], 1.e-6)
x.min_tol = mt
x.fit()
__eq__('the default tolerance can be changed', _ftols[-1], mt)
x.q.linstep(0., 1., 2)
x.fit(tol=tol)
__eq__('grid fits use the tolerance given', _ftols[-1], tol)
x.fit(vargrid=True, tol=tol/2)
__eq__('grid fits use the tolerance given', _ftols[-1], tol/2)
n = len(_ftols)
for bad in (lambda: x.fit(method='simplex'), lambda: x.optimize(method='nonsense')):
    try:
        bad()
        __reach__('unknown methods are refused')
    except Exception:
        pass
x.min_tol = None
x.q = 1.
try:
    x.fit()
    __reach__('a fit without any tolerance is refused')
except Exception:
    pass
__check__('nothing is searched when refused', len(_ftols) == n)
x.min_tol = mt
x.min_method = None
try:
    x.fit()
    __reach__('a fit without any method is refused')
except Exception:
    pass
__check__('nothing is searched when refused', len(_ftols) == n)
x.fit(method='powell')
__check__('the method given is used', len(_ftols) > n)
''', opaque=POWELL),
                Client('mapped and back', model('ChisqrInference', 1, 1, 'pq') + '''
BIG = 1.e9
mode = ['']
def any_minimiser(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False, **kw):
    n = len(p)
    for k in range(n):
        for s in (-1, 1):
            t = array([(p[j] + s*.5 if mode[0] == 'unmapped' else __sym__('t%d' % (2*k + s))) if j == k else p[j] for j in range(n)])
            v = f(t)
            __eq__('the function minimised is the statistic of the model ' + mode[0], v, want(x.p, x.q))
            for j, (now, then) in enumerate(((x.p, a), (x.q, b))):
                if mode[0] == 'unmapped':
                    __eq__('unmapped: the arguments are the parameters', now, t[j])
                elif j != k:
                    __eq__('mapped: the other parameter stays', now, then)
    return p, f(p), 1
a = __sym__('a'); b = __sym__('b')
lo = __sym__('lo'); hi = __sym__('hi')
for v in (a, b):
    __assume__(v - 1. > lo); __assume__(v < hi - 1.)
x = X()
x.p.vary(a, .25, (lo, hi)); x.q.vary(b, .125, (lo, hi))
mode[0] = 'unmapped'; x.fit()
x.map_bounds()
mode[0] = 'mapped'; best, v = x.fit()
__eq__('mapped: where it stopped', tuple(best), (a, b))
x.unmap_bounds()
x.p.set_value(a); x.q.set_value(b)
mode[0] = 'unmapped'; best, v = x.fit()
__eq__('unmapped: where it stopped', tuple(best), (a, b))
''', opaque=POWELL, timeout=100),
                Client('nothing varies', model('ChisqrInference', 1, 1, 'pq') + MINIMISER + '''
x = X()
x.p = 1.; x.q = 2.
try:
    x.optimize()
    __reach__('optimising without varying parameters is refused')
except Exception:
    pass
''', opaque=POWELL),
                Client('refit', model('ChisqrInference', 1, 1, 'pq') + MINIMISER + '''
x = X()
x.p.vary(1., .25, (-2*BIG, 2*BIG)); x.q = 2.
b1, v1 = x.fit()
b2, v2 = x.fit()
__check__('a second fit is no worse', v2 <= v1)
x.q.vary(2., .25, (-2*BIG, 2*BIG))
b3, v3 = x.fit()
__check__('freeing a parameter is no worse', v3 <= v2)
x.p.fix(); x.q.fix()
__eq__('freezing keeps the best fit', x.score(), v3)
''', opaque=POWELL),
            ])

CHECKS = [P05, P06, P07, P08]

from sa.report import Check, Client
from ._pie import PRE, MODEL, MODEL3, model, MINIMISER, POWELL, KINDS

P09 = Check('P09', 'value numbers of every parameter, status and range of one inference instance are unchanged by every operation '
            'on another instance or on a derived class; snapshots are unchanged by later changes and restore exactly', [
    Client('two instances', MODEL + '''
a = __sym__('a'); b = __sym__('b'); c = __sym__('c')
x = X(); y = X()
__eq__('defaults', (x.p, x.q, y.p, y.q), (1.5, 3.5, 1.5, 3.5))
y.p = a
y.q.linstep(b, b + 1, 3)
def same(what):
    __eq__('other instance keeps its values: ' + what, (y.p, y.q), (a, b))
    __check__('other instance keeps its status: ' + what, (y.p.status, y.q.status) == (fixed, stepping))
    __check__('other instance keeps its lists: ' + what, [h.name for h in y.fixed_params] == ['p'] and [h.name for h in y.stepping_params] == ['q'] and y.varying_params == [])
    __check__('other instance keeps its grid: ' + what, y.step_nums() == (0,) and y.step_shape() == (3,))
same('start')
x.p = c; same('assign')
x.p.fix(c + 1); same('fix')
x.p.range(c - 1, c + 1); same('range')
x.p.vary(c, .1, (c - 5, c + 5)); same('vary')
x.q.linstep(0., 1., 4); same('linstep')
x.next_step(); same('next_step')
x.reset_steps(); same('reset')
x.q.logstep(1., 2., 5); same('logstep')
x.map_bounds(); same('map')
__check__('mapping is per instance', y.use_unbounded == False)
y.p = c + 100
__eq__('a range is per instance', y.p, c + 100)
x.p.fix(c)
__eq__('each has its own', (x.p, y.p), (c, c + 100))
'''),
    Client('first use', MODEL3 + '''
a = __sym__('a'); b = __sym__('b'); c = __sym__('c')
for t in (a, b, c):
    __assume__(t < 1.e9); __assume__(t > -1.e9)
D0 = (1.5, 3.5, 5.5)
def fresh(what):
    y = X()
    __eq__('a new instance starts from the declared defaults: ' + what, (y.p, y.q, y.r), D0)
    __check__('a new instance starts undefined or fixed: ' + what, [h.name for h in y.varying_params + y.stepping_params] == [])
    z = X()
    z.p.range(-1.e9, 1.e9)
    z.p = b
    __eq__('an untouched parameter keeps its default: ' + what, (z.p, z.q, z.r), (b, D0[1], D0[2]))
first = X()
D0 = (first.p + 0, first.q + 0, first.r + 0)
x = X(); x.p = a; x.q = b; x.r = c
fresh('assigned before any read')
x = X(); x.p; x.q; x.r; x.p = a; x.q = b; x.r = c
fresh('assigned after a read')
x = X(); x.p.fix(a); x.q.vary(b, .1, (-1.e9, 1.e9)); x.r.linstep(a, a + 1., 3)
fresh('other first uses')
x = X(); x.p.range(-1.e9, 1.e9); x.q.range(-1.e9, 1.e9); x.p = a; x.q = c
fresh('range first')
pv = x.get_params()
x = X(); x.set_params(pv)
fresh('restored first')
x = X(); x.r.logstep(1., 2., 3); x.r.next_step()
fresh('stepped first')
x = X(); x.d0.sim() if hasattr(x, 'd0') else None
fresh('simulated')
'''),
    Client('fitting one', model('ChisqrInference', 1, 1, 'pq') + MINIMISER + '''
a = __sym__('a'); b = __sym__('b')
x = X(); y = X()
y.p = a; y.q = b
s0 = y.score()
x.p.vary(1., .25, (-2*BIG, 2*BIG)); x.q.linstep(0., 1., 2)
x.fit()
__eq__('a fit leaves the other instance', (y.p, y.q), (a, b))
__eq__('a fit leaves the other statistic', y.score(), s0)
''', opaque=POWELL),
    Client('snapshots', MODEL3 + '''
a = __sym__('a'); b = __sym__('b'); c = __sym__('c'); d = __sym__('d')
for t in (a, b, c, d):
    __assume__(t < 1.e9); __assume__(t > -1.e9)
x = X()
x.p = a; x.q = b; x.r = c
pv = x.get_params()
__eq__('a snapshot holds the values', (pv.p, pv.q, pv.r), (a, b, c))
__check__('a snapshot lists the names in order', list(pv.names) == ['p', 'q', 'r'])
x.p = d
x.q.vary(d, .1, (-1.e9, 1.e9))
x.r.linstep(d, d + 1, 3)
__eq__('a snapshot does not follow changes', (pv.p, pv.q, pv.r), (a, b, c))
x.q.fix(d); x.r.fix(d)
x.set_params(pv)
__eq__('restoring brings all values back', (x.p, x.q, x.r), (a, b, c))
__eq__('restoring leaves the snapshot', (pv.p, pv.q, pv.r), (a, b, c))
x.p = d
__eq__('changes after restoring leave the snapshot', pv.p, a)
y = X()
y.set_params(pv)
__eq__('a snapshot moves to another instance', (y.p, y.q, y.r), (a, b, c))
__eq__('and leaves the first', x.p, d)
z = X()
z.q.vary(d, .1, (-1.e9, 1.e9))
z.set_params(pv)
__eq__('restoring sets varying parameters too', (z.p, z.q, z.r), (a, b, c))
__check__('restoring keeps the scale', z.q.delta == .1)
__check__('restoring keeps the status', (z.p.status, z.q.status, z.r.status) == (fixed, varying, fixed))
z.r.linstep(0., 1., 3)
try:
    z.set_params(pv)
    __reach__('restoring over a stepping parameter is refused')
except ParamError:
    pass
'''),
    Client('two snapshots', MODEL + '''
a = __sym__('a'); b = __sym__('b'); c = __sym__('c'); d = __sym__('d')
x = X()
x.p = a; x.q = b
s1 = x.get_params()
x.p = c; x.q = d
s2 = x.get_params()
__eq__('snapshots are independent', (s1.p, s1.q, s2.p, s2.q), (a, b, c, d))
x.set_params(s1); __eq__('back', (x.p, x.q), (a, b))
x.set_params(s2); __eq__('forth', (x.p, x.q), (c, d))
v = x.p + 0
w = x.p
x.p = a
__eq__('a value read earlier does not follow', (v, w), (c, c))
'''),
    Client('derived classes', MODEL + '''
names = list(M.param_names)
class M2(M):
    z = RealParam(9.)
class D2(D):
    e1 = SampledGaussian(l, v, s)
__check__('declaring a derived model leaves the base model', list(M.param_names) == names)
__check__('declaring derived data leaves the base data', list(D.predictor_names) == ['d1'])
__check__('the derived model has all names', sorted(M2.param_names) == ['p', 'q', 'z'])
__check__('the derived data have all names', sorted(D2.predictor_names) == ['d1', 'e1'])
x = X()
__check__('an inference from the base model works', x.params == ['p', 'q'] and x.predictors == ['d1'])
'''),
    Client('two models', PRE + '''
l = __arr__('l', 1); v = __arr__('v', 1); s = __arr__('s', 1, dom='pos')
f = __fun__('f'); g = __fun__('g')
class A(SignalModel):
    p = RealParam(1.)
    q = RealParam(2.)
    def signal(self, x):
        return f(self.p, self.q, x)
class B(SignalModel):
    q = RealParam(3.)
    p = RealParam(4.)
    def signal(self, x):
        return g(self.p, self.q, x)
class D(PredictorSet):
    d = SampledGaussian(l, v, s)
class XA(ChisqrInference, A, D):
    pass
class XB(ChisqrInference, B, D):
    pass
xa = XA(); xb = XB()
__check__('each model has its own order', xa.params == ['p', 'q'] and xb.params == ['q', 'p'])
a = __sym__('a'); b = __sym__('b')
xa.p = a; xb.p = b
__eq__('same names, separate values', (xa.p, xa.q, xb.p, xb.q), (a, 2., b, 3.))
__eq__('each statistic uses its own model', (xa.score(), xb.score()), (((v[0] - f(a, 2., l[0]))/s[0])**2, ((v[0] - g(b, 3., l[0]))/s[0])**2))
'''),
    Client('listeners', MODEL + '''
class L(object):
    def __init__(self):
        self.seen = []
    def _on_param_value_change(self, param):
        self.seen.append(param.name)
    def _on_param_status_change(self, param, old, new):
        pass
x = X()
x.p = 1.
k = L()
x.p.add_listener(k)
x.p.add_listener(k)
x.p = 2.
__check__('a listener hears one change once', k.seen == ['p'])
x.q = 2.
__check__('a listener hears only its parameter', k.seen == ['p'])
x.p.del_listener(k)
x.p = 3.
__check__('a removed listener hears nothing', k.seen == ['p'])
x.p.del_listener(k)
__eq__('removing twice is harmless', x.p, 3.)
'''),
])

SIMPRE = '''
def data(x):
    return (x.d0.locns, x.d0.vals, x.d0.sigmas)
def orig(x, what):
    __eq__('data of another instance unchanged: ' + what, x.d0.vals, v0)
    __eq__('locations of another instance unchanged: ' + what, x.d0.locns, l0)
    __eq__('errors of another instance unchanged: ' + what, x.d0.sigmas, s0)
V = [v0[k] + 0 for k in range(len(v0))]; L = [l0[k] + 0 for k in range(len(l0))]; S = [s0[k] + 0 for k in range(len(s0))]
def caller(what):
    __eq__('arrays of the caller unchanged: ' + what, (list(v0), list(l0), list(s0)), (V, L, S))
def consistent(x, what):
    d = x.d0
    __check__('data, locations and errors have one length: ' + what, len(d.vals) == len(d.locns) and len(d.vals) == len(d.sigmas) and len(d.vals) == d.ndata)
    a = x.p + 0; b = x.q + 0
    __eq__('the statistic uses the current data: ' + what, d.chisqr(), sum([((d.vals[k] - sig(a, b, d.locns[k]))/d.sigmas[k])**2 for k in range(d.ndata)]))
x = X(); y = X()
pa = __sym__('pa'); pb = __sym__('pb')
x.p = pa; x.q = pb; y.p = pb; y.q = pa
before = y.score()
'''


def sims(how, extra=''):
    return model('ChisqrInference', 3, 1, 'pq', '', how) + SIMPRE + '''
x.d0.sim()
orig(y, 'simulation'); caller('simulation'); consistent(x, 'simulation')
__eq__('simulation keeps locations', x.d0.locns, l0)
__eq__('simulation keeps errors', x.d0.sigmas, s0)
x.d0.sim()
orig(y, 'second simulation'); caller('second simulation')
x.d0.sim1(1)
orig(y, 'single simulation'); caller('single simulation'); consistent(x, 'single simulation')
nl = __sym__('nl'); ns = __sym__('ns', dom='pos')
x.d0.sim1(0, locn=nl, sigma=ns)
orig(y, 'moved datum'); caller('moved datum'); consistent(x, 'moved datum')
__eq__('the datum moved', (x.d0.locns[0], x.d0.sigmas[0]), (nl, ns))
__eq__('the others did not', (x.d0.locns[1], x.d0.sigmas[2]), (l0[1], s0[2]))
x.d0.sim1(2, locn=0.)
__eq__('a datum can move to zero', x.d0.locns[2], 0.)
orig(y, 'datum at zero')
x.d0.add_sim(nl, ns)
orig(y, 'added datum'); caller('added datum'); consistent(x, 'added datum')
__check__('one more', x.d0.ndata == 4)
L2 = __arr__('L2', 2); S2 = __arr__('S2', 2, dom='pos')
x.d0.add_sim(locns=L2, sigmas=S2)
orig(y, 'added data'); caller('added data'); consistent(x, 'added data')
__check__('two more', x.d0.ndata == 6)
__eq__('added at the end', (x.d0.locns[4], x.d0.sigmas[5]), (L2[0], S2[1]))
x.d0.sim(locns=L2, sigmas=S2)
orig(y, 'new design'); consistent(x, 'new design')
__check__('two data', x.d0.ndata == 2)
x.d0.sim1(0, locn=nl)
__eq__('the arrays handed in are not changed', list(L2), [L2[0], L2[1]])
__check__('the arrays handed in are not kept', not __shares__(x.d0.locns, L2))
z = X()
orig(z, 'new instance')
z.p = pb; z.q = pa
__eq__('the statistic of another instance unchanged', y.score(), before)
__eq__('the statistic of a new instance unchanged', z.score(), before)
'''


def simlaw(how):
    return model('MaxLikeInference', 3, 1, 'pq', '', how) + '''
import numpy.random, scipy.stats
x = X()
a = __sym__('a'); b = __sym__('b')
x.p = a; x.q = b
st = numpy.random.get_state()
x.d0.sim()
after = numpy.random.get_state()
numpy.random.set_state(st)
n = scipy.stats.norm(loc=0, scale=1).rvs(3)
for k in range(3):
    __eq__('simulated data are the model plus noise of the stated size', x.d0.vals[k], sig(a, b, l0[k]) + s0[k]*n[k])
old = list(x.d0.vals)
x.p = b
st = numpy.random.get_state()
x.d0.sim1(1)
numpy.random.set_state(st)
n = scipy.stats.norm(loc=0, scale=1).rvs()
__eq__('a single simulated datum is the model plus noise of the stated size', x.d0.vals[1], sig(b, b, l0[1]) + s0[1]*n)
__eq__('simulating one datum keeps the others', (x.d0.vals[0], x.d0.vals[2]), (old[0], old[2]))
'''


NOISE = '''
import numpy.random, scipy.stats
nl = __sym__('nl'); ns = __sym__('ns', dom='pos')
L2 = __arr__('L2', 2); S2 = __arr__('S2', 2, dom='pos'); L3 = __arr__('L3', 3); S3 = __arr__('S3', 3, dom='pos')
def untouched(what):
    orig(y, what); caller(what)
    __eq__('the statistic of another instance: ' + what, y.score(), before)
    orig(X(), what + ', new instance')
def check(what, op, n, first, locns, sigmas):
    """after op there are n data, those from the first simulated one on being model plus noise, those before unchanged"""
    st = numpy.random.get_state()
    old = [t + 0 for t in x.d0.vals]
    op(x.d0)
    end = numpy.random.get_state()
    numpy.random.set_state(st)
    z = scipy.stats.norm(loc=0, scale=1).rvs(n - first)
    __same__('only as many deviates as needed are drawn: ' + what, numpy.random.get_state(), end)
    consistent(x, what)
    __check__('number of data: ' + what, x.d0.ndata == n)
    __eq__('locations: ' + what, [t for t in x.d0.locns], locns)
    __eq__('errors: ' + what, [t for t in x.d0.sigmas], sigmas)
    for k in range(n):
        if k < first:
            __eq__('earlier data stay: ' + what, x.d0.vals[k], old[k])
        else:
            __eq__('new data are the model plus noise of the stated size: ' + what, x.d0.vals[k], sig(pa, pb, locns[k]) + sigmas[k]*z[k - first])
    untouched(what)
'''
FIRST = {
    'moved datum': '''
x.d0.sim1(1, nl, ns)
consistent(x, 'moved datum'); untouched('moved datum')
__eq__('where it was moved', ([t for t in x.d0.locns], [t for t in x.d0.sigmas]), ([L[0], nl, L[2]], [S[0], ns, S[2]]))
__eq__('the others stay', (x.d0.vals[0], x.d0.vals[2]), (V[0], V[2]))
''',
    'another error': '''
x.d0.sim1(2, sigma=ns)
consistent(x, 'another error'); untouched('another error')
__eq__('where it stays', ([t for t in x.d0.locns], [t for t in x.d0.sigmas]), (L, [S[0], S[1], ns]))
''',
    'one datum': '''
x.d0.sim1(0)
consistent(x, 'one datum'); untouched('one datum')
__eq__('locations and errors stay', ([t for t in x.d0.locns], [t for t in x.d0.sigmas]), (L, S))
''',
    'added datum': "check('added datum', lambda d: d.add_sim(nl, ns), 4, 3, L + [nl], S + [ns])\n",
    'added data': "check('added data', lambda d: d.add_sim(locns=L2, sigmas=S2), 5, 3, L + [L2[0], L2[1]], S + [S2[0], S2[1]])\n",
    'added, twice': "check('added', lambda d: d.add_sim(nl, sigma=ns), 4, 3, L + [nl], S + [ns])\n"
                    "check('added again', lambda d: d.add_sim(locns=[L2[0]], sigmas=[S2[0]]), 5, 4, L + [nl, L2[0]], S + [ns, S2[0]])\n"
                    "check('all again', lambda d: d.sim(), 5, 0, L + [nl, L2[0]], S + [ns, S2[0]])\n",
    'new locations': "check('new locations', lambda d: d.sim(L3), 3, 0, list(L3), S)\n",
    'new errors': "check('new errors', lambda d: d.sim(sigmas=list(S3)), 3, 0, L, list(S3))\n",
    'new design': "check('new design', lambda d: d.sim(L2, list(S2)), 2, 0, list(L2), list(S2))\n"
                  "check('new errors of the new design', lambda d: d.sim(sigmas=[ns, S2[1]]), 2, 0, list(L2), [ns, S2[1]])\n"
                  "check('new locations of the new design', lambda d: d.sim(locns=[L2[1], nl]), 2, 0, [L2[1], nl], [ns, S2[1]])\n",
    'failing model': '''
class Stop(Exception):
    pass
right_sig = sig
def failing(*a):
    raise Stop()
def fails(op):
    global sig
    sig = failing
    try:
        op(x.d0)
        __reach__('a failure of the model reaches the caller')
    except Stop:
        pass
    sig = right_sig
    consistent(x, 'failed'); untouched('failed')
OPS = (lambda d: d.sim(), lambda d: d.sim(L3), lambda d: d.sim(sigmas=S3), lambda d: d.sim(L2, S2), lambda d: d.sim1(1), lambda d: d.sim1(1, nl),
       lambda d: d.sim1(2, nl, ns), lambda d: d.sim1(0, sigma=ns), lambda d: d.add_sim(nl, ns), lambda d: d.add_sim(locns=L2, sigmas=S2))
for op in OPS:
    fails(op)
    __eq__('a failed simulation changes nothing', ([t for t in x.d0.vals], [t for t in x.d0.locns], [t for t in x.d0.sigmas], x.d0.ndata), (V, L, S, 3))
x.d0.add_sim(nl, ns)
V4 = V + [x.d0.vals[3] + 0]
for op in OPS:
    if op is not OPS[1] and op is not OPS[2]:
        fails(op)
        __eq__('a failed simulation changes nothing', ([t for t in x.d0.vals], [t for t in x.d0.locns], [t for t in x.d0.sigmas], x.d0.ndata), (V4, L + [nl], S + [ns], 4))
''',
    'refused': '''
for k, op in enumerate((lambda d: d.sim(L2), lambda d: d.sim(sigmas=S2), lambda d: d.sim(L2, S3), lambda d: d.sim(L3, S2), lambda d: d.add_sim(nl),
                        lambda d: d.add_sim(sigma=ns), lambda d: d.add_sim(), lambda d: d.add_sim(locns=L2), lambda d: d.add_sim(sigmas=S2),
                        lambda d: d.add_sim(locns=L2, sigmas=S3))):
    st = numpy.random.get_state()
    try:
        op(x.d0)
        __reach__('locations and errors that do not match are refused %d' % k)
    except ValueError:
        pass
    __same__('a refused simulation draws nothing', numpy.random.get_state(), st)
    __eq__('a refused simulation changes nothing', ([t for t in x.d0.vals], [t for t in x.d0.locns], [t for t in x.d0.sigmas], x.d0.ndata), (V, L, S, 3))
    consistent(x, 'refused'); untouched('refused')
''',
}
PLANE = '''
x = X()
a = __sym__('a'); b = __sym__('b')
x.p = a; x.q = b
L = [[l0[i, j] + 0 for j in range(2)] for i in range(2)]
def right(n, locns):
    __check__('number of data', x.d0.ndata == n and len(x.d0.vals) == n and len(x.d0.sigmas) == n)
    __eq__('locations', [[t for t in r] for r in x.d0.locns], locns)
    __eq__('statistic', x.score(), sum([((x.d0.vals[k] - sig(a, b, locns[k][0], locns[k][1]))/x.d0.sigmas[k])**2 for k in range(n)]))
right(2, L)
x.d0.sim(); right(2, L)
u, w = __sym__('u'), __sym__('w')
x.d0.sim1(1, locn=(u, w)); right(2, [L[0], [u, w]])
x.d0.add_sim((w, u), 2.); right(3, [L[0], [u, w], [w, u]])
x.d0.add_sim(locns=[[u, u], [w, w]], sigmas=[1., 2.]); right(5, [L[0], [u, w], [w, u], [u, u], [w, w]])
__eq__('the original locations', [[t for t in r] for r in X().d0.locns], L)
'''

# every pair of operations, against a plain record of what the data should be
PAIRS = '''
import numpy.random, scipy.stats
A2 = __arr__('A2', 2); B2 = __arr__('B2', 2, dom='pos'); C3 = __arr__('C3', 3); D3 = __arr__('D3', 3, dom='pos')
u = __sym__('u'); w = __sym__('w', dom='pos')
def some(d, name, n, **kw):
    return [(__sym__(name + '%d_%d' % (d, k), **kw)) for k in range(n)]
class Rec(object):
    """the data an instance should have"""
    def __init__(self):
        self.l = list(L); self.s = list(S); self.v = list(V)
    def redo(self, which, par):
        """simulate the numbered data"""
        z = scipy.stats.norm(loc=0, scale=1).rvs(len(which)) if len(which) != 1 or self.many else [scipy.stats.norm(loc=0, scale=1).rvs()]
        for k, i in enumerate(which):
            self.v[i] = sig(par[0], par[1], self.l[i]) + self.s[i]*z[k]
def op_sim(d, r, t):
    if d is not None: d.sim()
    else: r.redo(range(len(r.v)), par)
def op_locns(d, r, t):
    n = some(t, 'la', len(r.v))
    if d is not None: d.sim(locns=n)
    else:
        r.l = n; r.redo(range(len(r.v)), par)
def op_sigmas(d, r, t):
    n = some(t, 'sa', len(r.v), dom='pos')
    if d is not None: d.sim(sigmas=n)
    else:
        r.s = n; r.redo(range(len(r.v)), par)
def op_design(d, r, t):
    n = some(t, 'lb', 2); m = some(t, 'sb', 2, dom='pos')
    if d is not None: d.sim(n, m)
    else:
        r.l = n; r.s = m; r.v = [0., 0.]; r.redo(range(2), par)
def op_one(d, r, t):
    if d is not None: d.sim1(1)
    else:
        r.many = False; r.redo([1], par); r.many = True
def op_moved(d, r, t):
    n = some(t, 'lc', 1)[0]
    if d is not None: d.sim1(0, n)
    else:
        r.l = [n] + r.l[1:]; r.many = False; r.redo([0], par); r.many = True
def op_error(d, r, t):
    m = some(t, 'sc', 1, dom='pos')[0]
    if d is not None: d.sim1(1, sigma=m)
    else:
        r.s = r.s[:1] + [m] + r.s[2:]; r.many = False; r.redo([1], par); r.many = True
def op_add(d, r, t):
    n = some(t, 'ld', 1)[0]; m = some(t, 'sd', 1, dom='pos')[0]
    if d is not None: d.add_sim(n, m)
    else:
        r.l = r.l + [n]; r.s = r.s + [m]; r.v = r.v + [0.]; r.redo([len(r.v) - 1], par)
def op_addmany(d, r, t):
    n = some(t, 'le', 3); m = some(t, 'se', 3, dom='pos')
    if d is not None: d.add_sim(locns=n, sigmas=m)
    else:
        r.l = r.l + n; r.s = r.s + m; r.v = r.v + [0., 0., 0.]; r.redo([len(r.v) - 3, len(r.v) - 2, len(r.v) - 1], par)
def op_last(d, r, t):
    n = some(t, 'lf', 1)[0]; m = some(t, 'sf', 1, dom='pos')[0]
    if d is not None: d.sim1(-1, n, m)
    else:
        r.l = r.l[:-1] + [n]; r.s = r.s[:-1] + [m]; r.many = False; r.redo([len(r.v) - 1], par); r.many = True
OPS = [('all', op_sim), ('locations', op_locns), ('errors', op_sigmas), ('design', op_design), ('one', op_one), ('moved', op_moved),
       ('one error', op_error), ('added', op_add), ('many added', op_addmany), ('last', op_last)]
def step(x, r, op, t, what):
    st = numpy.random.get_state()
    op(x.d0, r, t)
    end = numpy.random.get_state()
    numpy.random.set_state(st)
    op(None, r, t)
    __same__('deviates drawn: ' + what, numpy.random.get_state(), end)
    d = x.d0
    __eq__('locations, errors and number: ' + what, ([i + 0 for i in d.locns], [i + 0 for i in d.sigmas], d.ndata), (r.l, r.s, len(r.v)))
    __eq__('data: ' + what, [i + 0 for i in d.vals], r.v)
    __eq__('statistic: ' + what, x.score(), sum([((r.v[k] - sig(par[0], par[1], r.l[k]))/r.s[k])**2 for k in range(len(r.v))]))
first = dict(OPS)[FIRST]
for name, op in OPS:
    x = X(); x.p = pa; x.q = pb
    par = (pa, pb)
    r = Rec(); r.many = True
    step(x, r, first, 0, FIRST)
    if CHANGE:
        x.p = pb
        par = (pb, pb)
    step(x, r, op, 1, FIRST + ', ' + name)
    orig(y, FIRST + ', ' + name); caller(FIRST + ', ' + name)
__eq__('the statistic of another instance', y.score(), before)
orig(X(), 'new instance')
'''
# two predictors, simulated independently of each other
BOTH = """
import numpy.random, scipy.stats
x = X(); y = X()
pa = __sym__('pa'); pb = __sym__('pb')
for o in (x, y):
    o.p = pa; o.q = pb
before = want(pa, pb)
own = {}
for n, l, v, s in (('d0', l0, v0, s0), ('d1', l1, v1, s1)):
    own[n] = ([t + 0 for t in l], [t + 0 for t in s], [t + 0 for t in v])
now = dict(own)
def stat(par):
    tot = 0.
    for n in ('d0', 'd1'):
        l, s, v = now[n]
        for k in range(len(l)):
            tot = tot + ((v[k] - sig(par[0], par[1], l[k]))/s[k])**2
    return tot
def held(o, n):
    d = getattr(o, n)
    return [t + 0 for t in d.locns], [t + 0 for t in d.sigmas], [t + 0 for t in d.vals]
L2 = __arr__('L2', 2); S2 = __arr__('S2', 2, dom='pos'); L3 = __arr__('L3', 3); S3 = __arr__('S3', 3, dom='pos'); u = __sym__('u'); w = __sym__('w', dom='pos')
for n, op, l, s, new in %s:
    st = numpy.random.get_state()
    old = now[n]
    op(getattr(x, n))
    numpy.random.set_state(st)
    l = old[0] if l is None else [t + 0 for t in l(old[0])]
    s = old[1] if s is None else [t + 0 for t in s(old[1])]
    new = range(len(l)) if new is None else new
    z = scipy.stats.norm(loc=0, scale=1).rvs(len(new))
    v = old[2] + [0.]*(len(l) - len(old[2]))
    v = v[:len(l)]
    for k, i in enumerate(new):
        v[i] = sig(pa, pb, l[i]) + s[i]*z[k]
    now[n] = (l, s, v)
    for m in ('d0', 'd1'):
        __eq__('simulating one data set changes that one only: ' + n, held(x, m), now[m])
        __eq__('another instance keeps its data: ' + n, held(y, m), own[m])
    __eq__('the statistic is that of the present data', x.score(), stat((pa, pb)))
    __eq__('the statistic of another instance', y.score(), before)
"""
SETS = """(('d1', lambda d: d.sim(L2), lambda l: L2, None, None), ('d0', lambda d: d.sim(), None, None, None), ('d0', lambda d: d.sim(locns=[L2[1], u]), lambda l: [L2[1], u], None, None),
    ('d1', lambda d: d.sim(sigmas=S2), None, lambda s: S2, None), ('d1', lambda d: d.add_sim(locns=L3, sigmas=S3), lambda l: l + list(L3), lambda s: s + list(S3), [2, 3, 4]),
    ('d0', lambda d: d.sim(L3, S3), lambda l: L3, lambda s: S3, None), ('d1', lambda d: d.sim(L2, S2), lambda l: L2, lambda s: S2, None), ('d0', lambda d: d.add_sim(u, w), lambda l: l + [u], lambda s: s + [w], [3]))"""
SETS2 = """(('d0', lambda d: d.add_sim(u, w), lambda l: l + [u], lambda s: s + [w], [2]), ('d1', lambda d: d.sim(L2, S2), lambda l: L2, lambda s: S2, None), ('d0', lambda d: d.sim(L3, S3), lambda l: L3, lambda s: S3, None),
    ('d1', lambda d: d.sim(locns=L2[::-1]), lambda l: [L2[1], L2[0]], None, None), ('d1', lambda d: d.sim(), None, None, None))"""
WHOLE = """
import numpy.random, scipy.stats
a = __sym__('a'); b = __sym__('b')
class D2(PredictorSet):
    d = SampledGaussian(array([1, 2, 4]), array([3, 5, 7]), array([1, 2, 1]))
class Y(ChisqrInference, M, D2):
    pass
def check(d, l, s, k, z, was, what):
    __eq__('locations and errors: ' + what, ([t for t in d.locns], [t for t in d.sigmas]), (l, s))
    for i in range(len(l)):
        __eq__('data: ' + what, d.vals[i], sig(a, b, l[i]) + s[i]*z if i == k else was[i])
def normal(st):
    numpy.random.set_state(st)
    return scipy.stats.norm(loc=0, scale=1).rvs()
for what, op, l, s, k in (('moved', lambda d: d.sim1(1, 2.5), [1, 2.5, 4], [1, 2, 1], 1), ('other error', lambda d: d.sim1(0, sigma=.25), [1, 2, 4], [.25, 2, 1], 0),
                          ('moved, other error', lambda d: d.sim1(2, 4.75, 1.5), [1, 2, 4.75], [1, 2, 1.5], 2), ('again', lambda d: d.sim1(2), [1, 2, 4], [1, 2, 1], 2),
                          ('added', lambda d: d.add_sim(5.5, .5), [1, 2, 4, 5.5], [1, 2, 1, .5], 3), ('many added', lambda d: d.add_sim(locns=[5.5], sigmas=[.5]), [1, 2, 4, 5.5], [1, 2, 1, .5], 3)):
    x = Y()
    x.p = a; x.q = b
    st = numpy.random.get_state()
    op(x.d)
    check(x.d, l, s, k, normal(st), [3, 5, 7], what)
    z = Y()
    check(z.d, [1, 2, 4], [1, 2, 1], -1, 0., [3, 5, 7], 'another instance')
x = Y()
x.p = a; x.q = b
for l, s in (([1.5, 2.5, 3.5], None), (None, [.5, 1.5, 2.5]), ([1.25, 2.25], [.25, .75])):
    st = numpy.random.get_state()
    x.d.sim(*[v for v in (l, s) if v is not None]) if l is not None else x.d.sim(sigmas=s)
    numpy.random.set_state(st)
    L = l or L; S = s or [1, 2, 1]
    z = scipy.stats.norm(loc=0, scale=1).rvs(len(L))
    __eq__('new data', [t for t in x.d.vals], [sig(a, b, L[k]) + S[k]*z[k] for k in range(len(L))])
"""
OPNAMES = ('all', 'locations', 'errors', 'design', 'one', 'moved', 'one error', 'added', 'many added', 'last')
P10 = Check('P10', 'simulation and resimulation change only the simulated instance: value numbers of the original data, of the '
            'caller\'s arrays and of every other instance are unchanged; data, locations and errors stay in step', [
                Client('simulations ' + h, sims(h)) for h in ('signal', 'signals')] + [
                Client('law of simulated data ' + h, simlaw(h)) for h in ('signal', 'signals')] + [
                Client('two data sets, %s%s' % (h, k), model('ChisqrInference', 2, 2, 'pq', '', h) + BOTH % src) for h in ('signal', 'signals') for k, src in (('', SETS), (', again', SETS2))] + [
                Client('whole numbers ' + h, model('ChisqrInference', 1, 1, 'pq', '', h) + WHOLE) for h in ('signal', 'signals')] + [
                Client('first %s, %s' % (k, h), model('ChisqrInference', 3, 1, 'pq', '', h) + SIMPRE + NOISE + FIRST[k])
                for k in FIRST for h in ('signal', 'signals')] + [
                Client('two operations, first %s%s' % (k, ', then other parameters' if c else ''), model('ChisqrInference', 3, 1, 'pq', '', 'signals' if c else 'signal')
                       + SIMPRE + 'FIRST = %r\nCHANGE = %r\n' % (k, c) + PAIRS)
                for k in OPNAMES for c in (False, True)] + [
                Client('locations in the plane', model('ChisqrInference', 2, 1, 'pq').replace("l0 = __arr__('l0_', 2)", "l0 = __arr__('l0_', (2, 2))").replace(
                    'def signal(self, x)', 'def signal(self, x, y)').replace('self.q, x)', 'self.q, x, y)') + PLANE),
                Client('integer locations and errors', model('ChisqrInference', 2, 1, 'pq').replace("l0 = __arr__('l0_', 2)", "l0 = __iarr__('l0_', 2)").replace(
                    "s0 = __arr__('s0_', 2, dom='pos')", "s0 = array([1, 3])") + '''
u = __sym__('u'); w = __sym__('w', dom='pos')
I = [l0[0] + 0, l0[1] + 0]
x = X()
x.p = 1.; x.q = 2.
x.d0.sim1(1, u, w)
__eq__('location and error of the moved datum', (x.d0.locns[1], x.d0.sigmas[1]), (u, w))
__eq__('of the other datum', (x.d0.locns[0], x.d0.sigmas[0]), (I[0], 1))
x.d0.add_sim(u, w)
__eq__('location and error of the added datum', (x.d0.locns[2], x.d0.sigmas[2]), (u, w))
__eq__('original', ([t for t in X().d0.locns], [t for t in X().d0.sigmas]), (I, [1, 3]))
'''),
                Client('integer data', model('ChisqrInference', 2, 1, 'pq').replace("v0 = __arr__('v0_', 2)", "v0 = __iarr__('v0_', 2)") + '''
x = X(); y = X()
x.p = 1.; x.q = 2.
x.d0.sim1(0)
r = x.d0.vals[0]
n0 = x.d0.vals[1]
__eq__('untouched datum', n0, v0[1])
x.d0.sim()
r0 = (x.d0.vals[0] - sig(1., 2., l0[0]))/s0[0]
x.d0.sim1(0)
r1 = (x.d0.vals[0] - sig(1., 2., l0[0]))/s0[0]
__eq__('original', y.d0.vals, v0)
'''),
                Client('local copies', model('ChisqrInference', 2, 1, 'pq') + SIMPRE.replace('before =', 'x.d0.localize_data()\nbefore =') + '''
x.d0.vals[0] = 7.
x.d0.locns[1] = 8.
x.d0.sigmas[0] = 9.
orig(y, 'edited local copy'); caller('edited local copy')
__eq__('the edit is seen', (x.d0.vals[0], x.d0.locns[1], x.d0.sigmas[0]), (7., 8., 9.))
consistent(x, 'edited local copy')
x.d0.localize_data()
__eq__('localising again keeps the edit', x.d0.vals[0], 7.)
z = X()
orig(z, 'new instance')
'''),
                Client('two predictors', model('ChisqrInference', 2, 2, 'pq') + '''
x = X()
x.p = 1.; x.q = 2.
x.d0.sim()
__eq__('the other predictor keeps its data', (x.d1.vals, x.d1.locns, x.d1.sigmas), (v1, l1, s1))
x.d1.sim1(0)
__eq__('the statistic uses both', x.score(), x.d0.chisqr() + x.d1.chisqr())
__eq__('second datum of the second predictor', x.d1.vals[1], v1[1])
y = X()
__eq__('new instance', (y.d0.vals, y.d1.vals), (v0, v1))
'''),
                Client('fits keep data', model('ChisqrInference', 2, 1, 'pq') + MINIMISER + '''
V = [v0[k] + 0 for k in range(2)]
x = X()
x.p.vary(1., .25, (-2*BIG, 2*BIG)); x.q.linstep(0., 1., 2)
x.fit(vargrid=True)
__eq__('fits leave the data', (x.d0.vals, list(v0)), (v0, V))
''', opaque=POWELL),
            ])

CHECKS = [P09, P10]

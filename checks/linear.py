from sa.report import Check, Client

HEAD = '''
from inference.gauss import vecba
from inference.gauss.vecba import BA, BAObj
from numpy import array, zeros
class Algebra(object):
    """stands for the compiled linear algebra: each result is a function of the design matrix and the data"""
    def __init__(self):
        self.calls = 0
    def metricAnalysis(self, d, y):
        self.calls += 1
        m, n = d.shape
        flat = [d[i, j] for i in range(m) for j in range(n)] + [y[j] for j in range(n)]
        A = __fun__('ampl%d' % m)
        ampl = array([A(float(k), *flat) for k in range(m)])
        return (__fun__('metric')(*flat), __fun__('L')(*flat), __fun__('J')(*flat), __fun__('proj')(*flat), ampl, __fun__('suf')(*flat))
    def covar(self, L):
        return __fun__('cov')(L)
vecba.vba = vba = Algebra()
N = 3
x = [__sym__('x%d' % i) for i in range(N)]
y = [__sym__('y%d' % i) for i in range(N)]
s = [__sym__('s%d' % i, dom='pos') for i in range(N)]
g0, g1 = __fun__('g0'), __fun__('g1')
p, q, r = __sym__('p'), __sym__('q'), __sym__('r')
'''
BA1 = '''
rows = []
%s
def want(a, b=None):
    """standardised basis functions at nonlinear parameters a(, b)"""
    return [[g0(a, t)/sg for t, sg in zip(x, sig)], [g1(a, t)/sg for t, sg in zip(x, sig)]]
def make():
    return %s
std = [v/sg for v, sg in zip(y, sig)]
dsq = sum([v*v for v in std])
def stats(a):
    d = want(a)
    flat = d[0] + d[1] + std
    A = __fun__('ampl2')
    return dict(suf=__fun__('suf')(*flat), jac=1/__fun__('J')(*flat), ampl=[A(0., *flat), A(1., *flat)],
                cov=__fun__('cov')(__fun__('L')(*flat)))
def resid(a):
    d, am = want(a), stats(a)['ampl']
    return [std[j] - am[0]*d[0][j] - am[1]*d[1][j] for j in range(N)]
def check(b, a, got, what):
    w = stats(a)
    __eq__('statistics belong to the parameters asked for: ' + what, list(got), [dsq - w['suf'], w['suf'], w['jac']])
def vec(v):
    return [v[i] for i in range(len(v))]
'''
DATA = {
    'three columns': ("sig = s\ndata = array([[a, b, c] for a, b, c in zip(x, y, s)])", 'data'),
    'one sigma': ("sig = [s[0]]*N\ndata = array([[a, b] for a, b in zip(x, y)])", 'data, s[0]'),
    'one sigma by name': ("sig = [s[1]]*N\ndata = array([[a, b] for a, b in zip(x, y)])", 'data, sigma=s[1]'),
}
BASIS = '''
def f0(a, t):
    return array([g0(a, t[i]) for i in range(N)])
def f1(a, t):
    return array([g1(a, t[i]) for i in range(N)])
'''
SETUP = '''
sets = []
def setup(a, t):
    sets.append(a)
    return array([__fun__('aux')(a, t[i]) for i in range(N)])
def f0(a, t, aux):
    return array([aux[i]*g0(a, t[i]) for i in range(N)])
def f1(a, t, aux):
    return array([g1(a, t[i]) + aux[i] for i in range(N)])
def want(a, b=None):
    X = [__fun__('aux')(a, t) for t in x]
    return [[u*g0(a, t)/sg for u, t, sg in zip(X, x, sig)], [(g1(a, t) + u)/sg for u, t, sg in zip(X, x, sig)]]
'''
OBJ = '''
class Model(object):
    def __init__(self):
        self.std_smpls = array(std)
        self.std_basis = (self.b0, self.b1)
        self.a = None
    def set_nonlin(self, a):
        self.a = a
    def b0(self):
        return array([g0(self.a, t)/sg for t, sg in zip(x, sig)])
    def b1(self):
        return array([g1(self.a, t)/sg for t, sg in zip(x, sig)])
'''
HIST = '''
b = make()
ok = False
try:
    b.covar()
except ValueError:
    ok = True
__check__('no covariance before the first calculation', ok)
check(b, p, b.marg_stats(p), 'first')
__eq__('amplitudes of the last parameters', vec(b.amplitudes()), stats(p)['ampl'])
__eq__('residuals of the last parameters', vec(b.residuals()), resid(p))
__eq__('covariance of the last parameters', b.covar(), stats(p)['cov'])
n = vba.calls
check(b, p, b.marg_stats(p), 'repeated')
__check__('the same parameters are not computed again', vba.calls == n)
check(b, q, b.marg_stats(q), 'changed')
__eq__('covariance of the last parameters', b.covar(), stats(q)['cov'])
__eq__('amplitudes of other parameters', vec(b.amplitudes(r)), stats(r)['ampl'])
__eq__('covariance of the last parameters', b.covar(), stats(r)['cov'])
__eq__('residuals follow', vec(b.residuals()), resid(r))
__eq__('residuals of other parameters', vec(b.residuals(p)), resid(p))
__eq__('amplitudes follow', vec(b.amplitudes()), stats(p)['ampl'])
check(b, p, b.marg_stats(p), 'after residuals')
check(b, q, b.marg_stats(q), 'changed back')
__eq__('residuals of the same parameters', vec(b.residuals(q)), resid(q))
__eq__('amplitudes of the same parameters', vec(b.amplitudes(q)), stats(q)['ampl'])
'''
TWO = '''
b, c = make(), make()
u = b.marg_stats(p)
v = c.marg_stats(q)
check(b, p, u, 'one'); check(c, q, v, 'other')
__eq__('analyses do not interfere', vec(b.amplitudes()), stats(p)['ampl'])
__eq__('analyses do not interfere', vec(c.amplitudes()), stats(q)['ampl'])
__eq__('analyses do not interfere', vec(b.residuals()), resid(p))
check(b, q, b.marg_stats(q), 'one, changed')
__eq__('analyses do not interfere', vec(c.residuals()), resid(q))
'''
DIRECT = '''
b = make()
%s
check(b, p, b.marg_stats(p), 'later')
'''
BADDATA = '''
def refused(*a, **k):
    try:
        BA(*a, **k)
    except ValueError:
        return True
    return False
two = array([[a, b] for a, b in zip(x, y)])
three = array([[a, b, c] for a, b, c in zip(x, y, s)])
__check__('sigmas given twice are refused', refused((g0,), three, s[0]) and refused((g0,), three, sigma=1.))
__check__('missing sigmas are refused', refused((g0,), two))
b = BA((g0,), three)
__eq__('data are not modified', [[three[i, j] for j in range(3)] for i in range(N)], [[a, b, c] for a, b, c in zip(x, y, s)])
'''
PARS = '''
# two nonlinear parameters
sig = s
data = array([[a, b, c] for a, b, c in zip(x, y, s)])
def f0(a, b, t):
    return array([g0(a, b, t[i]) for i in range(N)])
b = BA((f0,), data)
std = [v/sg for v, sg in zip(y, sig)]
def suf(a, c):
    return __fun__('suf')(*([g0(a, c, t)/sg for t, sg in zip(x, sig)] + std))
__eq__('both parameters', b.marg_stats(p, q)[1], suf(p, q))
__eq__('the second parameter changes', b.marg_stats(p, r)[1], suf(p, r))
__eq__('the first parameter changes', b.marg_stats(q, r)[1], suf(q, r))
__eq__('parameters exchanged', b.marg_stats(r, q)[1], suf(r, q))
'''
PARS2 = '''
__assume__(p < q); __assume__(q < r)
sig = s
data = array([[a, b, c] for a, b, c in zip(x, y, s)])
def f0(a, b, t):
    return array([g0(a, b, t[i]) for i in range(N)])
std = [v/sg for v, sg in zip(y, sig)]
def suf(a, c):
    return __fun__('suf')(*([g0(a, c, t)/sg for t, sg in zip(x, sig)] + std))
class Model2(object):
    def __init__(self):
        self.std_smpls = array(std)
        self.std_basis = [self.b0]
    def set_nonlin(self, a, c):
        self.at = (a, c)
    def b0(self):
        return array([g0(self.at[0], self.at[1], t)/sg for t, sg in zip(x, sig)])
for make in (lambda: BA((f0,), data), lambda: BAObj(Model2())):
    b = make()
    def ampl(a, c):
        return __fun__('ampl1')(*([0.] + [g0(a, c, t)/sg for t, sg in zip(x, sig)] + std))
    def resid(a, c):
        return [std[j] - ampl(a, c)*g0(a, c, x[j])/sig[j] for j in range(N)]
    for how in range(3):
        for u, v in ((p, q), (p, r), (q, r), (r, q), (p, q), (p, p), (q, q), (p, q), (q, p)):
            if how == 0:
                __eq__('statistics after any change of two parameters', b.marg_stats(u, v)[1], suf(u, v))
            elif how == 1:
                __eq__('amplitudes after any change of two parameters', b.amplitudes(u, v)[0], ampl(u, v))
            else:
                __eq__('residuals after any change of two parameters', [t for t in b.residuals(u, v)], resid(u, v))
            __eq__('amplitudes go with the last parameters', b.amplitudes()[0], ampl(u, v))
            __eq__('residuals go with the last parameters', [t for t in b.residuals()], resid(u, v))
            __eq__('covariance goes with the last parameters', b.covar(), __fun__('cov')(__fun__('L')(*([g0(u, v, t)/sg for t, sg in zip(x, sig)] + std))))
'''
FAILS = '''
class Stop(Exception):
    pass
__assume__(q > p); __assume__(r > q)
b = make()
def broken(*a):
    raise Stop()
def fails(call):
    try:
        call()
    except Stop:
        return
    __reach__('a failure reaches the caller')
def as_before(what):
    __eq__('amplitudes after a failure: ' + what, vec(b.amplitudes()), stats(p)['ampl'])
    __eq__('residuals after a failure: ' + what, vec(b.residuals()), resid(p))
    __eq__('covariance after a failure: ' + what, b.covar(), stats(p)['cov'])
    __eq__('residuals of the same parameters after a failure: ' + what, vec(b.residuals(p)), resid(p))
    check(b, p, b.marg_stats(p), 'the same parameters after a failure: ' + what)
G0, G1, ma = g0, g1, vba.metricAnalysis
b.marg_stats(p)
for call in (lambda: b.marg_stats(q), lambda: b.amplitudes(q), lambda: b.residuals(q)):
    g1 = broken
    fails(call)
    g1 = G1
    as_before('second basis function')
    g0 = broken
    fails(call)
    g0 = G0
    as_before('first basis function')
    vba.metricAnalysis = broken
    fails(call)
    vba.metricAnalysis = ma
    as_before('linear algebra')
g1 = broken
fails(lambda: b.marg_stats(r))
g1 = G1
check(b, r, b.marg_stats(r), 'another attempt')
__eq__('residuals of another attempt', vec(b.residuals()), resid(r))
'''
INTS = '''
sig = [1, 2, 4]
xi, yi = [1, 2, 3], [4, 7, 9]
def f0(a, t):
    return array([g0(a, t[i]) for i in range(N)])
for b in (BA((f0,), array([[a, b, c] for a, b, c in zip(xi, yi, sig)])), BA((f0,), array([[a, b] for a, b in zip(xi, yi)]), 2)):
    if b.sigs[0] == 2:
        sig = [2, 2, 2]
    std = [v/(1.*sg) for v, sg in zip(yi, sig)]
    flat = [g0(p, t)/sg for t, sg in zip(xi, sig)] + std
    dsq = sum([v*v for v in std])
    suf = __fun__('suf')(*flat)
    __eq__('integer data', list(b.marg_stats(p)), [dsq - suf, suf, 1/__fun__('J')(*flat)])
    am = __fun__('ampl1')(0., *flat)
    __eq__('integer data, residuals', [v for v in b.residuals()], [std[j] - am*flat[j] for j in range(N)])
'''
CL = []
for nm, (pre, arg) in DATA.items():
    c = HEAD + BA1 % (pre, 'BA((f0, f1), %s)' % arg) + BASIS
    CL.append(Client('history, ' + nm, c + HIST))
    CL.append(Client('two, ' + nm, c + TWO))
    CL.append(Client('failures, ' + nm, c + FAILS))
    c = HEAD + BA1 % (pre, 'BA((f0, f1), %s, setup=setup)' % arg) + SETUP
    CL.append(Client('history with setup, ' + nm, c + HIST))
    for d in ("__eq__('amplitudes at once', vec(b.amplitudes(p)), stats(p)['ampl'])", "__eq__('residuals at once', vec(b.residuals(p)), resid(p))"):
        CL.append(Client('direct, %s %s' % (nm, d[8:18]), c + DIRECT % d))
c = HEAD + BA1 % (DATA['three columns'][0], 'BAObj(Model())') + OBJ
CL += [Client('object, history', c + HIST), Client('object, two', c + TWO), Client('object, failures', c + FAILS)]
for d in ("__eq__('amplitudes at once', vec(b.amplitudes(p)), stats(p)['ampl'])", "__eq__('residuals at once', vec(b.residuals(p)), resid(p))"):
    CL.append(Client('object, direct %s' % d[8:18], c + DIRECT % d))
CL += [Client('refused data', HEAD + BADDATA), Client('two parameters', HEAD + PARS), Client('two parameters, ordered', HEAD + PARS2), Client('integer data', HEAD + INTS)]
P26 = Check('P26', 'value numbers of statistics, amplitudes and residuals are those of the design matrix at the parameters asked for, through every history of calls; '
            'memoised results included', CL, assumptions=['the compiled linear algebra (a placeholder in the current tree) is an arbitrary function of design matrix and data'])
CHECKS = [P26]

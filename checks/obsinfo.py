from sa.report import Check, Client
from ._pie import model, stub

HEAD = '''
from inference.deriv import dllsteps, obsinfo
from numpy import array, sqrt
class Stop(Exception):
    pass
'''
QUAD = '''
n, niter = %d, %d
sg = [__sym__('s%%d' %% i, dom='pos') for i in range(n)]
mu = [__sym__('m%%d' %% i) for i in range(n)]
d = [__sym__('d%%d' %% i, dom='pos') for i in range(n)]
rho = {}
for i in range(n):
    for j in range(i):
        rho[i, j] = rho[j, i] = __sym__('r%%d%%d' %% (i, j))
    rho[i, i] = 1.
c = __sym__('c')
q = __sym__('q', dom='unit')
%s
calls = []
def loglike(x):
    z = [(x[i] - mu[i])/sg[i] for i in range(n)]
    calls.append(1)
    v = c
    for i in range(n):
        for j in range(n):
            v = v - .5*rho[i, j]*z[i]*z[j]
    %s
    return v
want = [[rho[i, j]/(sg[i]*sg[j]) for j in range(n)] for i in range(n)]
m, st = array(mu), array(d)
info, err = obsinfo(loglike, m, st%s)
__check__('one row and column per parameter', info.shape == (n, n) and err.shape == (n, n))
__eq__('the information of a quadratic log likelihood is its matrix', [[info[i, j] for j in range(n)] for i in range(n)], want)
%s
__eq__('the estimates are not modified', [m[i] for i in range(n)], mu)
__eq__('the steps are not modified', [st[i] for i in range(n)], d)
'''
UNIT = """
sg = [1/__sym__('u%d' % i, dom='unit') for i in range(n)]
d = [sg[i]*__sym__('t%d' % i, dom='unit') for i in range(n)]
"""
ERR0 = "__eq__('no error', [[err[i, j] for j in range(n)] for i in range(n)], [[0.]*n for i in range(n)])"
GEN = '''
f = __fun__('f')
m0, m1, d0, d1, c = [__sym__(x) for x in ('m0', 'm1', 'd0', 'd1', 'c')]
__assume__(d0 != 0); __assume__(d1 != 0)
top = f(m0, m1)
def loglike(x):
    return f(x[0], x[1]) + shift
a = {}
for sh in (0., c):
    shift = sh
    info, err = obsinfo(loglike, array([m0, m1]), array([d0, d1])%s)
    a[sh] = info
    __eq__('second differences, first parameter', info[0, 0], -(f(m0 + d0, m1) + f(m0 - d0, m1) - 2*top)/d0**2)
    __eq__('second differences, second parameter', info[1, 1], -(f(m0, m1 + d1) + f(m0, m1 - d1) - 2*top)/d1**2)
    __eq__('symmetric', info[0, 1], info[1, 0])
    __eq__('no error estimate', [err[0, 0], err[0, 1], err[1, 0], err[1, 1]], [0.]*4)
'''
GEN3 = '''
f = __fun__('f')
m = [__sym__('m%d' % i) for i in range(3)]
d = [__sym__('d%d' % i) for i in range(3)]
for i in range(3):
    __assume__(d[i] != 0)
top = f(*m)
def at(i, s, j=None, t=0):
    x = list(m)
    x[i] = x[i] + s*d[i]
    if j is not None:
        x[j] = x[j] + t*d[j]
    return f(*x)
info, err = obsinfo(lambda x: f(x[0], x[1], x[2]), array(m), array(d)MORE)
for i in range(3):
    __eq__('second differences', info[i, i], -(at(i, 1) + at(i, -1) - 2*top)/d[i]**2)
    for j in range(i):
        __eq__('symmetric', info[i, j], info[j, i])
'''
STEPS = '''
n = %d
dll = __sym__('dll', dom='pos')
tol = __sym__('tol', dom='pos')
sg = [__sym__('s%%d' %% i, dom='pos') for i in range(n)]
mu = [__sym__('m%%d' %% i) for i in range(n)]
g = [__sym__('g%%d' %% i, dom='%s') for i in range(n)]
c = __sym__('c')
def loglike(x):
    return c - sum([.5*((x[i] - mu[i])/sg[i])**2 for i in range(n)])
m, gs = array(mu), array(g)
r = dllsteps(loglike, m, gs, dll%s)
__check__('one step per parameter', len(r) == n)
__eq__('the log likelihood falls by the target for each step', [loglike([mu[j] + (r[i] if i == j else 0.) for j in range(n)]) for i in range(n)], [c - dll]*n)
for i in range(n):
    __check__('steps keep the direction of the guess', r[i]*g[i] > 0)
__eq__('the estimates are not modified', [m[i] for i in range(n)], mu)
__eq__('the guesses are not modified', [gs[i] for i in range(n)], g)
'''
DEFAULT = '''
s, c, mu, g = __sym__('s', dom='pos'), __sym__('c'), __sym__('m'), __sym__('g', dom='pos')
def loglike(x):
    return c - .5*((x[0] - mu)/s)**2
r = dllsteps(loglike, array([mu]), array([g]))
__eq__('the default target is 1', loglike([mu + r[0]]), c - 1.)
'''
NEWTON = '''
# heights found on the way: a is where the quadratic guess lands, then a secant step for each of them
fa = [%s]
tol, dll, top = %s, %s, __sym__('top')
vals = [top - x for x in fa]
k = [0]
seen = []
def loglike(x):
    seen.append(x[0])
    k[0] = k[0] + 1
    return vals[k[0] - 1]
m, g = __sym__('m'), __sym__('g', dom='pos')
mm, gg = array([m]), array([g])
how = 'ok'
try:
    r = dllsteps(loglike, mm, gg, dll, top, %s, tol)
except RuntimeError:
    how = 'slow'
except ValueError:
    how = 'peak'
__check__('the outcome is reported', how == '%s')
if how == 'ok':
    __check__('it stops at the first point within the tolerance', k[0] == len(fa))
    __eq__('the step leads to the point where the target is met', m + r[0], seen[-1])
__eq__('the first point is the guess', seen[0], m + g)
if len(seen) > 1:
    __eq__('the second follows from a quadratic', seen[1], m + g*sqrt(dll/fa[0]))
if len(seen) > 3:
    __eq__('the third is one guess further', seen[2], seen[1] + g)
    __eq__('the next follows from the slope', seen[3], seen[1] + (fa[1] - dll)*g/(fa[1] - fa[2]))
__eq__('the estimates are not modified', mm[0], m)
__eq__('the guesses are not modified', gg[0], g)
'''
RAISE = '''
n = %d
stop = %d
k = [0]
f = __fun__('f')
def loglike(x):
    k[0] = k[0] + 1
    if k[0] == stop:
        raise Stop()
    return -sum([(x[i] - m0[i])**2 for i in range(n)])
m0 = [__sym__('m%%d' %% i) for i in range(n)]
d0 = [__sym__('d%%d' %% i, dom='pos') for i in range(n)]
m, d = array(m0), array(d0)
ok = False
try:
    %s(loglike, m, d)
except Stop:
    ok = True
__check__('an exception of the likelihood reaches the caller', ok)
__eq__('the estimates are not modified', [m[i] for i in range(n)], m0)
__eq__('the guesses are not modified', [d[i] for i in range(n)], d0)
'''
ERR = '''
# niter refinements: error estimates are reported, and vanish when successive estimates agree
f = __fun__('f')
x0, d, q = __sym__('x0'), __sym__('d', dom='unit'), __sym__('q', dom='unit')
info, err = obsinfo(lambda x: -(x[0] - x0)**2 - q*(x[0] - x0)**4, array([x0]), array([d]), niter=1)
__eq__('one refinement removes the quartic term', info[0, 0], 2.)
__check__('the error estimate is not negative', err[0, 0] >= 0)
a = obsinfo(lambda x: -(x[0] - x0)**2 - q*(x[0] - x0)**4, array([x0]), array([d]), niter=0)[0][0, 0]
__check__('without refinement the quartic term is there', a > 2.)
__check__('the error estimate covers the difference', err[0, 0]*1.000001 >= a/2 - 1.)
'''
CL = []
for n in (1, 2, 3):
    for niter in (0, 1, 2, 3):
        if n == 3 and niter > 2:
            continue
        arg = '' if niter == 2 else ', niter=%d' % niter
        e = ERR0
        CL.append(Client('quadratic %d, %d refinements' % (n, niter), HEAD + QUAD % (n, niter, '', '', arg, e), timeout=100))
        CL.append(Client('quadratic %d, %d refinements, maximum given' % (n, niter), HEAD + QUAD % (
            n, niter, '', '', arg + ', maxll=c', e + "\n__check__('the given maximum is not computed again', len(calls) == (niter + 1)*n*(n + 1))"), timeout=100))
for n in (1, 2):
    CL.append(Client('quartic %d' % n, HEAD + QUAD % (n, 1, UNIT, 'for i in range(n):\n        v = v - q*z[i]**4', ', None, 1', ''), timeout=100))
CL += [Client('differences', HEAD + GEN % ', niter=0', timeout=60),
       Client('differences 3', HEAD + GEN3.replace('MORE', ', niter=0'), timeout=60),
       Client('differences 3, maximum given', HEAD + GEN3.replace('MORE', ', top, 0'), timeout=60),
       Client('error estimate', HEAD + ERR, timeout=60), Client('default target', HEAD + DEFAULT)]
for n in (1, 2, 3):
    for dom in ('pos', 'neg'):
        CL.append(Client('steps %d %s' % (n, dom), HEAD + STEPS % (n, dom, '')))
        CL.append(Client('steps %d %s, maximum given' % (n, dom), HEAD + STEPS % (n, dom, ', c, 20, tol')))
for fa, tol, dll, mx, how in (
        ('1.2, 1.001', '.01', '1.', '20', 'ok'), ('1.2, .999', '.01', '1.', '20', 'ok'), ('1.2, 1.02, 1.5, 1.001', '.01', '1.', '20', 'ok'),
        ('1.2, .98, 1.5, 1.001', '.01', '1.', '20', 'ok'), ('1.2, .8, 1.5, 1.05, 1.6, 1.001', '.01', '1.', '20', 'ok'),
        ('1.2, .8, 1.5, 1.05, 1.6, 1.001', '.01', '1.', '3', 'ok'), ('1.2, .8, 1.5, 1.05, 1.6, 1.001', '.01', '1.', '2', 'slow'),
        ('1.2, .8, 1.5, 1.05, 1.6, 1.001', '.01', '1.', '1', 'slow'), ('1.2, 1.001', '.01', '1.', '1', 'ok'), ('1.2, 1.001', '.01', '1.', '0', 'slow'),
        ('.7, .49, .8, .501', '.005', '.5', '20', 'ok'), ('1.2, .8, 1.5, 1.05', '.1', '1.', '20', 'ok'),
        ('-.1', '.01', '1.', '20', 'peak'), ('1.2, -.1', '.01', '1.', '20', 'peak'), ('1.2, .8, -.1', '.01', '1.', '20', 'peak'),
        ('1.2, .8, 1.5, -.1', '.01', '1.', '20', 'peak')):
    CL.append(Client('search %s %s %s %s' % (fa, tol, dll, mx), HEAD + NEWTON % (fa, tol, dll, mx, how)))
for n in (1, 2):
    for k in (1, 2, 3, 5):
        CL.append(Client('exception %d %d' % (n, k), HEAD + RAISE % (n, k, 'obsinfo')))
        if k < 2*n + 2:
            CL.append(Client('exception in steps %d %d' % (n, k), HEAD + RAISE % (n, k, 'dllsteps')))
# The observed information of an inference: the compiled algorithms are represented by their contract (they evaluate the
# function anywhere, in any order, and return some array).
CONTRACT = '''
BIG = 1.e9
seen = []
nth = [0]
def anywhere(f, n):
    nth[0] += 1
    t = __arr__('t%d_' % nth[0], n)
    for k in range(n):
        __assume__(t[k] > -BIG); __assume__(t[k] < BIG)
    __eq__('the function is the log posterior', f(t), logpost([t[k] for k in range(n)]))
def any_steps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
    seen.append(('steps', [t + 0 for t in mle], [t + 0 for t in guess], dll, maxll))
    anywhere(loglike, len(mle)); anywhere(loglike, len(mle))
    return __arr__('found', len(mle), dom='pos')
def any_info(loglike, mle, deltas, maxll=None, niter=2):
    seen.append(('info', [t + 0 for t in mle], [t + 0 for t in deltas], niter, maxll))
    anywhere(loglike, len(mle)); anywhere(loglike, len(mle))
    return __arr__('info', (len(mle), len(mle))), __arr__('ierr', (len(mle), len(mle)))
a = __sym__('a'); b = __sym__('b')
for t in (a, b):
    __assume__(t > -BIG); __assume__(t < BIG)
x = X()
'''
WRAP = '''
%s
top = x.score()
mine = [__sym__('g%%d' %% k, dom='pos') for k in range(%d)]
st = array(mine)
got = x.obs_info(%s)
kinds = [t[0] for t in seen]
__check__('steps first, then the information', kinds == ['steps', 'info'])
for t in seen:
    __eq__('at the current values of the varying parameters, in their order: ' + t[0], t[1], at)
    __eq__('with the maximum: ' + t[0], t[4] if t[4] is not None else top, top)
__eq__('first guesses of the steps', seen[0][2], %s)
__eq__('fall of the log posterior', seen[0][3], %s)
__eq__('the steps found are used', seen[1][2], [t for t in __arr__('found', %d, dom='pos')])
__check__('number of refinements', seen[1][3] == %s)
n = len(at)
info, ierr = __arr__('info', (n, n)), __arr__('ierr', (n, n))
__check__('with or without errors', isinstance(got, tuple) == %s)
pairs = ((got[0], info), (got[1], ierr)) if isinstance(got, tuple) else ((got, info),)
for g, w in pairs:
    __eq__('the result', [[g[i, j] for j in range(n)] for i in range(n)], [[w[i, j] for j in range(n)] for i in range(n)])
__eq__('the parameters are put back', (x.p, x.q), (a, b))
__check__('and keep their status', [h.name for h in x.varying_params] == names)
__eq__('the model is at the mode', x.score(), top)
__eq__('steps given are left alone', [t for t in st], mine)
seen[:] = []
__eq__('again', [[t for t in r] for r in x.obs_info()], [[info[i, j] for j in range(n)] for i in range(n)])
__eq__('with the same maximum', seen[0][4] if seen[0][4] is not None else top, top)
'''
SETUP = {
    'both': ("x.p.vary(a, .25, (-2*BIG, 2*BIG)); x.q.vary(b, .5, (-2*BIG, 2*BIG))\nat = [a, b]; names = ['p', 'q']\n"
             "def logpost(t):\n    return want(t[0], t[1])\n", 2, '[.25, .5]'),
    'second first': ("x.q.vary(b, .5, (-2*BIG, 2*BIG)); x.p.vary(a, .25, (-2*BIG, 2*BIG))\nat = [b, a]; names = ['q', 'p']\n"
                     "def logpost(t):\n    return want(t[1], t[0])\n", 2, '[.5, .25]'),
    'one': ("x.p.fix(a); x.q.vary(b, .5, (-2*BIG, 2*BIG))\nat = [b]; names = ['q']\ndef logpost(t):\n    return want(a, t[0])\n", 1, '[.5]'),
}
STUBS = {('inference.deriv.obsinfo', 'dllsteps'): stub('any_steps'), ('inference.deriv.obsinfo', 'obsinfo'): stub('any_info')}
for k, (setup, n, dflt) in SETUP.items():
    for args, guess, dl, it_, e in (('', dflt, '1.', 3, False), ('st, err=True', 'mine', '1.', 3, True), ('dlogp=.5, n=1', dflt, '.5', 1, False),
                                    ('st, 2., 2, True', 'mine', '2.', 2, True)):
        CL.append(Client('inference, %s (%s)' % (k, args), model('BayesianInference', nd=1, preds=2) + CONTRACT + WRAP % (
            setup, n, args, guess, dl, n, it_, e), opaque=lambda: STUBS))
LINEAR = '''
from inference.pie import *
from numpy import array
class Stop(Exception):
    pass
l = array([1., 2.]); s = array([.5, 2.]); tau = 1.5; c = __sym__('c')
a, b = 1.25, -.5
stop = [0]
class M(SignalModel):
    p = RealParam(1.)
    q = RealParam(2.)
    def signal(self, x):
        stop[0] -= 1
        if stop[0] == 0:
            raise Stop()
        return self.p*x + self.q
class D(PredictorSet):
    d = SampledGaussian(l, array([a*l[0] + b, a*l[1] + b]), s)
class X(BayesianInference, M, D):
    def log_prior(self):
        return c - .5*((self.p - a)/tau)**2
x = X()
x.p.vary(a, .125, (-1.e30, 1.e30))
x.q.%s
top = x.score()
'''
CL.append(Client('inference, linear model', LINEAR % 'fix(b)' + '''
info, ierr = x.obs_info(n=1, err=True)
__eq__('information of the data and the prior', info[0, 0], (l[0]/s[0])**2 + (l[1]/s[1])**2 + 1/tau**2)
__eq__('no error', ierr[0, 0], 0)
__eq__('the parameters are put back', (x.p, x.q), (a, b))
__eq__('the model is at the mode', x.score(), top)
''', timeout=60))
for k in (1, 3, 5, 7, 9):
    CL.append(Client('inference, exception %d' % k, LINEAR % 'vary(b, .25, (-1.e30, 1.e30))' + '''
stop[0] = %d
try:
    x.obs_info(n=1)
    __reach__('an exception of the model reaches the caller')
except Stop:
    pass
__eq__('the parameters are put back after a failure', (x.p, x.q), (a, b))
__eq__('the model is at the mode after a failure', x.score(), top)
''' % k, timeout=60))

P23 = Check('P23', 'value numbers of the information matrix and step sizes equal those of the (quadratic, quartic or arbitrary) log likelihood; every '
            'outcome of the step search is reported; arguments unchanged on all paths, failures included', CL)
CHECKS = [P23]

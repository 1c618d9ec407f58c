from sa.report import Check, Client
from ._pie import stub

CB = 'inference.count._cbmlike'
GAM = lambda: {(CB, 'f_gammln'): stub('lgam')}

# Counts and the ratio of the intervals are constants, so the largest term of every series is known; the unit of time is arbitrary.
HEAD = '''
from inference.count.onoff import OnOff
from numpy import exp, log, array, zeros
def fact(n):
    return 1. if n < 2 else n*fact(n - 1)
def lgam(x):
    n = int(x)
    __check__('gamma function of a positive integer', n >= 1)
    return (log(fact(n - 1)), x)
n_on, n_off, r = %d, %d, %s
T = __sym__('T', dom='pos')
t_on, t_off = T, r*T
def series(c):
    """c: signal counts expected in the on and off intervals together, up to factors that do not depend on the signal"""
    return sum([c**k*fact(n_on + n_off - k)/(fact(n_on - k)*fact(k)) for k in range(n_on + 1)])*exp(-c/(1 + r))
def rate(c):
    return c/(t_on + t_off)
def prob():
    w = [(1 + r)**k*fact(n_on + n_off - k)/fact(n_on - k) for k in range(n_on + 1)]
    return [x/sum(w) for x in w]
def poisson(k, m):
    return m**k*exp(-m)/fact(k)
'''
LIKE = '''
o = OnOff(n_on, t_on, n_off, t_off, 0.)
z = exp(o.siglml(rate(cs[0])))
for c in cs:
    __eq__('log likelihood ratios are those of the marginal likelihood series', exp(o.siglml(rate(c)))*series(cs[0]), z*series(c))
v = array([rate(c) for c in cs])
w = o.siglml(v)
__check__('one value per signal rate', len(w) == len(cs))
for k in range(len(cs)):
    __eq__('likelihoods of an array are those of its elements', exp(w[k])*series(cs[0]), z*series(cs[k]))
    __eq__('the signal rates are not modified', v[k], rate(cs[k]))
for order in ((4, 3, 2, 1, 0), (2, 0, 2, 4), (3,), (1, 1), (0, 4, 1)):
    w = o.siglml(array([rate(cs[k]) for k in order]))
    for j in range(len(order)) if len(order) > 1 else ():
        __eq__('likelihoods of an array in any order are those of its elements', exp(w[j])*series(cs[0]), z*series(cs[order[j]]))
'''
CUT = '''
o = OnOff(n_on, t_on, n_off, t_off, 0.)
for cut in (None, 1.e-5, .01, .5):
    if cut is None:
        q = OnOff(n_on, t_on, n_off, t_off)
        cut = 1.e-5
    else:
        q = OnOff(n_on, t_on, n_off, t_off, cut)
    for c in cs:
        full = exp(o.siglml(rate(c)))
        part = exp(q.siglml(rate(c)))
        __check__('dropping small terms never raises the likelihood', part <= full*1.000001)
        __check__('dropping terms below the cutoff loses no more than that many such terms', part >= full*(1 - cut*n_on)*.999999)
        __eq__('for arrays the cutoff is the same', q.siglml(array([rate(c), rate(c)]))[1], q.siglml(rate(c)))
'''
POST = '''
o = OnOff(n_on, t_on, n_off, t_off)
P = prob()
s = __sym__('s', dom='pos'); u = __sym__('u', dom='pos')
def post(s):
    return sum([P[k]*t_on*poisson(k, s*t_on) for k in range(n_on + 1)])
__eq__('posterior density of the signal', o.sigmp(s), post(s))
__eq__('posterior density for no signal', o.sigmp(0.), P[0]*t_on)
v = array([s, 0., u])
w = o.sigmp(v)
__eq__('posterior of an array', [w[0], w[1], w[2]], [post(s), P[0]*t_on, post(u)])
__eq__('the signal rates are not modified', [v[0], v[1], v[2]], [s, 0., u])
__eq__('probabilities of the number of signal counts', [o.pnsig(k) for k in range(n_on + 1)], P)
w = o.sigmp(array([u + s, s, s, u/2]))
__eq__('posterior of an array in any order', [w[k] for k in range(4)], [post(u + s), post(s), post(s), post(u/2)])
a = o.pnsig()
__check__('one probability per possible number', len(a) == n_on + 1)
__eq__('all probabilities', [a[k] for k in range(n_on + 1)], P)
__eq__('they add up to one', sum([a[k] for k in range(n_on + 1)]), 1.)
a[0] = 7.
for k in range(n_on + 1):
    __eq__('changing the returned array does not change later answers', o.pnsig(k), P[k])
__eq__('nor the posterior', o.sigmp(s), post(s))
for bad in (-1, n_on + 1):
    try:
        o.pnsig(bad)
        __reach__('a number of signal counts that is impossible')
    except ValueError:
        pass
p2 = OnOff(n_on, t_on, n_off, t_off)
__eq__('probabilities before anything else', p2.pnsig(n_on), P[n_on])
__eq__('observed data are kept', (o.on_cts, o.on_intvl, o.off_cts, o.off_intvl), (n_on, t_on, n_off, t_off))
'''
INT = '''
o = OnOff(n_on, 1., n_off, r*1., 0.)
w = o.siglml(array([1, 2]))
q = o.sigmp(array([1, 2]))
for k in (0, 1):
    __eq__('likelihoods of integer signal rates', w[k], o.siglml(k + 1.))
    __eq__('posterior of integer signal rates', q[k], o.sigmp(k + 1.))
for m in (o.siglml, o.sigmp):
    try:
        m(zeros((2, 2)))
        __reach__('an array of more dimensions')
    except ValueError:
        pass
'''
FAIL = '''
o = OnOff(n_on, 1., n_off, r*1., 0.)
for s in (5000., array([1., 5000.]), array([5000., 1.])):
    try:
        o.siglml(s)
        __reach__('a likelihood that cannot be represented')
    except ValueError:
        pass
'''
TWO = '''
o = OnOff(n_on, t_on, n_off, t_off, 0.)
q = OnOff(n_on + 1, 2*t_on, n_off + 1, t_off, 0.)
before = o.siglml(rate(1.)), o.pnsig(0)
q.siglml(rate(2.)); q.pnsig(0); q.sigmp(rate(1.))
__eq__('other measurements do not interfere', (o.siglml(rate(1.)), o.pnsig(0)), before)
n_on, n_off, t_on, r = n_on + 1, n_off + 1, 2*t_on, r/2
P = prob()
__eq__('each measurement has its own probabilities', [q.pnsig(k) for k in range(n_on + 1)], P)
'''
LIBM = '''
from inference.count import _cbmlike
from inference.count.onoff import slmlike, vslmlike, slmliked, slml_offset, vslml_offset, psigc, sigctp
a = array([rate(c) for c in cs])
m = len(cs)
off = slml_offset(n_on, t_on, n_off, t_off)
vo = vslml_offset(array([n_on, n_on]), t_on, array([n_off, n_off]), t_off)
__eq__('offsets of several channels', [vo[0], vo[1]], [off, off])
vl = vslmlike(a, array([n_on]*m), t_on, array([n_off]*m), t_off, array([off]*m), 0.)
for k in range(m):
    l, nt, ierr = slmlike(rate(cs[k]), n_on, t_on, n_off, t_off, off, 0.)
    __check__('no error', ierr == 0)
    __check__('number of terms', nt == (n_on + 1 if cs[k] else 1))
    __eq__('channels are computed one by one', vl[k], l)
    ld, d, nt, ierr = slmliked(rate(cs[k]), n_on, t_on, n_off, t_off, off, 0.)
    __eq__('with and without derivative', exp(ld), exp(l))
'''
DERIV = '''
from inference.count.onoff import slmliked, slml_offset
off = slml_offset(n_on, t_on, n_off, t_off)
for c in cs:
    l, d, nt, ierr = slmliked(rate(c), n_on, t_on, n_off, t_off, off, 0.)
    num = sum([(k*c**(k - 1) if k else 0.)*fact(n_on + n_off - k)/(fact(n_on - k)*fact(k)) for k in range(n_on + 1)])
    den = sum([c**k*fact(n_on + n_off - k)/(fact(n_on - k)*fact(k)) for k in range(n_on + 1)])
    __eq__('derivative of the log likelihood', d, (num/den)*(t_on + t_off) - t_on)
'''
LG = '''
from inference.count._cbmlike import slmlike
from numpy import log
def fact(n):
    return 1. if n < 2 else n*fact(n - 1)
for n_on, n_off in ((0, 0), (1, 0), (5, 3), (2, 7), (12, 4)):
    l, nt, ierr = slmlike(0., n_on, 1., n_off, 1., 0., 0.)
    d = l - log(fact(n_on + n_off)/fact(n_on))
    __check__('log gamma function', -1.e-6 < d < 1.e-6)
'''
CS = 'cs = (0., .25, 1., 3.5, 12.)\n'
DATA = [(0, 0, 1.), (0, 2, 1.), (1, 0, 1.), (1, 2, .5), (3, 1, 1.), (3, 1, 2.), (2, 5, 4.), (5, 1, .5), (4, 4, 1.), (3, 0, 2.), (2, 0, .25), (0, 3, 4.), (1, 6, 3.)]
P20 = Check('P20', 'value numbers of on/off likelihoods, posteriors and count probabilities equal the series of the marginal likelihood; failures, '
            'copies and array handling on every path of the Python wrapper',
            [Client('%s %s' % (n, d), HEAD % d + (CS if n in ('likelihood', 'cutoff') else '') + s, opaque=GAM, timeout=60)
             for d in DATA for n, s in (('likelihood', LIKE), ('cutoff', CUT), ('posterior', POST))] +
            [Client('integers %s' % (d,), HEAD % d + INT, opaque=GAM, timeout=60) for d in DATA[2:5]] +
            [Client('failure %s' % (d,), HEAD % d + FAIL, opaque=GAM, timeout=60) for d in DATA[2:5]] +
            [Client('two measurements %s' % (d,), HEAD % d + TWO, opaque=GAM, timeout=60) for d in DATA[2:5]] +
            [Client('channels %s' % (d,), HEAD % d + CS + LIBM, opaque=GAM, timeout=60) for d in DATA if d[0]] +
            [Client('derivative %s' % (d,), HEAD % d + CS + DERIV, opaque=GAM, timeout=60) for d in DATA if d[0]] +
            [Client('log gamma', LG)])
CHECKS = [P20]

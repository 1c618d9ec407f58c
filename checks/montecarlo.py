"""Monte Carlo sampling: piecewise linear densities and discrete populations (the compiled sampler is represented by its contract)."""
from sa.report import Check, Client
from .plots import PYPLOT

# The compiled sampler, by contract: it draws indices with probabilities proportional to the weights it was made with,
# from the generator state it is given.  Here: it notes what it is given, and the client chooses the indices.
SAMPLER = '''
made = []
log = []
choice = [[]]
class _ppssampler(object):
    def __init__(self, weights):
        self.weights = [w + 0 for w in weights]
        self.ratios = self.tables = None
        self.order = None
        made.append(self)
    def sample(self, n):
        log.append(('sample', n))
        advance()
        return choice[0][:n] if n is not None else None
    def prepwts(self, weights):
        log.append(('prepwts', [w + 0 for w in weights]))
        n = len(weights)
        idx = sorted(range(n), key=lambda i: -weights[i])
        self.order = idx
        tot = 0
        for w in weights:
            tot = tot + w
        return idx, [weights[i] + 0 for i in idx], tot
    def prepratios(self, n, sorted_weights, total):
        self.ratios = (n, [w + 0 for w in sorted_weights], total)
        self.tables = None
    def prepratiotables(self):
        self.tables = self.ratios
    def samplenr(self):
        log.append(('samplenr', self.ratios))
        advance()
        return 1, choice[0]
    def samplenr5(self):
        log.append(('samplenr5', self.ratios, self.tables))
        advance()
        return 1, choice[0]
state = [None]
entered = []
fresh = [0]
draws = [True]
def set_rng_state(name, key, pos):
    state[0] = (name, key, pos)
    entered.append(state[0])
def get_rng_state():
    return state[0]
def advance():
    if draws[0]:
        fresh[0] += 1
        state[0] = ('MT19937', ('key', fresh[0]), 100 + fresh[0])
def equalprob(n, pool):
    log.append(('equalprob', n, [i for i in pool]))
    advance()
    return [pool[i] for i in choice[0]]
'''
OPQ = {'modules': {'inference.mc._ppssampler': SAMPLER}}
HEAD = '''
from inference.mc import PWLinear, Population, _ppssampler as pps
from numpy import array, log, random, linspace
pps.draws[0] = False
cut = 1.e-9
'''
# Values: multiples of an arbitrary positive number; those not above 1e-9 of the largest count as zero.
PW = '''
ratios, CUT = %r, %r
N = len(ratios)
c = __sym__('c', dom='pos')
v = [c*r for r in ratios]
big = [k for k in range(N) if ratios[k] > CUT*max(ratios)]
w = [v[k] if k in big else 0. for k in range(N)]
'''
MAKE = {
    'lo, hi': '''
lo = __sym__('lo'); d = .25; hi = lo + (N - 1)*d
at = [lo + k*d for k in range(N)]
vals = array(v)
p = PWLinear(lo, hi, vals)
''',
    'list': '''
lo = __sym__('lo'); d = .25; hi = lo + (N - 1)*d
at = [lo + k*d for k in range(N)]
vals = list(v)
p = PWLinear(lo=lo, hi=hi, vals=vals)
''',
    'logs': '''
lo = __sym__('lo'); d = .25; hi = lo + (N - 1)*d
at = [lo + k*d for k in range(N)]
vals = array([log(t) for t in v])
p = PWLinear(lo, hi, vals, logvals=True)
''',
    'abscissas': '''
at = [__sym__('x0')]
for k in range(1, N):
    at.append(at[k-1] + __sym__('dx%d' % k, dom='pos'))
absc = array(at)
vals = array(v)
p = PWLinear(vals=vals, absc=absc)
''',
}
BODY = '''
area = 0
for k in range(N - 1):
    area = area + (w[k] + w[k+1])*(at[k+1] - at[k])/2
def dens(k, t):
    """the density at a fraction t of interval k"""
    return (w[k] + t*(w[k+1] - w[k]))/area
live = [k for k in range(N - 1) if k in big or k + 1 in big]
'''
INPUT = '''
for k in range(N):
    __eq__('the values given are left alone', vals[k], LOG(v[k]))
__eq__('the domain', (p.lo, p.hi), (at[0], at[N-1]))
'''
PDF = '''
t = __sym__('t', dom='unit')
xs = []
for k in range(N - 1):
    __eq__('the density is the normalised linear interpolation', p.pdf(at[k] + t*d), dens(k, t) if k in live else 0)
    __eq__('the density at a grid point', p.pdf(at[k]), w[k]/area)
__eq__('the density at the upper end', p.pdf(at[N-1]), w[N-1]/area)
__eq__('no density below the domain', p.pdf(lo - t*d), 0)
__eq__('no density above the domain', p.pdf(hi + t*d), 0)
many = p.pdf(array([lo - d] + [at[k] + t*d for k in range(N - 1)] + [hi]))
__eq__('the density of an array', [m for m in many], [0] + [dens(k, t) if k in live else 0 for k in range(N - 1)] + [w[N-1]/area])
'''
SAMPLE = '''
# what the sampler is given: one weight for each interval with any density, adding up to 1
pps.choice[0] = [0]
p.sample()
W = pps.made[-1].weights
__check__('intervals without density are not sampled', len(W) == len(live))
for j, k in enumerate(live):
    __eq__('the weight of an interval is its probability', W[j], (w[k] + w[k+1])*(at[k+1] - at[k])/2/area)
def right(x, u, k, what):
    """x is where a fraction u of the probability of interval k lies below"""
    dx = x - at[k]
    slope = (w[k+1] - w[k])/(at[k+1] - at[k])
    __eq__('samples follow the density' + what, dx*(2*w[k] + slope*dx), u*(w[k] + w[k+1])*(at[k+1] - at[k]))
    __eq__('and are on the right branch' + what, w[k] + slope*dx, (w[k]**2 + (w[k+1]**2 - w[k]**2)*u)**.5)
for j, k in enumerate(live):
    pps.choice[0] = [j]
    st = random.get_state()
    x = p.sample()
    random.set_state(st)
    right(x, random.rand(), k, '')
    random.set_state(st)
    xs = p.sample(1)
    __check__('as many as asked for', len(xs) == 1)
    __eq__('one sample in an array', xs[0], x)
pps.choice[0] = [j for j in range(len(live))][::-1] + [0]
n = len(live) + 1
st = random.get_state()
xs = p.sample(n)
random.set_state(st)
us = random.rand(n)
__check__('as many as asked for', len(xs) == n)
for j in range(n):
    right(xs[j], us[j], live[pps.choice[0][j]], ' (array)')
'''
INTERIOR = '''
__eq__('no density below the domain', p.pdf(at[0] - 1), 0)
__eq__('no density above the domain', p.pdf(at[N-1] + 1), 0)
for k in range(N):
    __eq__('the abscissas given are left alone', absc[k], at[k])
'''
REFUSED = '''
for bad in (dict(vals=[1., 2.]), dict(lo=1., vals=[1., 2.]), dict(hi=1., vals=[1., 2.]), dict(vals=[1., 2.], absc=[1., 2., 3.]),
            dict(vals=[1., 2., 3.], absc=[1., 2.])):
    try:
        PWLinear(**bad)
        __reach__('an incomplete or inconsistent domain is refused')
    except ValueError:
        pass
try:
    PWLinear(1., 2., [1., 2.], step='log')
    __reach__('logarithmic steps are refused')
except NotImplementedError:
    pass
'''


INTS = '''
lo = __sym__('lo')
for vals in ([1, 3, 2], array([1, 3, 2])):
    p = PWLinear(lo, lo + 2, vals)
    t = __sym__('t', dom='unit')
    __eq__('integer values', [p.pdf(lo + t), p.pdf(lo + 1 + t)], [(1 + 2*t)/4.5, (3 - t)/4.5])
    __check__('the values given are left alone', [v for v in vals] == [1, 3, 2])
'''
INTLOGS = '''
from numpy import exp
lo = __sym__('lo')
for vals in ([-1, 0, -2], array([-1, 0, -2])):
    p = PWLinear(lo, lo + 2, vals, logvals=True)
    t = __sym__('t', dom='unit')
    a, b = exp(-1.), exp(-2.)
    area = (a + 2 + b)/2
    __eq__('integer logarithms', [p.pdf(lo + t), p.pdf(lo + 1 + t)], [(a + (1 - a)*t)/area, (1 - (1 - b)*t)/area])
    __check__('the values given are left alone', [v for v in vals] == [-1, 0, -2])
# values exactly at the cutoff count as zero
p = PWLinear(lo, lo + 2, [0., -2., 0.], logvals=True, cut=exp(-2.))
__eq__('logarithms at the cutoff', [p.pdf(lo), p.pdf(lo + 1), p.pdf(lo + 2), p.pdf(lo + t)], [1., 0, 1., 1 - t])
'''


def pw(ratios, how, cut=None):
    make = MAKE[how] if cut is None else MAKE[how].replace('vals)', 'vals, cut=CUT)').replace('logvals=True', 'cut=CUT, logvals=True').replace(
        'absc=absc)', 'absc=absc, cut=CUT)')
    src = HEAD + PW % (ratios, 1.e-9 if cut is None else cut) + make + BODY
    if how != 'abscissas':
        src += PDF
    src += SAMPLE
    src += INPUT.replace('LOG(', 'log(' if how == 'logs' else '(')
    if how == 'abscissas':
        src += INTERIOR
    return Client('%s, %s%s' % (ratios, how, '' if cut is None else ', cut %s' % cut), src, opaque=lambda: OPQ)


SMALL = 3.e-10
CL = [pw(r, h) for r, h in (
    ([3., 1.], 'lo, hi'), ([1., 3.], 'list'), ([1., 3., 2.], 'lo, hi'), ([2., 2.], 'lo, hi'), ([2., 2., 1.], 'list'),
    ([1., SMALL, 2.], 'lo, hi'), ([0., 1., 0.], 'lo, hi'), ([SMALL, 1., SMALL], 'list'), ([1., 0., 5.], 'lo, hi'),
    ([0., 0., 2., 0., SMALL], 'lo, hi'), ([1., 4., 0., SMALL, 3.], 'lo, hi'), ([0., 1., 0., 0., 1., 0.], 'list'),
    ([2., 1.], 'logs'), ([2., SMALL, 3., 3.], 'logs'), ([SMALL, 2., SMALL, SMALL], 'logs'),
    ([1., 2., 4.], 'abscissas'), ([0., 2., SMALL, 1.], 'abscissas'), ([2., 2., SMALL], 'abscissas'))] + [
    pw([1., .15, 2.], 'lo, hi', .1), pw([.25, 3., .25, .75], 'list', .1), pw([1., 0., 4., 0., 0.], 'lo, hi', 0.),
    pw([.25, 3., 3., .25], 'logs', .1), pw([.25, 3., .25, 1.], 'abscissas', .1),
    pw([1., 1.0004], 'lo, hi'), pw([1., .9999, .9998], 'list'), pw([3., 3.001], 'logs'),
    pw([1., 4., .5, 2.], 'lo, hi', .125), pw([.5, 4., 1., .5, 4.], 'list', .125),
    Client('refused', HEAD + REFUSED, opaque=lambda: OPQ),
    Client('integers', HEAD + INTS, opaque=lambda: OPQ), Client('integer logarithms', HEAD + INTLOGS, opaque=lambda: OPQ)]
P28 = Check('P28', 'the density, the weights handed to the index sampler and the samples (as functions of the uniform draw) are, as value '
            'numbers, those of the normalised piecewise linear function', CL)

POP = '''
from inference.mc import Population, _ppssampler as pps
from inference.mc.population import Population1D
from numpy import array, random
def state():
    return random.get_state()
def in_step(before, what):
    """the sampler started from the state of the generator, and the generator goes on from the state of the sampler"""
    after = state()
    __check__('the sampler is given a state: ' + what, len(pps.entered) == 1)
    __same__('the sampler starts from the state of the generator: ' + what, pps.entered[0], before[:3])
    __same__('the generator goes on where the sampler stopped: ' + what, after[:3], pps.state[0])
    __same__('the pending Gaussian is kept: ' + what, after[3:], before[3:])
    pps.entered[:] = []
c = __sym__('c', dom='pos')
w = [c*3.5, c*5., c*1., c*4.5]
names = ['a', 'b', 'd', 'e']
'''
MAKES = {
    'items and weights': ("p = Population(names, w)", 'names'), 'named': ("p = Population(weights=array(w), items=tuple(names))", 'names'),
    'weights only': ("p = Population(weights=w)", '[0, 1, 2, 3]'),
}
WITH = '''
%s
items = %s
for n, ch in ((3, [2, 0, 2]), (1, [3]), (5, [1, 1, 3, 0, 1])):
    pps.choice[0] = ch
    st = state()
    got = p.sample(n)
    __check__('as many as asked for', len(got) == n)
    __check__('the items drawn', [g for g in got] == [items[i] for i in ch])
    in_step(st, 'sampling')
    random.normal(0., 1.)
__check__('one sampler for the population', len(pps.made) == 1)
# relative weights decide
for i in range(4):
    for j in range(4):
        __eq__('weights of the sampler', pps.made[0].weights[i]*w[j], pps.made[0].weights[j]*w[i])
__eq__('the weights given are left alone', [t + 0 for t in w], [c*3.5, c*5., c*1., c*4.5])
__check__('the items given are left alone', names == ['a', 'b', 'd', 'e'])
'''
SUBSET = '''
%s
items = %s
order = [1, 3, 0, 2]        # by decreasing weight
def draw(how, n, ch):
    pps.choice[0] = ch
    st = state()
    got = p.subset_pps(n) if how == 1 else p.subset_pps5(n)
    last = pps.log[-1]
    __check__('the sampler asked', last[0] == ('samplenr' if how == 1 else 'samplenr5'))
    for k in range(1, 2 if how == 1 else 3):
        __check__('set up for a sample size', last[k] is not None)
        __check__('set up for this sample size', last[k][0] == n)
        for i in range(4):
            __eq__('set up with the sorted weights', last[k][1][i]*w[1], w[order[i]]*last[k][1][0])
        __eq__('set up with the total weight', last[k][2]*w[1], (w[0] + w[1] + w[2] + w[3])*last[k][1][0])
    # the plain sampler answers with ranks, the other one with indices
    __check__('the items drawn', [g for g in got] == [items[order[i]] if how == 1 else items[i] for i in ch])
    in_step(st, 'subset')
def refused(how, n):
    st = state()
    try:
        p.subset_pps(n) if how == 1 else p.subset_pps5(n)
        __reach__('a subset larger than possible is refused')
    except ValueError:
        pass
    __same__('a refused subset draws nothing', state(), st)
    pps.entered[:] = []
def everything(how):
    st = state()
    got = p.subset_pps(4) if how == 1 else p.subset_pps5(4)
    __check__('the whole population', [g for g in got] == [i for i in items])
    __same__('the whole population needs no draws', state(), st)
    got[0] = 'changed'
    again = p.subset_pps(4)
    __check__('the whole population is a copy', again[0] != 'changed')
for how, n in %r:
    if how < 0:
        refused(-how, n)
    elif n == 4:
        everything(how)
    else:
        draw(how, n, [2, 0][:n])
__check__('largest subset', p.max_subset() == 2)
__check__('one sampler for the population', len(pps.made) <= 1)
__eq__('the weights given are left alone', [t + 0 for t in w], [c*3.5, c*5., c*1., c*4.5])
__check__('the items given are left alone', names == ['a', 'b', 'd', 'e'])
'''
EQUAL = '''
for make, items in ((lambda: Population(names), names), (lambda: Population(4), [0, 1, 2, 3]), (lambda: Population(items=tuple(names)), names)):
    p = make()
    for how in (1, 5):
        for ch in ([3, 1], [0, 2, 1], [2]):
            pps.choice[0] = ch
            st = state()
            got = p.subset_pps(len(ch)) if how == 1 else p.subset_pps5(len(ch))
            __check__('every member may be drawn', pps.log[-1] == ('equalprob', len(ch), [0, 1, 2, 3]))
            __check__('the items drawn', [g for g in got] == [items[i] for i in ch])
            in_step(st, 'equal probabilities')
    st = state()
    __check__('the whole population', [g for g in p.subset_pps(4)] == [i for i in items])
    __same__('the whole population needs no draws', state(), st)
for bad in ((['a', 'b'], [1., 2., 3.]), (['a', 'b', 'c'], [1.])):
    try:
        Population(*bad)
        __reach__('items and weights of different lengths are refused')
    except ValueError:
        pass
'''
ONE = '''
from numpy import array
vals = %s([3., 1., 2.])
c = __sym__('c', dom='unit')
ws = [c*.5, 1 - c, c*.5]
err = [.1, .2, .3]
p = Population1D(vals, ws%s)
__eq__('values in increasing order', [v for v in p.vals], [1., 2., 3.])
__eq__('weights go with their values', [v for v in p.weights], [1 - c, c*.5, c*.5])
__eq__('hazard: weight of the values not below', [v for v in p.hazard], [1, c, c*.5])
__eq__('cumulative weight', [v for v in p.cdf], [1 - c, 1 - c*.5, 1])
a, o = p.haz_pts(%s)[:2]
lo, hi = %s
__eq__('abscissas of the hazard', [v for v in a], [lo, 1., 1., 2., 2., 3., 3., hi])
__eq__('ordinates of the hazard', [v for v in o], [1, 1, 1, 1, c, c, c*.5, 0])
for bad in ((1.5, 4.), (0., 2.5)):
    try:
        p.haz_pts(*bad)
        __reach__('a range that does not span the values is refused')
    except ValueError:
        pass
if %r:
    _, _, ea, eo, ee = p.haz_pts(%s)
    __eq__('positions of the errors', [v for v in ea], [1.5, 2.5, (3. + hi)/2])
    __eq__('errors go with their values', [v for v in ee], [.2, .3, .1])
    __eq__('errors at the hazard', [v for v in eo], [1, c, c*.5])
__eq__('the values given are left alone', [v for v in vals], [3., 1., 2.])
__eq__('the weights given are left alone', ws, [c*.5, 1 - c, c*.5])
pps.choice[0] = [2, 0]
__check__('sampled values', [v for v in p.sample(2)] == [3., 1.])
'''
CURVE = """
import matplotlib.pyplot as mpl
c = __sym__('c', dom='unit'); d = __sym__('d', dom='pos')
p = Population1D([3., 1., 2.], [c*.5, 1 - c, c*.5]%s)
mpl.calls[:] = []
p.plot(%s)
lo, hi = %s
g = [k for k in mpl.calls if k[0] == 'plot']
__check__('one curve', len(g) == 1)
__eq__('the curve is the hazard over the range asked for: abscissas', g[0][1], [lo, 1., 1., 2., 2., 3., 3., hi])
__eq__('the curve is the hazard over the range asked for: ordinates', g[0][2], [1, 1, 1, 1, c, c, c*.5, 0])
e = [k for k in mpl.calls if k[0] == 'errorbar']
if %r:
    __check__('one set of error bars', len(e) == 1)
    __eq__('error bars are in the middle of the bins', e[0][1], [1.5, 2.5, (3. + hi)/2])
    __eq__('error bars are at the hazard', e[0][2], [1, c, c*.5])
    __eq__('errors go with their values', e[0][3], [.2, .3, .1])
else:
    __check__('no error bars', e == [])
"""
OWN = """
c = __sym__('c', dom='unit')
vals, ws, err = array([3., 1., 2.]), array([c*.5, 1 - c, c*.5]), array([.1, .2, .3])
p = Population1D(vals, ws, err)
def as_before(what):
    a, o, ea, eo, ee = p.haz_pts(0., 4.)
    __eq__('hazard ' + what, [v for v in a] + [v for v in o], [0., 1., 1., 2., 2., 3., 3., 4., 1, 1, 1, 1, c, c, c*.5, 0])
    __eq__('errors ' + what, [v for v in ea] + [v for v in eo] + [v for v in ee], [1.5, 2.5, 3.5, 1, c, c*.5, .2, .3, .1])
    return a, o, ea, eo, ee
for r in as_before('at first'):
    r[0] = 77.; r[-1] = 78.; r[1] = 79.
as_before('after the points handed out were changed')
for r in (vals, ws, err):
    r[:] = 55.
as_before('after the arrays given were changed')
pps.choice[0] = [2, 0]
got = p.sample(2)
__check__('sampled values', [v for v in got] == [3., 1.])
for i in range(3):
    for j in range(3):
        __eq__('weights of the sampler', pps.made[0].weights[i]*[1 - c, c*.5, c*.5][j], pps.made[0].weights[j]*[1 - c, c*.5, c*.5][i])
as_before('after sampling')
"""
WITHPL = {'modules': dict(OPQ['modules'], **{'matplotlib.pyplot': PYPLOT + "def errorbar(x, y, yerr=None, *a, **kw):\n    calls.append(('errorbar', list(x), list(y), list(yerr)))\nax.errorbar = errorbar\n"})}
HIST = [[(1, 2), (1, 2), (1, 1)], [(5, 2), (5, 1), (5, 1)], [(1, 2), (5, 2), (1, 2), (5, 2)], [(5, 2), (1, 1), (5, 1)],
        [(1, 1), (5, 2), (1, 1), (5, 1)], [(1, 4), (1, 2), (5, 4)], [(-1, 3), (1, 2), (-1, 3), (1, 2)], [(5, 2), (-5, 3), (5, 2), (-5, 5), (5, 1)],
        [(1, 2), (-1, 5), (5, 2), (5, 4)], [(5, 1), (1, 2), (5, 2), (1, 2), (5, 1)]]
P29 = Check('P29', 'indices, items, weights, set-up and generator states exchanged with the compiled sampler (replaced by its contract) '
            'are, as value numbers, those of the population, in every listed history', [
                Client('with replacement, ' + k, POP + WITH % v, opaque=lambda: OPQ) for k, v in MAKES.items()] + [
                Client('subsets %s' % (h,), POP + SUBSET % (MAKES['items and weights'] + (h,)), opaque=lambda: OPQ) for h in HIST] + [
                Client('subsets, ' + k, POP + SUBSET % (v + (HIST[3],)), opaque=lambda: OPQ) for k, v in MAKES.items()] + [
                Client('equal probabilities', POP + EQUAL, opaque=lambda: OPQ)] + [
                Client('one-dimensional %s%s' % (k, e), POP + ONE % (k, e, r, r or '(1., 3.)', bool(e), r), opaque=lambda: OPQ)
                for k, e, r in (('list', '', '0., 4.'), ('array', '', ''), ('array', ', err', '0., 5.'), ('list', ', err=array(err)', ''))] + [
                Client('curve (%s)%s' % (r, e), POP + CURVE % (e, r, lim, bool(e)), opaque=lambda: WITHPL)
                for e in ('', ', [.1, .2, .3]') for r, lim in (('', '(1., 3.)'), ('0., 4.', '(0., 4.)'), ('end=5.', '(1., 5.)'), ('start=1 - d', '(1 - d, 3.)'))] + [
                Client('handed out', POP + OWN, opaque=lambda: OPQ)])
CHECKS = [P28, P29]

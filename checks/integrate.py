from sa.report import Check, Client

STUBS = {
    'inference.integrate._adapt': '''
core = []
def adapt(a, b, minpts, maxpts, functn, eps, lenwrk, ndim=None, functn_extra_args=()):
    return core[0](a, b, minpts, maxpts, functn, eps, lenwrk, ndim, functn_extra_args)
adapt.__doc__ = 'documentation'
''',
    'inference.integrate._dcuhre': '''
core = []
def dcuhre(numfun, a, b, minpts, maxpts, funsub, epsabs, epsrel, key, restar, result, work, ndim=None, nw=None, funsub_extra_args=()):
    return core[0](numfun, a, b, minpts, maxpts, funsub, epsabs, epsrel, key, restar, result, work, ndim, nw, funsub_extra_args)
'''}
OPQ = lambda: {'modules': STUBS}

# ------------------------------------------------------------------ fixed cubature rules
CUB = '''
from inference.integrate.cub2d import rule_dict, NormWtCub2D, rect3d4pt, rect7d12pt, square1d4pt, square3d4pt, square7d12pt
from numpy import pi, sqrt
def dfact(n):
    """(n - 1)!! for even n"""
    return 1. if n < 2 else (n - 1)*dfact(n - 2)
def close(x, y, scale):
    d = x - y
    return -1.e-9*scale < d < 1.e-9*scale
'''
SQUARE = '''
rule, deg, n = %s, %d, %d
pts = []
def f(x, y):
    pts.append((x, y))
    return 1.
rule(f)
__check__('number of points', len(pts) == n)
for x, y in pts:
    __check__('points inside the square', -1 <= x <= 1 and -1 <= y <= 1)
for i in range(deg + 1):
    for j in range(deg + 1 - i):
        want = 0. if i %% 2 or j %% 2 else 4./((i + 1)*(j + 1))
        __check__('exact for monomials up to the stated degree', close(rule(lambda x, y: x**i*y**j), want, 1.))
        __check__('exact in either order of the variables', close(rule(lambda x, y: y**i*x**j), want, 1.))
g, h = __fun__('g'), __fun__('h')
a, b = __sym__('a'), __sym__('b')
__eq__('linear in the integrand', rule(lambda x, y: a*g(x, y) + b*h(x, y)), a*rule(g) + b*rule(h))
__eq__('points do not depend on the integrand', rule(g), sum([rule(lambda x, y: 1. if (x, y) == p else 0.)*g(p[0], p[1]) for p in pts]))
'''
RECT = '''
rule, sq = %s, %s
m, k, hx, hy = __sym__('m'), __sym__('k'), __sym__('hx'), __sym__('hy')
g = __fun__('g')
for s in (1, -1):
    __eq__('a rectangle is the scaled and shifted square', rule(g, (m - s*hx, m + s*hx), (k - hy, k + hy)), s*hx*hy*sq(lambda x, y: g(m + s*hx*x, k + hy*y)))
    __eq__('reversed second range', rule(g, [m - hx, m + hx], [k - s*hy, k + s*hy]), s*hx*hy*sq(lambda x, y: g(m + hx*x, k + hy*y)))
a, b, c, d = __sym__('a'), __sym__('b'), __sym__('c'), __sym__('d')
__eq__('area', rule(lambda x, y: %s, (a, b), (c, d)), (b - a)*(d - c))
__eq__('mean', rule(lambda x, y: x*y, (a, b), (c, d)), (b**2 - a**2)*(d**2 - c**2)/4)
'''
PLANE = '''
name, deg, n = '%s', %d, %d
f, absc, wts = rule_dict[name]
__check__('number of points', len(absc) == n and len(wts) == n)
for i in range(n):
    __check__('positive weights', wts[i] > 0)
pts = []
def seen(x, y):
    pts.append((x, y))
    return 1.
f(seen)
__check__('the function evaluates at all points once', len(pts) == n)
for i in range(deg + 1):
    for j in range(deg + 1 - i):
        want = 0. if i %% 2 or j %% 2 else 3.14159265358979324*dfact(i)*dfact(j)/2**((i + j)//2)
        scale = 1. if want < 1. else want
        __check__('exact for monomials up to the stated degree', close(f(lambda x, y: x**i*y**j), want, 10*scale if want else 100.))
        __check__('the tables have the rule of the function', close(sum([wts[k]*absc[k, 0]**i*absc[k, 1]**j for k in range(n)]), want, 10*scale if want else 100.))
g, h = __fun__('g'), __fun__('h')
a, b = __sym__('a'), __sym__('b')
__eq__('linear in the integrand', f(lambda x, y: a*g(x, y) + b*h(x, y)), a*f(g) + b*f(h))
'''
NORM = '''
name, deg = '%s', %d
arg = %s
x0, y0, sx, sy = __sym__('x0'), __sym__('y0'), __sym__('sx'), __sym__('sy')
f, absc, wts = rule_dict[name]
before = [[float(absc[k, 0]), float(absc[k, 1]), float(wts[k])] for k in range(len(wts))]
c = NormWtCub2D((x0, y0), (sx, sy)%s)
d = NormWtCub2D([0., 0.], [1., 1.]%s)
g = __fun__('g')
__eq__('moves and scales the standard normal', c(g), d(lambda x, y: g(x0 + sx*x, y0 + sy*y)))
for i in range(deg + 1):
    for j in range(deg + 1 - i):
        want = 0. if i %% 2 or j %% 2 else dfact(i)*dfact(j)
        scale = 1. if want < 1. else want
        __check__('moments of the normal distribution', close(d(lambda x, y: x**i*y**j), want, 100*scale if want else 1000.))
__eq__('the rule tables are not modified', [[absc[k, 0], absc[k, 1], wts[k]] for k in range(len(wts))], before)
for bad in (((x0,), (sx, sy)), ((x0, y0), (sx,)), ((x0, y0, x0), (sx, sy)), ((x0, y0), (sx, sy, sx)), ((x0, y0, x0), (sx, sy, sx))):
    ok = False
    try:
        NormWtCub2D(*bad)
    except ValueError:
        ok = True
    __check__('other dimensions are refused', ok)
ok = False
try:
    NormWtCub2D((x0, y0), (sx, sy), 'nosuch')
except KeyError:
    ok = True
__check__('unknown rules are refused', ok)
'''
RULES = [('e2r2_3_4a', 3, 4), ('e2_r2_3_4b', 3, 4), ('e2r2_5_9a', 5, 9), ('e2r2_5_9b', 5, 9), ('e2r2_7_12', 7, 12), ('e2r2_9_19a', 9, 19),
         ('e2r2_9_21', 9, 21), ('e2r2_11_28a', 11, 28), ('e2r2_11_28c', 11, 28), ('e2r2_13_36', 13, 36), ('e2r2_13_41', 13, 41)]
CL24 = [Client('square %s' % r, CUB + SQUARE % (r, d, n), opaque=OPQ) for r, d, n in (('square1d4pt', 1, 4), ('square3d4pt', 3, 4), ('square7d12pt', 7, 12))]
CL24 += [Client('square by rectangle %s' % r, CUB + SQUARE % ('lambda f: %s(f, (-1., 1.), (-1., 1.))' % r, d, n), opaque=OPQ)
         for r, d, n in (('rect3d4pt', 3, 4), ('rect7d12pt', 7, 12))]
CL24 += [Client('rectangle %s' % r, CUB + RECT % (r, s, one), opaque=OPQ) for r, s, one in (('rect3d4pt', 'square3d4pt', '1.'),
         ('rect7d12pt', 'square7d12pt', '1.'))]
CL24 += [Client('plane %s' % r, CUB + PLANE % (r, d, n), opaque=OPQ, timeout=200) for r, d, n in RULES]
CL24 += [Client('normal %s' % r, CUB + NORM % (r, d, 0, ", rule='%s'" % r, ", '%s'" % r), opaque=OPQ, timeout=200) for r, d, n in RULES if d < 12]
CL24 += [Client('normal default', CUB + NORM % ('e2r2_7_12', 7, 0, '', ''), opaque=OPQ)]
P24 = Check('P24', 'constant propagation of nodes and weights: each rule integrates every monomial up to its stated degree; value numbering: rectangle and normal '
            'rules are the affine images of the basic ones for every centre, scale and integrand', CL24)

# ------------------------------------------------------------------ adaptive cubature
ADAPT = '''
from inference.integrate.adapt import adapt
from inference.integrate import _adapt
calls = []
outcome = [0]
def core(*args):
    calls.append(args)
    return (77, __sym__('relerr'), __sym__('finest'), outcome[0])
_adapt.core.append(core)
n = %d
f = lambda x: x[0]
lo = [__sym__('lo%%d' %% i) for i in range(n)]
hi = [__sym__('hi%%d' %% i) for i in range(n)]
acc = __sym__('acc')
maxfac, wrkfac = 100, 1
%s
'''
ADAPT1 = '''
r = adapt(f, lo, hi, acc%s)
__eq__('result, error and number of evaluations', [r[0], r[1]], [__sym__('finest'), __sym__('relerr')])
__check__('result, error and number of evaluations', len(r) == 3 and r[2] == 77)
__check__('one computation', len(calls) == 1)
a, b, minpts, maxpts, func, eps, lenwrk, ndim, extra = calls[0]
need = 2**n + 2*n**2 + 6*n + 1
__check__('the integrand is the one given', func is f)
__eq__('the region is the one given', [[a[i], b[i]] for i in range(n)], [[lo[i], hi[i]] for i in range(n)])
__check__('the region is the one given', len(a) == n and len(b) == n and (ndim is None or ndim == n))
__eq__('the accuracy is the one given', eps, acc)
__check__('sizes are integers', isinstance(minpts, int) and isinstance(maxpts, int) and isinstance(lenwrk, int))
__check__('enough points for one application of the rule', minpts <= need <= maxpts and minpts >= 0)
__check__('the number of points is limited as asked', maxpts == maxfac*need)
__check__('the storage is what the limit needs, times the factor', lenwrk >= wrkfac*(2*n + 3)*(1 + maxfac)/2. - 1)
__check__('the storage grows as asked', lenwrk <= 2*wrkfac*(2*n + 3)*(1 + maxfac))
'''
ADAPT2 = '''
for code, kind in ((1, RuntimeError), (2, RuntimeError), (3, ValueError)):
    outcome[0] = code
    got = None
    try:
        adapt(f, lo, hi, acc)
    except Exception as e:
        got = e
    __check__('failures are reported', isinstance(got, kind))
    msg = str(got)
    if code == 1:
        __check__('what to do about it is said', 'maxfac' in msg)
    if code == 2:
        __check__('what to do about it is said', 'wrkfac' in msg)
'''
VEC = '''
from inference.integrate.adapt_vec import adapt_vec
from inference.integrate import _dcuhre
calls = []
outcome = [0]
def core(*args):
    calls.append(args)
    return (__opaque__('result'), __opaque__('abserr'), 99, outcome[0])
_dcuhre.core.append(core)
n, nf, key = %d, %d, %s
f = lambda x: [x[0]]*nf
lo = [__sym__('lo%%d' %% i) for i in range(n)]
hi = [__sym__('hi%%d' %% i) for i in range(n)]
rel, ab = __sym__('rel', dom='pos'), __sym__('ab', dom='pos')
def size(key):
    if key == 0:
        key = {2: 1, 3: 2}.get(n, 3)
    if key == 1:
        return 65
    if key == 2:
        return 127
    if key == 3:
        return 1 + 4*2*n + 2*n*(n - 1) + 4*n*(n - 1) + 4*n*(n - 1)*(n - 2)//3 + 2**n
    return 1 + 3*2*n + 2*n*(n - 1) + 2**n
'''
VEC1 = '''
r = adapt_vec(nf, f, lo, hi, rel%s)
minpts, maxpts, eabs = %s
__same__('results, errors and number of evaluations', [r[0], r[1]], [__opaque__('result'), __opaque__('abserr')])
__check__('results, errors and number of evaluations', len(r) == 3 and r[2] == 99)
__check__('one computation', len(calls) == 1)
numfun, a, b, mi, ma, func, epsabs, epsrel, k, restar, result, work, ndim, nw, extra = calls[0]
__check__('the integrand is the one given', func is f and numfun == nf)
__eq__('the region is the one given', [[a[i], b[i]] for i in range(n)], [[lo[i], hi[i]] for i in range(n)])
__check__('the region is the one given', len(a) == n and len(b) == n and (ndim is None or ndim == n))
__eq__('the accuracies are those given', [epsabs, epsrel], [eabs, rel])
__check__('the limits are those given', mi == minpts and ma == maxpts)
__check__('the rule is the one asked for', k == key and restar == 0)
__check__('a place for each result', len(result) == nf)
num = size(key)
sub = (maxpts - num)//(2*num) + 1
__check__('enough working space', len(work) >= sub*(2*n + 2*nf + 2) + 17*nf + 1)
'''
VEC2 = '''
for code in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13):
    outcome[0] = code
    got = None
    try:
        adapt_vec(nf, f, lo, hi, rel, key=key)
    except Exception as e:
        got = e
    __check__('failures are reported', isinstance(got, RuntimeError if code == 13 else ValueError))
'''
VEC3 = '''
for m in (0, 1, 16, 20):
    ok = False
    try:
        adapt_vec(nf, f, [0.]*m, [1.]*m, rel)
    except ValueError:
        ok = True
    __check__('dimensions other than 2 to 15 are refused', ok)
for m, k in ((3, 1), (4, 1), (2, 2), (4, 2), (2, 5), (3, 7), (2, -1)):
    ok = False
    try:
        adapt_vec(nf, f, [0.]*m, [1.]*m, rel, key=k)
    except ValueError:
        ok = True
    __check__('rules that do not exist in this dimension are refused', ok)
__check__('nothing is computed for refused arguments', calls == [])
for m in (2, 3, 4, 15):
    adapt_vec(nf, f, [0.]*m, [1.]*m, rel)
__check__('dimensions 2 to 15 are accepted', len(calls) == 4)
'''
CL25 = []
for n in (2, 3, 5, 9):
    for arg, pre in (('', ''), (', maxfac', 'maxfac = 7'), (', maxfac=maxfac', 'maxfac = 1'), (', maxfac, wrkfac', 'maxfac = 250; wrkfac = 3'),
                     (', wrkfac=wrkfac', 'wrkfac = 5')):
        CL25.append(Client('adapt %d %s %s' % (n, arg, pre), ADAPT % (n, pre) + ADAPT1 % arg, opaque=OPQ))
CL25.append(Client('adapt failures', ADAPT % (3, '') + ADAPT2, opaque=OPQ))
for n, nf, key in ((2, 1, 0), (2, 3, 1), (3, 2, 0), (3, 1, 2), (4, 2, 0), (7, 1, 0), (2, 2, 3), (3, 3, 3), (5, 2, 3), (2, 1, 4), (3, 2, 4), (6, 2, 4), (4, 5, 3)):
    for arg, val in ((', key=key', '0, 100000, 0.'), (', ab, key, 500, 30000', '500, 30000, ab'), (', key=key, maxpts=7001', '0, 7001, 0.'),
                     (', abseps=ab, key=key, minpts=11', '11, 100000, ab')):
        CL25.append(Client('vector %d %d %d%s' % (n, nf, key, arg), VEC % (n, nf, key) + VEC1 % (arg, val), opaque=OPQ))
    if key == 0:
        CL25.append(Client('vector %d %d defaults' % (n, nf), VEC % (n, nf, key) + VEC1 % ('', '0, 100000, 0.'), opaque=OPQ))
        CL25.append(Client('vector failures %d' % n, VEC % (n, nf, key) + VEC2, opaque=OPQ))
CL25.append(Client('vector refused', VEC % (2, 2, 0) + VEC3, opaque=OPQ))
P25 = Check('P25', 'what reaches the compiled integrators (region, accuracy, limits, working space) and what becomes of every outcome they report, on all paths of '
            'the wrappers', CL25, assumptions=['the compiled integrators ADAPT and DCUHRE are represented by their documented interface'])
CHECKS = [P24, P25]

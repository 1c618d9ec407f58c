"""Library functions the engine does not model natively, given by Python source that it interprets.
A name that is neither modelled nor listed here makes the client undecided (never a violation)."""
import ast

SOURCES = {}

SOURCES['itertools'] = '''
def chain(*its):
    return iter([x for i in its for x in i])
def _from_iterable(its):
    return iter([x for i in its for x in i])
chain.from_iterable = _from_iterable
def product(*its, repeat=1):
    out = [()]
    for p in [list(i) for i in its] * repeat:
        out = [o + (x,) for o in out for x in p]
    return iter(out)
def islice(it, *args):
    l = list(it)
    return iter(l[slice(*args)])
def accumulate(it, func=None, initial=None):
    out = []
    l = list(it)
    if initial is not None:
        l = [initial] + l
    for x in l:
        if not out:
            out.append(x)
        elif func is None:
            out.append(out[-1] + x)
        else:
            out.append(func(out[-1], x))
    return iter(out)
def starmap(f, it):
    return iter([f(*x) for x in it])
def takewhile(f, it):
    out = []
    for x in it:
        if not f(x):
            break
        out.append(x)
    return iter(out)
def dropwhile(f, it):
    out = []
    dropping = True
    for x in it:
        if dropping and f(x):
            continue
        dropping = False
        out.append(x)
    return iter(out)
def filterfalse(f, it):
    return iter([x for x in it if not f(x)])
def zip_longest(*its, fillvalue=None):
    ls = [list(i) for i in its]
    n = max([len(l) for l in ls])
    return iter([tuple([l[i] if i < len(l) else fillvalue for l in ls]) for i in range(n)])
def combinations(it, r):
    l = list(it)
    if r == 0:
        return iter([()])
    out = []
    for i in range(len(l)):
        for c in combinations(l[i+1:], r - 1):
            out.append((l[i],) + c)
    return iter(out)
def pairwise(it):
    l = list(it)
    return iter(list(zip(l[:-1], l[1:])))
def compress(data, sel):
    return iter([d for d, s in zip(data, sel) if s])
def tee(it, n=2):
    l = list(it)
    return tuple([iter(list(l)) for i in range(n)])
'''

SOURCES['operator'] = '''
def itemgetter(*items):
    if len(items) == 1:
        k = items[0]
        return lambda o: o[k]
    return lambda o: tuple([o[k] for k in items])
def _dotted(o, n):
    for p in n.split('.'):
        o = getattr(o, p)
    return o
def attrgetter(*names):
    if len(names) == 1:
        k = names[0]
        return lambda o: _dotted(o, k)
    return lambda o: tuple([_dotted(o, k) for k in names])
def methodcaller(name, *args, **kw):
    return lambda o: getattr(o, name)(*args, **kw)
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def truediv(a, b): return a / b
def floordiv(a, b): return a // b
def mod(a, b): return a % b
def neg(a): return -a
def pos(a): return +a
def abs(a): return abs(a)
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def eq(a, b): return a == b
def ne(a, b): return a != b
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def not_(a): return not a
def truth(a): return True if a else False
def contains(a, b): return b in a
def getitem(a, b): return a[b]
def pow(a, b): return a ** b
def concat(a, b): return a + b
def and_(a, b): return a & b
def or_(a, b): return a | b
def index(a): return a.__index__()
'''
SOURCES['operator'] = SOURCES['operator'].replace('def abs(a): return abs(a)\n', '')

SOURCES['math'] = '''
def isclose(a, b, rel_tol=1e-9, abs_tol=0.):
    if a == b:
        return True
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)
def factorial(n):
    r = 1
    for i in range(2, n + 1):
        r = r * i
    return r
def gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)
def ldexp(x, i):
    return x * 2.**i
'''

SOURCES['numpy'] = '''
import numpy as np
def fromiter(it, dtype=float, count=-1):
    l = list(it)
    if count >= 0:
        if count > len(l):
            raise ValueError('iterator too short')
        l = l[:count]
    return np.array(l, dtype)
def reciprocal(x): return 1. / x
def cbrt(x): return x ** (1./3)
def exp2(x): return 2. ** x
def positive(x): return x
def float_power(a, b): return (a * 1.) ** b
def degrees(x): return x * 180. / np.pi
rad2deg = degrees
def radians(x): return x * np.pi / 180.
deg2rad = radians
def ptp(x): return np.max(x) - np.min(x)
def average(x, axis=None, weights=None):
    if weights is None:
        return np.mean(x, axis)
    return np.sum(np.multiply(x, weights), axis) / np.sum(weights, axis)
def _tup(x):
    return [np.atleast_1d(i) for i in x]
def hstack(x):
    x = _tup(x)
    if x[0].ndim == 1:
        return np.concatenate(x)
    return np.concatenate(x, 1)
row_stack = np.vstack
def stack(x, axis=0):
    a = np.array(list(x))
    if axis == 0:
        return a
    if axis in (1, -1) and a.ndim == 2:
        return a.T
    raise __Giveup__('stack')
def geomspace(a, b, num=50):
    return np.exp(np.linspace(np.log(a), np.log(b), num))
def product(x, axis=None): return np.prod(x, axis)
def tile(x, n):
    x = np.atleast_1d(x)
    if x.ndim != 1 or not isinstance(n, int):
        raise __Giveup__('tile')
    return np.array(list(x) * n)
def repeat(x, n, axis=None):
    if axis is not None or not isinstance(n, int):
        raise __Giveup__('repeat')
    return np.array([v for v in np.ravel(x) for i in range(n)])
def take(x, i, axis=None):
    if axis in (None, 0) and (axis == 0 or np.ndim(x) == 1):
        return np.asarray(x)[i]
    raise __Giveup__('take')
def flip(x, axis=None):
    x = np.asarray(x)
    if x.ndim == 1 or axis == 0:
        return x[::-1]
    if x.ndim == 2 and axis == 1:
        return x[:, ::-1]
    if x.ndim == 2 and axis is None:
        return x[::-1, ::-1]
    raise __Giveup__('flip')
def flipud(x): return np.asarray(x)[::-1]
def fliplr(x): return np.asarray(x)[:, ::-1]
def count_nonzero(x):
    n = 0
    for v in np.ravel(x):
        if v:
            n = n + 1
    return n
def cumprod(x):
    out = []
    for v in np.ravel(x):
        out.append(v if not out else out[-1] * v)
    return np.array(out)
def diag(x):
    x = np.asarray(x)
    n = len(x)
    if x.ndim == 1:
        r = np.zeros((n, n))
        for i in range(n):
            r[i, i] = x[i]
        return r
    return np.array([x[i, i] for i in range(min(x.shape))])
diagonal = diag
def trace(x):
    t = 0
    for i in range(min(np.shape(x))):
        t = t + x[i, i]
    return t
def expand_dims(x, axis):
    x = np.asarray(x)
    if axis == 0:
        return x[np.newaxis]
    if axis == 1 and x.ndim == 1:
        return x[:, np.newaxis]
    raise __Giveup__('expand_dims')
def swapaxes(x, a, b):
    if np.ndim(x) == 2 and a != b:
        return np.transpose(x)
    raise __Giveup__('swapaxes')
def broadcast_to(x, shape):
    return np.zeros(shape) + x
def isclose(a, b, rtol=1e-5, atol=1e-8):
    return abs(np.subtract(a, b)) <= atol + rtol * abs(np.asarray(b) * 1.)
def isposinf(x): return np.asarray(x) == np.inf
def isneginf(x): return np.asarray(x) == -np.inf
def around(x, n=0): return np.round(x, n)
def polyval(p, x):
    y = 0. * x
    for c in p:
        y = y * x + c
    return y
def remainder(a, b): return a % b
def ndindex(*shape):
    if len(shape) == 1 and not isinstance(shape[0], int):
        shape = tuple(shape[0])
    out = [()]
    for n in shape:
        out = [o + (i,) for o in out for i in range(n)]
    return iter(out)
def ndenumerate(x):
    x = np.asarray(x)
    return iter([(i, x[i]) for i in ndindex(*x.shape)])
def copyto(dst, src):
    dst[...] = src
def delete(x, i, axis=None):
    x = np.asarray(x)
    if x.ndim != 1 or not isinstance(i, int):
        raise __Giveup__('delete')
    if i < 0:
        i = i + len(x)
    return np.array([x[j] for j in range(len(x)) if j != i])
def insert(x, i, v, axis=None):
    l = list(x)
    if np.ndim(x) != 1 or not isinstance(i, int) or np.ndim(v) != 0:
        raise __Giveup__('insert')
    l.insert(i, v)
    return np.array(l)
def argwhere(x):
    if np.ndim(x) != 1:
        raise __Giveup__('argwhere')
    return np.array([[i] for i in range(len(x)) if x[i]])
def kron(a, b): return np.outer(a, b).ravel()
def median(x):
    s = np.sort(x)
    n = len(s)
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2.
def indices(shape):
    n, m = shape
    return np.array([[[i for j in range(m)] for i in range(n)], [[j for j in range(m)] for i in range(n)]])
def unique(x):
    out = []
    for v in np.sort(np.ravel(x)):
        if not out or out[-1] != v:
            out.append(v)
    return np.array(out)
def interp(x, xp, fp, left=None, right=None):
    if np.ndim(x) != 0:
        return np.array([interp(v, xp, fp, left, right) for v in x])
    if x < xp[0]:
        return fp[0] if left is None else left
    if x > xp[-1]:
        return fp[-1] if right is None else right
    r = fp[-1]
    for i in range(len(xp) - 2, -1, -1):
        if x < xp[i+1]:
            r = fp[i] + (fp[i+1] - fp[i]) * (x - xp[i]) / (xp[i+1] - xp[i])
    return r
def nan_to_num(x): raise __Giveup__('nan_to_num')
def atleast_2d(x):
    x = np.asarray(x)
    if x.ndim == 0:
        return x.reshape(1, 1)
    if x.ndim == 1:
        return x[np.newaxis, :]
    return x
def fmod(a, b):
    q = a / b
    return a - b * np.trunc(q)
def arctan2(y, x): raise __Giveup__('arctan2')
def einsum(spec, *ops):
    if spec in ('i,i', 'i,i->', 'j,j', 'j,j->'):
        return np.dot(ops[0], ops[1])
    if spec == 'ij,j->i' or spec == 'ij,j' or spec == 'ij,jk->ik' or spec == 'ij,jk':
        return np.dot(ops[0], ops[1])
    if spec in ('i,j->ij', 'i,j'):
        return np.outer(ops[0], ops[1])
    raise __Giveup__('einsum')
def logical_xor(a, b): return np.not_equal(a, b)
def select(conds, choices, default=0):
    r = default
    for c, v in list(zip(conds, choices))[::-1]:
        r = np.where(c, v, r)
    return r
def tensordot(a, b, axes=2):
    if axes == 1 and np.ndim(a) <= 2 and np.ndim(b) <= 2:
        return np.dot(a, b)
    if axes == 2 and np.ndim(a) == 2 and np.ndim(b) == 2:
        return np.sum(np.multiply(a, b))
    raise __Giveup__('tensordot')
'''

SOURCES['numpy.linalg'] = '''
import numpy as np
def norm(x, ord=None, axis=None):
    if ord not in (None, 2) or axis is not None or np.ndim(x) != 1:
        raise __Giveup__('norm')
    return np.sqrt(np.sum(np.asarray(x) ** 2))
def solve(a, b):
    return np.dot(np.linalg.inv(a), b)
def det(a):
    n = len(a)
    if n == 1:
        return a[0][0] * 1.
    t = 0.
    for j in range(n):
        m = np.array([[a[i][k] for k in range(n) if k != j] for i in range(1, n)])
        t = t + (-1)**j * a[0][j] * det(m)
    return t
'''

SOURCES['$builtins'] = '''
def fromkeys(keys, value=None):
    return {k: value for k in keys}
'''

SOURCES['types'] = '''
class SimpleNamespace(object):
    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])
'''

SOURCES['collections'] = '''
OrderedDict = dict
def namedtuple(typename, field_names, **kw):
    if kw:
        raise __Giveup__('namedtuple')
    if isinstance(field_names, str):
        field_names = field_names.replace(',', ' ').split()
    names = tuple(field_names)
    class _T(tuple):
        _fields = names
        def __new__(cls, *args, **kw):
            vals = list(args)
            for n in names[len(args):]:
                if n not in kw:
                    raise TypeError('missing argument')
                vals.append(kw[n])
            if len(args) > len(names) or len(kw) != len(names) - len(args):
                raise TypeError('unexpected arguments')
            self = tuple.__new__(cls, vals)
            for n, v in zip(names, vals):
                self.__dict__[n] = v
            return self
        def _replace(self, **kw):
            return self.__class__(*[kw.get(n, v) for n, v in zip(names, self)])
        def _asdict(self):
            return dict(zip(names, self))
    _T.__name__ = typename
    return _T
class defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kw):
        dict.__init__(self, *args, **kw)
        self.default_factory = default_factory
    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v
class deque(list):
    def appendleft(self, x):
        self.insert(0, x)
    def popleft(self):
        return self.pop(0)
    def extendleft(self, it):
        for x in it:
            self.insert(0, x)
'''

SOURCES['contextlib'] = '''
class suppress(object):
    def __init__(self, *excs):
        self.excs = excs
    def __enter__(self):
        return None
    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)
class closing(object):
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *exc):
        self.thing.close()
class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, *exc):
        return None
'''

SOURCES['functools'] = '''
def lru_cache(maxsize=128, typed=False):
    raise __Giveup__('lru_cache')
def cmp_to_key(f):
    raise __Giveup__('cmp_to_key')
'''


def _names():
    out = {}
    for m, s in SOURCES.items():
        for n in ast.parse(s).body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out[m + '.' + n.name] = m
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                out[m + '.' + n.targets[0].id] = m
    return out


NAMES = _names()

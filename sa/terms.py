"""Value-numbering domain.

A numeric value is a canonical polynomial (with rational coefficients) over
interned atoms.  Atoms are input symbols, uninterpreted applications of
callbacks / library functions, element selections, reductions over vectors,
gated phi nodes (``case``) and loop-head phis.  Two values with the same
canonical form are equal for every input.  Where canonical forms differ the
domain falls back on *random interpretation* (Gulwani & Necula): both terms
are evaluated in the term algebra at random valuations that satisfy the path
facts.  Nothing of the analysed program is executed.
"""
from fractions import Fraction
import math
import hashlib
import itertools
import numpy as np

_atoms = {}
_counter = itertools.count(1)


class Atom:
    __slots__ = ('id', 'op', 'args', 'rank', 'attrs', '_weak')

    def __repr__(self):
        return atom_str(self)

    def __lt__(self, o):
        return self.id < o.id


def mk_atom(op, args, rank=0, **attrs):
    key = (op, args, rank)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = next(_counter)
        a.op = op
        a.args = args
        a.rank = rank
        a.attrs = attrs
        a._weak = None
        _atoms[key] = a
    return a


def atom_str(a):
    if a.op == 'sym' or a.op == 'phi':
        return str(a.args[0])
    if a.op == 'const':
        return str(a.args[0])
    if a.op == 'case':
        return 'case(' + '; '.join(
            ' & '.join(guard_str(g) for g in gs) + ' -> ' + str(v) for gs, v in a.args) + ')'
    if a.op == 'app':
        return '%s(%s)' % (a.args[0], ', '.join(map(str, a.args[1:])))
    if a.op == 'idx':
        return '%s[%s]' % (a.args[0], ','.join(map(str, a.args[1:])))
    return '%s(%s)' % (a.op, ', '.join(map(str, a.args)))


def guard_str(g):
    if g[0] == 'or':
        return '(' + ' | '.join(' & '.join(guard_str(x) for x in c) for c in g[1]) + ')'
    if g[0] == 'opq':
        return ('' if g[2] else 'not ') + str(g[1])
    return '%s %s 0' % (g[1], g[0])


class Poly:
    __slots__ = ('t', 'h', '_rank')

    def __init__(self, t):
        self.t = t
        self.h = hash(t)
        self._rank = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.h == o.h and self.t == o.t

    @property
    def rank(self):
        if self._rank is None:
            r = 0
            for m, c in self.t:
                for a, e in m:
                    if a.rank > r:
                        r = a.rank
            self._rank = r
        return self._rank

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def const_part(self):
        for m, c in self.t:
            if m == ():
                return c
        return Fraction(0)

    def single_atom(self):
        if len(self.t) == 1:
            m, c = self.t[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        s = set()
        for m, c in self.t:
            for a, e in m:
                s.add(a)
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t:
            fs = []
            for a, e in m:
                fs.append(repr(a) if e == 1 else '%r**%s' % (a, e))
            cs = str(c) if c.denominator == 1 or len(str(c)) < 12 else '%.6g' % float(c)
            if not fs:
                out.append(cs)
            elif c == 1:
                out.append('*'.join(fs))
            elif c == -1:
                out.append('-' + '*'.join(fs))
            else:
                out.append(cs + '*' + '*'.join(fs))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]


_SORT = lambda kv: tuple((a.id, e) for a, e in kv[0])


def from_dict(d):
    return Poly(tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=_SORT)))


ZERO = Poly(())


def C(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            return A(mk_atom('const', (repr(x),)))
        x = Fraction(repr(x))
    else:
        x = Fraction(x)
    if x == 0:
        return ZERO
    return Poly((((), x),))


ONE = C(1)


def A(atom):
    return Poly(((((atom, 1),), Fraction(1)),))


def sym(name, rank=0, **attrs):
    return A(mk_atom('sym', (name,), rank, **attrs))


INF = C(float('inf'))
NAN = C(float('nan'))


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    d = dict(p.t)
    for m, c in q.t:
        d[m] = d.get(m, 0) + c
    return from_dict(d)


def neg(p):
    return Poly(tuple((m, -c) for m, c in p.t))


def sub(p, q):
    return add(p, neg(q))


def scale(p, c):
    if c == 0:
        return ZERO
    return Poly(tuple((m, k * c) for m, k in p.t))


def _mono_mul(m1, m2):
    """Product of monomials -> (mono, extra Poly factor or None)."""
    d = {}
    exparg = None
    for a, e in itertools.chain(m1, m2):
        if a.op == 'exp':
            arg = scale(a.args[0], e)
            exparg = arg if exparg is None else add(exparg, arg)
        else:
            d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.op == 'inv' and e < 0:
            del d[a]
            f = powi(a.args[0], -e)
            extra = f if extra is None else mul(extra, f)
        elif a.op == 'sqrt' and abs(e) >= 2:
            k = int(e / 2)
            d[a] = e - 2 * k
            if d[a] == 0:
                del d[a]
            f = powi(a.args[0], k)
            extra = f if extra is None else mul(extra, f)
    if exparg is not None:
        f = exp(exparg)
        if len(f.t) == 1 and f.t[0][1] == 1:
            for a, e in f.t[0][0]:
                d[a] = d.get(a, 0) + e
        elif len(f.t) != 1 or f.t[0][0] != ():
            extra = f if extra is None else mul(extra, f)
        else:
            extra = f if extra is None else mul(extra, f)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), extra


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p == ONE:
        return q
    if q == ONE:
        return p
    # cancellation  p * inv(p')
    for x, y in ((p, q), (q, p)):
        if len(y.t) == 1 and len(x.t) > 1:
            m, c = y.t[0]
            for a, e in m:
                if a.op == 'inv' and e > 0:
                    r = _ratio(x, a.args[0])
                    if r is not None:
                        rest = Poly(((tuple((b, k) if b is not a else (b, k - 1) for b, k in m
                                            if b is not a or k > 1), c * r),))
                        return rest
    d = {}
    extras = []
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            m, ex = _mono_mul(m1, m2)
            c = c1 * c2
            if ex is not None:
                extras.append(scale(mul(Poly(((m, Fraction(1)),)), ex), c))
            else:
                d[m] = d.get(m, 0) + c
    r = from_dict(d)
    for e in extras:
        r = add(r, e)
    return _reduce(r)


def _polydiv(p, q):
    """exact quotient p/q (nonnegative exponents, one divisor) or None"""
    ids = sorted({a for a in p.atoms() | q.atoms()}, key=lambda a: a.id)

    def order(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in ids)
    for pp in (p, q):
        for m, c in pp.t:
            for a, e in m:
                if e < 0:
                    return None
    lm, lc = max(q.t, key=lambda t: order(t[0]))
    ld = dict(lm)
    rem = dict(p.t)
    quo = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 60:
            return None
        m = max(rem, key=order)
        c = rem[m]
        d = dict(m)
        for a, e in ld.items():
            if d.get(a, 0) < e:
                return None
            d[a] -= e
        qm = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))
        qc = c / lc
        quo[qm] = quo.get(qm, 0) + qc
        for m2, c2 in q.t:
            dd = dict(qm)
            for a, e in m2:
                dd[a] = dd.get(a, 0) + e
            k = tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda ae: ae[0].id))
            v = rem.get(k, 0) - qc * c2
            if v == 0:
                rem.pop(k, None)
            else:
                rem[k] = v
    return from_dict(quo)


def _reduce(p):
    """cancel inv(q) where the collected numerator is divisible by q"""
    if len(p.t) < 2 or len(p.t) > 40:
        return p
    invs = {a for m, c in p.t for a, e in m if a.op == 'inv'}
    for a in invs:
        q = a.args[0]
        num, rest = {}, {}
        for m, c in p.t:
            d = dict(m)
            if d.get(a, 0) >= 1:
                d[a] -= 1
                k = tuple((b, e) for b, e in m if b is not a) if d[a] == 0 else tuple(
                    (b, e if b is not a else e - 1) for b, e in m)
                num[k] = num.get(k, 0) + c
            else:
                rest[m] = rest.get(m, 0) + c
        if len(num) < 2 or any(x.op == 'exp' for x in q.atoms()):
            continue
        np_ = from_dict(num)
        # factor out negative powers
        common = {}
        for m, c in np_.t:
            for b, e in m:
                if e < 0:
                    common[b] = min(common.get(b, 0), e)
        if common:
            up = Poly(((tuple(sorted(((b, -e) for b, e in common.items()), key=lambda ae: ae[0].id)), Fraction(1)),))
            dn = Poly(((tuple(sorted(common.items(), key=lambda ae: ae[0].id)), Fraction(1)),))
            if any(b.op in ('exp', 'sqrt', 'inv') for b in common):
                continue
            np2 = mul(np_, up)
        else:
            np2, dn = np_, ONE
        quo = _polydiv(np2, q)
        if quo is not None:
            if dn is not ONE:
                quo = mul(quo, dn)
            return _reduce(add(quo, from_dict(rest)))
    return p


def _ratio(p, q):
    """constant r with p == r*q, or None"""
    if len(p.t) != len(q.t) or not p.t:
        return None
    r = p.t[0][1] / q.t[0][1]
    for (m1, c1), (m2, c2) in zip(p.t, q.t):
        if m1 != m2 or c1 != r * c2:
            return None
    return r


def inv(q):
    c = q.const()
    if c is not None:
        if c == 0:
            return A(mk_atom('div0', ()))
        return C(1 / c)
    if len(q.t) == 1:
        m, c = q.t[0]
        r = C(1 / c)
        for a, e in m:
            if a.op == 'inv':
                r = mul(r, powi(a.args[0], e))
            elif a.op == 'exp':
                r = mul(r, exp(scale(a.args[0], -e)))
            else:
                r = mul(r, Poly((((((a, -e),)), Fraction(1)),)))
        return r
    # common monomial factor
    common = None
    for m, c in q.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            for a in list(common):
                if a in d and a.op != 'exp':
                    common[a] = min(common[a], d[a]) if common[a] > 0 and d[a] > 0 else (
                        common[a] if common[a] == d[a] else 0)
                    if common[a] == 0:
                        del common[a]
                else:
                    del common[a]
    if common:
        cm = Poly(((tuple(sorted(common.items(), key=lambda ae: ae[0].id)), Fraction(1)),))
        rest = mul(q, inv(cm))
        return mul(inv(cm), inv(rest))
    lead = q.t[0][1]
    prim = scale(q, 1 / lead)
    return scale(A(mk_atom('inv', (prim,), q.rank)), 1 / lead)


def div(p, q):
    if p == q:
        return ONE
    if len(q.t) > 1:
        r = _ratio(p, q)
        if r is not None:
            return C(r)
    return mul(p, inv(q))


def powi(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(p, -n))
    if len(p.t) == 1 and all(a.op not in ('exp', 'sqrt', 'inv') for a, e in p.t[0][0]):
        m, c = p.t[0]
        return Poly(((tuple((a, e * n) for a, e in m), c ** n),))
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


def power(p, q):
    c = q.const()
    if c is not None and c.denominator == 1 and abs(c) <= (40 if p.const() is not None else 12):
        return powi(p, int(c))
    if c is not None and c == Fraction(1, 2):
        return sqrt(p)
    if p.const() == 1:
        return ONE
    if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][0].op == 'exp':
        a, e = p.t[0][0][0]
        return exp(mul(scale(a.args[0], e), q))
    # b**q == exp(q*log b) for positive b; keep in that form
    return A(mk_atom('pow', (p, q), max(p.rank, q.rank)))


def exp(p):
    if not p.t:
        return ONE
    # pull single  log atoms with integer coefficient out of the exponent
    out = ONE
    rest = p
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'log' and c.denominator == 1:
            out = mul(out, powi(m[0][0].args[0], int(c)))
            rest = sub(rest, Poly(((m, c),)))
    if not rest.t:
        return out
    return mul(out, A(mk_atom('exp', (rest,), rest.rank)))


def _positive(a):
    return a.op == 'exp' or a.attrs.get('dom', ('',))[0] == 'pos'


def log(p):
    c = p.const()
    if c == 1:
        return ZERO
    if len(p.t) == 1 and p.t[0][1] > 0:
        m, c = p.t[0]
        if len(m) == 1 and m[0][0].op == 'exp':
            r = scale(m[0][0].args[0], m[0][1])
            return add(r, log(C(c))) if c != 1 else r
        if m and (len(m) > 1 or m[0][1] != 1 or c != 1) and all(_positive(a) for a, e in m):
            r = log(C(c)) if c != 1 else ZERO
            for a, e in m:
                r = add(r, scale(log(A(a)), e))
            return r
    return A(mk_atom('log', (p,), p.rank))


def sqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return C(Fraction(n, d))
    if len(p.t) == 1 and not p.rank and p.t[0][1] > 0 and p.t[0][0]:
        m, c = p.t[0]
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator and all(e % 2 == 0 and _positive(a) for a, e in m):
            r = C(Fraction(n, d))
            for a, e in m:
                r = mul(r, powi(A(a), e // 2))
            return r
    return A(mk_atom('sqrt', (p,), p.rank))


def fabs(p):
    c = p.const()
    if c is not None:
        return C(abs(c))
    if p.t and p.t[0][1] < 0:
        p = neg(p)
    return A(mk_atom('abs', (p,), p.rank))


def fmax(ps):
    return _minmax('max2', ps)


def fmin(ps):
    return _minmax('min2', ps)


def _minmax(op, ps):
    flat = []
    for p in ps:
        a = p.single_atom()
        if a is not None and a.op == op:
            flat.extend(a.args)
        else:
            flat.append(p)
    consts = [p.const() for p in flat if p.const() is not None]
    rest = sorted({p for p in flat if p.const() is None}, key=lambda p: tuple(map(_SORT, p.t)))
    if consts:
        k = max(consts) if op == 'max2' else min(consts)
        rest.append(C(k))
    if len(rest) == 1:
        return rest[0]
    return A(mk_atom(op, tuple(rest), max(p.rank for p in rest)))


def fn(name, *args):
    """elementwise library function"""
    return A(mk_atom(name, tuple(args), max([a.rank for a in args] + [0])))


def app(name, *args, **attrs):
    """uninterpreted application (args: Poly or hashable); elementwise on vectors"""
    r = max([a.rank for a in args if isinstance(a, Poly)] + [0])
    return A(mk_atom('app', (name,) + tuple(args), r, **attrs))


# --------------------------------------------------------------- vectors
REDUCE = {'sum', 'vmax', 'vmin', 'opaque_red'}
ELEMWISE = {'exp', 'log', 'sqrt', 'abs', 'inv', 'pow', 'max2', 'min2', 'app', 'case', 'floor',
            'trunc', 'ceil', 'round', 'sin', 'cos', 'tan', 'mod', 'isinf', 'isnan', 'gammaln', 'clip',
            'floordiv', 'sign', 'imax', 'cmp', 'arctan', 'let', 'erfc', 'chi2cdf', 'chi2sf', 'chi2ppf', 'chi2isf'}


def veclen(p):
    """Poly length of a rank-1 poly (first axis)"""
    for m, c in p.t:
        for a, e in m:
            if a.rank >= 1:
                n = atom_len(a)
                if n is not None:
                    return n
    return None


def atom_len(a):
    if 'len' in a.attrs and a.attrs['len'] is not None:
        return a.attrs['len']
    if a.op == 'slice':
        return sub(a.args[2], a.args[1])
    if a.op == 'iota':
        return a.args[0]
    if a.op == 'store':
        return veclen(a.args[0])
    if a.op == 'fill':
        return a.args[0]
    if a.op == 'rev':
        return veclen(a.args[0])
    if a.op == 'concat':
        t = ZERO
        for x in a.args:
            n = veclen(x)
            if n is None:
                return None
            t = add(t, n)
        return t
    if a.op == 'items':
        return C(len(a.args))
    if a.op == 'case':
        for gs, v in a.args:
            if v.rank:
                return veclen(v)
        return None
    if a.op in ELEMWISE:
        for x in a.args:
            if isinstance(x, Poly) and x.rank >= 1:
                n = veclen(x)
                if n is not None:
                    return n
    return None


def map_poly(p, f):
    """rebuild p replacing each atom a by f(a) (a Poly or None to keep)."""
    r = ZERO
    changed = False
    for m, c in p.t:
        t = C(c)
        for a, e in m:
            v = f(a)
            if v is None:
                v = A(a)
            else:
                changed = True
            if isinstance(e, int):
                t = mul(t, powi(v, e))
            else:
                t = mul(t, power(v, C(e)))
        r = add(r, t)
    return r if changed else p


def let(p, n):
    """name a term: the value number of a sub-expression, opaque to the algebra but not to evaluation"""
    if p.rank or p.const() is not None:
        return p
    if len(p.t) <= n and all(e == 1 and a.op != 'case' for m, c in p.t for a, e in m) and \
            all(len(m) <= 1 for m, c in p.t):
        return p
    if len(p.t) == 1 and all(a.op != 'case' for a, e in p.t[0][0]):
        return p
    return A(mk_atom('let', (p,), 0))


def rebuild(a, args):
    """atom a with new args -> Poly, renormalising"""
    op = a.op
    if op == 'exp':
        return exp(args[0])
    if op == 'log':
        return log(args[0])
    if op == 'sqrt':
        return sqrt(args[0])
    if op == 'abs':
        return fabs(args[0])
    if op == 'inv':
        return inv(args[0])
    if op == 'pow':
        return power(args[0], args[1])
    if op in ('max2', 'min2'):
        return _minmax(op, args)
    if op == 'idx':
        return idx(args[0], *args[1:])
    if op == 'sum':
        return vsum(args[0])
    if op in ('vmax', 'vmin'):
        return vext(op, args[0])
    if op == 'slice':
        return slice_(args[0], args[1], args[2])
    if op == 'trunc':
        return trunc(args[0])
    if op == 'case':
        return case(args)
    if op == 'let':
        return let(args[0], 1)
    if op in ELEMWISE:
        r = max([x.rank for x in args if isinstance(x, Poly)] + [0])
        return A(mk_atom(op, tuple(args), r, **{k: v for k, v in a.attrs.items() if k != 'len'}))
    return A(mk_atom(op, tuple(args), a.rank, **a.attrs))


def trunc(p):
    c = p.const()
    if c is not None:
        return C(int(c))
    if is_int(p):
        return p
    k = closed_near(p)
    if k is not None:
        return C(k if k >= 0 else k + 1)
    return A(mk_atom('trunc', (p,), p.rank, kind='int'))


def is_int(p):
    for m, c in p.t:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not (a.attrs.get('kind') == 'int' or a.op in ('trunc', 'floor', 'ceil', 'iota')
                             or (a.op == 'floordiv' and a.attrs.get('kind') == 'int')):
                return False
    return True


def subst(p, mp, memo=None):
    """substitute atoms by Polys, deeply"""
    if memo is None:
        memo = {}

    def fa(a):
        if a in mp:
            return mp[a]
        if a in memo:
            return memo[a]
        new, ch = _map_args(a.args, lambda q: subst(q, mp, memo))
        r = rebuild(a, new) if ch else None
        memo[a] = r
        return r
    return map_poly(p, fa)


def _map_args(args, f):
    ch = False
    new = []
    for x in args:
        if isinstance(x, Poly):
            y = f(x)
            if y != x:
                ch = True
            new.append(y)
        elif isinstance(x, tuple):
            y, c2 = _map_args(x, f)
            ch = ch or c2
            new.append(y)
        else:
            new.append(x)
    return tuple(new), ch


def all_atoms(p, acc=None):
    if acc is None:
        acc = set()

    def walk(args):
        for x in args:
            if isinstance(x, Poly):
                all_atoms(x, acc)
            elif isinstance(x, tuple):
                walk(x)
    for m, c in p.t:
        for a, e in m:
            if a not in acc:
                acc.add(a)
                walk(a.args)
    return acc


CLOSED = {'erfc', 'chi2cdf', 'chi2sf', 'chi2ppf', 'chi2isf', 'exp', 'log', 'sqrt', 'abs', 'inv', 'pow', 'max2', 'min2', 'let', 'pi', 'const', 'gammaln', 'sin', 'cos', 'tan', 'arctan'}
_closed = {}


def closed(p):
    """value of a term without unknowns, or None (also when cancellation makes its sign uncertain)"""
    c = p.const()
    if c is not None:
        return float(c)
    r = _closed.get(p, 0)
    if r != 0:
        return r
    _closed[p] = None
    if p.rank or not all((a.op in CLOSED or (a.op == 'sym' and a.args[0] == 'pi')) and not a.rank for a in all_atoms(p)):
        return None
    try:
        env = Env(1)
        v, scale = 0., 0.
        for m, c in p.t:
            t = float(env.poly(Poly(((m, c),)))) if m else float(c)
            v += t
            scale += abs(t)
        if v == v and abs(v) > 1e-9 * scale and scale < 1e300:
            _closed[p] = v
            return v
    except Exception:
        pass
    return None


def closed_near(p):
    """an integer k with k < value of p < k + 1, clear of both ends, or None"""
    v = closed(p)
    if v is None or abs(v) > 1e9:
        return None
    k = math.floor(v)
    return k if 1e-6 < v - k < 1 - 1e-6 else None


def closed_round(p, nd=0):
    """a term without unknowns rounded to nd digits, or None"""
    v = closed(p)
    if v is None or abs(v) > 1e9:
        return None
    x = v * 10**nd
    k = math.floor(x + .5)
    return Fraction(k, 10**nd) if abs(x + .5 - k) > 1e-5 and abs(x + .5 - k - 1) > 1e-5 else None


def idx(p, *ix):
    """element selection; distributes over elementwise structure"""
    ix = tuple(C(i) for i in ix)
    if p.rank == 0:
        return p

    def fa(a):
        if a.rank == 0:
            return None
        return idx_atom(a, ix)
    return map_poly(p, fa)


def idx_atom(a, ix):
    i = ix[0]
    if a.op == 'case':
        def ig(g):
            if g[0] == 'opq':
                return g
            if g[0] == 'or':
                return ('or', tuple(tuple(ig(h) for h in c) for c in g[1]))
            return (g[0], idx(g[1], *ix))
        return case(tuple((tuple(ig(g) for g in gs), idx(v, *ix)) for gs, v in a.args))
    if a.op == 'app' or a.op in ELEMWISE:
        new = tuple(idx(x, *ix) if isinstance(x, Poly) and x.rank else x for x in a.args)
        return rebuild(a, new)
    if a.op == 'slice' and len(ix) >= 1:
        return idx(a.args[0], add(a.args[1], i), *ix[1:])
    if a.op == 'rev':
        n = veclen(a.args[0])
        return idx(a.args[0], sub(sub(n, ONE), i), *ix[1:])
    if a.op == 'iota':
        return i
    if a.op == 'fill':
        return a.args[1]
    if a.op == 'items':
        c = i.const()
        if c is not None and c.denominator == 1:
            return a.args[int(c)]
    if a.op == 'store' and len(ix) == len(a.args[1]):
        base, sx, v = a.args
        d = [sub(u, w) for u, w in zip(ix, sx)]
        if all(not q.t for q in d):
            return v
        if any(q.const() is not None and q.const() != 0 for q in d):
            return idx(base, *ix)
        g = tuple(('==', q) for q in d if q.t)
        return case(((g, v), ((), idx(base, *ix))))
    if len(ix) < a.rank:
        return A(mk_atom('idx', (A(a),) + ix, a.rank - len(ix)))
    return A(mk_atom('idx', (A(a),) + ix, 0))


def slice_(p, lo, hi):
    lo, hi = C(lo), C(hi)
    if p.rank == 0:
        return p
    n = veclen(p)
    if n is not None and not lo.t and hi == n:
        return p

    def fa(a):
        if a.rank == 0:
            return None
        if a.op == 'app' or a.op in ELEMWISE:
            new = tuple(_slice_arg(x, lo, hi) for x in a.args)
            return rebuild(a, new)
        if a.op == 'slice':
            return slice_(a.args[0], add(a.args[1], lo), add(a.args[1], hi))
        if a.op == 'fill':
            return A(mk_atom('fill', (sub(hi, lo), a.args[1]), 1))
        return A(mk_atom('slice', (A(a), lo, hi), a.rank))
    return map_poly(p, fa)


def _slice_arg(x, lo, hi):
    if isinstance(x, Poly):
        return slice_(x, lo, hi) if x.rank else x
    if isinstance(x, tuple):
        return tuple(_slice_arg(y, lo, hi) for y in x)
    return x


def vsum(p):
    """sum of all elements; linear"""
    if p.rank == 0:
        return p
    r = ZERO
    n = veclen(p)
    for m, c in p.t:
        sc = C(c)
        vec = []
        for a, e in m:
            if a.rank == 0:
                sc = mul(sc, Poly((((((a, e),)), Fraction(1)),)))
            else:
                vec.append((a, e))
        if not vec:
            r = add(r, mul(sc, n if n is not None else sym('?len')))
        elif len(vec) == 1 and vec[0][1] == 1 and vec[0][0].op == 'items':
            t = ZERO
            for x in vec[0][0].args:
                t = add(t, x)
            r = add(r, mul(sc, vsum(t) if t.rank else t))
        elif len(vec) == 1 and vec[0][1] == 1 and vec[0][0].op == 'fill':
            r = add(r, mul(sc, mul(vec[0][0].args[0], vec[0][0].args[1])))
        elif len(vec) == 1 and vec[0][1] == 1 and vec[0][0].op == 'concat':
            t = ZERO
            for x in vec[0][0].args:
                t = add(t, vsum(x))
            r = add(r, mul(sc, t))
        else:
            vp = Poly(((tuple(vec), Fraction(1)),))
            r = add(r, mul(sc, A(mk_atom('sum', (vp,), 0))))
    return r


def vext(op, p):
    """max / min over all elements, pulling out additive scalars and positive factors"""
    if p.rank == 0:
        return p
    s, v = ZERO, ZERO
    for m, c in p.t:
        if all(a.rank == 0 for a, e in m):
            s = add(s, Poly(((m, c),)))
        else:
            v = add(v, Poly(((m, c),)))
    if len(v.t) == 1:
        m, c = v.t[0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'exp' and c > 0:
            return add(s, scale(exp(vext(op, m[0][0].args[0])), c))
        if c < 0:
            other = 'vmin' if op == 'vmax' else 'vmax'
            return add(s, neg(vext(other, neg(v))))
        if c != 1:
            return add(s, scale(vext(op, scale(v, 1 / c)), c))
    return add(s, A(mk_atom(op, (v,), 0)))


def unindex(p, k, n):
    """vector V of length n with V[k] == p, or None.  k: atom"""
    bad = []

    def fa(a):
        if a is k:
            return A(mk_atom('iota', (n,), 1))
        if a.op == 'idx':
            base, ix = a.args[0], a.args[1:]
            if k in all_atoms(base):
                bad.append(a)
                return None
            off = sub(ix[0], A(k))
            if len(ix) == 1 and k not in all_atoms(off):
                L = veclen(base)
                if not off.t and (L is None or L == n):
                    return base
                return slice_(base, off, add(off, n))
            if any(k in all_atoms(x) for x in ix):
                bad.append(a)
            return None
        if k not in all_atoms(A(a)):
            return None
        if a.op in ELEMWISE:
            def f(q):
                return unindex_(q)
            new, ch = _map_args(a.args, f)
            return rebuild(a, new)
        bad.append(a)
        return None

    def unindex_(q):
        return map_poly(q, fa)
    r = unindex_(p)
    if bad:
        return None
    if r.rank == 0:
        r = mul(r, A(mk_atom('fill', (n, ONE), 1)))
    return r


# --------------------------------------------------------------- guards
NEGOP = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def _expratio(m1, m2):
    """u when m1/m2 is exp(u) and both monomials are positive"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) - e
    if not all(a.op == 'exp' if e else _positive(a) for a, e in d.items()):
        return None
    r = ZERO
    for a, e in d.items():
        if e:
            r = add(r, scale(a.args[0], e))
    return r


def norm_cmp(op, p):
    """normalise  p op 0  to ops <,<=,==,!="""
    if len(p.t) == 2:
        (m1, c1), (m2, c2) = p.t
        if c1 == -c2 and not p.rank:
            d = _expratio(m1, m2)
            if d is not None:                           # exp is increasing: compare the exponents
                p = d if c1 > 0 else neg(d)
    if op == '>':
        return ('<', neg(p))
    if op == '>=':
        return ('<=', neg(p))
    if op in ('==', '!='):
        if p.t and p.t[0][1] < 0:
            p = neg(p)
    return (op, p)


def neg_guard(g):
    if g[0] == 'opq':
        return ('opq', g[1], not g[2])
    if g[0] == 'or':
        raise ValueError('negated disjunction')
    return norm_cmp(NEGOP[g[0]], g[1])


def case(alts):
    """gated phi: first alternative whose guards all hold"""
    out = []
    for gs, v in alts:
        keep = []
        dead = False
        for g in gs:
            if g[0] not in ('opq', 'or'):
                c = g[1].const()
                if c is not None:
                    ok = {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[g[0]]
                    if not ok:
                        dead = True
                        break
                    continue
            keep.append(g)
        if dead:
            continue
        out.append((tuple(keep), v))
        if not keep:
            break
    if not out:
        return NAN
    vals = {v for gs, v in out}
    if len(vals) == 1:
        return out[0][1]
    if not out[0][0]:
        return out[0][1]
    while len(out) > 1 and out[-1][1] == out[-2][1] and not out[-1][0]:
        out.pop(-2)
    if len(out) == 1:
        return out[0][1]
    if len(out) == 2 and len(out[0][0]) == 1 and not out[1][0]:
        # canonical orientation of a two-way gate
        g = out[0][0][0]
        if g[0] == '!=' or (g[0] in ('<', '<=') and g[1].t[0][1] < 0) or (g[0] == 'opq' and not g[2]):
            out = [((neg_guard(g),), out[1][1]), ((), out[0][1])]
    r = max([v.rank for gs, v in out] + [g[1].rank for gs, v in out for g in gs if g[0] not in ('opq', 'or')])
    return A(mk_atom('case', tuple(out), r))


def case_alts(a):
    """alternatives of a case atom with first-match conditions made explicit where possible"""
    out = []
    prev = ()
    for gs, v in a.args:
        out.append((prev + tuple(gs), v))
        prev = prev + neg_conj(gs)
    return out


def neg_conj(gs):
    """guards equivalent to the negation of a conjunction"""
    if len(gs) == 1 and gs[0][0] != 'or':
        return (neg_guard(gs[0]),)
    alts = []
    for g in gs:
        if g[0] != 'or':
            alts.append((neg_guard(g),))
            continue
        parts = [()]
        for c in g[1]:
            parts = [x + y for x in parts for h in c for y in [neg_conj((h,))]]
            if len(parts) > 32:
                return (('opq', ('choice', 'negation', gs), True),)
        alts += parts
    return (('or', tuple(alts)),)


def find_case(p):
    """an innermost scalar case atom occurring in p, or None"""
    best = None
    for a in all_atoms(p):
        if a.op == 'case' and a.rank == 0:
            inner = False
            for gs, v in a.args:
                if any(b.op == 'case' for b in all_atoms(v)):
                    inner = True
                for g in gs:
                    if g[0] not in ('opq', 'or') and any(b.op == 'case' for b in all_atoms(g[1])):
                        inner = True
            if not inner:
                if best is None or a.id < best.id:
                    best = a
    return best


# --------------------------------------------------------------- weakness
def weak_atoms(p):
    return {a for a in all_atoms(p) if a.op == 'phi' or a.op == 'unk'}


def unknown_atoms(p):
    return {a for a in all_atoms(p) if a.op == 'unk'}


_phi_n = itertools.count(1)


def fresh_phi(name='phi', rank=0, **attrs):
    return mk_atom('phi', ('%s#%d' % (name, next(_phi_n)),), rank, **attrs)


def fresh_unk(name='unk', rank=0, **attrs):
    return mk_atom('unk', ('%s#%d' % (name, next(_phi_n)),), rank, **attrs)


# --------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def _h(*xs):
    s = repr(xs).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), 'big')


class Env:
    """random valuation of the free atoms (deterministic in seed)"""

    def __init__(self, seed, over=None, scale=1.0, opq=None):
        self.opq = opq or {}
        self.seed = seed
        self.scale = scale
        self.over = dict(over or {})    # atom -> Poly | number | array
        self.memo = {}
        self.busy = set()
        self._apps = None

    def u(self, *key):
        return _h(self.seed, *key) / 2.0**64

    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        tot = 0.0
        for m, c in p.t:
            t = float(c)
            for a, e in m:
                v = self.atom(a)
                if e == 1:
                    t = t * v
                elif e < 0:
                    if np.any(np.asarray(v) == 0):
                        raise EvalError('division by zero')
                    t = t * (1.0 * v) ** float(e)
                else:
                    t = t * v ** e
            tot = tot + t
        self.memo[p] = tot
        return tot

    def val(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, tuple):
            return tuple(self.val(y) for y in x)
        return x

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        if a in self.busy:
            raise EvalError('cyclic')
        self.busy.add(a)
        try:
            v = self._atom(a)
        finally:
            self.busy.discard(a)
        self.memo[a] = v
        return v

    def _shape(self, a):
        L = a.attrs.get('shape')
        if L is None:
            n = a.attrs.get('len')
            L = (n,) if n is not None else (None,) * a.rank
        out = []
        for n in L:
            out.append(5 if n is None else int(round(float(self.poly(n)))))
        while len(out) < a.rank:
            out.append(4)
        return tuple(max(0, x) for x in out[:a.rank])

    def _free(self, a):
        dom = a.attrs.get('dom')
        kind = a.attrs.get('kind')
        name = repr(a.op) + repr(a.args) + str(a.rank)

        def one(*k):
            u = self.u(name, *k)
            if dom is not None:
                if dom[0] == 'int':
                    return float(dom[1] + int(u * (dom[2] - dom[1] + 1)))
                if dom[0] == 'unit':
                    return 0.02 + 0.96 * u
                if dom[0] == 'pos':
                    return (0.1 + 3 * u) * self.scale
                if dom[0] == 'neg':
                    return -(0.1 + 3 * u) * self.scale
                if dom[0] == 'range':
                    return dom[1] + u * (dom[2] - dom[1])
                if dom[0] == 'choice':
                    return float(dom[1][int(u * len(dom[1]))])
            if kind == 'int':
                return float(int(u * 7) + 1)
            return (u - 0.4) * 5 * self.scale
        if a.rank == 0:
            return one()
        shp = self._shape(a)
        arr = np.zeros(shp)
        for ix in np.ndindex(*shp):
            arr[ix] = one(ix)
        return arr

    def guards(self, gs):
        """truth of a guard conjunction (elementwise for arrays)"""
        r = True
        for g in gs:
            if g[0] == 'or':
                b = any(bool(np.all(self.guards(c))) for c in g[1])
            elif g[0] == 'opq':
                b = (self.opq[g[1]] if g[1] in self.opq else self.u('opq', str(g[1])) < 0.5) == g[2]
            else:
                x = self.poly(g[1])
                # strict guards need a margin, weak ones get (much less) slack: rounding never satisfies a contradiction
                mag = max(1.0, self._mag(g[1]))
                if g[0] == '<':
                    b = x < -1e-8 * mag
                elif g[0] == '<=':
                    b = x <= 1e-12 * mag
                elif g[0] == '==':
                    b = abs(x) <= 1e-9 * mag
                else:
                    b = abs(x) > 1e-8 * mag
            r = np.logical_and(r, b) if isinstance(b, np.ndarray) or isinstance(r, np.ndarray) else (r and b)
        return r

    def _mag(self, p):
        try:
            m = 0.0
            for mono, c in p.t:
                t = abs(float(c))
                for a, e in mono:
                    v = self.atom(a)
                    v = float(np.max(np.abs(v))) if isinstance(v, np.ndarray) and v.size else (
                        abs(float(v)) if not isinstance(v, np.ndarray) else 0.0)
                    if v == 0 and e < 0:
                        continue
                    t *= v ** float(e)
                m = max(m, t)
            return m if math.isfinite(m) else 1.0
        except OverflowError:
            return 1.0

    def _atom(self, a):
        if a in self.over:
            o = self.over[a]
            return self.poly(o) if isinstance(o, Poly) else o
        op = a.op
        if op in ('sym', 'phi', 'unk'):
            if op == 'sym' and a.args[0] == 'pi':
                return math.pi
            return self._free(a)
        if op == 'const':
            return float(a.args[0])
        try:
            with np.errstate(all='ignore'):
                return self._fn(a)
        except (ZeroDivisionError, OverflowError, ValueError, IndexError) as e:
            raise EvalError(str(e))

    def _fn(self, a):
        op = a.op
        if op == 'case':
            conds = []
            for gs, v in a.args:
                c = self.guards(gs)
                if not isinstance(c, np.ndarray):
                    conds.append((c, v))
                    if c:
                        break
                else:
                    conds.append((c, v))
            if len(conds) == 1 and not isinstance(conds[0][0], np.ndarray) and conds[0][0]:
                return self.poly(conds[0][1])
            if not any(isinstance(c, np.ndarray) for c, v in conds):
                for c, v in conds:
                    if c:
                        return self.poly(v)
                raise EvalError('no case')
            res = None
            done = None
            for c, v in conds:
                if not isinstance(c, np.ndarray) and not c:
                    continue
                try:
                    x = self.poly(v)
                except EvalError:
                    x = np.nan
                if res is None:
                    res = np.where(c, x, np.nan)
                    done = np.array(c) if isinstance(c, np.ndarray) else np.full(res.shape, bool(c))
                else:
                    cc = np.logical_and(c, np.logical_not(done))
                    res = np.where(cc, x, res)
                    done = np.logical_or(done, cc)
            return res
        if op == 'idx':
            base = self.poly(a.args[0])
            ix = tuple(int(round(float(self.poly(i)))) for i in a.args[1:])
            base = np.asarray(base)
            for i, n in zip(ix, base.shape):
                if i < 0 or i >= n:
                    raise EvalError('index out of range')
            r = base[ix]
            return float(r) if np.ndim(r) == 0 else r
        if op == 'slice':
            base = np.asarray(self.poly(a.args[0]))
            lo = int(round(float(self.poly(a.args[1]))))
            hi = int(round(float(self.poly(a.args[2]))))
            if lo < 0 or hi > len(base):
                raise EvalError('slice out of range')
            return base[lo:hi]
        if op == 'iota':
            return np.arange(int(round(float(self.poly(a.args[0]))))).astype(float)
        if op == 'fill':
            return np.full(int(round(float(self.poly(a.args[0])))), float(self.poly(a.args[1])))
        if op == 'rev':
            return np.asarray(self.poly(a.args[0]))[::-1]
        if op == 'items':
            return np.array([self.poly(x) for x in a.args])
        if op == 'concat':
            return np.concatenate([np.atleast_1d(self.poly(x)) for x in a.args])
        if op == 'store':
            base = np.array(self.poly(a.args[0]), dtype=float)
            ix = tuple(int(round(float(self.poly(i)))) for i in a.args[1])
            for i, n in zip(ix, base.shape):
                if i < 0 or i >= n:
                    raise EvalError('store out of range')
            base[ix] = self.poly(a.args[2])
            return base
        if op == 'sum':
            return float(np.sum(self.poly(a.args[0])))
        if op == 'vmax':
            v = np.asarray(self.poly(a.args[0]))
            if v.size == 0:
                raise EvalError('max of empty')
            return float(np.max(v))
        if op == 'vmin':
            v = np.asarray(self.poly(a.args[0]))
            if v.size == 0:
                raise EvalError('min of empty')
            return float(np.min(v))
        if op == 'div0':
            raise EvalError('division by zero')
        if op == 'app':
            return self._app(a)
        if op not in _NP:
            # unknown function symbol: free value keyed by evaluated args
            return self._app(a)
        xs = [self.poly(x) for x in a.args]
        r = _NP[op](*xs)
        if isinstance(r, np.ndarray):
            return r
        r = float(r)
        if math.isnan(r):
            raise EvalError('nan')
        return r

    def _app(self, a):
        name = a.args[0] if a.op == 'app' else a.op
        args = a.args[1:] if a.op == 'app' else a.args
        vals = [self.val(x) for x in args]
        if a.rank == 0 or not any(isinstance(v, np.ndarray) for v in vals) or a.op == 'red':
            if a.rank:
                shp = self._shape(a)
                arr = np.zeros(shp)
                for ix in np.ndindex(*shp):
                    arr[ix] = self._free_app(a, name, vals, ix)
                return arr
            return self._free_app(a, name, vals, ())
        # elementwise
        n = max(len(v) for v in vals if isinstance(v, np.ndarray))
        return np.array([self._free_app(a, name, [v[i] if isinstance(v, np.ndarray) else v for v in vals], ())
                         for i in range(n)])

    def _app_over(self):
        """values imposed on function applications, keyed by function and argument values: equal arguments, equal results"""
        t = self._apps
        if t is None:
            self._apps = {}
            t = {}
            for a, v in self.over.items():
                if a.op == 'app' and a.rank == 0:
                    key = (a.args[0], tuple(_rnd(self.val(x)) for x in a.args[1:]))
                    v = float(self.poly(v)) if isinstance(v, Poly) else v
                    if key in t and abs(t[key] - v) > 1e-9 * max(1.0, abs(v)):
                        raise EvalError('one function, two values at one point')
                    t[key] = v
            self._apps = t
            if t:
                self.memo = {}
        return t

    def _free_app(self, a, name, vals, ix):
        if ix == () and self.over:
            t = self._app_over()
            if t:
                k = (name, tuple(_rnd(v) for v in vals))
                if k in t:
                    return t[k]
        u = self.u('app', name, tuple(_rnd(v) for v in vals), ix)
        dom = a.attrs.get('dom')
        if dom is not None:
            if dom[0] == 'pos':
                return 0.1 + 3 * u
            if dom[0] == 'neg':
                return -0.1 - 3 * u
            if dom[0] == 'unit':
                return 0.02 + 0.96 * u
            if dom[0] == 'int':
                return float(dom[1] + int(u * (dom[2] - dom[1] + 1)))
        if a.attrs.get('kind') == 'int':
            return float(int(u * 7))
        return (u - 0.45) * 5


def _rnd(v):
    if isinstance(v, tuple):
        return tuple(_rnd(x) for x in v)
    if isinstance(v, np.ndarray):
        return tuple(_rnd(x) for x in v.ravel().tolist())
    if isinstance(v, (float, int, np.floating)):
        v = float(v)
        if v == 0 or not math.isfinite(v):
            return v
        if abs(v) < 1e-12:
            return 0.0
        return float('%.8g' % v)
    return v


def _chi2(meth):
    def f(x, df):
        from scipy import stats
        return getattr(stats.chi2, meth)(x, df) if df > 0 else float('nan')
    return f


def _erfc(x):
    return math.erfc(x) if not isinstance(x, np.ndarray) else np.array([math.erfc(t) for t in x])


def _gl(x):
    return math.lgamma(x) if not isinstance(x, np.ndarray) else np.array([math.lgamma(t) for t in x])


_NP = {
    'exp': np.exp, 'log': np.log, 'sqrt': np.sqrt, 'abs': np.abs, 'inv': lambda x: 1.0 / x,
    'pow': lambda b, e: np.power(b * 1.0, e), 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc,
    'round': np.round, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'arctan': np.arctan,
    'let': lambda a: a,
    'mod': lambda a, b: np.mod(a, b), 'floordiv': lambda a, b: np.floor_divide(a, b),
    'isinf': lambda x: 1.0 * np.isinf(x), 'isnan': lambda x: 1.0 * np.isnan(x),
    'max2': lambda *xs: _fold(np.maximum, xs), 'min2': lambda *xs: _fold(np.minimum, xs),
    'gammaln': _gl, 'erfc': _erfc, 'chi2cdf': _chi2('cdf'), 'chi2sf': _chi2('sf'), 'chi2ppf': _chi2('ppf'), 'chi2isf': _chi2('isf'),
    'clip': lambda x, a, b: np.clip(x, a, b),
    'imax': lambda *xs: _fold(np.maximum, xs), 'sign': np.sign,
}


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r

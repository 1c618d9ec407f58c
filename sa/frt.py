"""Abstract semantics of the lowered Fortran operations and of the f2py argument conventions."""
from fractions import Fraction
from .values import *
from . import lib
from . import terms as T
from .terms import C, A, ZERO, add, sub, mul, neg, norm_cmp, mk_atom, sym
from .lib import BUILTINS, Builtin, T_giveup


def frt(name, nl=False):
    def deco(f):
        BUILTINS[name] = Builtin(('nl:' if nl else '') + name, f)
        return f
    return deco


def num(it, v):
    v = it.payload(v)
    p = num_poly(v)
    if p is None:
        if isinstance(v, Opq):
            return lib.unk(('f', v.t)).p
        it.exc('TypeError', 'number expected in compiled code')
    return p


@frt('__f_const')
def f_const(it, a, k):
    return Num(C(Fraction(a[0])), 'f')


def check_ix(it, o, ixs, what):
    ob = it.st.heap[o.o]
    if len(ixs) != len(ob.shape):
        raise T_giveup('rank of %s' % what)
    for i, n in zip(ixs, ob.shape):
        i = it.payload(i)
        if isinstance(i, int):
            if isinstance(n, int):
                if not 0 <= i < n:
                    it.exc('MemoryError', 'subscript of %s outside its extent (%d of %d)' % (what, i, n))
                continue
        p = num_poly(i)
        n = C(n) if isinstance(n, int) else n
        for g in (norm_cmp('>=', p), norm_cmp('<', sub(p, n))):
            c = it.guardbool(g[0], g[1])
            it.branch(c, lambda: None, lambda: it.exc('MemoryError', 'subscript of %s outside its extent' % what))


@frt('__f_get')
def f_get(it, a, k):
    o, ix, what = a
    check_ix(it, o, ix.l, what)
    return lib.arr_getitem(it, o, it.st.heap[o.o], ix)


@frt('__f_set')
def f_set(it, a, k):
    o, ix, v, what = a
    check_ix(it, o, ix.l, what)
    return lib.arr_setitem(it, o, it.st.heap[o.o], ix, v)


@frt('__f_fill')
def f_fill(it, a, k):
    lib.np_fill(it, a, k)


@frt('__f_alloc')
def f_alloc(it, a, k):
    kd = 'i' if a[0] == 'i' else 'f'
    return lib.np_full(0)(it, [Tup(tuple(a[1:]))], {'dtype': Opq(('dtype', kd))})


@frt('__f_undef')
def f_undef(it, a, k):
    return Num(sym('undefined %s#%d' % (a[0], next(it.choice))), 'f')


@frt('__f_maybe', nl=True)
def f_maybe(it, a, k):
    from .interp import ExcC
    n0 = len(it.results)
    outs, caught, rest = it.collect(lambda: it.call(a[0], []), (ExcC,))
    for c, s in caught:
        s2 = s
        outs.append((s2, Num(sym('undefined value#%d' % next(it.choice)), 'f')))
    return it.resume(outs, rest)


@frt('__f_int')
def f_int(it, a, k):
    v = it.payload(a[0])
    if kind_of(v) in ('i', 'b'):
        return v
    return mknum(T.trunc(num(it, v)), 'i')


@frt('__f_nint')
def f_nint(it, a, k):
    p = num(it, a[0])
    c = p.const()
    if c is not None:
        import math
        return int(math.floor(abs(c) + Fraction(1, 2))) * (1 if c >= 0 else -1)
    return Num(A(mk_atom('round', (p,), 0, kind='int')), 'i')


@frt('__f_floor')
def f_floor(it, a, k):
    return mknum(lib._floorp(num(it, a[0])), 'i')


@frt('__f_real')
def f_real(it, a, k):
    v = it.payload(a[0])
    if lib.is_arr(it, v):
        return lib._float(it, [v], {})
    return Num(num(it, v), 'f')


@frt('__f_idiv')
def f_idiv(it, a, k):
    p, q = num(it, a[0]), num(it, a[1])
    if p.const() is not None and q.const() is not None:
        if q.const() == 0:
            it.exc('ZeroDivisionError', 'integer division')
        r = abs(int(p.const())) // abs(int(q.const()))
        return r if (p.const() >= 0) == (q.const() > 0) else -r
    return mknum(T.trunc(T.div(p, q)), 'i')


@frt('__f_mod')
def f_mod(it, a, k):
    p, q = num(it, a[0]), num(it, a[1])
    if p.const() is not None and q.const() is not None:
        x, y = p.const(), q.const()
        r = abs(x) % abs(y)
        r = r if x >= 0 else -r
        return mknum(C(r), 'i' if kind_of(it.payload(a[0])) == 'i' else 'f')
    return mknum(sub(p, mul(q, T.trunc(T.div(p, q)))), 'i' if kind_of(it.payload(a[0])) == 'i' else 'f')


for _n in ('max', 'min', 'abs'):
    BUILTINS['__f_' + _n] = Builtin('__f_' + _n, BUILTINS[_n].f)


def _elem(name):
    def f(it, a, k):
        return lib.np_elem(name, a[0], it)
    return f


for _n, _m in (('sqrt', 'sqrt'), ('log', 'log'), ('exp', 'exp'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'),
               ('atan', 'arctan'), ('log10', 'log10'), ('log_gamma', 'gammaln')):
    BUILTINS['__f_' + _n] = Builtin('__f_' + _n, _elem(_m))


@frt('__f_sign')
def f_sign(it, a, k):
    x, y = num(it, a[0]), num(it, a[1])
    return it.branch(it.guardbool('>=', y), lambda: Num(T.fabs(x), 'f'), lambda: Num(neg(T.fabs(x)), 'f'))


@frt('__f_callback')
def f_callback(it, a, k):
    return it.call(a[0], list(a[1:]))


@frt('__f_stop')
def f_stop(it, a, k):
    it.exc('SystemExit', 'STOP in compiled code')


@frt('__f_scalar')
def f_scalar(it, a, k):
    v, t = a
    v = it.payload(v)
    if lib.is_arr(it, v):
        v = lib._float(it, [v], {})
    if isinstance(v, (str, SStr)) or v is None or (isinstance(v, Ref) and not lib.is_arr(it, v)):
        it.exc('TypeError', 'a number is required by the compiled routine')
    if t == 'i':
        return f_int(it, [v], {})
    return Num(num(it, v), 'f')


@frt('__f_array')
def f_array(it, a, k):
    """f2py intent(in): the caller's own memory when type and layout fit, a converted copy otherwise"""
    v, t, nd, written, what = a
    v = it.payload(v)
    kd = 'i' if t == 'i' else 'f'
    if lib.is_vec(it, v):
        if it.st.get(v).k == kd:
            return v
        return lib.np_array(it, [v, Opq(('dtype', kd))], {})
    if lib.is_arr(it, v):
        ob = it.st.get(v)
        if len(ob.shape) == nd and ob.k == kd:
            contiguous = all(q == ob.pos[0] + j for j, q in enumerate(ob.pos)) if ob.pos else True
            if nd == 1 and contiguous:
                return v
            if nd == 2 and min(ob.shape) == 1 and contiguous:
                return v
        if len(ob.shape) < nd:
            it.exc('ValueError', '%s: too few dimensions' % what)
    if num_poly(v) is not None:
        v = lib.arr_new(it, [v], (1,) * nd, kd)
        return v
    if v is None or isinstance(v, (str, SStr)):
        it.exc('ValueError', '%s: array expected' % what)
    r = lib.np_array(it, [v, Opq(('dtype', kd))], {})
    if lib.is_arr(it, r) and len(it.st.get(r).shape) != nd:
        it.exc('ValueError', '%s: wrong number of dimensions' % what)
    return r


@frt('__f_shape')
def f_shape(it, a, k):
    n = it.st.get(a[0]).shape[a[1]]
    return n if isinstance(n, int) else mknum(n, 'i')


@frt('__f_extent')
def f_extent(it, a, k):
    o, what, dims = a[0], a[1], a[2:]
    ob = it.st.get(o)
    for n, d in zip(ob.shape, dims):
        if d is None:
            continue
        n = C(n) if isinstance(n, int) else n
        # f2py refuses an array whose extent is too small
        c = it.guardbool('<=', sub(num(it, d), n))
        it.branch(c, lambda: None, lambda: it.exc('ValueError', 'array %s too short for the compiled routine' % what))


@frt('__f_out')
def f_out(it, a, k):
    return a[0]

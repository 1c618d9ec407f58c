"""Summaries of the Python builtins and of the library functions the repository uses."""
import ast
import math
from fractions import Fraction
from .values import *
from . import terms as T
from .terms import (find_case, case_alts, subst, C, A, ZERO, ONE, add, sub, mul, div, neg, mk_atom, norm_cmp, neg_guard, case, idx, slice_, veclen,
                    vsum, vext, app, fn, sym)

BUILTINS = {}
NUMPY_NAMES = None


# ================================================================= natives
def _mkcls(it, name, bases, native=None, d=None):
    bo = [b.o for b in bases]
    c = HClass(name, bo, None, d or {}, None, native)
    ref = it.st.alloc(c)
    mro = [ref.o]
    for b in bases:
        for x in it.st.heap[b.o].mro:
            if x not in mro:
                mro.append(x)
    c.mro = mro
    it.natives[name] = ref
    return ref


EXC = [('BaseException', 'object'), ('Exception', 'BaseException'), ('ArithmeticError', 'Exception'),
       ('ZeroDivisionError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'),
       ('LookupError', 'Exception'), ('IndexError', 'LookupError'), ('KeyError', 'LookupError'),
       ('ValueError', 'Exception'), ('TypeError', 'Exception'), ('AttributeError', 'Exception'),
       ('NameError', 'Exception'), ('UnboundLocalError', 'NameError'), ('RuntimeError', 'Exception'),
       ('RecursionError', 'RuntimeError'), ('NotImplementedError', 'RuntimeError'), ('StopIteration', 'Exception'),
       ('AssertionError', 'Exception'), ('ImportError', 'Exception'), ('ModuleNotFoundError', 'ImportError'),
       ('OSError', 'Exception'), ('FileNotFoundError', 'OSError'), ('PermissionError', 'OSError'),
       ('FileExistsError', 'OSError'), ('IOErr', 'OSError'), ('EOFError', 'Exception'),
       ('FloatingPointError', 'ArithmeticError'), ('Warning', 'Exception'), ('SystemExit', 'BaseException'),
       ('KeyboardInterrupt', 'BaseException'), ('LinAlgError', 'ValueError'), ('UserWarning', 'Warning'),
       ('DeprecationWarning', 'Warning')]


def install(it):
    o = _mkcls(it, 'object', [], 'object')
    it.st.get(o).d.update({
        '__init__': Builtin('object.__init__', _object_init),
        '__new__': Wrap('staticmethod', Builtin('nl:object.__new__', _object_new)),
        '__setattr__': Builtin('nl:object.__setattr__', lambda it, a, k: it.obj_setattr(a[0], a[1], a[2])),
        '__getattribute__': Builtin('object.__getattribute__', lambda it, a, k: _obj_getattribute(it, *a)),
        '__delattr__': Builtin('object.__delattr__', lambda it, a, k: _obj_delattr(it, *a)),
        '__init_subclass__': Wrap('classmethod', Builtin('object.__init_subclass__', lambda it, a, k: None)),
    })
    for n in ('type', 'float', 'int', 'bool', 'str', 'bytes', 'tuple', 'list', 'dict', 'set', 'frozenset', 'iter',
              'function', 'module', 'property', 'NoneType', 'ndarray', 'complex', 'file', 'npz', 'slice'):
        base = o
        if n == 'bool':
            base = it.natives['int']
        _mkcls(it, n, [base], n)
    nt = it.natives
    for n in ('float', 'int', 'str', 'tuple'):
        it.st.get(nt[n]).d['__new__'] = Wrap('staticmethod', Builtin('%s.__new__' % n, _payload_new))
        it.st.get(nt[n]).d['__init__'] = Builtin('%s.__init__' % n, lambda it, a, k: None)
    for n in ('list', 'dict'):
        it.st.get(nt[n]).d['__init__'] = Builtin('%s.__init__' % n, _container_init)
    it.st.get(nt['type']).d.update({
        '__init__': Builtin('nl:type.__init__', lambda it, a, k: None),
        '__new__': Wrap('staticmethod', Builtin('nl:type.__new__', _type_new)),
        '__call__': Builtin('nl:type.__call__', lambda it, a, k: _type_call(it, a, k)),
    })
    for n, b in EXC:
        _mkcls(it, n, [nt[b]], 'exception')
    it.st.get(nt['BaseException']).d['__init__'] = Builtin('nl:BaseException.__init__', _exc_init)
    it.st.get(nt['BaseException']).d['__str__'] = Builtin('BaseException.__str__', _exc_str)
    nt['IOError'] = nt['OSError']
    nt['EnvironmentError'] = nt['OSError']
    fs = HDict()
    fs.kind = 'fs'
    it.fs = it.st.alloc(fs)
    rng = HDict()
    rng.kind = 'rng'
    it.rng = it.st.alloc(rng)
    rng.d.update(state=Opq(('rng0',)), n=0)
    rng.keys.update(state='state', n='n')


def _object_init(it, a, k):
    if len(a) > 1 or k:
        if it.is_inst(a[0]):
            c = it.st.heap[it.st.heap[a[0].o].cls]
            if c.native in (None, 'object') and not isinstance(it.class_lookup(c, '__new__'), Fn):
                it.exc('TypeError', '%s() takes no arguments' % c.name)


def _type_new(it, a, k):
    if len(a) == 2:
        return it.class_of(a[1])
    st = getattr(it, 'new_class', [])
    if len(a) != 4 or not st:
        raise T_giveup('type.__new__')
    ref = st[-1]
    it.new_class = st[:-1]
    b = it.iterate(a[2])
    if [x.o for x in b if x != it.natives['object']] != [x for x in it.st.get(ref).bases if x != it.natives['object'].o] \
            or a[1] != it.st.get(ref).name:
        raise T_giveup('metaclass changes the name or bases')
    c = it.st.w(ref)
    hd = it.st.get(a[3])
    c.d = {hd.keys[k]: v for k, v in hd.d.items()}
    return ref


def _object_new(it, a, k):
    return it.st.alloc(HInst(a[0].o))


def _obj_getattribute(it, o, name):
    ob = it.st.heap[o.o]
    cls = it.st.heap[ob.cls]
    cv = it.class_lookup(cls, name)
    if cv is not None and it.is_data_desc(cv):
        return it.desc_get(cv, o, Ref(ob.cls), name, None, False)
    if name in ob.d:
        return ob.d[name]
    if cv is not None:
        return it._attr_miss(o, cls, cv, name, None, False)
    it.exc('AttributeError', name)


def _obj_delattr(it, o, name):
    ob = it.st.w(o)
    if name in ob.d:
        del ob.d[name]
        return None
    it.exc('AttributeError', name)


def _payload_new(it, a, k):
    cls = it.st.heap[a[0].o]
    v = {'float': _float, 'int': _int, 'str': _str, 'tuple': _tuple}[cls.native](it, a[1:], k)
    if cls.o if False else a[0] == it.natives[cls.native]:
        return v
    return it.lift(lambda v: it.st.alloc(HInst(a[0].o, None, v)), v)


def _container_init(it, a, k):
    ob = it.st.heap[a[0].o]
    if isinstance(ob, HInst) and ob.payload is not None:
        if len(a) > 1:
            p = it.st.heap[ob.payload.o]
            if isinstance(p, HList):
                it.st.w(ob.payload).l[:] = it.iterate(a[1])
            else:
                dict_update(it, ob.payload, a[1])
    return None


def _type_call(it, a, k):
    ref = a[0]
    ob = it.st.heap[ref.o]
    saved = ob.meta
    w = it.st.w(ref)
    w.meta = None
    try:
        return it.instantiate(ref, it.st.heap[ref.o], list(a[1:]), k)
    finally:
        it.st.w(ref).meta = saved


def _exc_init(it, a, k):
    it.st.w(a[0]).d['args'] = Tup(a[1:])


def _exc_str(it, a, k):
    ar = it.st.get(a[0]).d.get('args')
    if isinstance(ar, Tup) and len(ar.l) == 1:
        return to_str(it, ar.l[0])
    return SStr((('excstr', it.key(ar)),))


# ================================================================= numbers
def is_arr(it, v):
    return isinstance(v, Ref) and isinstance(it.st.heap.get(v.o), HArr)


def is_list(it, v, kind=None):
    return isinstance(v, Ref) and isinstance(it.st.heap.get(v.o), HList)


def is_dict(it, v):
    return isinstance(v, Ref) and isinstance(it.st.heap.get(v.o), HDict)


def unk(key, k='f'):
    return Num(A(mk_atom('unk', (key,))), k)


def arith(it, op, p, q, ka, kb):
    k = 'i' if ka == 'i' and kb == 'i' else 'f'
    if it.abbrev and not p.rank and not q.rank:
        if op in ('Mult', 'Div', 'Pow') and p.const() is None and q.const() is None:
            p, q = T.let(p, 1), T.let(q, 1)
        elif op in ('Add', 'Sub') and len(p.t) + len(q.t) > it.abbrev:
            p, q = T.let(p, 3), T.let(q, 3)
        elif op == 'Pow':
            p = T.let(p, 1)
    if op == 'Add':
        return mknum(add(p, q), k)
    if op == 'Sub':
        return mknum(sub(p, q), k)
    if op == 'Mult':
        return mknum(mul(p, q), k)
    cq = q.const()
    if op == 'Div':
        if cq == 0:
            it.exc('ZeroDivisionError', 'division by zero')
        return mknum(div(p, q), 'f')
    if op in ('FloorDiv', 'Mod'):
        if cq == 0:
            it.exc('ZeroDivisionError', 'division by zero')
        cp = p.const()
        if cp is not None and cq is not None:
            r = cp // cq if op == 'FloorDiv' else cp % cq
            return mknum(C(r), k)
        if k == 'f' and not p.rank and not q.rank:
            r = div(p, q)
            c = r.const()
            if c is None:
                c = _round_facts(it, 'floor', r)
            else:
                c = c.__floor__()
            fl = C(c) if c is not None else _floorp(r)
            return mknum(fl if op == 'FloorDiv' else sub(p, mul(q, fl)), 'f')
        at = {'kind': 'int'} if k == 'i' else {}
        return mknum(A(mk_atom('floordiv' if op == 'FloorDiv' else 'mod', (p, q), max(p.rank, q.rank), **at)), k)
    if op == 'Pow':
        kk = k
        if k == 'i' and cq is not None and cq < 0:
            kk = 'f'
        return mknum(T.power(p, q), kk)
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
        cp = p.const()
        if cp is not None and cq is not None and cp.denominator == 1 and cq.denominator == 1:
            a, b = int(cp), int(cq)
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b,
                    'LShift': a << b if 0 <= b < 200 else 0, 'RShift': a >> b if b >= 0 else 0}[op]
        return mknum(A(mk_atom(op, (p, q), 0, kind='int')), 'i')
    raise T_giveup('arith %s' % op)


def T_giveup(msg):
    from .interp import Giveup
    return Giveup(msg)


def special_binop(it, op, a, b):
    if op in ('BitAnd', 'BitOr') and isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        if op == 'BitAnd':
            return it.branch(it.truth(a), lambda: b, lambda: False)
        return it.branch(it.truth(a), lambda: True, lambda: b)
    if is_arr(it, a) or is_arr(it, b):
        if op == 'Div':
            def dv(x, y):
                q = num_poly(it.payload(y))
                if q is not None and q.is_const() and q.const() == 0:       # arrays: infinite or not a number, no exception
                    c = num_poly(it.payload(x))
                    c = c.const() if c is not None else None
                    return Num(C(float('nan') if c in (None, 0) else float('inf') if c > 0 else float('-inf')), 'f')
                return it.binop(op, x, y)
            return elementwise(it, dv, a, b)
        return elementwise(it, lambda x, y: it.binop(op, x, y), a, b)
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        if op == 'Add' and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return mkstr(SStr(_parts(a) + _parts(b)))
        if op == 'Mod' and isinstance(a, (str, SStr)):
            return _format_mod(it, a, b)
        if op == 'Mult':
            s, n = (a, b) if isinstance(a, (str, SStr)) else (b, a)
            if isinstance(s, str) and isinstance(n, int):
                return s * n
        it.exc('TypeError', 'bad operands for str %s' % op)
    la, lb = is_list(it, a), is_list(it, b)
    if op == 'Add':
        if la and lb:
            return it.st_list(it.st.get(a).l + it.st.get(b).l)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.l + b.l)
    if op == 'Mult':
        for s, n in ((a, b), (b, a)):
            if isinstance(n, int):
                if is_list(it, s):
                    return it.st_list(it.st.get(s).l * n)
                if isinstance(s, Tup):
                    return Tup(s.l * n)
    if op in ('Sub', 'BitAnd', 'BitOr') and la and lb and it.st.get(a).kind in ('set', 'frozenset'):
        ka = {hk(it, x): x for x in it.st.get(a).l}
        kb = {hk(it, x): x for x in it.st.get(b).l}
        if op == 'Sub':
            r = [x for k, x in ka.items() if k not in kb]
        elif op == 'BitAnd':
            r = [x for k, x in ka.items() if k in kb]
        else:
            r = list({**ka, **kb}.values())
        return it.st_list(r, 'set')
    if isinstance(a, (Opq, Ext)) or isinstance(b, (Opq, Ext)):
        return unk(('binop', op, it.key(a), it.key(b)))
    it.exc('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (op, tname(it, a), tname(it, b)))


def tname(it, v):
    c = it.class_of(v)
    return it.st.get(c).name if c is not None else type(v).__name__


def _parts(s):
    return (s,) if isinstance(s, str) else s.parts


def mkstr(s):
    if isinstance(s, str):
        return s
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def to_str(it, v):
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, (bool, int, type(None))):
        return str(v)
    if isinstance(v, Ref):
        ob = it.st.heap[v.o]
        if isinstance(ob, HInst):
            m = it.find_special(v, '__str__') or it.find_special(v, '__repr__')
            if m is not None:
                return it.call(m, [])
    return SStr((('str', it.key(v)),))


def _format_mod(it, s, b):
    args = list(b.l) if isinstance(b, Tup) else [b]
    if isinstance(s, str) and all(isinstance(x, (str, int)) for x in args):
        try:
            return s % (tuple(args) if isinstance(b, Tup) else args[0])
        except TypeError as e:
            it.exc('TypeError', str(e))
        except ValueError as e:
            it.exc('ValueError', str(e))
    if isinstance(s, str):
        # exact count of conversions
        import re
        n = len(re.findall(r'%(?!%)[-+ #0]*(?:\*|\d+)?(?:\.\d+)?[a-zA-Z]', s.replace('%%', '')))
        if n != len(args) and '%(' not in s and isinstance(b, Tup):
            it.exc('TypeError', 'not all arguments converted during string formatting')
        import re as _re
        pieces = _re.split(r'(%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])', s)
        out, i = [], 0
        for p in pieces:
            if p == '%%':
                out.append('%')
            elif p.startswith('%') and len(p) > 1:
                v = args[i] if i < len(args) else None
                i += 1
                if p == '%s':
                    out.extend(_parts(to_str(it, v)))
                elif p == '%d' and isinstance(v, int):
                    out.append(str(v))
                else:
                    out.append(('fmt', p, it.key(v)))
            else:
                out.append(p)
        return mkstr(SStr(out))
    return SStr((('fmt', _parts(s), tuple(it.key(x) for x in args)),))


def special_compare(it, op, a, b):
    if is_arr(it, a) or is_arr(it, b):
        if a is None or b is None:
            return op == 'NotEq'
        return elementwise(it, lambda x, y: it.compare(op, x, y), a, b, k='b')
    if op in ('Eq', 'NotEq'):
        r = eq_values(it, a, b)
        return r if op == 'Eq' else it.notb(r)
    if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, Tup) and isinstance(b, Tup) or (is_list(it, a) and is_list(it, b)):
        la = list(a.l) if isinstance(a, Tup) else it.st.get(a).l
        lb = list(b.l) if isinstance(b, Tup) else it.st.get(b).l
        return _lex(it, op, la, lb, 0)
    if isinstance(a, (Opq, Ext)) or isinstance(b, (Opq, Ext)):
        return it.opqbool(('cmp', op, it.key(a), it.key(b)))
    it.exc('TypeError', "'%s' not supported between instances of %s and %s" % (op, tname(it, a), tname(it, b)))


def _lex(it, op, la, lb, i):
    if i >= len(la) or i >= len(lb):
        x, y = len(la), len(lb)
        return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
    e = it.truth(it.compare('Eq', la[i], lb[i]))
    strict = {'Lt': 'Lt', 'LtE': 'Lt', 'Gt': 'Gt', 'GtE': 'Gt'}[op]
    return it.branch(e, lambda: _lex(it, op, la, lb, i + 1), lambda: it.compare(strict, la[i], lb[i]))


def all_of(it, thunks):
    """conjunction of lazily evaluated conditions"""
    def go(i):
        if i == len(thunks):
            return True
        c = it.truth(thunks[i]())
        if i == len(thunks) - 1:
            return c
        return it.branch(c, lambda: go(i + 1), lambda: False)
    return go(0)


def any_of(it, thunks):
    def go(i):
        if i == len(thunks):
            return False
        c = it.truth(thunks[i]())
        if i == len(thunks) - 1:
            return c
        return it.branch(c, lambda: True, lambda: go(i + 1))
    return go(0)


def eq_values(it, a, b):
    """structural equality of non-numeric values"""
    if isinstance(a, Alt) or isinstance(b, Alt):
        return it.truth(it.compare('Eq', a, b))
    if a is None or b is None:
        if isinstance(a, Opq) or isinstance(b, Opq):
            return it.opqbool(('isnone', (a if isinstance(a, Opq) else b).t))
        return a is b
    if same(a, b):
        return True
    pa, pb = num_poly(a), num_poly(b)
    if pa is not None and pb is not None:
        return it.guardbool('==', sub(pa, pb))
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return it.opqbool(('streq', _parts(a), _parts(b)))
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.l) != len(b.l):
            return False
        return all_of(it, [lambda x=x, y=y: it.compare('Eq', x, y) for x, y in zip(a.l, b.l)])
    if is_list(it, a) and is_list(it, b):
        x, y = it.st.get(a), it.st.get(b)
        if x.kind in ('set', 'frozenset'):
            return {hk(it, v) for v in x.l} == {hk(it, v) for v in y.l}
        if len(x.l) != len(y.l) or x.kind != y.kind:
            return False
        return all_of(it, [lambda u=u, v=v: it.compare('Eq', u, v) for u, v in zip(x.l, y.l)])
    if is_dict(it, a) and is_dict(it, b):
        x, y = it.st.get(a), it.st.get(b)
        if set(x.d) != set(y.d):
            return False
        return all_of(it, [lambda k=k: it.compare('Eq', x.d[k], y.d[k]) for k in x.d])
    if isinstance(a, Opq) or isinstance(b, Opq):
        return it.opqbool(('eq', it.key(a), it.key(b)))
    return False


def hk(it, v):
    """dictionary key"""
    if isinstance(v, Num):
        c = v.p.const()
        if c is not None:
            return int(c) if c.denominator == 1 else ('q', c)
        return ('n', v.p)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, str, bytes, type(None))):
        return v
    if isinstance(v, Tup):
        return ('t',) + tuple(hk(it, x) for x in v.l)
    if isinstance(v, Ref):
        ob = it.st.heap[v.o]
        if isinstance(ob, (HList, HDict, HArr)) and not (isinstance(ob, HList) and ob.kind == 'frozenset'):
            it.exc('TypeError', 'unhashable type')
        if isinstance(ob, HInst) and ob.payload is not None:
            return hk(it, ob.payload)
        return ('ref', v.o)
    return v


# ================================================================= arrays
def arr_new(it, vals, shape=None, k=None, owner=None):
    vals = list(vals)
    if shape is None:
        shape = (len(vals),)
    if k is None:
        k = vals_kind(it, vals)
    b = HBuf(vals)
    b.owner = owner
    br = it.st.alloc(b)
    return it.st.alloc(HArr(br.o, list(range(len(vals))), tuple(shape), k))


def vec_new(it, p, n, k='f', owner=None):
    b = HBuf(None, p)
    b.owner = owner
    br = it.st.alloc(b)
    return it.st.alloc(HArr(br.o, None, (n,), k))


def vals_kind(it, vals):
    ks = set()
    for v in vals:
        if isinstance(v, (bool, SymBool)):
            ks.add('b')
        elif isinstance(v, int) or (isinstance(v, Num) and v.k == 'i'):
            ks.add('i')
        elif isinstance(v, Num):
            ks.add('f')
        elif isinstance(v, Ref) and isinstance(it.st.heap.get(v.o), HInst) and it.st.heap[v.o].payload is not None:
            ks.add(vals_kind(it, [it.st.heap[v.o].payload]))
        elif isinstance(v, Opq):
            ks.add('f')
        elif isinstance(v, (str, SStr)):
            ks.add('U')
        elif isinstance(v, Alt):
            ks.add(vals_kind(it, [x for c, x in v.alts]))
        else:
            ks.add('O')
    for k in ('O', 'U', 'f', 'i', 'b'):
        if k in ks:
            return k
    return 'f'


def cast(it, v, k):
    """value stored in an array of kind k"""
    def f(v):
        v = it.payload(v)
        p = num_poly(v)
        if p is None:
            if k in ('f', 'i') and isinstance(v, (Tup,)) or v is None and k == 'i':
                it.exc('ValueError', 'setting an array element with a sequence')
            if v is None and k == 'f':
                return Num(T.NAN, 'f')
            if is_arr(it, v) and arr_size(it, it.st.get(v)) == 1 and k in ('f', 'i'):
                return cast(it, arr_vals(it, it.st.get(v))[0], k)
            if is_arr(it, v) or is_list(it, v):
                if k != 'O':
                    it.exc('ValueError', 'setting an array element with a sequence')
            if isinstance(v, Opq):
                return unk(('num', v.t))
            if isinstance(v, str) and k in ('f', 'i'):
                return _float(it, [v], {})
            return v
        if k == 'f':
            return Num(p, 'f')
        if k == 'i':
            return mknum(T.trunc(p), 'i')
        if k == 'b':
            return it.truth(v)
        return v
    return it.lift(f, v)


def arr_vals(it, ob):
    b = it.st.heap[ob.buf]
    if isinstance(b, HAlt):
        raise T_giveup('ambiguous buffer')
    if ob.pos is None:
        raise T_giveup('explicit elements of a symbolic-length array')
    return [b.l[i] for i in ob.pos]


def arr_poly(it, ob):
    b = it.st.heap[ob.buf]
    if ob.pos is not None:
        vals = arr_vals(it, ob)
        return A(mk_atom('items', tuple(num_poly(v) for v in vals), 1, len=C(len(vals))))
    p = b.vec
    if ob.sl is not None:
        p = slice_(p, *ob.sl)
    return p


def arr_size(it, ob):
    if ob.pos is not None:
        return len(ob.pos)
    return None


def arr_key(it, ob):
    if ob.pos is None:
        return ('vec', arr_poly(it, ob))
    return (ob.shape,) + tuple(it.key(v) for v in arr_vals(it, ob))


def to_nested(it, v):
    """(vals, shape, kind) of an array-like, or None for scalars"""
    v = it.payload(v)
    if isinstance(v, Ref):
        ob = it.st.heap[v.o]
        if isinstance(ob, HArr):
            return arr_vals(it, ob), tuple(ob.shape), ob.k
        if isinstance(ob, HList) and ob.kind in ('list', 'range'):
            return _nest(it, ob.l)
    if isinstance(v, Tup):
        return _nest(it, v.l)
    return None


def _nest(it, items):
    subs = []
    for x in items:
        if isinstance(x, Alt):
            subs.append(None)
        else:
            subs.append(to_nested(it, x))
    if all(s is None for s in subs):
        return list(items), (len(items),), vals_kind(it, items)
    if any(s is None for s in subs):
        it.exc('ValueError', 'inhomogeneous array')
    if len({s[1] for s in subs}) != 1:
        it.exc('ValueError', 'inhomogeneous array')
    vals = []
    for s in subs:
        vals += s[0]
    ks = {s[2] for s in subs}
    k = next(k for k in ('O', 'U', 'f', 'i', 'b') if k in ks) if vals else 'f'
    return vals, (len(items),) + subs[0][1], k


def broadcast(it, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0:
                if s[j] != 1:
                    if d != 1 and d != s[j]:
                        it.exc('ValueError', 'operands could not be broadcast together')
                    d = s[j]
        out.append(d)
    return tuple(out)


def strides(shape):
    st, acc = [], 1
    for d in reversed(shape):
        st.append(acc)
        acc *= d
    return list(reversed(st))


def ndindex(shape):
    return itertools.product(*[range(d) for d in shape])


def is_vec(it, v):
    return isinstance(v, Ref) and isinstance(it.st.heap.get(v.o), HArr) and it.st.heap[v.o].pos is None


def elementwise(it, f, *args, k=None):
    args = [it.payload(a) for a in args]
    if any(is_vec(it, a) for a in args):
        return vec_elementwise(it, f, args, k)
    ns = []
    for a in args:
        n = to_nested(it, a)
        ns.append(n)
    if all(n is None for n in ns):
        return f(*args)
    shape = broadcast(it, [n[1] for n in ns if n is not None])
    sts = [strides(n[1]) if n is not None else None for n in ns]
    out = []
    for ix in ndindex(shape):
        xs = []
        for a, n, st in zip(args, ns, sts):
            if n is None:
                xs.append(a)
            else:
                off = len(shape) - len(n[1])
                p = 0
                for j, d in enumerate(n[1]):
                    if d != 1:
                        p += ix[off + j] * st[j]
                xs.append(n[0][p])
        out.append(f(*xs))
    if k is None:
        k = vals_kind(it, out)
        if not out:
            k = 'f'
    return arr_new(it, out, shape, k)


def vec_elementwise(it, f, args, k):
    """apply the scalar function f at a generic index and abstract back to a vector"""
    n = None
    for a in args:
        if is_vec(it, a):
            n = it.st.heap[a.o].shape[0]
            break
    ps, vs = [], []
    for a in args:
        if is_arr(it, a):
            ob = it.st.heap[a.o]
            vs.append(Num(arr_poly(it, ob), ob.k if ob.k in 'if' else 'f'))
        else:
            vs.append(a)
    r = f(*vs)
    if isinstance(r, SymBool):
        p = num_poly(r)
        return vec_new(it, p, n, 'b')
    p = num_poly(r)
    if p is None:
        raise T_giveup('vector operation')
    if p.rank == 0:
        p = mul(p, A(mk_atom('fill', (n, ONE), 1)))
    return vec_new(it, p, n, k or kind_of(r) or 'f')


def arr_map(it, v, f, polyf=None):
    return elementwise(it, f, v)


def arr_truth(it, v, ob):
    if ob.pos is None:
        it.exc('ValueError', 'truth value of an array is ambiguous')
    n = len(ob.pos)
    if n == 1:
        return it.truth(arr_vals(it, ob)[0])
    if n == 0:
        return False
    it.exc('ValueError', 'truth value of an array is ambiguous')


def arr_assign_all(it, v, r):
    ob = it.st.heap[v.o]
    if ob.pos is None:
        vec_store_all(it, v, r)
        return
    n = to_nested(it, r)
    write_positions(it, ob, list(range(len(ob.pos))), tuple(ob.shape), r if n is None else n)


def vec_store_all(it, v, r):
    ob = it.st.heap[v.o]
    if ob.sl is not None:
        raise T_giveup('store through a symbolic slice')
    b = it.st.w(ob.buf)
    if is_arr(it, r):
        p = arr_poly(it, it.st.heap[r.o])
    else:
        p = mul(num_poly(r), A(mk_atom('fill', (ob.shape[0], ONE), 1)))
    b.vec = p
    b.writes += 1


def write_positions(it, ob, lpos, shape, val):
    """val: scalar value or (vals, shape, kind)"""
    b = it.st.w(ob.buf)
    b.writes += 1
    if not isinstance(val, tuple):
        v = cast(it, val, ob.k)
        b = it.st.w(ob.buf)
        for p in lpos:
            b.l[ob.pos[p]] = v
        return
    vals, vshape, vk = val
    full = broadcast(it, [shape, vshape]) if shape or vshape else ()
    if tuple(full) != tuple(shape):
        # leading ones may be dropped
        vs = vshape
        while len(vs) > len(shape) and vs[0] == 1:
            vs = vs[1:]
        if tuple(broadcast(it, [shape, vs])) != tuple(shape):
            it.exc('ValueError', 'could not broadcast input array')
        vshape = vs
    st = strides(vshape)
    out = []
    for ix in ndindex(shape):
        off = len(shape) - len(vshape)
        p = 0
        for j, d in enumerate(vshape):
            if d != 1:
                p += ix[off + j] * st[j]
        out.append(cast(it, vals[p], ob.k))
    b = it.st.w(ob.buf)
    for p, v in zip(lpos, out):
        b.l[ob.pos[p]] = v


def set_shape(it, o, v):
    ob = it.st.w(o)
    sh = [_cint(it, x) for x in (it.iterate(v) if not isinstance(v, int) else [v])]
    ob.shape = _fix_shape(it, sh, len(ob.pos))


def _fix_shape(it, sh, size):
    if -1 in sh:
        k = 1
        for d in sh:
            if d != -1:
                k *= d
        sh = [size // k if d == -1 else d for d in sh]
    k = 1
    for d in sh:
        k *= d
    if k != size:
        it.exc('ValueError', 'cannot reshape array')
    return tuple(sh)


def view(it, ob, pos, shape):
    return it.st.alloc(HArr(ob.buf, pos, tuple(shape), ob.k))


def _cint(it, v):
    """concrete int of an index-like value, Giveup if symbolic"""
    v = it.payload(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Num):
        c = v.p.const()
        if c is not None and v.k == 'i':
            return int(c)
        if v.k == 'f':
            it.exc('TypeError', "'float' object cannot be interpreted as an integer")
        raise T_giveup('symbolic integer where a constant is needed at %s' % it.where())
    if isinstance(v, Opq):
        raise T_giveup('opaque integer')
    it.exc('TypeError', 'integer required, got %s' % tname(it, v))


def _slice_range(it, s, n):
    lo, hi, st = s.a
    st = 1 if st is None else _cint(it, st)
    lo = None if lo is None else _cint(it, lo)
    hi = None if hi is None else _cint(it, hi)
    return range(*slice(lo, hi, st).indices(n))


def arr_index(it, ob, i):
    """(list of positions in view order, result shape, scalar?)"""
    ixs = list(i.l) if isinstance(i, Tup) else [i]
    # ellipsis
    ixs2 = []
    nax = len([x for x in ixs if x is not None and x is not Ellipsis])
    for x in ixs:
        if x is Ellipsis:
            ixs2 += [SliceV(None, None, None)] * (len(ob.shape) - nax)
        else:
            ixs2.append(x)
    ixs = ixs2
    real = [x for x in ixs if x is not None]
    if len(real) > len(ob.shape):
        it.exc('IndexError', 'too many indices for array')
    while len(real) < len(ob.shape):
        ixs.append(SliceV(None, None, None))
        real.append(ixs[-1])
    arrs = [j for j, x in enumerate(ixs) if is_arr(it, it.payload(x)) or is_list(it, it.payload(x))]
    st = strides(ob.shape)
    if arrs:
        ns = [to_nested(it, it.payload(ixs[j])) for j in arrs]
        if len(arrs) == 1 and ns[0][2] == 'b' and len(ns[0][1]) > 1:
            if ns[0][1] != ob.shape:
                raise T_giveup('mask of another shape')
            pos = []
            for j, c in enumerate(ns[0][0]):
                c = it.truth(c)
                if not isinstance(c, bool):
                    raise T_giveup('symbolic mask')
                if c:
                    pos.append(j)
            return pos, (len(pos),), False
        if len(arrs) == 1 and len(ns[0][1]) != 1:
            raise T_giveup('index array of more than one dimension')
        if len(arrs) > 1:
            if len(arrs) != len(ob.shape) or len(ixs) != len(arrs) or any(n[2] == 'b' or len(n[1]) != 1 for n in ns) \
                    or len(set(len(n[0]) for n in ns)) != 1:
                raise T_giveup('several index arrays')
            pos = [sum(_norm_ix(it, _cint(it, y), ob.shape[a]) * st[a] for a, y in enumerate(c))
                   for c in zip(*[n[0] for n in ns])]
            return pos, (len(pos),), False
    axes = []      # list of (list of offsets, keep dim?)
    ax = 0
    for x in ixs:
        if x is None:
            axes.append(([0], True))
            continue
        n = ob.shape[ax]
        x = it.payload(x)
        if isinstance(x, SliceV):
            axes.append(([j * st[ax] for j in _slice_range(it, x, n)], True))
        elif is_arr(it, x) or is_list(it, x):
            nv = to_nested(it, x)
            if nv[2] == 'b':
                sel = []
                for j, c in enumerate(nv[0]):
                    c = it.truth(c)
                    if not isinstance(c, bool):
                        raise T_giveup('symbolic mask')
                    if c:
                        sel.append(j)
            else:
                sel = [_cint(it, y) for y in nv[0]]
            axes.append(([_norm_ix(it, j, n) * st[ax] for j in sel], True))
        else:
            j = _cint(it, x)
            axes.append(([_norm_ix(it, j, n) * st[ax]], False))
        ax += 1
    pos = [sum(c) for c in itertools.product(*[a for a, keep in axes])]
    shape = tuple(len(a) for a, keep in axes if keep)
    scalar = not any(keep for a, keep in axes)
    return pos, shape, scalar


def _norm_ix(it, j, n):
    if j < -n or j >= n:
        it.exc('IndexError', 'index %d is out of bounds for axis with size %d' % (j, n))
    return j + n if j < 0 else j


def fancy(it, i):
    for x in (i.l if isinstance(i, Tup) else [i]):
        if is_arr(it, x) or is_list(it, x):
            return True
    return False


def sym_pick(it, n, i, f):
    """element i (symbolic int) of a sequence of n elements: gated over the possible values"""
    p = num_poly(i)
    a = find_case(p)
    if a is not None:
        # gated integer: split on its own gates
        alts = []
        for conj, v in case_alts(a):
            s = it.st.assume(conj)
            if s is None:
                continue

            def sub_pick(v=v):
                q = subst(p, {a: v})
                c = q.const()
                if c is None:
                    return sym_pick(it, n, Num(q, 'i'), f)
                return f(_norm_ix(it, int(c), n))
            alts.append((s, sub_pick))
        if not alts:
            from .interp import Dead
            raise Dead()
        if len(alts) == 1:
            it.st = alts[0][0]
            return alts[0][1]()
        return it.run_alts(alts)

    def go(j):
        # i == j ?
        if j == n:
            # negative indices
            return neg_(1)
        c = it.guardbool('==', sub(p, C(j)))
        return it.branch(c, lambda: f(j), lambda: go(j + 1))

    def neg_(j):
        if j > n:
            it.exc('IndexError', 'index out of range')
        c = it.guardbool('==', add(p, C(j)))
        return it.branch(c, lambda: f(n - j), lambda: neg_(j + 1))
    return go(0)


def sym_slices(it, i, shape, f):
    """f(index) with the symbolic bounds of slices in index i replaced by constants, gated over their possible values;
    None if there are no such bounds"""
    comps = list(i.l) if isinstance(i, Tup) else [i]
    ax = 0
    for k, x in enumerate(comps):
        if x is None:
            continue
        if isinstance(x, SliceV) and ax < len(shape) and isinstance(shape[ax], int):
            for m in (0, 1):
                b = x.a[m]
                if isinstance(b, Alt):
                    def again(v, m=m, k=k, x=x):
                        y = list(x.a)
                        y[m] = v
                        z = comps[:k] + [SliceV(*y)] + comps[k + 1:]
                        z = Tup(z) if isinstance(i, Tup) else z[0]
                        return _sym_slices(it, z, shape, f)
                    return (it.split(b, again),)
                if is_symint(b):
                    return (_slice_pick(it, i, comps, k, x, m, shape[ax], shape, f),)
        elif x is Ellipsis:
            return None
        ax += 1
    return None


def _sym_slices(it, i, shape, f):
    r = sym_slices(it, i, shape, f)
    return f(i) if r is None else r[0]


def _slice_pick(it, i, comps, k, x, m, n, shape, f):
    p = num_poly(x.a[m])

    def put(j):
        y = list(x.a)
        y[m] = j
        o = y[1 - m]
        if is_symint(o):
            d = sub(num_poly(o), p).const()
            if d is not None:
                y[1 - m] = int(d) + j
        z = comps[:k] + [SliceV(*y)] + comps[k + 1:]
        z = Tup(z) if isinstance(i, Tup) else z[0]
        return _sym_slices(it, z, shape, f)
    a = find_case(p)
    if a is not None:
        alts = []
        for conj, v in case_alts(a):
            s = it.st.assume(conj)
            if s is None:
                continue

            def one(v=v):
                q = subst(p, {a: v})
                c = q.const()
                if c is not None:
                    return put(int(c))
                y = list(x.a)
                y[m] = Num(q, 'i')
                z = comps[:k] + [SliceV(*y)] + comps[k + 1:]
                return _sym_slices(it, Tup(z) if isinstance(i, Tup) else z[0], shape, f)
            alts.append((s, one))
        if not alts:
            from .interp import Dead
            raise Dead()
        if len(alts) == 1:
            it.st = alts[0][0]
            return alts[0][1]()
        return it.run_alts(alts)

    def go(js):
        j = js[0]
        if len(js) == 1:
            return put(j)
        c = it.guardbool('>=' if j == n else '==', sub(p, C(j)))
        return it.branch(c, lambda: put(j), lambda: go(js[1:]))
    return go(list(range(n + 1)) + list(range(-1, -n - 1, -1)))


def is_symint(v):
    return isinstance(v, Num) and v.k == 'i' and v.p.const() is None


# ================================================================= items
def getitem(it, o, i):
    if isinstance(o, Ref):
        ob = it.st.heap[o.o]
        if isinstance(ob, HInst):
            m = it.find_special(o, '__getitem__')
            if m is not None:
                return it.call(m, [i])
            if ob.payload is not None:
                miss = it.find_special(o, '__missing__')
                if miss is not None:
                    return it.branch(it.truth(it.compare('In', i, ob.payload)), lambda: getitem(it, ob.payload, i),
                                     lambda: it.call(miss, [i]))
                return getitem(it, ob.payload, i)
            it.exc('TypeError', 'object is not subscriptable')
        if isinstance(ob, HDict):
            if True:
                k = hk(it, i)
                if k in ob.d:
                    v = ob.d[k]
                    if ob.kind == 'npz':     # every access reads the file again
                        return it.lift(lambda x: deepcopy(it, x), v)
                    if isinstance(v, Alt) and any(x is UNDEF for c, x in v.alts):
                        def g(x):
                            if x is UNDEF:
                                it.exc('KeyError', i)
                            return x
                        return it.split(v, g)
                    return v
                if ob.default is not None:
                    v = it.call(ob.default, [])
                    setitem(it, o, i, v)
                    return v
                if isinstance(i, (Num, SStr, Opq)) and not (isinstance(i, Num) and i.p.const() is not None):
                    # symbolic key: try equality with each entry
                    ks = list(ob.d)

                    def go(j):
                        if j == len(ks):
                            it.exc('KeyError', i)
                        c = it.truth(it.compare('Eq', i, ob.keys[ks[j]]))
                        return it.branch(c, lambda: ob.d[ks[j]], lambda: go(j + 1))
                    return go(0)
                it.exc('KeyError', i)
        if isinstance(ob, HList):
            if ob.kind in ('set', 'iter'):
                it.exc('TypeError', 'object is not subscriptable')
            if isinstance(i, SliceV):
                r = sym_slices(it, i, (len(ob.l),), lambda s: getitem(it, o, s))
                if r is not None:
                    return r[0]
                return it.st_list([ob.l[j] for j in _slice_range(it, i, len(ob.l))])
            i = it.payload(i)
            if is_symint(i):
                return sym_pick(it, len(ob.l), i, lambda j: it.st.heap[o.o].l[j])
            j = _cint(it, i)
            if not (-len(ob.l) <= j < len(ob.l)):
                it.exc('IndexError', 'list index out of range')
            return ob.l[j]
        if isinstance(ob, HArr):
            return arr_getitem(it, o, ob, i)
        if isinstance(ob, HClass):
            return o
        it.exc('TypeError', 'object is not subscriptable')
    if isinstance(o, Tup):
        if isinstance(i, SliceV):
            r = sym_slices(it, i, (len(o.l),), lambda s: getitem(it, o, s))
            if r is not None:
                return r[0]
            return Tup([o.l[j] for j in _slice_range(it, i, len(o.l))])
        i = it.payload(i)
        if is_symint(i):
            return sym_pick(it, len(o.l), i, lambda j: o.l[j])
        j = _cint(it, i)
        if not (-len(o.l) <= j < len(o.l)):
            it.exc('IndexError', 'tuple index out of range')
        return o.l[j]
    if isinstance(o, (str, bytes)):
        if isinstance(i, SliceV):
            lo, hi, st = i.a
            return o[slice(*(None if x is None else _cint(it, x) for x in i.a))]
        j = _cint(it, i)
        if not (-len(o) <= j < len(o)):
            it.exc('IndexError', 'string index out of range')
        return o[j]
    if isinstance(o, SStr):
        if isinstance(i, SliceV):
            lo, hi, st = i.a
            if lo is None and isinstance(hi, int) and hi < 0 and isinstance(o.parts[-1], str) and len(o.parts[-1]) >= -hi:
                return mkstr(SStr(o.parts[:-1] + (o.parts[-1][:hi],)))
            if hi is None and isinstance(lo, int) and lo < 0 and isinstance(o.parts[-1], str) and len(o.parts[-1]) >= -lo:
                return o.parts[-1][lo:]
        return SStr((('sub', o.parts, it.key(i)),))
    if isinstance(o, Opq):
        return Opq(('item', o.t, _slkey(it, i)))
    if isinstance(o, Ext):
        if o.name in ('numpy.mgrid', 'numpy.ogrid'):
            return Opq(('mgrid', _slkey(it, i)))
        if o.name in ('numpy.r_', 'numpy.c_'):
            vals = []
            for x in (i.l if isinstance(i, Tup) else [i]):
                n = to_nested(it, x)
                vals += n[0] if n is not None else [x]
            return arr_new(it, vals)
        return Opq(('item', o.name, _slkey(it, i)))
    if isinstance(o, Wrap) and o.kind == 'range':
        lo, hi, st = o.a
        return it.binop('Add', lo, it.binop('Mult', i, st))
    it.exc('TypeError', "'%s' object is not subscriptable" % tname(it, o))


def _slkey(it, i):
    if isinstance(i, SliceV):
        return ('slice',) + tuple(it.key(x) for x in i.a)
    if isinstance(i, Tup):
        return tuple(_slkey(it, x) for x in i.l)
    return it.key(i)


def arr_getitem(it, o, ob, i):
    if ob.pos is None:
        return vec_getitem(it, o, ob, i)
    r = sym_slices(it, i, ob.shape, lambda s: arr_getitem(it, o, it.st.heap[o.o], s))
    if r is not None:
        return r[0]
    ii = i.l if isinstance(i, Tup) else (i,)
    ii = tuple(it.payload(x) for x in ii)
    if any(is_symint(x) for x in ii):
        k = next(j for j, x in enumerate(ii) if is_symint(x))
        return sym_pick(it, ob.shape[k], ii[k],
                        lambda j: arr_getitem(it, o, it.st.heap[o.o], Tup(ii[:k] + (j,) + ii[k + 1:])))
    if any(isinstance(x, Num) and x.k == 'f' for x in ii):
        it.exc('IndexError', 'only integers, slices are valid indices')
    if len(ii) == 1 and len(ob.shape) == 1 and (is_arr(it, ii[0]) or is_list(it, ii[0])):
        nv = to_nested(it, ii[0])
        if nv is not None and nv[2] == 'i' and len(nv[1]) == 1 and any(is_symint(it.payload(x)) or isinstance(x, Alt) for x in nv[0]):
            vals = [it.lift(lambda x: arr_getitem(it, o, it.st.heap[o.o], x), x) for x in nv[0]]
            return arr_new(it, vals, nv[1], ob.k)
    pos, shape, scalar = arr_index(it, ob, Tup(ii))
    if scalar:
        return arr_vals(it, ob)[pos[0]]
    if fancy(it, i):
        vals = arr_vals(it, ob)
        return arr_new(it, [vals[p] for p in pos], shape, ob.k)
    return view(it, ob, [ob.pos[p] for p in pos], shape)


def vec_getitem(it, o, ob, i):
    p = arr_poly(it, ob)
    n = ob.shape[0]
    if isinstance(i, Tup) and len(i.l) == 1:
        i = i.l[0]
    i = it.payload(i)
    if isinstance(i, SliceV):
        lo, hi, st = i.a
        if st is not None and st != 1:
            if st == -1 and lo is None and hi is None:
                return vec_new(it, A(mk_atom('rev', (p,), 1)), n, ob.k)
            raise T_giveup('strided slice')

        def fix(x, dflt):
            if x is None:
                return dflt
            q = num_poly(x)
            if it.st.facts.decide(norm_cmp('<', q)) is True:
                q = add(n, q)
            return q
        lo, hi = fix(lo, ZERO), fix(hi, n)
        base = ob.sl[0] if ob.sl is not None else ZERO
        r = HArr(ob.buf, None, (sub(hi, lo),), ob.k, (add(base, lo), add(base, hi)))
        return it.st.alloc(r)
    q = num_poly(i)
    if q is not None:
        if it.st.facts.decide(norm_cmp('<', q)) is True:
            q = add(n, q)
        it.bounds_check(q, n)
        return Num(idx(p, q), ob.k if ob.k in 'if' else 'f')
    raise T_giveup('vector index')


def setitem(it, o, i, v):
    if isinstance(o, Ref):
        ob = it.st.heap[o.o]
        if isinstance(ob, HInst):
            m = it.find_special(o, '__setitem__')
            if m is not None:
                return it.call(m, [i, v])
            if ob.payload is not None:
                return setitem(it, ob.payload, i, v)
            it.exc('TypeError', 'object does not support item assignment')
        if isinstance(ob, HDict):
            k = hk(it, i)
            w = it.st.w(o)
            w.d[k] = v
            w.keys.setdefault(k, i)
            if isinstance(ob.kind, tuple) and ob.kind[0] == 'instdict':
                it.st.w(ob.kind[1]).d[k] = v
            return
        if isinstance(ob, HList):
            if isinstance(i, SliceV):
                r = sym_slices(it, i, (len(ob.l),), lambda s: setitem(it, o, s, v))
                if r is not None:
                    return
                lo, hi, st = i.a
                w = it.st.w(o)
                sl = slice(*(None if x is None else _cint(it, x) for x in i.a))
                w.l[sl] = it.iterate(v)
                return
            i = it.payload(i)
            if is_symint(i):
                return sym_pick(it, len(ob.l), i, lambda j: setitem(it, o, j, v))
            j = _cint(it, i)
            if not (-len(ob.l) <= j < len(ob.l)):
                it.exc('IndexError', 'list assignment index out of range')
            it.st.w(o).l[j] = v
            return
        if isinstance(ob, HArr):
            return arr_setitem(it, o, ob, i, v)
    if isinstance(o, Opq):
        return
    it.exc('TypeError', "'%s' object does not support item assignment" % tname(it, o))


def arr_setitem(it, o, ob, i, v):
    if ob.pos is None:
        return vec_setitem(it, o, ob, i, v)
    r = sym_slices(it, i, ob.shape, lambda s: arr_setitem(it, o, it.st.heap[o.o], s, v))
    if r is not None:
        return
    ii = i.l if isinstance(i, Tup) else (i,)
    ii = tuple(it.payload(x) for x in ii)
    if any(is_symint(x) for x in ii):
        k = next(j for j, x in enumerate(ii) if is_symint(x))
        return sym_pick(it, ob.shape[k], ii[k],
                        lambda j: arr_setitem(it, o, it.st.heap[o.o], Tup(ii[:k] + (j,) + ii[k + 1:]), v))
    # masks with symbolic conditions: elementwise gate
    if len(ii) == 1 and is_arr(it, ii[0]) and it.st.heap[ii[0].o].k == 'b' and \
            any(not isinstance(it.truth(c), bool) for c in arr_vals(it, it.st.heap[ii[0].o])):
        mask = arr_vals(it, it.st.heap[ii[0].o])
        if to_nested(it, v) is not None:
            raise T_giveup('masked array store')
        for j, c in enumerate(mask):
            it.branch(it.truth(c), lambda: write_positions(it, it.st.heap[o.o], [j], (1,), v), lambda: None)
        return
    if any(isinstance(x, Num) and x.k == 'f' for x in ii):
        it.exc('IndexError', 'only integers, slices are valid indices')
    pos, shape, scalar = arr_index(it, ob, Tup(ii))

    def f(v):
        n = to_nested(it, v) if ob.k != 'O' or not scalar else None
        if n is not None and scalar:
            if len(n[0]) != 1:
                it.exc('ValueError', 'setting an array element with a sequence.')
            n = None
            vv = to_nested(it, v)[0][0]
        else:
            vv = v
        write_positions(it, it.st.heap[o.o], pos, shape, vv if n is None else n)
    it.lift(f, v)


def vec_setitem(it, o, ob, i, v):
    n = ob.shape[0]
    if isinstance(i, Tup) and len(i.l) == 1:
        i = i.l[0]
    i = it.payload(i)
    if isinstance(i, SliceV) and all(x is None for x in i.a):
        return vec_store_all(it, o, v)
    q = num_poly(i)
    p = num_poly(it.payload(v))
    if q is None or p is None or isinstance(i, SliceV):
        raise T_giveup('symbolic vector store')
    if it.st.facts.decide(norm_cmp('<', q)) is True:
        q = add(n, q)
    it.bounds_check(q, n)
    if ob.k == 'i':
        p = T.trunc(p)
    base = ob.sl[0] if ob.sl is not None else ZERO
    b = it.st.w(ob.buf)
    b.vec = store(b.vec, add(base, q), p)
    b.writes += 1


def store(vec, i, v):
    a = vec.single_atom()
    if a is not None and a.op == 'store' and a.args[1] == (i,):
        vec = a.args[0]
    return A(mk_atom('store', (vec, (i,), v), 1, len=veclen(vec)))


def delitem(it, o, i):
    if isinstance(o, Ref):
        ob = it.st.heap[o.o]
        if isinstance(ob, HInst):
            m = it.find_special(o, '__delitem__')
            if m is not None:
                return it.call(m, [i])
            if ob.payload is not None:
                return delitem(it, ob.payload, i)
        if isinstance(ob, HDict):
            k = hk(it, i)
            if k not in ob.d:
                it.exc('KeyError', i)
            w = it.st.w(o)
            del w.d[k]
            w.keys.pop(k, None)
            return
        if isinstance(ob, HList):
            w = it.st.w(o)
            if isinstance(i, SliceV):
                del w.l[slice(*(None if x is None else _cint(it, x) for x in i.a))]
                return
            if is_symint(it.payload(i)):
                return sym_pick(it, len(ob.l), i, lambda j: delitem(it, o, j))
            j = _cint(it, i)
            if not (-len(w.l) <= j < len(w.l)):
                it.exc('IndexError', 'list assignment index out of range')
            del w.l[j]
            return
    it.exc('TypeError', 'object does not support item deletion')


def contains(it, c, x):
    if isinstance(c, Ref):
        ob = it.st.heap[c.o]
        if isinstance(ob, HInst):
            m = it.find_special(c, '__contains__')
            if m is not None:
                return it.truth(it.call(m, [x]))
            if ob.payload is not None:
                return contains(it, ob.payload, x)
            return any_of(it, [lambda y=y: it.compare('Eq', y, x) for y in it.iterate(c)])
        if isinstance(ob, HDict):
            k = hk(it, x)
            if k in ob.d:
                v = ob.d[k]
                if isinstance(v, Alt) and any(y is UNDEF for g, y in v.alts):
                    return it.split(v, lambda y: y is not UNDEF)
                return True
            if isinstance(x, (SStr, Opq)) or (isinstance(x, Num) and x.p.const() is None):
                return any_of(it, [lambda y=y: it.compare('Eq', y, x) for y in ob.keys.values()])
            return False
        if isinstance(ob, HList):
            return any_of(it, [lambda y=y: _same_or_eq(it, y, x) for y in list(ob.l)])
        if isinstance(ob, HArr):
            return any_of(it, [lambda y=y: it.compare('Eq', y, x) for y in arr_vals(it, ob)])
    if isinstance(c, Tup):
        return any_of(it, [lambda y=y: _same_or_eq(it, y, x) for y in c.l])
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        return it.opqbool(('instr', c, it.key(x)))
    if isinstance(c, SStr):
        if isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.parts):
            return True
        return it.opqbool(('instr', c.parts, it.key(x)))
    if isinstance(c, Opq):
        return it.opqbool(('in', it.key(x), c.t))
    if isinstance(c, Wrap) and c.kind == 'range':
        raise T_giveup('in symbolic range')
    it.exc('TypeError', "argument of type '%s' is not iterable" % tname(it, c))


def _same_or_eq(it, y, x):
    if not isinstance(x, (Alt, Num)) and same(x, y):
        return True
    return it.compare('Eq', y, x)


# ================================================================= iteration
def iterate(it, v):
    if isinstance(v, Alt):
        raise T_giveup('iteration over alternatives at %s' % it.where())
    if isinstance(v, Tup):
        return list(v.l)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, Ref):
        ob = it.st.heap[v.o]
        if isinstance(ob, HAlt):
            raise T_giveup('iteration over merged structures at %s' % it.where())
        if isinstance(ob, HList):
            if ob.kind == 'iter':
                r = ob.l[ob.pos:]
                it.st.w(v).pos = len(ob.l)
                return list(r)
            return list(ob.l)
        if isinstance(ob, HDict):
            return [ob.keys.get(k, k) for k in ob.d]
        if isinstance(ob, HArr):
            if ob.pos is None:
                raise T_giveup('iteration over a symbolic-length array')
            if len(ob.shape) == 0:
                it.exc('TypeError', 'iteration over a 0-d array')
            if len(ob.shape) == 1:
                return arr_vals(it, ob)
            return [arr_getitem(it, v, ob, i) for i in range(ob.shape[0])]
        if isinstance(ob, HInst):
            m = it.find_special(v, '__iter__')
            if m is not None:
                r = it.call(m, [])
                if isinstance(r, Alt):
                    raise T_giveup('ambiguous iterator')
                if isinstance(r, Ref) and isinstance(it.st.heap[r.o], HInst):
                    return _drain(it, r)
                return iterate(it, r)
            if ob.payload is not None:
                return iterate(it, ob.payload)
            m = it.find_special(v, '__getitem__')
            if m is not None:
                return _drain_getitem(it, m)
            if it.find_special(v, '__next__') is not None:
                return _drain(it, v)
    if isinstance(v, Wrap) and v.kind == 'range':
        raise T_giveup('iteration over a symbolic range at %s' % it.where())
    if isinstance(v, Opq):
        raise T_giveup('iteration over opaque value %r at %s' % (v.t[:2], it.where()))
    it.exc('TypeError', "'%s' object is not iterable" % tname(it, v))


def _drain_getitem(it, m):
    out = []
    for j in range(2000):
        stop, x = _try_next(it, lambda: it.call(m, [j]), 'IndexError')
        if stop:
            return out
        out.append(x)
    raise T_giveup('unbounded iterator')


def _drain(it, r):
    out = []
    m = it.find_special(r, '__next__')
    if m is None:
        it.exc('TypeError', 'iter() returned non-iterator')
    for j in range(2000):
        stop, x = _try_next(it, lambda: it.call(m, []), 'StopIteration')
        if stop:
            return out
        out.append(x)
    raise T_giveup('unbounded iterator')


def _try_next(it, th, exc):
    from .interp import ExcC
    outs, caught, rest = it.collect(th, ExcC)
    stops = []
    for c, s in caught:
        it.st = s
        if it.exc_matches(c.v, it.natives[exc]):
            stops.append((s, None))
        else:
            rest.append((c, s))
    if stops and outs:
        raise T_giveup('data dependent iterator length')
    if stops:
        it.resume(stops, rest)
        return True, None
    return False, it.resume(outs, rest)


def live_iter(it, v):
    if isinstance(v, Ref):
        ob = it.st.heap[v.o]
        if isinstance(ob, HList) and ob.kind == 'list':
            pos = [0]

            def nxt():
                o = it.st.heap[v.o]
                if isinstance(o, HAlt):
                    raise T_giveup('loop over merged list')
                if pos[0] >= len(o.l):
                    raise StopIteration
                pos[0] += 1
                return o.l[pos[0] - 1]
            return nxt
        if isinstance(ob, HInst) and it.find_special(v, '__iter__') is not None:
            r = it.call(it.find_special(v, '__iter__'), [])
            if isinstance(r, Ref) and isinstance(it.st.heap[r.o], HInst):
                m = it.find_special(r, '__next__')
                if m is None:
                    it.exc('TypeError', 'iter() returned non-iterator')

                def nxt2():
                    stop, x = _try_next(it, lambda: it.call(m, []), 'StopIteration')
                    if stop:
                        raise StopIteration
                    return x
                return nxt2
            return live_iter(it, r)
    items = iterate(it, v)
    pos = [0]

    def nxt3():
        if pos[0] >= len(items):
            raise StopIteration
        pos[0] += 1
        return items[pos[0] - 1]
    return nxt3


def sym_seq(it, v):
    """symbolic-length sequence -> ('range', lo, hi, step) | ('vec', ref) ... or None"""
    if isinstance(v, Wrap) and v.kind in ('range', 'enum', 'zip'):
        return v
    if is_vec(it, v):
        return Wrap('vec', v)
    return None


def mk_set(it, items, kind='set'):
    d = {}
    for x in items:
        d.setdefault(hk(it, x), x)
    return it.st_list(list(d.values()), kind)


def dict_update(it, ref, other):
    if is_dict(it, other):
        ob = it.st.get(other)
        for k, v in list(ob.d.items()):
            setitem(it, ref, ob.keys.get(k, k), v)
    else:
        for kv in it.iterate(other):
            k, v = it.iterate(kv)
            setitem(it, ref, k, v)


# ================================================================= builtin functions
def builtin(name, nl=False):
    def deco(f):
        BUILTINS[name] = Builtin(('nl:' if nl else '') + name, f)
        return f
    return deco


def _num_of(it, v):
    v = it.payload(v)
    p = num_poly(v)
    if p is not None:
        return p, kind_of(v)
    if is_arr(it, v):
        ob = it.st.get(v)
        if ob.pos is not None and len(ob.pos) == 1:
            return _num_of(it, arr_vals(it, ob)[0])
        it.exc('TypeError', 'only length-1 arrays can be converted to Python scalars')
    if isinstance(v, Opq):
        return unk(('num', v.t)).p, 'f'
    return None, None


def _float(it, a, k):
    if not a:
        return Num(ZERO, 'f')
    v = it.payload(a[0])
    if isinstance(v, str):
        try:
            return Num(C(float(v)), 'f')
        except ValueError:
            it.exc('ValueError', 'could not convert string to float')
    if isinstance(v, SStr):
        return unk(('float', v.parts))
    if it.is_inst(v):
        m = it.find_special(v, '__float__')
        if m is not None:
            return it.call(m, [])
    p, kk = _num_of(it, v)
    if p is None:
        it.exc('TypeError', 'float() argument must be a string or a number, not %s' % tname(it, v))
    return Num(p, 'f')


def _int(it, a, k):
    if not a:
        return 0
    v = it.payload(a[0])
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            it.exc('ValueError', 'invalid literal for int()')
    p, kk = _num_of(it, v)
    if p is None:
        it.exc('TypeError', 'int() argument must be a string or a number')
    return mknum(p if kk == 'i' else trunc_facts(it, p), 'i')


def _str(it, a, k):
    if not a:
        return ''
    return to_str(it, a[0])


def _tuple(it, a, k):
    if not a:
        return Tup(())
    if isinstance(a[0], Tup):
        return a[0]
    return Tup(it.iterate(a[0]))


def _list(it, a, k):
    return it.st_list(it.iterate(a[0]) if a else [])


def _dict(it, a, k):
    r = it.st.alloc(HDict())
    if a:
        dict_update(it, r, a[0])
    for kk, v in k.items():
        setitem(it, r, kk, v)
    return r


def native_new(it, ref, ob, args, kw):
    n = ob.native
    exact = it.natives.get(ob.name) == ref
    if n in (None, 'object'):
        return None
    if n == 'exception':
        return it.st.alloc(HInst(ref.o, {'args': Tup(args)}))
    fs = {'float': _float, 'int': _int, 'str': _str, 'tuple': _tuple, 'list': _list, 'dict': _dict,
          'bool': lambda it, a, k: it.truth(a[0]) if a else False,
          'set': lambda it, a, k: mk_set(it, it.iterate(a[0]) if a else []),
          'frozenset': lambda it, a, k: mk_set(it, it.iterate(a[0]) if a else [], 'frozenset'),
          'property': lambda it, a, k: Wrap('property', *(a + [k[x] for x in ('fget', 'fset') if x in k])),
          'bytes': lambda it, a, k: b'',
          'slice': lambda it, a, k: SliceV(*([None] + a + [None] if len(a) == 1 else (a + [None])[:3])),
          'complex': lambda it, a, k: Opq(('complex', tuple(it.key(x) for x in a)))}
    if n == 'type':
        if exact and len(args) == 1:
            c = it.class_of(args[0])
            return c if c is not None else Opq(('type', it.key(args[0])))
        if exact and len(args) == 3:
            raise T_giveup('class made by type()')
        return None
    f = fs.get(n)
    if f is None:
        return Opq(('new', n, tuple(it.key(x) for x in args)))
    if exact:
        return it.lift_args(f, args, kw)
    v = it.lift_args(f, args[:1] if n in ('float', 'int', 'str', 'tuple') else
                     (args if n in ('list', 'dict') and not isinstance(it.class_lookup(ob, '__init__'), Fn) else []), {})
    return it.st.alloc(HInst(ref.o, None, v))


@builtin('len')
def b_len(it, a, k):
    v = a[0]
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, Tup):
        return len(v.l)
    if isinstance(v, Ref):
        ob = it.st.heap[v.o]
        if isinstance(ob, HInst):
            m = it.find_special(v, '__len__')
            if m is not None:
                return it.call(m, [])
            if ob.payload is not None:
                return b_len(it, [ob.payload], k)
        if isinstance(ob, HList):
            if ob.kind == 'iter':
                it.exc('TypeError', 'object of type generator has no len()')
            return len(ob.l)
        if isinstance(ob, HDict):
            return len(ob.d)
        if isinstance(ob, HArr):
            if not ob.shape:
                it.exc('TypeError', 'len() of unsized object')
            d = ob.shape[0]
            return d if isinstance(d, int) else mknum(d, 'i')
    if isinstance(v, Wrap) and v.kind == 'range':
        return it.binop('Sub', v.a[1], v.a[0])
    if isinstance(v, SStr):
        return Num(A(mk_atom('app', ('len', v.parts), 0, kind='int')), 'i')
    if isinstance(v, Opq):
        return Num(A(mk_atom('unk', (('len', v.t),), 0, kind='int')), 'i')
    it.exc('TypeError', "object of type '%s' has no len()" % tname(it, v))


@builtin('range')
def b_range(it, a, k):
    for x in a:
        if isinstance(x, Num) and x.k == 'f':
            it.exc('TypeError', "'float' object cannot be interpreted as an integer")
    a = [it.payload(x) for x in a]
    if all(isinstance(x, int) for x in a):
        r = range(*[int(x) for x in a])
        if len(r) <= 5000:
            return it.st_list(list(r), 'range')
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    for x in (lo, hi, st):
        if num_poly(x) is None:
            if isinstance(x, Opq):
                raise T_giveup('range of opaque value')
            it.exc('TypeError', 'range() integer expected')
    return Wrap('range', lo, hi, st)


BUILTINS['xrange'] = None
del BUILTINS['xrange']


@builtin('abs')
def b_abs(it, a, k):
    def f(x):
        x = it.payload(x)
        if it.is_inst(x):
            m = it.find_special(x, '__abs__')
            if m is not None:
                return it.call(m, [])
        p = num_poly(x)
        if p is None:
            if isinstance(x, Opq):
                return unk(('abs', x.t))
            it.exc('TypeError', 'bad operand type for abs()')
        d = it.st.facts.decide(norm_cmp('>=', p))
        if d is True:
            return mknum(p, kind_of(x))
        if it.st.facts.decide(norm_cmp('<=', p)) is True:
            return mknum(neg(p), kind_of(x))
        return mknum(T.fabs(p), kind_of(x))
    return elementwise(it, lambda x: it.lift(f, x), a[0])


def _extreme(op):
    def f(it, a, k):
        items = it.iterate(a[0]) if len(a) == 1 else list(a)
        if k.get('key') is not None:
            keys = [it.call(k['key'], [x]) for x in items]
        else:
            keys = items
        if not items:
            if 'default' in k:
                return k['default']
            it.exc('ValueError', '%s() arg is an empty sequence' % op)
        if 'key' not in k and all(num_poly(it.payload(x)) is not None for x in items):
            ps = [num_poly(it.payload(x)) for x in items]
            best, bk = ps[0], items[0]
            rest = [ps[0]]
            for p in ps[1:]:
                keep = []
                drop = False
                for q in rest:
                    c = '<=' if op == 'max' else '>='
                    if it.st.facts.decide(norm_cmp(c, sub(p, q))) is True:
                        drop = True
                        keep.append(q)
                    elif it.st.facts.decide(norm_cmp(c, sub(q, p))) is True:
                        pass
                    else:
                        keep.append(q)
                rest = keep + ([] if drop else [p])
            kk = 'i' if all(kind_of(it.payload(x)) == 'i' for x in items) else 'f'
            return mknum((T.fmax if op == 'max' else T.fmin)(rest), kk)
        cur, ck = items[0], keys[0]
        for x, kx in zip(items[1:], keys[1:]):
            c = it.truth(it.compare('Gt' if op == 'max' else 'Lt', kx, ck))
            r = it.branch(c, lambda: Tup((x, kx)), lambda: Tup((cur, ck)))
            if isinstance(r, Alt):
                raise T_giveup('ambiguous %s' % op)
            cur, ck = r.l
        return cur
    return f


BUILTINS['max'] = Builtin('max', _extreme('max'))
BUILTINS['min'] = Builtin('min', _extreme('min'))


@builtin('sum')
def b_sum(it, a, k):
    v = a[0]
    if is_arr(it, v):
        return np_sum(it, [v], {})
    tot = a[1] if len(a) > 1 else k.get('start', 0)
    for x in it.iterate(v):
        tot = it.binop('Add', tot, x)
    return tot


@builtin('zip')
def b_zip(it, a, k):
    if any(sym_seq(it, x) is not None for x in a):
        return Wrap('zip', *a)
    ls = [it.iterate(x) for x in a]
    return it.st_list([Tup(t) for t in zip(*ls)], 'iter')


@builtin('enumerate')
def b_enumerate(it, a, k):
    st = a[1] if len(a) > 1 else k.get('start', 0)
    if sym_seq(it, a[0]) is not None:
        return Wrap('enum', a[0], st)
    return it.st_list([Tup((it.binop('Add', st, i), x)) for i, x in enumerate(it.iterate(a[0]))], 'iter')


@builtin('map')
def b_map(it, a, k):
    ls = [it.iterate(x) for x in a[1:]]
    return it.st_list([it.call(a[0], list(t)) for t in zip(*ls)], 'iter')


@builtin('filter')
def b_filter(it, a, k):
    out = []
    for x in it.iterate(a[1]):
        c = it.truth(it.call(a[0], [x]) if a[0] is not None else x)
        if not isinstance(c, bool):
            raise T_giveup('symbolic filter')
        if c:
            out.append(x)
    return it.st_list(out, 'iter')


@builtin('reversed')
def b_reversed(it, a, k):
    if isinstance(a[0], Wrap) and a[0].kind == 'range':
        lo, hi, st = a[0].a
        return Wrap('range', it.binop('Sub', hi, 1), it.binop('Sub', lo, 1), -1)
    return it.st_list(list(reversed(it.iterate(a[0]))), 'iter')


@builtin('sorted')
def b_sorted(it, a, k):
    items = it.iterate(a[0])
    return it.st_list(sort_items(it, items, k))


def sort_items(it, items, k):
    key = k.get('key')
    rev = it.truth(k.get('reverse', False))
    keys = [it.call(key, [x]) if key is not None else x for x in items]
    if all(isinstance(x, str) for x in keys):
        ix = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(rev))
        return [items[i] for i in ix]
    out = []
    for x, kx in zip(items, keys):
        # insert keeping stability
        pos = len(out)
        done = False
        for j in range(len(out) - 1, -1, -1):
            c = it.truth(it.compare('Gt' if rev is True else 'Lt', kx, out[j][1]))
            if not isinstance(c, bool):
                out = None
                break
            if c:
                pos = j
            else:
                break
        if out is None:
            break
        out.insert(pos, (x, kx))
    if out is not None:
        return [x for x, kx in out]
    # symbolic: odd-even network of gated exchanges on (key,item)
    arr = list(zip(keys, items))
    n = len(arr)
    for r in range(n):
        for j in range(n - 1 - r):
            (k1, v1), (k2, v2) = arr[j], arr[j + 1]
            c = it.truth(it.compare('Gt' if rev is True else 'Lt', k2, k1))
            t = it.branch(c, lambda: Tup((k2, v2, k1, v1)), lambda: Tup((k1, v1, k2, v2)))
            if isinstance(t, Alt):
                raise T_giveup('sort')
            arr[j], arr[j + 1] = (t.l[0], t.l[1]), (t.l[2], t.l[3])
    return [v for kx, v in arr]


@builtin('all')
def b_all(it, a, k):
    if is_arr(it, a[0]):
        return np_all(it, a, k)
    return all_of(it, [lambda x=x: x for x in it.iterate(a[0])])


@builtin('any')
def b_any(it, a, k):
    if is_arr(it, a[0]):
        return np_any(it, a, k)
    return any_of(it, [lambda x=x: x for x in it.iterate(a[0])])


@builtin('round')
def b_round(it, a, k):
    p, kk = _num_of(it, a[0])
    if p is None:
        it.exc('TypeError', 'round')
    c = p.const()
    nd = a[1] if len(a) > 1 else None
    if kk == 'i':
        return mknum(p, 'i')
    if c is None and not p.rank:
        r = T.closed_round(p, 0 if nd is None else _cint(it, nd))
        if r is not None:
            return mknum(C(r), 'i' if nd is None else 'f')
    if nd is None:
        return mknum(C(round(c)) if c is not None else A(mk_atom('round', (p,), p.rank, kind='int')), 'i')
    return Num(C(round(c, _cint(it, nd))) if c is not None else fn('round_nd', p, num_poly(nd)), 'f')


@builtin('isinstance')
def b_isinstance(it, a, k):
    return _isinst(it, a[0], a[1])


def _isinst(it, v, spec):
    if isinstance(spec, Tup):
        return any_of(it, [lambda s=s: _isinst(it, v, s) for s in spec.l])
    if isinstance(spec, Ext):
        n = spec.name.split('.')[-1]
        if n in ('ndarray',):
            spec = it.natives['ndarray']
        elif n in ('float64', 'floating', 'float_', 'number', 'Number', 'Real'):
            return isinstance(v, Num) or (n in ('number', 'Number', 'Real') and isinstance(v, int))
        elif n in ('integer', 'int64', 'Integral'):
            return isinstance(v, int) and not isinstance(v, bool) or is_symint(v)
        elif n in ('Iterable', 'Sequence'):
            return isinstance(v, (Tup, str)) or is_list(it, v) or is_arr(it, v)
        elif n in ('Callable',):
            return isinstance(v, (Fn, BM, Builtin, Cb))
        else:
            return it.opqbool(('isinstance', it.key(v), spec.name))
    if isinstance(v, Opq):
        return it.opqbool(('isinstance', v.t, it.key(spec)))
    c = it.class_of(v)
    if c is None:
        return False
    if not isinstance(spec, Ref):
        return it.opqbool(('isinstance', it.key(v), it.key(spec)))
    return spec.o in it.st.get(c).mro


@builtin('issubclass')
def b_issubclass(it, a, k):
    if isinstance(a[1], Tup):
        return any(b_issubclass(it, [a[0], s], k) for s in a[1].l)
    if isinstance(a[0], Ref) and isinstance(a[1], Ref):
        ob = it.st.get(a[0])
        if not isinstance(ob, HClass):
            it.exc('TypeError', 'issubclass() arg 1 must be a class')
        return a[1].o in ob.mro
    return False


@builtin('callable')
def b_callable(it, a, k):
    v = a[0]
    if isinstance(v, (Fn, BM, Builtin, Cb, Ext)):
        return True
    if isinstance(v, Ref):
        ob = it.st.get(v)
        if isinstance(ob, HClass):
            return True
        return it.find_special(v, '__call__') is not None
    return False


@builtin('getattr')
def b_getattr(it, a, k):
    if len(a) > 2:
        return it.getattr(a[0], a[1], a[2], True)
    if not isinstance(a[1], str):
        raise T_giveup('getattr with symbolic name')
    return it.getattr(a[0], a[1])


@builtin('setattr', nl=True)
def b_setattr(it, a, k):
    return it.lift(lambda o, n: it.setattr(o, n, a[2]), a[0], a[1])


@builtin('delattr')
def b_delattr(it, a, k):
    return it.delattr(a[0], a[1])


_MISS = Opq(('missing',))


@builtin('hasattr')
def b_hasattr(it, a, k):
    v = it.getattr(a[0], a[1], _MISS, True)
    return it.lift(lambda v: not (isinstance(v, Opq) and v.t == ('missing',)), v)


@builtin('print', nl=True)
def b_print(it, a, k):
    return None


@builtin('repr')
def b_repr(it, a, k):
    if it.is_inst(a[0]):
        m = it.find_special(a[0], '__repr__')
        if m is not None:
            return it.call(m, [])
    if isinstance(a[0], (int, str)):
        return repr(a[0])
    return SStr((('repr', it.key(a[0])),))


@builtin('id')
def b_id(it, a, k):
    return Num(A(mk_atom('app', ('id', it.key(a[0]) if not isinstance(a[0], Ref) else ('ref', a[0].o)), 0, kind='int')), 'i')


@builtin('hash')
def b_hash(it, a, k):
    return Num(A(mk_atom('app', ('hash', it.key(a[0])), 0, kind='int')), 'i')


@builtin('iter')
def b_iter(it, a, k):
    v = a[0]
    if it.is_inst(v):
        m = it.find_special(v, '__iter__')
        if m is not None:
            return it.call(m, [])
    return it.st_list(it.iterate(v), 'iter')


@builtin('next')
def b_next(it, a, k):
    v = a[0]
    if is_list(it, v):
        ob = it.st.get(v)
        if ob.kind != 'iter':
            it.exc('TypeError', 'not an iterator')
        if ob.pos < len(ob.l):
            it.st.w(v).pos += 1
            return ob.l[ob.pos] if ob.tok is not it.st.tok else it.st.get(v).l[it.st.get(v).pos - 1]
        if len(a) > 1:
            return a[1]
        it.exc('StopIteration')
    m = it.find_special(v, '__next__')
    if m is None:
        it.exc('TypeError', 'object is not an iterator')
    return it.call(m, [])


@builtin('property')
def b_property(it, a, k):
    a = list(a)
    for i, n in enumerate(('fget', 'fset', 'fdel', 'doc')):
        if n in k:
            while len(a) <= i:
                a.append(None)
            a[i] = k[n]
    return Wrap('property', *a)


@builtin('staticmethod')
def b_static(it, a, k):
    return Wrap('staticmethod', a[0])


@builtin('classmethod')
def b_classm(it, a, k):
    return Wrap('classmethod', a[0])


@builtin('super')
def b_super(it, a, k):
    return Wrap('super', *a)


@builtin('vars')
def b_vars(it, a, k):
    return it.getattr(a[0], '__dict__')


@builtin('dir')
def b_dir(it, a, k):
    if isinstance(a[0], Ref):
        ob = it.st.get(a[0])
        names = set(ob.d) if hasattr(ob, 'd') else set()
        cls = ob if isinstance(ob, HClass) else it.st.get(it.class_of(a[0]))
        for b in cls.mro:
            names |= set(it.st.heap[b].d)
        return it.st_list(sorted(names))
    return it.st_list([])


@builtin('divmod')
def b_divmod(it, a, k):
    return Tup((it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1])))


@builtin('pow')
def b_pow(it, a, k):
    return it.binop('Pow', a[0], a[1])


@builtin('ord')
def b_ord(it, a, k):
    return ord(a[0])


@builtin('chr')
def b_chr(it, a, k):
    return chr(a[0])


@builtin('eval')
def b_eval(it, a, k):
    if not isinstance(a[0], str):
        raise T_giveup('eval of symbolic string')
    try:
        n = ast.parse(a[0].strip(), mode='eval')
    except SyntaxError:
        it.exc('ValueError', 'syntax')
    if len(a) > 1 and is_dict(it, a[1]):
        pass
    return it.eval(n.body)


@builtin('globals')
def b_globals(it, a, k):
    hd = HDict()
    mo = it.st.get(it.mods[it.frames[-1].mod])
    for kk, v in mo.d.items():
        hd.d[kk] = v
        hd.keys[kk] = kk
    return it.st.alloc(hd)


@builtin('locals')
def b_locals(it, a, k):
    hd = HDict()
    fr = it.frames[-1]
    d = it.st.heap[fr.env].d if fr.env is not None else it.st.get(it.mods[fr.mod]).d
    for kk, v in d.items():
        hd.d[kk] = v
        hd.keys[kk] = kk
    return it.st.alloc(hd)


@builtin('open')
def b_open(it, a, k):
    from . import fsmodel
    return fsmodel.open_(it, a, k)


@builtin('input')
def b_input(it, a, k):
    return Opq(('input', next(it.choice)))


BUILTINS['NotImplemented'] = Ext('NotImplemented')
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['__debug__'] = True


# ================================================================= methods
def M(table, *names):
    def deco(f):
        for n in names:
            table[n] = f
        return f
    return deco


LIST_M, DICT_M, STR_M, ARR_M, TUP_M, NUM_M, FILE_M = {}, {}, {}, {}, {}, {}, {}
NOLIFT = {'append', 'insert', 'setdefault', 'remove', 'index', 'count', 'extend'}


@M(LIST_M, 'append', 'add')
def l_append(it, a, k):
    s = it.st.w(a[0])
    if s.kind == 'set':
        h = hk(it, a[1])
        if any(hk(it, x) == h for x in s.l):
            return None
    s.l.append(a[1])


@M(LIST_M, 'extend', 'update')
def l_extend(it, a, k):
    items = it.lift_iter(a[1])
    if it.st.get(a[0]).kind == 'set':
        for x in items:
            l_append(it, [a[0], x], {})
        return
    it.st.w(a[0]).l.extend(items)


@M(LIST_M, 'insert')
def l_insert(it, a, k):
    def f(i):
        if is_symint(it.payload(i)):
            n = len(it.st.get(a[0]).l)
            p = num_poly(it.payload(i))

            def go(j):
                if j == n:
                    return it.st.w(a[0]).l.insert(n, a[2])
                return it.branch(it.guardbool('==', sub(p, C(j))), lambda: it.st.w(a[0]).l.insert(j, a[2]),
                                 lambda: go(j + 1))
            return go(0)
        it.st.w(a[0]).l.insert(_cint(it, i), a[2])
    it.lift(f, a[1])


@M(LIST_M, 'pop')
def l_pop(it, a, k):
    o = it.st.w(a[0])
    if not o.l:
        it.exc('IndexError', 'pop from empty list')
    if len(a) > 1:
        j = _cint(it, a[1])
        if not (-len(o.l) <= j < len(o.l)):
            it.exc('IndexError', 'pop index out of range')
        return o.l.pop(j)
    return o.l.pop()


@M(LIST_M, 'remove', 'discard')
def l_remove(it, a, k):
    o = it.st.get(a[0])
    n = len(o.l)

    def go(i):
        if i == n:
            it.exc('ValueError', 'list.remove(x): x not in list')
        x = it.st.get(a[0]).l[i]
        c = it.truth(_same_or_eq(it, x, a[1]))

        def rm():
            del it.st.w(a[0]).l[i]
        return it.branch(c, rm, lambda: go(i + 1))
    return go(0)


@M(LIST_M, 'index')
def l_index(it, a, k):
    l = list(it.st.get(a[0]).l) if isinstance(a[0], Ref) else list(a[0].l)

    def go(i):
        if i == len(l):
            it.exc('ValueError', 'x not in list')
        return it.branch(it.truth(_same_or_eq(it, l[i], a[1])), lambda: i, lambda: go(i + 1))
    return go(0)


TUP_M['index'] = l_index


@M(LIST_M, 'count')
def l_count(it, a, k):
    l = list(it.st.get(a[0]).l) if isinstance(a[0], Ref) else list(a[0].l)
    tot = 0
    for x in l:
        c = it.truth(_same_or_eq(it, x, a[1]))
        tot = it.binop('Add', tot, it.branch(c, lambda: 1, lambda: 0))
    return tot


TUP_M['count'] = l_count


@M(LIST_M, 'reverse')
def l_reverse(it, a, k):
    it.st.w(a[0]).l.reverse()


@M(LIST_M, 'sort')
def l_sort(it, a, k):
    r = sort_items(it, list(it.st.get(a[0]).l), k)
    it.st.w(a[0]).l[:] = r


@M(LIST_M, 'copy')
def l_copy(it, a, k):
    o = it.st.get(a[0])
    return it.st_list(o.l, o.kind)


@M(LIST_M, 'clear')
def l_clear(it, a, k):
    it.st.w(a[0]).l.clear()


@M(LIST_M, '__next__')
def l_next(it, a, k):
    return b_next(it, a, k)


@M(LIST_M, '__iter__')
def l_iter(it, a, k):
    return a[0] if it.st.get(a[0]).kind == 'iter' else it.st_list(it.st.get(a[0]).l, 'iter')


LIST_M['__getitem__'] = lambda it, a, k: getitem(it, a[0], a[1])
LIST_M['__setitem__'] = lambda it, a, k: setitem(it, a[0], a[1], a[2])
LIST_M['__delitem__'] = lambda it, a, k: delitem(it, a[0], a[1])
LIST_M['__len__'] = lambda it, a, k: b_len(it, [a[0]], {})
DICT_M['__getitem__'] = LIST_M['__getitem__']
DICT_M['__setitem__'] = LIST_M['__setitem__']
DICT_M['__delitem__'] = LIST_M['__delitem__']


@M(DICT_M, 'get')
def d_get(it, a, k):
    ob = it.st.get(a[0])
    c = contains(it, a[0], a[1])
    dflt = a[2] if len(a) > 2 else None
    return it.branch(c, lambda: getitem(it, a[0], a[1]), lambda: dflt)


@M(DICT_M, 'keys')
def d_keys(it, a, k):
    ob = it.st.get(a[0])
    return it.st_list([ob.keys.get(x, x) for x in ob.d])


@M(DICT_M, 'values')
def d_values(it, a, k):
    return it.st_list(list(it.st.get(a[0]).d.values()))


@M(DICT_M, 'items')
def d_items(it, a, k):
    ob = it.st.get(a[0])
    return it.st_list([Tup((ob.keys.get(x, x), v)) for x, v in ob.d.items()])


@M(DICT_M, 'update')
def d_update(it, a, k):
    if len(a) > 1:
        dict_update(it, a[0], a[1])
    for kk, v in k.items():
        setitem(it, a[0], kk, v)


@M(DICT_M, 'setdefault')
def d_setdefault(it, a, k):
    c = contains(it, a[0], a[1])
    v = a[2] if len(a) > 2 else None

    def put():
        setitem(it, a[0], a[1], v)
        return v
    return it.branch(c, lambda: getitem(it, a[0], a[1]), put)


@M(DICT_M, 'pop')
def d_pop(it, a, k):
    kk = hk(it, a[1])
    ob = it.st.get(a[0])
    if kk not in ob.d:
        if len(a) > 2:
            return a[2]
        it.exc('KeyError', a[1])
    w = it.st.w(a[0])
    w.keys.pop(kk, None)
    return w.d.pop(kk)


@M(DICT_M, 'copy')
def d_copy(it, a, k):
    r = it.st.alloc(HDict())
    dict_update(it, r, a[0])
    return r


@M(DICT_M, 'clear')
def d_clear(it, a, k):
    w = it.st.w(a[0])
    w.d.clear()
    w.keys.clear()


@M(DICT_M, '__contains__', 'has_key')
def d_has(it, a, k):
    return contains(it, a[0], a[1])


@M(DICT_M, '__iter__')
def d_iter(it, a, k):
    return it.st_list(it.iterate(a[0]), 'iter')


@M(DICT_M, 'close')
def d_close(it, a, k):
    return None


def str_method(it, s, name):
    def f(it, a, k):
        s = a[0]
        args = a[1:]
        if isinstance(s, (str, bytes)) and all(isinstance(x, (str, int, bytes, type(None))) or
                                               isinstance(x, Tup) and all(isinstance(y, str) for y in x.l)
                                               for x in args) and not k:
            if not hasattr(s, name):
                it.exc('AttributeError', name)
            try:
                r = getattr(s, name)(*[tuple(x.l) if isinstance(x, Tup) else x for x in args])
            except (ValueError, TypeError) as e:
                it.exc(type(e).__name__, str(e))
            return _from_py(it, r)
        if name == 'join' and isinstance(s, str):
            items = it.iterate(args[0])
            out = []
            for i, x in enumerate(items):
                if i:
                    out.append(s)
                if not isinstance(x, (str, SStr)):
                    it.exc('TypeError', 'sequence item: expected str')
                out.extend(_parts(x))
            return mkstr(SStr(out))
        if name == 'format' and isinstance(s, str):
            return SStr((('format', s, tuple(it.key(x) for x in args), tuple(sorted((kk, it.key(v)) for kk, v in k.items()))),))
        if isinstance(s, SStr):
            if name == 'endswith' and isinstance(args[0], str) and isinstance(s.parts[-1], str) and \
                    len(s.parts[-1]) >= len(args[0]):
                return s.parts[-1].endswith(args[0])
            if name == 'startswith' and isinstance(args[0], str) and isinstance(s.parts[0], str) and \
                    len(s.parts[0]) >= len(args[0]):
                return s.parts[0].startswith(args[0])
            if name in ('endswith', 'startswith', 'isdigit'):
                return it.opqbool(('strm', name, s.parts, tuple(it.key(x) for x in args)))
            return SStr((('strm', name, s.parts, tuple(it.key(x) for x in args)),))
        return Opq(('strm', name, it.key(s), tuple(it.key(x) for x in args)))
    return BM(s, Builtin('str.' + name, f))


def _from_py(it, r):
    if isinstance(r, (str, int, bytes, bool, type(None))):
        return r
    if isinstance(r, float):
        return Num(C(r), 'f')
    if isinstance(r, tuple):
        return Tup([_from_py(it, x) for x in r])
    if isinstance(r, list):
        return it.st_list([_from_py(it, x) for x in r])
    raise T_giveup('python value')


def builtin_attr(it, o, name):
    if isinstance(o, (str, SStr, bytes)):
        if isinstance(o, SStr) and hasattr(str, name) or hasattr(o, name):
            return (str_method(it, o, name),)
        return None
    if isinstance(o, Tup):
        if name in TUP_M:
            return (BM(o, Builtin('nl:tuple.' + name, TUP_M[name])),)
        return None
    if isinstance(o, (int, Num, SymBool)):
        if name in ('real',):
            return (o,)
        if name == 'imag':
            return (0,)
        if name in ('shape',):
            return (Tup(()),) if isinstance(o, Num) else None
        if name == 'size' and isinstance(o, Num):
            return (1,)
        if name == 'ndim' and isinstance(o, Num):
            return (0,)
        if isinstance(o, Num) and name in ('sum', 'max', 'min', 'mean', 'copy', 'item', 'conjugate'):
            return (Builtin('scalar.' + name, lambda it, a, k: o),)
        if isinstance(o, (Num, SymBool)) and name in ('all', 'any'):
            return (Builtin('scalar.' + name, lambda it, a, k: it.truth(o)),)
        if name in ('__float__',):
            return (Builtin('num.__float__', lambda it, a, k: Num(num_poly(o), 'f')),)
        if name in ('__add__', '__sub__', '__mul__', '__truediv__', '__radd__', '__rmul__'):
            op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'radd': 'Add', 'rmul': 'Mult'}[name.strip('_')]
            return (Builtin('num.' + name, lambda it, a, k: it.binop(op, o, a[0])),)
        if name == 'is_integer':
            return (Builtin('num.is_integer', lambda it, a, k: it.guardbool('==', sub(num_poly(o), T.trunc(num_poly(o))))),)
        return None
    if isinstance(o, Ref):
        ob = it.st.heap[o.o]
        if isinstance(ob, HList):
            if name in LIST_M and (name not in ('append', 'sort', 'insert', 'extend', 'reverse', 'index') or
                                   ob.kind in ('list',)) and (name not in ('add', 'update', 'discard') or ob.kind == 'set'):
                return (BM(o, Builtin('nl:list.' + name, LIST_M[name])),)
            return None
        if isinstance(ob, HDict):
            if name == 'files' and ob.kind == 'npz':
                return (d_keys(it, [o], {}),)
            if name in DICT_M:
                return (BM(o, Builtin(('nl:' if name in NOLIFT or name == 'update' else '') + 'dict.' + name, DICT_M[name])),)
            return None
        if isinstance(ob, HArr):
            return arr_attr(it, o, ob, name)
    if isinstance(o, Cb):
        if name == '__name__':
            return (o.name,)
        return None
    if isinstance(o, Builtin) and name == '__name__':
        return (o.name.split(':')[-1],)
    return None


def real_attr(it, o, name):
    """does CPython's type have this attribute (so that its absence here is a gap of the model)?"""
    import numpy as np
    import types
    if isinstance(o, (str, SStr)):
        t = (str, np.str_)
    elif isinstance(o, bytes):
        t = (bytes,)
    elif isinstance(o, Tup):
        t = (tuple,)
    elif isinstance(o, (bool, SymBool)):
        t = (bool, np.bool_)
    elif isinstance(o, int) or isinstance(o, Num) and o.k == 'i':
        t = (int, np.int64)
    elif isinstance(o, Num):
        t = (float, np.float64)
    elif isinstance(o, (Fn, BM, Builtin, Cb)):
        t = (types.FunctionType, types.MethodType)
    elif isinstance(o, Ref):
        ob = it.st.heap[o.o]
        if isinstance(ob, HList):
            t = {'list': (list,), 'set': (set,), 'iter': (types.GeneratorType,)}.get(ob.kind, (list, set, type({}.keys())))
        elif isinstance(ob, HDict):
            t = (dict,)
        elif isinstance(ob, HArr):
            t = (np.ndarray,)
        elif isinstance(ob, HMod):
            return name in ('__package__', '__spec__', '__loader__', '__path__')
        elif isinstance(ob, (HInst, HClass)):
            c = ob if isinstance(ob, HClass) else it.st.heap[ob.cls]
            t = [object]
            for b in c.mro:
                n = it.st.heap[b].native
                t += {'list': [list], 'dict': [dict], 'tuple': [tuple], 'str': [str], 'float': [float], 'int': [int],
                      'exception': [BaseException], 'ndarray': [np.ndarray], 'type': [type], 'set': [set]}.get(n, [])
            if isinstance(ob, HClass):
                t.append(type)
            elif name in ('__module__', '__weakref__', '__slots__'):
                return True
        else:
            return False
    else:
        return True
    return any(hasattr(x, name) for x in t)


def native_class_attr(it, o, ob, name):
    for b in ob.mro:
        n = it.st.heap[b].native
        tab = {'list': LIST_M, 'dict': DICT_M, 'tuple': TUP_M}.get(n)
        if tab and name in tab:
            return (Builtin('nl:%s.%s' % (n, name), _unwrapped(tab[name])),)
        if n == 'dict' and name == 'fromkeys' and ob.native == 'dict' and ob.name == 'dict':
            return (it.st.get(stub_module(it, '$builtins')).d['fromkeys'],)
        if n == 'str' and hasattr(str, name):
            return (Builtin('str.' + name, lambda it, a, k: it.call(str_method(it, a[0], name), a[1:], k)),)
        if n in ('float', 'int') and name in ('__add__', '__sub__', '__mul__', '__truediv__'):
            op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div'}[name.strip('_')]
            return (Builtin('num.' + name, lambda it, a, k: it.binop(op, it.payload(a[0]), it.payload(a[1]))),)
        if n in ('float', 'int', 'object', 'str') and name in ('__str__', '__repr__'):
            return (Builtin('obj.' + name, lambda it, a, k: SStr((('str', it.key(it.payload(a[0]))),))),)
    if name in ('__repr__', '__str__'):
        return (Builtin('obj.' + name, lambda it, a, k: SStr((('repr', it.key(a[0])),))),)
    if name == '__doc__':
        return (None,)
    if name == '__subclasses__':
        return (Builtin('type.__subclasses__', lambda it, a, k: it.st_list([])),)
    if name == '__qualname__':
        return (ob.name,)
    return None


def _unwrapped(f):
    def g(it, a, k):
        a = list(a)
        a[0] = it.payload(a[0])
        return f(it, a, k)
    return g


def native_inst_attr(it, o, ob, cls, name):
    if ob.payload is not None:
        pl = ob.payload
        v = builtin_attr(it, pl, name) if not isinstance(pl, Alt) else None
        return v
    if cls.native == 'exception':
        if name == 'message':
            return None
    if cls.native == 'file':
        from . import fsmodel
        return fsmodel.file_attr(it, o, ob, name)
    return None


def wrap_attr(it, w, name):
    if w.kind == 'super':
        if len(w.a) < 2:
            it.exc('TypeError', 'unbound super')
        cls, slf = w.a
        if isinstance(slf, Ref):
            ob = it.st.heap[slf.o]
            if isinstance(ob, HInst):
                mro = it.st.heap[ob.cls].mro
            elif isinstance(ob, HClass) and cls.o in ob.mro:
                mro = ob.mro
            elif isinstance(ob, HClass) and ob.meta is not None:
                mro = it.st.heap[ob.meta].mro
            else:
                mro = []
            if cls.o in mro:
                for b in mro[mro.index(cls.o) + 1:]:
                    d = it.st.heap[b].d
                    if name in d:
                        v = d[name]
                        if isinstance(v, (Fn, Builtin)):
                            return BM(slf, v)
                        if isinstance(v, Wrap):
                            if v.kind == 'staticmethod':
                                return v.a[0]
                            if v.kind == 'classmethod':
                                return BM(slf if isinstance(ob, HClass) else Ref(ob.cls), v.a[0])
                            if v.kind == 'property':
                                return it.call(v.a[0], [slf])
                        return v
                c = it.st.heap[mro[-1]]
                r = native_class_attr(it, cls, it.st.heap[cls.o], name)
                if r is not None:
                    return BM(slf, r[0])
                if isinstance(ob, HInst) and ob.payload is not None:
                    r = builtin_attr(it, ob.payload, name)
                    if r is not None:
                        return r[0]
        it.exc('AttributeError', name)
    if w.kind == 'property':
        if name == 'setter':
            return Builtin('property.setter', lambda it, a, k: Wrap('property', w.a[0], a[0]))
        if name == 'deleter':
            return Builtin('property.deleter', lambda it, a, k: w)
        if name == 'getter':
            return Builtin('property.getter', lambda it, a, k: Wrap('property', a[0], *w.a[1:]))
        if name in ('fget', 'fset'):
            i = 0 if name == 'fget' else 1
            return w.a[i] if len(w.a) > i else None
    if w.kind == 'partial' and name in ('func', 'args'):
        return w.a[0] if name == 'func' else Tup(w.a[1])
    it.exc('AttributeError', name)


def call_wrap(it, w, args, kw):
    if w.kind == 'partial':
        f, a, k = w.a
        kk = dict(k)
        kk.update(kw)
        return it.call(f, list(a) + list(args), kk)
    if w.kind == 'staticmethod':
        return it.call(w.a[0], args, kw)
    if w.kind == 'decorator':
        return args[0]
    it.exc('TypeError', "'%s' object is not callable" % w.kind)


# ================================================================= array attributes
def arr_attr(it, o, ob, name):
    if name == 'shape':
        return (Tup([d if isinstance(d, int) else mknum(d, 'i') for d in ob.shape]),)
    if name == 'size':
        if ob.pos is None:
            return (mknum(ob.shape[0], 'i'),)
        return (len(ob.pos),)
    if name == 'ndim':
        return (len(ob.shape),)
    if name == 'T':
        return (np_transpose(it, [o], {}),)
    if name == 'dtype':
        return (Opq(('dtype', ob.k)),)
    if name == 'flat':
        return (it.st_list(arr_vals(it, ob), 'iter'),)
    if name == 'flags':
        return (Opq(('flags', o.o)),)
    if name == 'view':
        if ob.pos is None:
            return None
        return (Builtin('arr.view', lambda it, a, k: view(it, ob, list(ob.pos), ob.shape)),)
    f = ARR_M.get(name)
    if f is not None:
        return (BM(o, Builtin('arr.' + name, f)),)
    from . import stubs
    if name in ('ptp', 'take', 'repeat', 'swapaxes', 'diagonal', 'trace', 'cumprod') and 'numpy.' + name in stubs.NAMES:
        return (BM(o, it.st.get(stub_module(it, 'numpy')).d[name]),)
    return None


def _axis(a, k, pos=1):
    return a[pos] if len(a) > pos else k.get('axis')


def reduce_axis(it, v, axis, f):
    """apply f(list of values) along the axis (None: all)"""
    n = to_nested(it, v)
    if n is None:
        return f([v])
    vals, shape, k = n
    if axis is None:
        return f(vals)
    axis = _cint(it, axis)
    if axis < 0:
        axis += len(shape)
    if axis >= len(shape) or axis < 0:
        it.exc('ValueError', 'axis out of bounds')
    st = strides(shape)
    oshape = shape[:axis] + shape[axis + 1:]
    out = []
    for ix in ndindex(oshape):
        full = list(ix[:axis]) + [0] + list(ix[axis:])
        base = sum(i * s for i, s in zip(full, st))
        out.append(f([vals[base + j * st[axis]] for j in range(shape[axis])]))
    if not oshape:
        return out[0]
    return arr_new(it, out, oshape)


@M(ARR_M, 'sum')
def np_sum(it, a, k):
    v = a[0]
    if is_vec(it, v):
        ob = it.st.get(v)
        return Num(vsum(arr_poly(it, ob)), ob.k if ob.k != 'b' else 'i')
    if is_list(it, v) and it.st.get(v).kind == 'iter':
        v = it.st_list(it.iterate(v))

    def s(xs):
        t = 0
        if not xs:
            return Num(ZERO, 'f')
        for x in xs:
            t = it.binop('Add', t, it.payload(x))
        return t
    return reduce_axis(it, v, _axis(a, k), s)


@M(ARR_M, 'prod')
def np_prod(it, a, k):
    def s(xs):
        t = 1
        for x in xs:
            t = it.binop('Mult', t, x)
        return t
    return reduce_axis(it, a[0], _axis(a, k), s)


@M(ARR_M, 'max')
def np_max(it, a, k):
    if is_vec(it, a[0]):
        return Num(vext('vmax', arr_poly(it, it.st.get(a[0]))), 'f')
    return reduce_axis(it, a[0], _axis(a, k), lambda xs: _extreme('max')(it, [it.st_list(xs)], {}))


@M(ARR_M, 'min')
def np_min(it, a, k):
    if is_vec(it, a[0]):
        return Num(vext('vmin', arr_poly(it, it.st.get(a[0]))), 'f')
    return reduce_axis(it, a[0], _axis(a, k), lambda xs: _extreme('min')(it, [it.st_list(xs)], {}))


def _argext(op):
    def f(it, a, k):
        if _axis(a, k) is not None and len(to_nested(it, a[0])[1]) > 1:
            raise T_giveup('argmax axis')
        vals = to_nested(it, a[0])[0]
        if not vals:
            it.exc('ValueError', 'attempt to get argmax of an empty sequence')
        best, bi = vals[0], 0
        for j, x in enumerate(vals[1:], 1):
            c = it.truth(it.compare(op, x, best))
            r = it.branch(c, lambda: Tup((x, j)), lambda: Tup((best, bi)))
            best, bi = r.l
        return bi
    return f


ARR_M['argmax'] = _argext('Gt')
ARR_M['argmin'] = _argext('Lt')


@M(ARR_M, 'mean')
def np_mean(it, a, k):
    v = a[0]
    if is_vec(it, v):
        return it.binop('Div', np_sum(it, [v], {}), b_len(it, [v], {}))
    return reduce_axis(it, v, _axis(a, k),
                       lambda xs: it.binop('Div', _fold(it, 'Add', xs), len(xs)))


def _fold(it, op, xs):
    t = xs[0]
    for x in xs[1:]:
        t = it.binop(op, t, x)
    return t


@M(ARR_M, 'var')
def np_var(it, a, k):
    dd = k.get('ddof', 0)

    def f(xs):
        m = it.binop('Div', _fold(it, 'Add', xs), len(xs))
        sq = [it.binop('Pow', it.binop('Sub', x, m), 2) for x in xs]
        return it.binop('Div', _fold(it, 'Add', sq), it.binop('Sub', len(xs), dd))
    return reduce_axis(it, a[0], _axis(a, k), f)


@M(ARR_M, 'std')
def np_std(it, a, k):
    return np_elem('sqrt', np_var(it, a, k), it)


@M(ARR_M, 'cumsum')
def np_cumsum(it, a, k):
    vals = to_nested(it, a[0])[0]
    out, t = [], None
    for x in vals:
        t = x if t is None else it.binop('Add', t, x)
        out.append(t)
    return arr_new(it, out)


@M(ARR_M, 'all')
def np_all(it, a, k):
    n = to_nested(it, a[0])
    if n is None:
        return it.truth(a[0])
    return all_of(it, [lambda x=x: x for x in n[0]])


@M(ARR_M, 'any')
def np_any(it, a, k):
    n = to_nested(it, a[0])
    if n is None:
        return it.truth(a[0])
    return any_of(it, [lambda x=x: x for x in n[0]])


@M(ARR_M, 'copy')
def np_copy(it, a, k):
    return np_array(it, [a[0]], {})


@M(ARR_M, 'flatten')
def np_flatten(it, a, k):
    ob = it.st.get(a[0])
    if ob.pos is None:
        return np_copy(it, a, k)
    order = k.get('order', a[1] if len(a) > 1 else 'C')
    if order == 'F':
        return np_flatten(it, [np_transpose(it, [a[0]], {})], {})
    return arr_new(it, arr_vals(it, ob), None, ob.k)


@M(ARR_M, 'ravel')
def np_ravel(it, a, k):
    n = to_nested(it, a[0])
    if is_arr(it, a[0]):
        ob = it.st.get(a[0])
        return view(it, ob, list(ob.pos), (len(ob.pos),))
    return arr_new(it, n[0] if n else [a[0]])


@M(ARR_M, 'reshape')
def np_reshape(it, a, k):
    v = a[0]
    sh = a[1:] if len(a) > 2 or isinstance(a[1], (int, Num)) else it.iterate(a[1])
    sh = [_cint(it, x) for x in sh]
    if not is_arr(it, v):
        v = np_array(it, [v], {})
    ob = it.st.get(v)
    return view(it, ob, list(ob.pos), _fix_shape(it, sh, len(ob.pos)))


@M(ARR_M, 'transpose')
def np_transpose(it, a, k):
    v = a[0]
    if not is_arr(it, v):
        v = np_array(it, [v], {})
    ob = it.st.get(v)
    if ob.pos is None or len(ob.shape) < 2:
        return v
    st = strides(ob.shape)
    sh = tuple(reversed(ob.shape))
    rs = list(reversed(st))
    pos = [ob.pos[sum(i * s for i, s in zip(ix, rs))] for ix in ndindex(sh)]
    return view(it, ob, pos, sh)


@M(ARR_M, 'tolist')
def np_tolist(it, a, k):
    ob = it.st.get(a[0])

    def go(pos, shape):
        if len(shape) == 1:
            return it.st_list([vals[p] for p in pos])
        m = len(pos) // shape[0] if shape[0] else 0
        return it.st_list([go(pos[i * m:(i + 1) * m], shape[1:]) for i in range(shape[0])])
    vals = arr_vals(it, ob)
    return go(list(range(len(vals))), ob.shape)


def _dt(it, d):
    """array kind of a dtype argument, None if unspecified"""
    if d is None:
        return None
    if isinstance(d, Ref):
        for n, k in (('float', 'f'), ('int', 'i'), ('bool', 'b'), ('object', 'O'), ('complex', 'O'), ('str', 'U')):
            if d == it.natives[n]:
                return k
    if isinstance(d, str):
        c = d.lstrip('<>=|')[:1]
        return {'f': 'f', 'd': 'f', 'i': 'i', 'l': 'i', 'b': 'b', 'O': 'O', 'u': 'i'}.get(c, 'f') if d != 'object' else 'O'
    if isinstance(d, Ext):
        n = d.name.split('.')[-1]
        if n.startswith('float') or n in ('double',):
            return 'f'
        if n.startswith(('int', 'uint', 'long', 'intp')):
            return 'i'
        if n.startswith('bool'):
            return 'b'
        if n.startswith('object'):
            return 'O'
    if isinstance(d, Opq) and d.t[0] == 'dtype':
        return d.t[1]
    return 'f'


@M(ARR_M, 'astype')
def np_astype(it, a, k):
    kd = _dt(it, a[1])
    ob = it.st.get(a[0])
    if ob.pos is None:
        p = arr_poly(it, ob)
        return vec_new(it, T.trunc(p) if kd == 'i' and ob.k != 'i' else p, ob.shape[0], kd)
    return arr_new(it, [cast(it, v, kd) for v in arr_vals(it, ob)], ob.shape, kd)


@M(ARR_M, 'fill')
def np_fill(it, a, k):
    arr_assign_all(it, a[0], a[1])


@M(ARR_M, 'item')
def np_item(it, a, k):
    vals = arr_vals(it, it.st.get(a[0]))
    if len(a) > 1:
        return vals[_cint(it, a[1])]
    if len(vals) != 1:
        it.exc('ValueError', 'can only convert an array of size 1')
    return vals[0]


@M(ARR_M, 'dot')
def np_dot(it, a, k):
    x, y = to_nested(it, a[0]), to_nested(it, a[1])
    if x is None or y is None:
        return it.binop('Mult', a[0], a[1])

    def mat(n):
        return n[0], n[1]
    xv, xs = mat(x)
    yv, ys = mat(y)
    X = xs if len(xs) == 2 else (1,) + xs
    Y = ys if len(ys) == 2 else ys + (1,)
    if X[1] != Y[0]:
        it.exc('ValueError', 'shapes not aligned')
    out = []
    for i in range(X[0]):
        for j in range(Y[1]):
            t = None
            for m in range(X[1]):
                q = it.binop('Mult', xv[i * X[1] + m], yv[m * Y[1] + j])
                t = q if t is None else it.binop('Add', t, q)
            out.append(t if t is not None else Num(ZERO, 'f'))
    sh = (() if len(xs) == 1 else (X[0],)) + (() if len(ys) == 1 else (Y[1],))
    if not sh:
        return out[0]
    return arr_new(it, out, sh)


@M(ARR_M, 'sort')
def np_sort_m(it, a, k):
    ob = it.st.get(a[0])
    r = sort_items(it, arr_vals(it, ob), {})
    write_positions(it, it.st.get(a[0]), list(range(len(r))), tuple(ob.shape), (r, tuple(ob.shape), ob.k))


@M(ARR_M, 'clip')
def np_clip(it, a, k):
    lo = a[1] if len(a) > 1 else k.get('a_min', k.get('min'))
    hi = a[2] if len(a) > 2 else k.get('a_max', k.get('max'))

    def f(x, *_):
        if lo is not None:
            x = _extreme('max')(it, [x, lo], {})
        if hi is not None:
            x = _extreme('min')(it, [x, hi], {})
        return x
    return elementwise(it, f, a[0])


@M(ARR_M, 'nonzero')
def np_nonzero(it, a, k):
    vals = to_nested(it, a[0])[0]
    out = []
    for j, x in enumerate(vals):
        c = it.truth(x)
        if not isinstance(c, bool):
            raise T_giveup('symbolic nonzero')
        if c:
            out.append(j)
    return Tup((arr_new(it, out, None, 'i'),))


@M(ARR_M, 'searchsorted')
def np_searchsorted(it, a, k):
    vals = to_nested(it, a[0])[0]
    side = k.get('side', a[2] if len(a) > 2 else 'left')

    def one(x):
        def go(j):
            if j == len(vals):
                return j
            c = it.truth(it.compare('GtE' if side == 'left' else 'Gt', vals[j], x))
            return it.branch(c, lambda: j, lambda: go(j + 1))
        return go(0)
    return elementwise(it, one, a[1])


# ================================================================= numpy functions
def np_elem(name, v, it):
    def f(x):
        x = it.payload(x)
        p = num_poly(x)
        if p is None:
            if isinstance(x, Opq):
                return unk((name, x.t))
            it.exc('TypeError', 'ufunc %s not supported for %s' % (name, tname(it, x)))
        if name in ('floor', 'ceil') and p.const() is None and not p.rank:
            c = _round_facts(it, name, p)
            if c is not None:
                return Num(C(c), 'f')
        return Num(ELEM[name](p), 'f')
    return elementwise(it, lambda x: it.lift(f, x), v)


def _round_facts(it, name, p):
    """the floor or ceiling of p when the known facts bound p between two integers"""
    import math
    lo, ls, hi, hs = it.st.facts._pint(it.st.facts.simp(p))
    if lo is None or hi is None:
        return None
    if name == 'floor':
        a, b = math.floor(lo), (math.ceil(hi) - 1 if hs else math.floor(hi))
    else:
        a, b = (math.floor(lo) + 1 if ls else math.ceil(lo)), math.ceil(hi)
    return a if a == b else None


def trunc_facts(it, p):
    if p.const() is None and not p.rank:
        lo, ls, hi, hs = it.st.facts._pint(it.st.facts.simp(p))
        if lo is not None and lo >= 0 or hi is not None and hi <= 0:
            c = _round_facts(it, 'floor' if lo is not None and lo >= 0 else 'ceil', p)
            if c is not None:
                return C(c)
        elif lo is not None and hi is not None and -1 < lo and hi < 1:
            return ZERO
    return T.trunc(p)


def _floorp(p):
    c = p.const()
    if c is not None:
        return C(c.__floor__())
    if T.is_int(p):
        return p
    k = T.closed_near(p)
    if k is not None:
        return C(k)
    return A(mk_atom('floor', (p,), p.rank, kind='int'))


def _ceilp(p):
    c = p.const()
    if c is not None:
        return C(c.__ceil__())
    if T.is_int(p):
        return p
    k = T.closed_near(p)
    if k is not None:
        return C(k + 1)
    return A(mk_atom('ceil', (p,), p.rank, kind='int'))


def _log10(p):
    return div(T.log(p), T.log(C(10)))


ELEM = {'exp': T.exp, 'log': T.log, 'sqrt': T.sqrt, 'floor': _floorp, 'ceil': _ceilp,
        'sin': lambda p: fn('sin', p), 'cos': lambda p: fn('cos', p), 'tan': lambda p: fn('tan', p),
        'arctan': lambda p: fn('arctan', p), 'log10': _log10, 'fabs': T.fabs, 'gammaln': lambda p: fn('gammaln', p),
        'lgamma': lambda p: fn('gammaln', p), 'log1p': lambda p: T.log(add(p, ONE)),
        'expm1': lambda p: sub(T.exp(p), ONE), 'square': lambda p: T.powi(p, 2), 'trunc': T.trunc,
        'rint': lambda p: A(mk_atom('round', (p,), p.rank, kind='int')) if p.const() is None else C(round(p.const())),
        'sinh': lambda p: T.scale(sub(T.exp(p), T.exp(neg(p))), Fraction(1, 2)),
        'cosh': lambda p: T.scale(add(T.exp(p), T.exp(neg(p))), Fraction(1, 2)),
        'tanh': lambda p: fn('tanh', p), 'erf': lambda p: fn('erf', p), 'gamma': lambda p: fn('gammafn', p),
        'negative': neg, 'sign': lambda p: fn('sign', p), 'log2': lambda p: div(T.log(p), T.log(C(2)))}


def np_array(it, a, k):
    v = it.payload(a[0])
    kd = _dt(it, a[1] if len(a) > 1 else k.get('dtype'))
    if is_vec(it, v):
        ob = it.st.get(v)
        p = arr_poly(it, ob)
        return vec_new(it, T.trunc(p) if kd == 'i' and ob.k == 'f' else p, ob.shape[0], kd or ob.k)
    if isinstance(v, Opq):
        return Opq(('array', v.t))
    if isinstance(v, Ref) and is_list(it, v) and it.st.get(v).kind in ('iter', 'set'):
        return arr_new(it, [v], (), 'O')
    n = to_nested(it, v)
    if n is None:
        if num_poly(v) is None and not isinstance(v, (str, SStr)):
            return arr_new(it, [v], (), 'O')
        n = ([v], (), vals_kind(it, [v]))
    vals, shape, kk = n
    kk = kd or kk
    vals = [it.payload(x) for x in vals]
    if kk in 'fib':
        vals = [cast(it, x, kk) for x in vals]
    r = arr_new(it, vals, shape, kk)
    nd = k.get('ndmin')
    if nd is not None:
        ob = it.st.w(r)
        while len(ob.shape) < nd:
            ob.shape = (1,) + ob.shape
    return r


def np_asarray(it, a, k):
    v = it.payload(a[0])
    kd = _dt(it, a[1] if len(a) > 1 else k.get('dtype'))
    if is_arr(it, v) and (kd is None or it.st.get(v).k == kd):
        return v
    return np_array(it, a, k)


def _shape_arg(it, s):
    s = it.payload(s)
    if isinstance(s, (int, Num)):
        return [s]
    return it.iterate(s)


def np_full(val):
    def f(it, a, k):
        s = a[0] if a else k.get('shape')
        sh = _shape_arg(it, s)
        v = val
        i = 1
        if val == 'full':
            v = a[1] if len(a) > 1 else k['fill_value']
            i = 2
        kd = _dt(it, a[i] if len(a) > i else k.get('dtype')) or ('f' if val != 'full' else vals_kind(it, [v]))
        if v == 'empty':
            v = unk(('uninit', next(it.choice))) if kd in 'fi' else None
        if any(is_symint(x) for x in sh):
            if len(sh) == 1:
                n = num_poly(sh[0])
                p = num_poly(v)
                return vec_new(it, mul(p, A(mk_atom('fill', (n, ONE), 1))) if p.t else
                               A(mk_atom('fill', (n, ZERO), 1)), n, kd)
            raise T_giveup('symbolic 2-d array')
        sh = [_cint(it, x) for x in sh]
        if any(d < 0 for d in sh):
            it.exc('ValueError', 'negative dimensions are not allowed')
        n = 1
        for d in sh:
            n *= d
        if n > 20000:
            raise T_giveup('large array')
        if val == 'empty':
            c = next(it.choice)
            return arr_new(it, [Num(A(mk_atom('unk', (('uninit', c, j),))), 'f') if kd == 'f' else
                                (Num(A(mk_atom('unk', (('uninit', c, j),), 0, kind='int')), 'i') if kd == 'i' else None)
                                for j in range(n)], sh, kd)
        return arr_new(it, [cast(it, v, kd) if kd != 'O' else v] * n, sh, kd)
    return f


def np_like(val):
    def f(it, a, k):
        v = it.payload(a[0])
        kd = _dt(it, a[1] if len(a) > 1 and val != 'full' else k.get('dtype'))
        if is_vec(it, v):
            ob = it.st.get(v)
            return np_full(val)(it, [mknum(ob.shape[0], 'i')], {'dtype': Opq(('dtype', kd or ob.k))})
        n = to_nested(it, v)
        if n is None:
            n = ([v], (), vals_kind(it, [v]))
        args = [Tup(n[1])] + ([a[1]] if val == 'full' else [])
        return np_full(val)(it, args, {'dtype': Opq(('dtype', kd or n[2]))})
    return f


def np_linspace(it, a, k):
    lo, hi = it.payload(a[0]), it.payload(a[1])
    n = a[2] if len(a) > 2 else k.get('num', 50)
    pl, ph = num_poly(lo), num_poly(hi)
    if pl is None or ph is None:
        raise T_giveup('linspace')
    end = it.truth(k.get('endpoint', a[3] if len(a) > 3 else True))
    if isinstance(n, Num) and n.k == 'f':
        it.exc('TypeError', "'float' object cannot be interpreted as an integer")
    if is_symint(n):
        N = num_poly(n)
        d = sub(N, ONE) if end is True else N
        i = A(mk_atom('iota', (N,), 1))
        return vec_new(it, add(mul(pl, A(mk_atom('fill', (N, ONE), 1))), mul(i, div(sub(ph, pl), d))), N)
    n = _cint(it, n)
    if n < 0:
        it.exc('ValueError', 'negative number of samples')
    d = n - 1 if end is True else n
    vals = []
    for i in range(n):
        vals.append(Num(add(pl, T.scale(sub(ph, pl), Fraction(i, d))) if d else pl, 'f'))
    r = arr_new(it, vals, None, 'f')
    if k.get('retstep') is True:
        return Tup((r, Num(T.scale(sub(ph, pl), Fraction(1, d)) if d else T.NAN, 'f')))
    return r


def np_logspace(it, a, k):
    r = np_linspace(it, a, k)
    return elementwise(it, lambda x: Num(T.exp(mul(num_poly(x), T.log(C(10)))), 'f'), r)


def np_arange(it, a, k):
    ps = [num_poly(it.payload(x)) for x in a]
    kd = _dt(it, k.get('dtype'))
    if any(p is None for p in ps):
        raise T_giveup('arange')
    kk = kd or ('i' if all(kind_of(it.payload(x)) == 'i' for x in a) else 'f')
    if len(ps) == 1:
        lo, hi, st = ZERO, ps[0], ONE
    else:
        lo, hi, st = ps[0], ps[1], ps[2] if len(ps) > 2 else ONE
    n = div(sub(hi, lo), st)
    c = n.const()
    if c is None:
        if T.is_int(n):
            i = A(mk_atom('iota', (n,), 1))
            return vec_new(it, add(mul(lo, A(mk_atom('fill', (n, ONE), 1))), mul(i, st)), n, kk)
        raise T_giveup('symbolic arange')
    n = max(0, c.__ceil__())
    return arr_new(it, [mknum(add(lo, T.scale(st, i)), kk) for i in range(n)], None, kk)


def np_concatenate(it, a, k):
    parts = it.iterate(a[0])
    if any(is_vec(it, p) for p in parts):
        ps, n = [], ZERO
        for p in parts:
            q = p if is_arr(it, p) else np_array(it, [p], {})
            po = arr_poly(it, it.st.get(q))
            ps.append(po)
            n = add(n, it.st.get(q).shape[0] if not isinstance(it.st.get(q).shape[0], int) else C(it.st.get(q).shape[0]))
        return vec_new(it, A(mk_atom('concat', tuple(ps), 1, len=n)), n)
    ns = []
    for p in parts:
        n = to_nested(it, p)
        if n is None:
            it.exc('ValueError', 'zero-dimensional arrays cannot be concatenated')
        ns.append(n)
    axis = _axis(a, k) or 0
    if axis == 0 or len(ns[0][1]) == 1:
        vals = []
        for n in ns:
            vals += n[0]
        sh = (sum(n[1][0] for n in ns),) + ns[0][1][1:]
        kk = next(q for q in ('O', 'U', 'f', 'i', 'b') if any(n[2] == q for n in ns))
        if kk in 'fi':
            vals = [cast(it, v, kk) for v in vals]
        return arr_new(it, vals, sh, kk)
    if axis == 1 and len(ns[0][1]) == 2:
        vals = []
        for r in range(ns[0][1][0]):
            for n in ns:
                c = n[1][1]
                vals += n[0][r * c:(r + 1) * c]
        return arr_new(it, vals, (ns[0][1][0], sum(n[1][1] for n in ns)))
    raise T_giveup('concatenate')


def np_fromfunction(it, a, k):
    sh = [_cint(it, x) for x in it.iterate(a[1])]
    kd = _dt(it, k.get('dtype')) or 'f'
    n = 1
    for d in sh:
        n *= d
    ixs = list(ndindex(sh))
    args = [arr_new(it, [mknum(C(ix[j]), kd) for ix in ixs], sh, kd) for j in range(len(sh))]
    kw = {x: v for x, v in k.items() if x != 'dtype'}
    return it.call(a[0], args, kw)


def np_meshgrid(it, a, k):
    x, y = to_nested(it, a[0])[0], to_nested(it, a[1])[0]
    if k.get('indexing') == 'ij':
        sh = (len(x), len(y))
        return it.st_list([arr_new(it, [u for u in x for v in y], sh), arr_new(it, [v for u in x for v in y], sh)])
    sh = (len(y), len(x))
    return it.st_list([arr_new(it, [u for v in y for u in x], sh), arr_new(it, [v for v in y for u in x], sh)])


def np_where(it, a, k):
    if len(a) == 1:
        return np_nonzero(it, a, k)
    return elementwise(it, lambda c, x, y: it.branch(it.truth(c), lambda: x, lambda: y), *a)


def np_identity(it, a, k):
    n = _cint(it, a[0])
    kd = _dt(it, a[1] if len(a) > 1 and not isinstance(a[1], int) else k.get('dtype')) or 'f'
    return arr_new(it, [mknum(ONE if i == j else ZERO, kd) for i in range(n) for j in range(n)], (n, n), kd)


def np_outer(it, a, k):
    x, y = to_nested(it, a[0])[0], to_nested(it, a[1])[0]
    return arr_new(it, [it.binop('Mult', u, v) for u in x for v in y], (len(x), len(y)))


def np_shape(it, a, k):
    v = it.payload(a[0])
    if is_vec(it, v):
        return Tup((mknum(it.st.get(v).shape[0], 'i'),))
    n = to_nested(it, v)
    return Tup(n[1] if n is not None else ())


def np_size(it, a, k):
    n = to_nested(it, a[0])
    return len(n[0]) if n is not None else 1


def np_ndim(it, a, k):
    if is_vec(it, a[0]):
        return 1
    n = to_nested(it, a[0])
    return len(n[1]) if n is not None else 0


def np_iterable(it, a, k):
    v = a[0]
    if isinstance(v, (Tup, str)) or is_list(it, v) or is_dict(it, v):
        return True
    if is_arr(it, v):
        return len(it.st.get(v).shape) > 0
    if it.is_inst(v):
        return it.find_special(v, '__iter__') is not None or it.find_special(v, '__getitem__') is not None
    if isinstance(v, Opq):
        return it.opqbool(('iterable', v.t))
    return False


def np_isscalar(it, a, k):
    return num_poly(a[0]) is not None or isinstance(a[0], (str, SStr))


def np_diff(it, a, k):
    v = a[0]
    if is_vec(it, v):
        ob = it.st.get(v)
        p, n = arr_poly(it, ob), ob.shape[0]
        return vec_new(it, sub(slice_(p, ONE, n), slice_(p, ZERO, sub(n, ONE))), sub(n, ONE))
    vals = to_nested(it, v)[0]
    return arr_new(it, [it.binop('Sub', y, x) for x, y in zip(vals, vals[1:])])


def np_is(name):
    def f(it, a, k):
        def g(x):
            p = num_poly(it.payload(x))
            if p is None:
                return it.opqbool((name, it.key(x)))
            at = p.single_atom()
            if p.is_const():
                return False
            q = p
            if len(p.t) == 1 and len(p.t[0][0]) == 1:
                at = p.t[0][0][0][0]
                if at.op == 'const':
                    return (name == 'isinf') == ('inf' in at.args[0]) and (name != 'isfinite')
                if at.op == 'exp' and not at.rank and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
                    e = T.closed(at.args[0])
                    if e is not None and e > 709.79:        # beyond the largest floating-point number
                        return name == 'isinf'
            if name == 'isfinite':
                return True
            if it.special_floats:
                return it.opqbool((name, p))
            return False
        return elementwise(it, lambda x: it.lift(g, x), a[0])
    return f


def np_minmax2(op):
    def f(it, a, k):
        return elementwise(it, lambda x, y: _extreme(op)(it, [x, y], {}), a[0], a[1])
    return f


def np_allclose(it, a, k):
    r = elementwise(it, lambda x, y: it.compare('Eq', x, y), a[0], a[1])
    return np_all(it, [r], {})


def np_binop(op):
    return lambda it, a, k: elementwise(it, lambda x, y: it.binop(op, x, y), a[0], a[1])


def np_vstack(it, a, k):
    ns = [to_nested(it, x) for x in it.iterate(a[0])]
    vals = []
    for n in ns:
        vals += n[0]
    rows = sum(1 if len(n[1]) == 1 else n[1][0] for n in ns)
    return arr_new(it, vals, (rows, len(vals) // rows if rows else 0))


def np_column_stack(it, a, k):
    return np_transpose(it, [np_vstack(it, a, k)], {})


def np_append(it, a, k):
    x = to_nested(it, a[0])
    y = to_nested(it, a[1])
    return arr_new(it, (x[0] if x else [a[0]]) + (y[0] if y else [a[1]]))


def np_atleast_1d(it, a, k):
    v = it.payload(a[0])
    if is_arr(it, v) and len(it.st.get(v).shape) > 0:
        return v
    n = to_nested(it, v)
    if n is not None and len(n[1]):
        return np_array(it, a, k)
    return arr_new(it, [n[0][0] if n else v])


def np_sort(it, a, k):
    n = to_nested(it, a[0])
    return arr_new(it, sort_items(it, n[0], {}), n[1], n[2])


@M(ARR_M, 'argsort')
def np_argsort(it, a, k):
    n = to_nested(it, a[0])
    items = list(range(len(n[0])))
    r = sort_items(it, items, {'key': Builtin('argsort.key', lambda it, a, k: n[0][a[0]])})
    return arr_new(it, r, None, 'i')


def np_logaddexp(it, a, k):
    return elementwise(it, lambda x, y: Num(T.log(add(T.exp(num_poly(x)), T.exp(num_poly(y)))), 'f'), a[0], a[1])


def np_vectorize(it, a, k):
    f = a[0]
    return Builtin('vectorized:%s' % (it.key(f),), lambda it, a2, k2: elementwise(it, lambda *x: it.call(f, list(x)), *a2))


def np_trapz(it, a, k):
    y = to_nested(it, a[0])[0]
    x = a[1] if len(a) > 1 else k.get('x')
    xs = to_nested(it, x)[0] if x is not None else None
    t = Num(ZERO, 'f')
    for i in range(len(y) - 1):
        dx = it.binop('Sub', xs[i + 1], xs[i]) if xs is not None else k.get('dx', 1)
        t = it.binop('Add', t, it.binop('Div', it.binop('Mult', dx, it.binop('Add', y[i], y[i + 1])), 2))
    return t


NP = {
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'zeros': np_full(0), 'ones': np_full(1),
    'ascontiguousarray': np_asarray, 'asfarray': np_asarray,
    'empty': np_full('empty'), 'full': np_full('full'), 'zeros_like': np_like(0), 'ones_like': np_like(1),
    'empty_like': np_like('empty'), 'full_like': np_like('full'), 'linspace': np_linspace, 'logspace': np_logspace,
    'arange': np_arange, 'concatenate': np_concatenate, 'fromfunction': np_fromfunction, 'meshgrid': np_meshgrid,
    'where': np_where, 'identity': np_identity, 'eye': np_identity, 'outer': np_outer, 'shape': np_shape,
    'size': np_size, 'ndim': np_ndim, 'alen': lambda it, a, k: b_len(it, a, k),
    'iterable': np_iterable, 'isscalar': np_isscalar, 'diff': np_diff, 'isinf': np_is('isinf'),
    'isnan': np_is('isnan'), 'isfinite': np_is('isfinite'), 'maximum': np_minmax2('max'), 'minimum': np_minmax2('min'),
    'fmax': np_minmax2('max'), 'fmin': np_minmax2('min'),
    'allclose': np_allclose, 'array_equal': np_allclose, 'add': np_binop('Add'), 'subtract': np_binop('Sub'),
    'multiply': np_binop('Mult'), 'divide': np_binop('Div'), 'true_divide': np_binop('Div'), 'power': np_binop('Pow'),
    'mod': np_binop('Mod'), 'floor_divide': np_binop('FloorDiv'), 'sum': np_sum, 'prod': np_prod, 'max': np_max, 'amax': np_max,
    'min': np_min, 'amin': np_min, 'argmax': _argext('Gt'), 'argmin': _argext('Lt'), 'mean': np_mean, 'std': np_std,
    'var': np_var, 'cumsum': np_cumsum, 'all': np_all, 'any': np_any, 'alltrue': np_all, 'sometrue': np_any,
    'copy': np_copy, 'ravel': np_ravel, 'reshape': np_reshape, 'transpose': np_transpose, 'dot': np_dot,
    'inner': np_dot, 'vdot': np_dot, 'matmul': np_dot,
    'clip': np_clip, 'nonzero': np_nonzero, 'searchsorted': np_searchsorted, 'vstack': np_vstack,
    'column_stack': np_column_stack, 'append': np_append, 'atleast_1d': np_atleast_1d, 'sort': np_sort,
    'argsort': np_argsort, 'logaddexp': np_logaddexp, 'vectorize': np_vectorize, 'abs': b_abs, 'absolute': b_abs,
    'fabs': b_abs, 'round': b_round, 'trapz': np_trapz, 'hypot': lambda it, a, k: np_elem(
        'sqrt', it.binop('Add', it.binop('Pow', a[0], 2), it.binop('Pow', a[1], 2)), it),
    'float64': _float, 'float_': _float, 'int_': _int, 'int64': _int, 'bool_': lambda it, a, k: it.truth(a[0]),
    'fsum': b_sum, 'pow': b_pow, 'logical_and': lambda it, a, k: elementwise(
        it, lambda x, y: it.branch(it.truth(x), lambda: it.truth(y), lambda: False), a[0], a[1]),
    'logical_or': lambda it, a, k: elementwise(
        it, lambda x, y: it.branch(it.truth(x), lambda: True, lambda: it.truth(y)), a[0], a[1]),
    'logical_not': lambda it, a, k: elementwise(it, lambda x: it.notb(it.truth(x)), a[0]),
    'flatnonzero': lambda it, a, k: np_nonzero(it, a, k).l[0], 'squeeze': lambda it, a, k: a[0],
    'copysign': lambda it, a, k: elementwise(it, lambda x, y: it.branch(
        it.truth(it.compare('GtE', y, 0)), lambda: b_abs(it, [x], {}), lambda: it.unop('USub', b_abs(it, [x], {}))), a[0], a[1]),
}
for _n in ELEM:
    NP.setdefault(_n, (lambda n: (lambda it, a, k: np_elem(n, a[0], it)))(_n))
for _n in ('greater', 'less', 'equal', 'greater_equal', 'less_equal', 'not_equal'):
    _op = {'greater': 'Gt', 'less': 'Lt', 'equal': 'Eq', 'greater_equal': 'GtE', 'less_equal': 'LtE', 'not_equal': 'NotEq'}[_n]
    NP[_n] = (lambda op: (lambda it, a, k: it.compare(op, a[0], a[1])))(_op)


# ================================================================= external names
def load_names():
    global NUMPY_NAMES
    if NUMPY_NAMES is None:
        import json
        import os
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'extnames.json')
        NUMPY_NAMES = {k: set(v) for k, v in json.load(open(p)).items()}
    return NUMPY_NAMES


def ext_has(mod, name):
    return name in load_names().get(mod, ())


PI = Num(sym('pi'), 'f')
EXT_CONST = {'pi': PI, 'inf': Num(T.INF, 'f'), 'Inf': Num(T.INF, 'f'), 'infty': Num(T.INF, 'f'), 'nan': Num(T.NAN, 'f'),
             'NaN': Num(T.NAN, 'f'), 'newaxis': None, 'e': Num(T.exp(ONE), 'f')}


def canon(full):
    parts = full.split('.')
    if parts[0] in ('numpy', 'scipy', 'math') and len(parts) == 2:
        return 'numpy.' + parts[1]
    if parts[0] == 'np':
        return 'numpy.' + '.'.join(parts[1:])
    if full.startswith('scipy.special.'):
        return 'numpy.' + parts[-1]
    return full


EXT_VALUES = {}
EXT_CALLS = {}


def ext(name):
    def deco(f):
        EXT_CALLS[name] = f
        return f
    return deco


SUBMODS = {'scipy.stats', 'scipy.optimize', 'scipy.special', 'numpy.random', 'numpy.linalg', 'os.path', 'scipy.linalg',
           'scipy.integrate', 'numpy.fft'}


def stub_module(it, name):
    from . import stubs
    m = '$' + name
    if m not in it.mods or it.mods[m].o not in it.st.heap:
        mo = HMod(m)
        ref = it.st.alloc(mo)
        if m in it.mods:
            it.st.heap[it.mods[m].o] = mo
        else:
            it.mods[m] = ref
        mo.d['__name__'] = m
        if name not in _stub_trees:
            _stub_trees[name] = ast.parse(stubs.SOURCES[name])
        it.run_module(m, it.mods[m], _stub_trees[name])
    return it.mods[m]


_stub_trees = {}


@builtin('__Giveup__')
def b_giveup(it, a, k):
    raise T_giveup('%s: arguments not modelled' % a[0])


def ext_value(it, full):
    names = load_names()
    mod, _, nm = full.rpartition('.')
    if mod in names and nm not in names[mod] and full not in SUBMODS and full not in names:
        it.exc('AttributeError', "module '%s' has no attribute '%s'" % (mod, nm))
    if full in SUBMODS:
        return Ext(full)
    c = canon(full)
    if c.startswith('numpy.') and c.count('.') == 1:
        n = c.split('.')[1]
        if n in EXT_CONST:
            return EXT_CONST[n]
        if n == 'ndarray':
            return it.natives['ndarray']
        if n in ('ndarray', 'generic'):
            return Ext(c)
        if n == 'newaxis':
            return None
    if c in EXT_VALUES:
        return EXT_VALUES[c]
    if not (c in EXT_CALLS or c.startswith('numpy.') and c[6:] in NP):
        from . import stubs
        for nm in (full, c):
            if nm in stubs.NAMES:
                return it.st.get(stub_module(it, stubs.NAMES[nm])).d[nm.rpartition('.')[2]]
    if c == 'sys.platform':
        return 'linux'
    if c in ('numpy.LinAlgError', 'numpy.linalg.LinAlgError'):
        return it.natives['LinAlgError']
    if c in ('os.error',):
        return it.natives['OSError']
    return Ext(c)


def ext_class(it, e):
    key = 'ext:' + e.name
    if key not in it.natives:
        r = _mkcls(it, key, [it.natives['object']], None)
    return it.natives[key]


def call_ext(it, name, args, kw):
    it.extcalls.setdefault(name, 0)
    it.extcalls[name] += 1
    if name.startswith('numpy.') and name.count('.') == 1:
        f = NP.get(name[6:])
        if f is not None:
            if 'out' in kw and kw['out'] is not None:
                out = kw.pop('out')
                r = f(it, args, kw)
                arr_assign_all(it, out, r)
                return out
            return f(it, args, kw)
    f = EXT_CALLS.get(name)
    if f is not None:
        return f(it, args, kw)
    from . import fsmodel
    f = fsmodel.CALLS.get(name)
    if f is not None:
        return f(it, args, kw)
    if name.startswith('logging.') or name.startswith(('pylab.', 'matplotlib.', 'warnings.')):
        return Opq(('ext', name, next(it.choice)))
    it.unknown_calls.add(name)
    raise T_giveup('library function %s is not modelled' % name)


def fn_key(it, f):
    """canonical name of a callback: its term at a bound symbol"""
    node = f.fn.node if isinstance(f, BM) and isinstance(f.fn, Fn) else (f.node if isinstance(f, Fn) else None)
    if node is None:
        return ('bm', it.key(f.self) if isinstance(f, BM) else f, f.fn if isinstance(f, BM) else None)
    if it.fnkey_depth > 1:
        return ('fn', id(node))
    n = len(node.args.args) - (1 if isinstance(f, BM) else 0) - len((f.fn if isinstance(f, BM) else f).defaults)
    from .interp import Ctl, Giveup
    s, pend = it.st, it.pending
    it.pending = []
    it.st = s.copy()
    it.fnkey_depth += 1
    try:
        r = it.call(f, [Num(sym('$bv%d' % i), 'f') for i in range(max(n, 0))])
        k = ('fnterm', it.key(r)) if not it.pending else ('fn', id(node), getattr(f, 'env', None))
    except (Ctl, Giveup):
        k = ('fn', id(node))
    finally:
        it.fnkey_depth -= 1
        it.st, it.pending = s, pend
    return k


def call_cb(it, f, args, kw):
    if 'hook' in f.attrs:
        return f.attrs['hook'](it, f, args, kw)
    if f.attrs.get('count'):
        pass
    ew = f.attrs.get('elementwise', True)

    def one(*xs):
        ks = []
        for x in xs:
            x = it.payload(x)
            p = num_poly(x)
            ks.append(p if p is not None else it.key(x))
        at = {}
        if 'dom' in f.attrs:
            at['dom'] = f.attrs['dom']
        return Num(app(f.name, *ks, **at), 'f')
    if ew and any(is_arr(it, it.payload(a)) for a in args):
        return elementwise(it, one, *args)
    flat = []
    for a in args:
        a = it.payload(a)
        n = to_nested(it, a) if not is_vec(it, a) else None
        if n is not None:
            flat += n[0]
        else:
            flat.append(a)
    if f.ret:
        n = f.ret
        return arr_new(it, [Num(num_poly(one(*(flat + [j]))), 'f') for j in range(n)])
    return it.lift(lambda *a: one(*a), *flat)


# ---- scipy etc
def _app(name, dom=None, **attrs):
    def f(it, a, k):
        return elementwise(it, lambda *xs: Num(app(name, *[num_poly(it.payload(x)) for x in xs],
                                                   **({'dom': dom} if dom else {})), 'f'), *a)
    return f


for _d in ('chi2', 'norm'):
    for _m in ('cdf', 'ppf', 'pdf', 'sf', 'isf', 'logpdf'):
        EXT_CALLS['scipy.stats.%s.%s' % (_d, _m)] = _app('%s.%s' % (_d, _m))


def chi2fn(meth, x, df):
    """closed forms for 1 and 2 degrees of freedom (x > 0, 0 < p < 1)"""
    d = df.const() if isinstance(df, Poly) else None
    if meth in ('cdf', 'sf') and d in (1, 2):
        h = mul(C(Fraction(1, 2)), x)
        sf = T.A(T.mk_atom('erfc', (T.sqrt(h),), 0)) if d == 1 else T.exp(neg(h))
        return sf if meth == 'sf' else sub(ONE, sf)
    if meth in ('ppf', 'isf') and d == 2:
        return mul(C(-2), T.log(x if meth == 'isf' else sub(ONE, x)))
    return T.A(T.mk_atom('chi2' + meth, (x, df), 0))


def _chi2(meth):
    def f(it, a, k):
        df = a[1] if len(a) > 1 else k['df']
        return elementwise(it, lambda x, d: Num(chi2fn(meth, num_poly(it.payload(x)), num_poly(it.payload(d))), 'f'), a[0], df)
    return f


for _m in ('cdf', 'sf', 'ppf', 'isf'):
    EXT_CALLS['scipy.stats.chi2.' + _m] = _chi2(_m)


@ext('scipy.stats.chi2')
def x_chi2(it, a, k):
    return Opq(('frozen', 'chi2', a[0] if a else k['df'], None))


@ext('scipy.optimize.brentq')
def x_brentq(it, a, k):
    cl = it.mods.get('client')
    if cl is not None and '__brentq__' in it.st.get(cl).d:      # a root finder given by the client
        return it.call(it.st.get(cl).d['__brentq__'], a, k)
    f, lo, hi = a[0], a[1], a[2]
    extra = k.get('args', Tup(()))
    key = fn_key(it, f) if isinstance(f, (Fn, BM)) else it.key(f)
    r = app('brentq', key, num_poly(it.payload(lo)), num_poly(it.payload(hi)), it.key(extra))
    return Num(r, 'f')


@ext('functools.partial')
def x_partial(it, a, k):
    return Wrap('partial', a[0], tuple(a[1:]), tuple(k.items()))


@ext('functools.reduce')
def x_reduce(it, a, k):
    items = it.iterate(a[1])
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = it.call(a[0], [acc, x])
    return acc


@ext('functools.wraps')
def x_wraps(it, a, k):
    return Wrap('decorator')


@ext('functools.total_ordering')
def x_total(it, a, k):
    return a[0]


@ext('contextlib.contextmanager')
def x_ctxm(it, a, k):
    f = a[0]
    if not isinstance(f, Fn):
        raise T_giveup('contextmanager of a non-function')
    g = Fn()
    for n in Fn.__slots__:
        if hasattr(f, n):
            setattr(g, n, getattr(f, n))
    g.cm = True
    return g


@ext('copy.copy')
def x_copy(it, a, k):
    v = a[0]
    if isinstance(v, Ref):
        ob = it.st.get(v)
        if isinstance(ob, HArr):
            return np_copy(it, [v], {})
        if isinstance(ob, (HList, HDict, HInst)):
            n = ob.clone()
            return it.st.alloc(n)
    return v


@ext('copy.deepcopy')
def x_deepcopy(it, a, k):
    return deepcopy(it, a[0])


def deepcopy(it, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Tup):
        return Tup([deepcopy(it, x, memo) for x in v.l])
    if isinstance(v, Alt):
        return Alt(tuple((c, deepcopy(it, x, memo)) for c, x in v.alts))
    if not isinstance(v, Ref):
        return v
    if v.o in memo:
        return memo[v.o]
    ob = it.st.heap[v.o]
    if isinstance(ob, HArr):
        if ob.pos is None:
            r = vec_new(it, arr_poly(it, ob), ob.shape[0], ob.k)
        else:
            r = arr_new(it, arr_vals(it, ob), ob.shape, ob.k)
        memo[v.o] = r
        return r
    if isinstance(ob, (HClass, HMod, HEnv)):
        return v
    n = ob.clone()
    r = it.st.alloc(n)
    memo[v.o] = r
    if isinstance(n, HList):
        n.l = [deepcopy(it, x, memo) for x in ob.l]
    elif isinstance(n, HDict):
        n.d = {k: deepcopy(it, x, memo) for k, x in ob.d.items()}
    elif isinstance(n, HInst):
        n.d = {k: deepcopy(it, x, memo) for k, x in ob.d.items()}
        n.payload = deepcopy(it, ob.payload, memo)
    return r


@ext('inspect.getsourcelines')
def x_getsourcelines(it, a, k):
    v = a[0]
    if getattr(it, 'no_source', False):
        it.exc('OSError', 'could not get source code')
    if isinstance(v, Ref):
        ob = it.st.get(v)
        if isinstance(ob, HClass) and ob.src is not None:
            mod, node = ob.src
            lines = it.sources[mod].splitlines(True)[node.lineno - 1:node.end_lineno]
            return Tup((it.st_list(lines), node.lineno))
    return Tup((Opq(('src',)), 0))


@ext('numpy.random.get_state')
def x_get_state(it, a, k):
    r = it.st.get(it.rng).d
    t = r['state'].t
    n = r['n']
    parts = r.get('parts')
    if t[0] == 'partial' and isinstance(n, int) and n == 0 and isinstance(parts, Tup) and same(parts.l[0], r['state']):
        return Tup(parts.l[1:])
    return Tup(('MT19937', Opq(('rngkey', t, n)), Num(A(mk_atom('app', ('rngpos', t, n), 0, kind='int')), 'i'),
                Num(A(mk_atom('app', ('rnggauss', t, n), 0, kind='int')), 'i'),
                Num(A(mk_atom('app', ('rngcache', t, n), 0)), 'f')))


@ext('numpy.random.set_state')
def x_set_state(it, a, k):
    w = it.st.w(it.rng)
    items = it.iterate(a[0])
    if len(items) < 3:
        it.exc('ValueError', 'set_state argument must be a full state')
    while len(items) < 5:
        items.append(0 if len(items) == 3 else Num(ZERO, 'f'))
    comps = tuple(it.key(x) for x in items)
    # a complete saved state restores the original
    k0 = items[1]
    if isinstance(k0, Opq) and k0.t[0] == 'rngkey':
        t, n = k0.t[1], k0.t[2]
        full = (k0, Num(A(mk_atom('app', ('rngpos', t, n), 0, kind='int')), 'i'),
                Num(A(mk_atom('app', ('rnggauss', t, n), 0, kind='int')), 'i'),
                Num(A(mk_atom('app', ('rngcache', t, n), 0)), 'f'))
        if items[0] == 'MT19937' and all(same(x, y) for x, y in zip(items[1:], full)):
            w.d['state'], w.d['n'] = Opq(t), n
            return None
    w.d['state'], w.d['n'] = Opq(('partial', comps)), 0
    w.d['parts'] = Tup((w.d['state'],) + tuple(items[:5]))
    return None


def rng_draw(it, what, args, shape=()):
    w = it.st.w(it.rng)
    t, n = w.d['state'].t, w.d['n']
    what = {'rand': 'random', 'random_sample': 'random', 'randn': 'normal', 'standard_normal': 'normal'}.get(what, what)
    tot = 1
    for d in shape:
        tot *= d
    w.d['n'] = it.binop('Add', n, tot)          # an array takes its elements from the sequence one by one
    at = {'dom': ('unit',)} if what == 'random' else {}

    def one(j):
        return Num(A(mk_atom('app', (('rnd', what, t, it.key(it.binop('Add', n, j) if j else n)), 0), 0, **at)), 'f')
    if shape == ():
        return one(0)
    return arr_new(it, [one(j) for j in range(tot)], shape, 'f')


def _size(it, v):
    if v is None:
        return ()
    if isinstance(v, int):
        return (v,)
    return tuple(_cint(it, x) for x in it.iterate(v))


@ext('numpy.random.normal')
def x_normal(it, a, k):
    loc = a[0] if a else k.get('loc', 0)
    sc = a[1] if len(a) > 1 else k.get('scale', 1)
    size = a[2] if len(a) > 2 else k.get('size')
    sh = _size(it, size)
    if size is None:
        for x in (loc, sc):
            n = to_nested(it, x)
            if n is not None:
                sh = broadcast(it, [sh, n[1]]) if sh else n[1]
    z = rng_draw(it, 'normal', a, sh)
    return it.binop('Add', loc, it.binop('Mult', sc, z))


@ext('scipy.stats.norm.rvs')
def x_rvs(it, a, k):
    return x_normal(it, a, k)


@ext('scipy.stats.norm')
def x_norm(it, a, k):
    loc = a[0] if a else k.get('loc', 0)
    sc = a[1] if len(a) > 1 else k.get('scale', 1)
    return Opq(('frozen', 'norm', loc, sc))


def frozen_attr(it, o, name):
    _, what, loc, sc = o.t
    if what == 'chi2':
        f = EXT_CALLS.get('scipy.stats.chi2.' + name)
        return Builtin('nl:' + name, lambda it, a, k: f(it, [a[0], loc], {})) if f else None
    if name == 'rvs':
        return Builtin('nl:rvs', lambda it, a, k: x_normal(it, [loc, sc] + list(a[:1] or ([k['size']] if 'size' in k else [])), {}))
    if name in ('cdf', 'pdf', 'sf', 'logpdf', 'ppf', 'isf') and loc == 0 and sc == 1:
        return Builtin('nl:' + name, lambda it, a, k: EXT_CALLS['scipy.stats.%s.%s' % (what, name)](it, a, k))
    return None


@ext('random.normalvariate')
def x_nv(it, a, k):
    return it.binop('Add', a[0], it.binop('Mult', a[1], rng_draw(it, 'pynormal', a)))


def _draw(what):
    def f(it, a, k):
        return rng_draw(it, 'normal' if what in ('randn', 'standard_normal') else what, a, tuple(_cint(it, x) for x in a) if what in ('rand', 'randn') else
                        _size(it, k.get('size', a[0] if a else None)))
    return f


for _n in ('rand', 'randn', 'random', 'random_sample', 'standard_normal'):
    EXT_CALLS['numpy.random.' + _n] = _draw(_n)


@ext('numpy.random.uniform')
def x_uniform(it, a, k):
    lo = a[0] if a else k.get('low', 0.)
    hi = a[1] if len(a) > 1 else k.get('high', 1.)
    u = rng_draw(it, 'random', a, _size(it, a[2] if len(a) > 2 else k.get('size')))
    return it.binop('Add', lo, it.binop('Mult', it.binop('Sub', hi, lo), u))


@ext('numpy.linalg.inv')
def x_inv(it, a, k):
    n = to_nested(it, a[0])
    m = n[1][0]
    if m == 1:
        return arr_new(it, [it.binop('Div', 1, n[0][0])], n[1], 'f')
    if m == 2:
        x, y, z, w = n[0]
        det = it.binop('Sub', it.binop('Mult', x, w), it.binop('Mult', y, z))
        return arr_new(it, [it.binop('Div', w, det), it.unop('USub', it.binop('Div', y, det)),
                            it.unop('USub', it.binop('Div', z, det)), it.binop('Div', x, det)], n[1], 'f')
    return arr_new(it, [unk(('inv', tuple(it.key(v) for v in n[0]), j)) for j in range(m * m)], n[1], 'f')


def enter(it, cm):
    return cm


def exit(it, cm):
    if it.is_inst(cm):
        c = it.st.heap[it.st.heap[cm.o].cls]
        if c.native == 'file':
            from . import fsmodel
            fsmodel.close(it, cm)
    return None

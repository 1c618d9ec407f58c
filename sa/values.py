"""Abstract values, heap objects and analysis states."""
import itertools
from fractions import Fraction
from .terms import *
from .terms import Poly, Atom, mk_atom
from .facts import Facts

# ------------------------------------------------------------------ values


class V:
    __slots__ = ()


class Num(V):
    __slots__ = ('p', 'k')

    def __init__(self, p, k='f'):
        self.p = p
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Num) and self.p == o.p and self.k == o.k

    def __hash__(self):
        return hash((self.p, self.k))

    def __repr__(self):
        return 'Num(%r,%s)' % (self.p, self.k)


class SymBool(V):
    """T, F: tuples of conjunctions (tuples of guards); exclusive and exhaustive"""
    __slots__ = ('T', 'F')

    def __init__(self, T, F):
        self.T = tuple(T)
        self.F = tuple(F)

    def __eq__(self, o):
        return isinstance(o, SymBool) and self.T == o.T and self.F == o.F

    def __hash__(self):
        return hash((self.T, self.F))

    def __repr__(self):
        return 'SymBool(%s)' % ' | '.join(' & '.join(guard_str(g) for g in c) for c in self.T)


class SStr(V):
    """symbolic string: parts are str or tuples (opaque keys)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


class Tup(V):
    __slots__ = ('l', 'cls')

    def __init__(self, l, cls=None):
        self.l = tuple(l)
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, Tup) and self.l == o.l

    def __hash__(self):
        return hash(self.l)

    def __repr__(self):
        return 'Tup%r' % (self.l,)


class Ref(V):
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Ref) and self.o == x.o

    def __hash__(self):
        return hash(('ref', self.o))

    def __repr__(self):
        return 'Ref(%d)' % self.o


class Fn(V):
    __slots__ = ('node', 'env', 'defaults', 'kwdefaults', 'mod', 'name', 'cls', 'gen', 'cm')

    def __eq__(self, o):
        return self is o or (isinstance(o, Fn) and self.node is o.node and self.env == o.env
                             and self.defaults == o.defaults and self.kwdefaults == o.kwdefaults)

    def __hash__(self):
        return hash((id(self.node), self.env))

    def __repr__(self):
        return 'Fn(%s)' % self.name


class BM(V):
    __slots__ = ('self', 'fn')

    def __init__(self, s, fn):
        self.self = s
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, BM) and self.self == o.self and self.fn == o.fn

    def __hash__(self):
        return hash((self.self, self.fn))

    def __repr__(self):
        return 'BM(%r,%r)' % (self.self, self.fn)


class Builtin(V):
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Builtin) and self.name == o.name

    def __hash__(self):
        return hash(('bi', self.name))

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Wrap(V):
    """property / staticmethod / classmethod / partial / super"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Wrap) and self.kind == o.kind and self.a == o.a

    def __hash__(self):
        return hash((self.kind, self.a))

    def __repr__(self):
        return 'Wrap(%s)' % self.kind


class Ext(V):
    """external (library) name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __hash__(self):
        return hash(('ext', self.name))

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Opq(V):
    """opaque value named by a hashable term"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Opq) and self.t == o.t

    def __hash__(self):
        return hash(('opq', self.t))

    def __repr__(self):
        return 'Opq%r' % (self.t,)


class Cb(V):
    """client supplied opaque callback F(args) -> number"""
    __slots__ = ('name', 'attrs', 'ret')

    def __init__(self, name, attrs=None, ret=0):
        self.name = name
        self.attrs = attrs or {}
        self.ret = ret

    def __eq__(self, o):
        return isinstance(o, Cb) and self.name == o.name

    def __hash__(self):
        return hash(('cb', self.name))

    def __repr__(self):
        return 'Cb(%s)' % self.name


class SliceV(V):
    __slots__ = ('a',)

    def __init__(self, lo, hi, st):
        self.a = (lo, hi, st)

    def __eq__(self, o):
        return isinstance(o, SliceV) and self.a == o.a

    def __hash__(self):
        return hash(self.a)


class Alt(V):
    """guarded alternatives of non-numeric values"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, Alt) and self.alts == o.alts

    def __hash__(self):
        return hash(self.alts)

    def __repr__(self):
        return 'Alt(%s)' % ', '.join(repr(v) for g, v in self.alts)


class _Undef(V):
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


def same(a, b):
    """exact structural identity of abstract values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    return a == b


def num_poly(v):
    """Poly of a scalar numeric value or None"""
    if isinstance(v, Num):
        return v.p
    if isinstance(v, bool):
        return C(int(v))
    if isinstance(v, int):
        return C(v)
    if isinstance(v, SymBool):
        return case(tuple((c, ONE) for c in v.T) + (((), ZERO),))
    return None


def mknum(p, k):
    if k == 'i':
        c = p.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return Num(p, k)


def kind_of(v):
    if isinstance(v, Num):
        return v.k
    if isinstance(v, (bool, int, SymBool)):
        return 'i'
    return None


# ------------------------------------------------------------------ heap objects

_oid = itertools.count(1)


class Obj:
    tok = None

    def clone(self):
        n = object.__new__(type(self))
        for k in self.__slots__:
            v = getattr(self, k)
            if isinstance(v, (dict, list)):
                v = v.copy()
            setattr(n, k, v)
        return n


class HInst(Obj):
    __slots__ = ('cls', 'd', 'payload', 'tok')

    def __init__(self, cls, d=None, payload=None):
        self.cls = cls
        self.d = {} if d is None else d
        self.payload = payload


class HClass(Obj):
    __slots__ = ('name', 'bases', 'mro', 'd', 'meta', 'native', 'src', 'tok')

    def __init__(self, name, bases, mro, d, meta=None, native=None, src=None):
        self.name, self.bases, self.mro, self.d = name, bases, mro, d
        self.meta, self.native, self.src = meta, native, src


class HList(Obj):
    __slots__ = ('l', 'kind', 'pos', 'tok')

    def __init__(self, l, kind='list'):
        self.l = l
        self.kind = kind
        self.pos = 0


class HDict(Obj):
    __slots__ = ('d', 'keys', 'kind', 'default', 'tok')

    def __init__(self):
        self.d = {}         # hkey -> value
        self.keys = {}      # hkey -> key value
        self.kind = 'dict'
        self.default = None


class HEnv(Obj):
    __slots__ = ('d', 'parent', 'tok')

    def __init__(self, parent):
        self.d = {}
        self.parent = parent


class HMod(Obj):
    __slots__ = ('d', 'name', 'tok')

    def __init__(self, name):
        self.d = {}
        self.name = name


class HBuf(Obj):
    """array storage: either explicit values or one symbolic-length vector term"""
    __slots__ = ('l', 'vec', 'owner', 'writes', 'tok')

    def __init__(self, l=None, vec=None, owner=None):
        self.l = l
        self.vec = vec
        self.owner = owner
        self.writes = 0


class HArr(Obj):
    """view on a buffer.  explicit: pos list of buffer positions; symbolic: (lo,hi) or None"""
    __slots__ = ('buf', 'pos', 'shape', 'k', 'sl', 'tok')

    def __init__(self, buf, pos, shape, k='f', sl=None):
        self.buf, self.pos, self.shape, self.k, self.sl = buf, pos, shape, k, sl


class HAlt(Obj):
    """object whose contents differ structurally on merged paths"""
    __slots__ = ('alts', 'tok')

    def __init__(self, alts):
        self.alts = alts


# ------------------------------------------------------------------ state


class Tok:
    pass


class State:
    __slots__ = ('heap', 'facts', 'pc', 'tok')

    def __init__(self, heap=None, facts=None, pc=()):
        self.heap = heap if heap is not None else {}
        self.facts = facts or Facts()
        self.pc = pc
        self.tok = Tok()

    def copy(self):
        s = State(self.heap.copy(), self.facts, self.pc)
        self.tok = Tok()
        return s

    def alloc(self, obj):
        o = next(_oid)
        obj.tok = self.tok
        self.heap[o] = obj
        return Ref(o)

    def get(self, ref):
        return self.heap[ref.o if isinstance(ref, Ref) else ref]

    def w(self, ref):
        """writable object"""
        o = ref.o if isinstance(ref, Ref) else ref
        ob = self.heap[o]
        if ob.tok is not self.tok:
            ob = ob.clone()
            ob.tok = self.tok
            self.heap[o] = ob
        return ob

    def assume(self, conj):
        """new State under the conjunction or None"""
        f = self.facts
        pc = self.pc
        for g in conj:
            nf = f.assume(g)
            if nf is None:
                return None
            if nf is not f:
                pc = pc + (g,)
            f = nf
        s = State(self.heap.copy(), f, pc)
        self.tok = Tok()
        return s

    def assume_any(self, conjs):
        outs = []
        for c in conjs:
            s = self.assume(c)
            if s is not None:
                outs.append((c, s))
        if not outs:
            return None
        if len(outs) == 1:
            return outs[0][1]
        f = merge_facts(self.facts, [s.facts for c, s in outs])
        g = ('or', tuple(s.pc[len(self.pc):] for c, s in outs))
        f = f.assume(g)
        if f is None:
            return None
        s = State(self.heap.copy(), f, self.pc + (g,))
        self.tok = Tok()
        return s


def merge_facts(base, fs):
    f = base
    first = min(fs, key=lambda x: len(x.gl))
    basegl = set(base.gl)
    for g in first.gl:
        if g in basegl:
            continue
        if all(o is first or o.decide(g) is True for o in fs):
            n = f.assume(g)
            if n is not None:
                f = n
    return f


def exhaustive(conjs):
    conjs = [c for c in conjs]
    if any(not c for c in conjs):
        return True
    if not conjs:
        return False
    g = conjs[0][0]
    if g[0] == 'or':
        return False
    ng = neg_guard(g)
    pos = [c[1:] for c in conjs if c[0] == g]
    neg_ = [c[1:] for c in conjs if c[0] == ng]
    if len(pos) + len(neg_) != len(conjs):
        return False
    return exhaustive(pos) and exhaustive(neg_)

"""Abstract interpreter: interprocedural gated value numbering over Python ASTs.

Control flow merges become gated phis (``case`` terms) or guarded alternatives,
loops whose trip count is not a constant are solved by fixpoint iteration with
loop-head phis (see loops.py).  Library functions are summarised in lib.py.
"""
import ast
import builtins
import os
import sys
from .values import *
from .values import _oid
from .terms import norm_cmp, neg_guard

sys.setrecursionlimit(20000)


class Ctl(Exception):
    pass


class RetC(Ctl):
    def __init__(self, v):
        self.v = v


class Dead(Ctl):
    """the current path is infeasible"""


class BrkC(Ctl):
    pass


class ContC(Ctl):
    pass


class ExcC(Ctl):
    def __init__(self, v, where=None):
        self.v = v
        self.where = where


class GenCM(V):
    """a generator-based context manager, not entered yet"""
    __slots__ = ('f', 'd')

    def __init__(self, f, d):
        self.f, self.d = f, d

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Giveup(Exception):
    """analysis cannot model a construct"""


class Frame:
    __slots__ = ('mod', 'env', 'node', 'name', 'locals', 'globals', 'yields', 'cls', 'self', 'nonlocals', 'hook')


def fname_of(mod):
    return mod


_assigned_cache = {}


def assigned_names(node):
    """(locals, globals, nonlocals, is_generator) of a function/lambda/comprehension body"""
    r = _assigned_cache.get(id(node))
    if r is not None:
        return r[1]
    loc, glo, nonl = set(), set(), set()
    gen = [False]

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Global):
            glo.update(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(node, ast.Lambda):
        pass
    else:
        for s in node.body:
            walk(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    loc -= glo | nonl
    r = (loc, glo, nonl, gen[0])
    _assigned_cache[id(node)] = (node, r)
    return r


class Interp:
    MAXSTEPS = 400000

    def __init__(self, root='/repo/package', pkg='inference', opaque=None, limits=None):
        self.root = root
        self.pkg = pkg
        self.st = State()
        self.pending = []
        self.frames = []
        self.opaque = opaque or {}
        self.steps = 0
        self.depth = 0
        self.results = []        # obligations recorded by client intrinsics
        self.mods = {}
        self.fn_cells = {}
        self.analysed = set()    # functions of the repository that were analysed
        self.files = set()
        self.notes = []
        self.cells = {}
        self.unroll_sym = 6
        self.abbrev = 0
        self.cut, self.cuts = False, 0
        self.parts, self.part_pos, self.part_mods = None, 0, ()
        self.choice = itertools.count(1)
        self.limits = limits or {}
        self.loop_stack = []
        self.special_floats = False
        self.extcalls = {}
        self.unknown_calls = set()
        self.fnkey_depth = 0
        self.sources = {}
        self.bounds = False
        self.weak_ok = False
        from . import lib, frt
        self.lib = lib
        self.natives = {}
        lib.install(self)

    # -------------------------------------------------------------- errors
    def exc(self, name, msg=''):
        """raise a builtin exception in the analysed program"""
        v = self.mkexc(name, msg)
        raise ExcC(v, self.where())

    def mkexc(self, name, msg=''):
        cls = self.natives[name]
        return self.st.alloc(HInst(cls.o, {'args': Tup((msg,)), '__where__': self.where()}))

    def where(self):
        for f in reversed(self.frames):
            if f.node is not None:
                return '%s:%s (%s)' % (f.mod, getattr(f.node, 'lineno', '?'), f.name)
        return '?'

    def bounds_check(self, q, n):
        if not self.bounds:
            return
        from .client import decide
        for g in (norm_cmp('>=', q), norm_cmp('<', sub(q, n))):
            decide(self, 'index in bounds', SymBool(((g,),), ((neg_guard(g),),)))

    # -------------------------------------------------------------- branching
    def run_alts(self, alts):
        outs, ctl = [], []
        for s, th in alts:
            self.st = s
            try:
                v = th()
                outs.append((self.st, v))
            except Dead:
                pass
            except Ctl as c:
                ctl.append((c, self.st))
        if not outs:
            if not ctl:
                raise Dead()
            self.pending.extend(ctl[:-1])
            c, s = ctl[-1]
            self.st = s
            raise c
        self.pending.extend(ctl)
        return self.merge(outs)

    def branch(self, cond, ft, ff):
        """cond: bool or SymBool"""
        if cond is True:
            return ft()
        if cond is False:
            return ff()
        s = self.st
        alts = []
        s1 = s.assume_any(cond.T)
        s2 = s.assume_any(cond.F)
        if s1 is not None:
            alts.append((s1, ft))
        if s2 is not None:
            alts.append((s2, ff))
        if not alts:
            raise Dead()
        if len(alts) == 1:
            self.st = alts[0][0]
            return alts[0][1]()
        return self.run_alts(alts)

    def split(self, alt, f):
        alts = []
        for conj, v in alt.alts:
            s = self.st.assume(conj)
            if s is not None:
                alts.append((s, (lambda v=v: f(v))))
        if not alts:
            raise Dead()
        if len(alts) == 1:
            self.st = alts[0][0]
            return alts[0][1]()
        return self.run_alts(alts)

    def norm(self, v):
        """Ref to a structurally merged object counts as an Alt"""
        if isinstance(v, Ref):
            o = self.st.heap.get(v.o)
            if isinstance(o, HAlt):
                return o
        return v

    def lift(self, f, *vs):
        """apply f after splitting Alt operands"""
        for i, v in enumerate(vs):
            if isinstance(v, Alt):
                return self.split(v, lambda x, i=i: self.lift(f, *(vs[:i] + (x,) + vs[i + 1:])))
            if isinstance(v, Ref):
                o = self.st.heap.get(v.o)
                if isinstance(o, HAlt):
                    def go(obj, v=v):
                        ob = obj.clone()
                        ob.tok = self.st.tok
                        self.st.heap[v.o] = ob
                        return self.lift(f, *vs)
                    return self.split(Alt(o.alts), go)
        return f(*vs)

    # -------------------------------------------------------------- merging
    def merge(self, outs):
        if len(outs) == 1:
            self.st = outs[0][0]
            return outs[0][1]
        m = Merger(self, [s for s, v in outs])
        v = m.value([v for s, v in outs])
        self.st = m.finish()
        return v

    def collect(self, thunk, kinds):
        """run thunk; returns (normal outs [(st,v)], caught [(ctl,st)]) ; other ctl stay pending"""
        saved = self.pending
        self.pending = []
        outs = []
        ctl = []
        try:
            try:
                v = thunk()
                outs.append((self.st, v))
            except Dead:
                pass
            except Ctl as c:
                ctl.append((c, self.st))
            ctl += self.pending
        finally:
            self.pending = saved
        caught = [(c, s) for c, s in ctl if isinstance(c, kinds)]
        rest = [(c, s) for c, s in ctl if not isinstance(c, kinds)]
        return outs, caught, rest

    def resume(self, outs, rest):
        """continue with merged outs, leaving rest pending"""
        if not outs:
            if not rest:
                raise Dead()
            self.pending.extend(rest[:-1])
            c, s = rest[-1]
            self.st = s
            raise c
        self.pending.extend(rest)
        return self.merge(outs)

    def partition(self, outs):
        """trace partitioning: keep one of the states that leave a loop or function (the driver analyses each in turn)"""
        if self.parts is None or len(outs) < 2 or not self.frames or self.frames[-1].mod not in self.part_mods:
            return outs
        k = self.part_pos
        self.part_pos += 1
        if k >= len(self.parts):
            self.parts.append([0, len(outs)])
        i = min(self.parts[k][0], len(outs) - 1)
        self.parts[k][1] = len(outs)
        return [outs[i]]

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, n):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Giveup('step budget exhausted at %s' % self.where())
        fr = self.frames[-1]
        fr.node = n
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Giveup('statement %s at %s' % (type(n).__name__, self.where()))
        m(n)

    def x_Pass(self, n):
        pass

    def x_Global(self, n):
        pass

    x_Nonlocal = x_Global

    def x_Expr(self, n):
        self.eval(n.value)

    def x_Assign(self, n):
        v = self.eval(n.value)
        for t in n.targets:
            self.assign(t, v)

    def x_AnnAssign(self, n):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value))

    def x_AugAssign(self, n):
        t = n.target
        op = type(n.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            r = self.augop(op, cur, self.eval(n.value))
            self.store_name(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            r = self.augop(op, cur, self.eval(n.value))
            self.setattr(o, t.attr, r)
        else:
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            cur = self.getitem(o, i)
            r = self.augop(op, cur, self.eval(n.value))
            self.setitem(o, i, r)

    def augop(self, op, a, b):
        def f(a, b):
            if isinstance(a, Ref):
                o = self.st.get(a)
                if isinstance(o, HList) and op == 'Add' and o.kind == 'list':
                    items = self.iterate(b)
                    self.st.w(a).l.extend(items)
                    return a
                if isinstance(o, HArr):
                    r = self.binop(op, a, b)
                    self.lib.arr_assign_all(self, a, r)
                    return a
                if isinstance(o, HInst):
                    m = self.find_special(a, '__i%s__' % BINNAME[op])
                    if m is not None:
                        return self.call(m, [b])
            return self.binop(op, a, b)
        return self.lift(f, a, b)

    def x_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.del_name(t.id)
            elif isinstance(t, ast.Attribute):
                self.lift(lambda o: self.delattr(o, t.attr), self.eval(t.value))
            elif isinstance(t, ast.Subscript):
                i = self.eval_index(t.slice)
                self.lift(lambda o: self.delitem(o, i), self.eval(t.value))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    self.x_Delete(ast.Delete(targets=[e]))

    def x_If(self, n):
        c = self.truth(self.eval(n.test))
        self.branch(c, lambda: self.exec_block(n.body), lambda: self.exec_block(n.orelse))

    def x_Return(self, n):
        raise RetC(self.eval(n.value) if n.value is not None else None)

    def x_Break(self, n):
        raise BrkC()

    def x_Continue(self, n):
        raise ContC()

    def x_Assert(self, n):
        c = self.truth(self.eval(n.test))
        self.branch(c, lambda: None, lambda: self.rethrow(ExcC(self.call(
            self.natives['AssertionError'], [self.eval(n.msg)] if n.msg is not None else []), self.where())))

    def x_Raise(self, n):
        fr = self.frames[-1]
        if n.exc is None:
            cur = self.handled()
            if cur is None:
                self.exc('RuntimeError', 'no active exception')
            raise ExcC(cur, self.where())
        v = self.eval(n.exc)
        if n.cause is not None:
            self.eval(n.cause)

        def f(v):
            if isinstance(v, Ref) and isinstance(self.st.get(v), HClass):
                v = self.call(v, [])
            if isinstance(v, Ref) and isinstance(self.st.get(v), HInst):
                self.st.w(v).d.setdefault('__where__', self.where())
            raise ExcC(v, self.where())
        self.lift(f, v)

    def handled(self):
        return self.hstack[-1] if getattr(self, 'hstack', None) else None

    def exc_matches(self, v, spec):
        """bool: does exception value match handler type spec (value)"""
        if spec is None:
            return True
        if isinstance(spec, Tup):
            return any(self.exc_matches(v, s) for s in spec.l)
        if isinstance(spec, Ext):
            return False
        if isinstance(v, Ref):
            o = self.st.get(v)
            if isinstance(o, HInst):
                c = self.st.get(o.cls)
                if isinstance(spec, Ref):
                    return spec.o in c.mro
        return False

    def x_Try(self, n):
        def body():
            self.exec_block(n.body)
        outs, caught, rest = self.collect(body, ExcC)
        # group exceptions by handler
        groups = {}
        unhandled = []
        for c, s in caught:
            self.st = s
            hi = None
            for i, h in enumerate(n.handlers):
                spec = self.eval(h.type) if h.type is not None else None
                if isinstance(spec, Alt) or isinstance(c.v, Alt):
                    raise Giveup('ambiguous exception')
                if self.exc_matches(c.v, spec):
                    hi = i
                    break
            if hi is None:
                unhandled.append((c, s))
            else:
                groups.setdefault(hi, []).append((s, c.v))
        final = []

        def run(thunk):
            o, c, r = self.collect(thunk, ())
            final.extend(o)
            rest.extend(r)
        if outs:
            if n.orelse:
                def els():
                    self.merge(outs)
                    self.exec_block(n.orelse)
                run(els)
            else:
                final.extend(outs)
        for hi in sorted(groups):
            h = n.handlers[hi]

            def handler(h=h, g=groups[hi]):
                v = self.merge(g)
                if h.name:
                    self.store_name(h.name, v)
                self.hstack = getattr(self, 'hstack', []) + [v]
                try:
                    self.exec_block(h.body)
                finally:
                    self.hstack = self.hstack[:-1]
            run(handler)
        rest.extend(unhandled)
        if n.finalbody:
            nf, nr = [], []
            if final:
                def fin():
                    self.merge(final)
                    self.exec_block(n.finalbody)
                o, c, r = self.collect(fin, ())
                nf.extend(o)
                nr.extend(r)
            for c, s in rest:
                def fin2(s=s):
                    self.st = s
                    self.exec_block(n.finalbody)
                o, cc, r = self.collect(fin2, ())
                nr.extend(r)
                for s2, v2 in o:
                    nr.append((c, s2))
            final, rest = nf, nr
        self.resume([(s, None) for s, v in final], rest)

    def x_With(self, n):
        self.with_items(n, 0)

    def with_items(self, n, k):
        if k == len(n.items):
            return self.exec_block(n.body)
        w = n.items[k]
        cm = self.eval(w.context_expr)

        def go(cm):
            if isinstance(cm, GenCM):
                return self.with_generator(cm, w, lambda: self.with_items(n, k + 1))
            v = self.enter(cm)
            # the assignment is already inside the context

            def body():
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, v)
                self.with_items(n, k + 1)
            outs, caught, rest = self.collect(body, ())
            final = []
            nrest = []
            if outs:
                def fin():
                    self.merge(outs)
                    self.exit(cm)
                o, c, r = self.collect(fin, ())
                final += o
                nrest += r
            for c, s in rest:
                def fin2(s=s, c=c):
                    self.st = s
                    r = self.exit(cm, c if isinstance(c, ExcC) else None)
                    if isinstance(c, ExcC):
                        return self.branch(self.truth(r), lambda: True, lambda: self.rethrow(c))
                    self.rethrow(c)
                o, cc, r = self.collect(fin2, ())
                nrest += r
                final += o
            self.resume([(s, None) for s, v in final], nrest)
        self.lift(go, cm)

    def rethrow(self, c):
        raise c

    def with_generator(self, cm, w, body):
        """a generator used as context manager: its yield runs the body of the with statement"""
        depth = len(self.frames)
        cell = self.st.alloc(HList([None]))
        ran = []

        def hook(v):
            ran.append(1)
            top = self.frames[depth:]
            del self.frames[depth:]
            d, self.depth = self.depth, self.depth - len(top)
            try:
                def go():
                    if w.optional_vars is not None:
                        self.assign(w.optional_vars, v)
                    body()
                outs, caught, rest = self.collect(go, (RetC, BrkC, ContC))
            finally:
                self.frames.extend(top)
                self.depth = d
            outs = [(s, None) for s, v in outs]
            for c, s in caught:
                s.w(cell).l[0] = Tup(('ret', c.v)) if isinstance(c, RetC) else 'brk' if isinstance(c, BrkC) else 'cont'
                outs.append((s, None))
            return self.resume(outs, rest)
        self.run_fn(cm.f, cm.d, hook)
        if not ran:
            raise Giveup('context manager without yield')

        def after(t):
            if isinstance(t, Tup):
                raise RetC(t.l[1])
            if t == 'brk':
                raise BrkC()
            if t == 'cont':
                raise ContC()
        self.lift(after, self.st.get(cell).l[0])

    def enter(self, cm):
        def f(cm):
            m = self.find_special(cm, '__enter__') if isinstance(cm, Ref) else None
            if m is not None:
                return self.call(m, [])
            return self.lib.enter(self, cm)
        return self.lift(f, cm)

    def exit(self, cm, c=None):
        def f(cm):
            m = self.find_special(cm, '__exit__') if isinstance(cm, Ref) else None
            if m is not None:
                a = [None, None, None]
                if c is not None:
                    a = [self.class_of(c.v), c.v, Opq(('traceback',))]
                return self.call(m, a)
            return self.lib.exit(self, cm)
        return self.lift(f, cm)

    def x_Import(self, n):
        for a in n.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, self.import_module(top))

    def x_ImportFrom(self, n):
        fr = self.frames[-1]
        base = n.module or ''
        if n.level:
            pk = self.modpkg(fr.mod)
            parts = pk.split('.')
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        if base == '__future__':
            return
        m = self.import_module(base)
        for a in n.names:
            if a.name == '*':
                self.star_import(m)
                continue
            v = self.from_import(m, base, a.name)
            self.store_name(a.asname or a.name, v)

    def from_import(self, m, base, name):
        if isinstance(m, Ref):
            o = self.st.get(m)
            if name in o.d:
                return o.d[name]
            if self.find_module(base + '.' + name):
                return self.import_module(base + '.' + name)
            self.exc('ImportError', 'cannot import name %s from %s' % (name, base))
        return self.ext_attr(m, name)

    def star_import(self, m):
        if isinstance(m, Ref):
            o = self.st.get(m)
            if '__all__' in o.d:
                names = [x for x in self.iterate(o.d['__all__'])]
            else:
                names = [k for k in o.d if not k.startswith('_')]
            for k in names:
                if k not in o.d:
                    self.exc('AttributeError', 'module %s has no attribute %s' % (o.name, k))
                self.store_name(k, o.d[k])
        else:
            # external star import: remember for name resolution
            fr = self.frames[-1]
            mo = self.st.w(self.mods[fr.mod])
            mo.d.setdefault('__star__', Tup(()))
            mo.d['__star__'] = Tup(mo.d['__star__'].l + (m,))

    # ---- modules
    def modfile(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for c in (p + '.py', os.path.join(p, '__init__.py'), p + '.f'):
            if os.path.isfile(c):
                return c
        return None

    def find_module(self, name):
        if name in self.opaque.get('modules', ()):
            return True
        if name.split('.')[0] != self.pkg:
            return None
        return self.modfile(name) or (os.path.isdir(os.path.join(self.root, *name.split('.'))) or None)

    def modpkg(self, mod):
        f = self.modfile(mod)
        if f and os.path.basename(f) == '__init__.py':
            return mod
        return mod.rsplit('.', 1)[0]

    def import_module(self, name):
        if name in self.mods:
            return self.mods[name]
        stub = self.opaque.get('modules', {}).get(name)
        if name.split('.')[0] != self.pkg and stub is None:
            return Ext(name)
        f = self.modfile(name) if stub is None else 'stub of ' + name
        if f is None:
            if os.path.isdir(os.path.join(self.root, *name.split('.'))):
                return Ext(name)
            # compiled extension without analysable source
            return Ext(name)
        # import parents
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if parent not in self.opaque.get('skip_init', ()):
                self.import_module(parent)
        if name in self.mods:
            return self.mods[name]
        mo = HMod(name)
        ref = self.st.alloc(mo)
        self.mods[name] = ref
        mo.d['__name__'] = name
        mo.d['__file__'] = f
        if stub is not None:            # a compiled module, represented by its contract
            tree = ast.parse(stub)
            self.sources[name] = stub
        else:
            self.files.add(f)
        if stub is not None:
            pass
        elif f.endswith('.f'):
            from . import fortran
            tree = fortran.load(f)
        else:
            with open(f) as fh:
                src = fh.read()
            tree = ast.parse(src, f)
            self.sources[name] = src
        self.run_module(name, ref, tree)
        if '.' in name:
            parent, last = name.rsplit('.', 1)
            if parent in self.mods:
                self.st.w(self.mods[parent]).d[last] = ref
        return ref

    def run_module(self, name, ref, tree):
        self.st.w(ref).d['__doc__'] = ast.get_docstring(tree, clean=False)
        fr = Frame()
        fr.mod, fr.env, fr.node, fr.name = name, None, None, '<module>'
        fr.locals = fr.globals = fr.nonlocals = frozenset()
        fr.yields = fr.hook = None
        fr.cls = fr.self = None
        self.frames.append(fr)
        try:
            self.exec_block(tree.body)
        finally:
            self.frames.pop()

    # ---- names
    def load_name(self, name):
        fr = self.frames[-1]
        st = self.st
        e = fr.env
        if e is not None and name not in fr.globals:
            first = True
            while e is not None:
                env = st.heap[e]
                if name in env.d:
                    v = env.d[name]
                    return self.check_undef(v, name)
                if first and name in fr.locals and fr.node is not None and not isinstance(fr.locals, dict):
                    self.exc('UnboundLocalError', name)
                first = False
                e = env.parent
        mo = st.get(self.mods[fr.mod])
        if name in mo.d:
            return self.check_undef(mo.d[name], name)
        b = self.lib.BUILTINS.get(name)
        if b is not None:
            return b
        if name in self.natives:
            return self.natives[name]
        if '__star__' in mo.d:
            for m in mo.d['__star__'].l:
                if self.lib.ext_has(m.name, name):
                    return self.ext_attr(m, name)
        if hasattr(builtins, name):
            raise Giveup('builtin %s is not modelled' % name)
        self.exc('NameError', name)

    def check_undef(self, v, name):
        if isinstance(v, Alt):
            for c, x in v.alts:
                if x is UNDEF:
                    def f(x):
                        if x is UNDEF:
                            self.exc('UnboundLocalError', name)
                        return x
                    return self.split(v, f)
        elif v is UNDEF:
            self.exc('UnboundLocalError', name)
        return v

    def store_name(self, name, v):
        fr = self.frames[-1]
        st = self.st
        if fr.env is None or name in fr.globals:
            st.w(self.mods[fr.mod]).d[name] = v
            return
        if name in fr.nonlocals:
            e = st.heap[fr.env].parent
            while e is not None:
                if name in st.heap[e].d:
                    st.w(e).d[name] = v
                    return
                e = st.heap[e].parent
        st.w(fr.env).d[name] = v

    def del_name(self, name):
        fr = self.frames[-1]
        d = self.st.w(fr.env if fr.env is not None else self.mods[fr.mod]).d
        if name not in d:
            self.exc('NameError', name)
        del d[name]

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            i = self.eval_index(t.slice)
            self.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]

            def f(v):
                items = self.iterate(v)
                if star:
                    i = star[0]
                    k = len(items) - (len(t.elts) - 1)
                    if k < 0:
                        self.exc('ValueError', 'not enough values to unpack')
                    items = items[:i] + [self.st.alloc(HList(list(items[i:i + k])))] + items[i + k:]
                elif len(items) != len(t.elts):
                    self.exc('ValueError', 'unpack %d values into %d targets' % (len(items), len(t.elts)))
                for e, x in zip(t.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x)
            self.lift(f, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Giveup('assign target %s' % type(t).__name__)

    # ---- functions and classes
    def mkfn(self, n, name):
        fr = self.frames[-1]
        f = Fn()
        f.node = n
        f.env = fr.env
        f.defaults = tuple(self.eval(d) for d in n.args.defaults)
        f.kwdefaults = tuple((a.arg, self.eval(d)) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults)
                             if d is not None)
        f.mod = fr.mod
        f.name = name
        f.cls = fr.cls
        f.gen = assigned_names(n)[3]
        return f

    def x_FunctionDef(self, n):
        v = self.mkfn(n, n.name)
        for d in reversed(n.decorator_list):
            dv = self.eval(d)
            v = self.call(dv, [v])
        self.store_name(n.name, v)

    def x_ClassDef(self, n):
        fr = self.frames[-1]
        bases = [self.eval(b) for b in n.bases]
        metac = None
        ckw = {}
        for k in n.keywords:
            if k.arg == 'metaclass':
                metac = self.eval(k.value)
            else:
                ckw[k.arg] = self.eval(k.value)
        bo = []
        for b in bases:
            if isinstance(b, Ref):
                bo.append(b.o)
            elif isinstance(b, Ext):
                bo.append(self.lib.ext_class(self, b).o)
            else:
                raise Giveup('class base %r' % (b,))
        if not bo:
            bo = [self.natives['object'].o]
        cls = HClass(n.name, bo, None, {}, None)
        ref = self.st.alloc(cls)
        cls.mro = [ref.o] + self.c3([self.st.heap[b].mro for b in bo] + [bo])
        cls.src = (fr.mod, n)
        for b in cls.mro[1:]:
            ob = self.st.heap[b]
            if ob.native and cls.native is None and ob.native != 'object':
                cls.native = ob.native
            if metac is None and ob.meta is not None:
                metac = Ref(ob.meta)
        # body
        nf = Frame()
        env = self.st.alloc(HEnv(fr.env))
        nf.mod, nf.env, nf.node, nf.name = fr.mod, env.o, None, n.name
        nf.locals = {}
        nf.globals = nf.nonlocals = frozenset()
        nf.yields = nf.hook = None
        nf.cls = ref.o
        nf.self = None
        self.frames.append(nf)
        try:
            outs, caught, rest = self.collect(lambda: self.exec_block(n.body), ())
            self.resume(outs, rest)
        finally:
            self.frames.pop()
        d = dict(self.st.get(env).d)
        # functions defined in class bodies do not close over the class namespace
        for k, v in list(d.items()):
            d[k] = self._rescope(v, env.o, fr.env)
        c = self.st.w(ref)
        c.d = d
        d.setdefault('__module__', fr.mod)
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            d.setdefault('__doc__', n.body[0].value.value)
        if metac is not None and isinstance(metac, Ref) and metac.o != self.natives['type'].o:
            c.meta = metac.o
        v = ref
        if c.meta is not None:
            new = self.class_lookup(self.st.heap[c.meta], '__new__')
            if isinstance(new, Wrap) and new.kind == 'staticmethod':
                new = new.a[0]
            if isinstance(new, Fn):
                hd = HDict()
                for k, x in d.items():
                    hd.d[k] = x
                    hd.keys[k] = k
                self.new_class = getattr(self, 'new_class', []) + [ref]
                depth = len(self.new_class)
                v = self.call(new, [Ref(c.meta), n.name, Tup(bases), self.st.alloc(hd)], ckw)
                if len(self.new_class) == depth or v != ref:
                    raise Giveup('metaclass __new__ returns something else')
                d = self.st.get(ref).d
                c = self.st.w(ref)
        for k, x in list(d.items()):
            if isinstance(x, Ref) and isinstance(self.st.heap.get(x.o), HInst):
                m = self.find_special(x, '__set_name__')
                if m is not None:
                    self.call(m, [ref, k])
        for b in c.mro[1:]:
            ob = self.st.heap[b]
            if '__init_subclass__' in ob.d:
                self.call(self.bind_cm(ob.d['__init_subclass__'], ref), [], ckw)
                break
        if self.st.get(ref).meta is not None:
            mo = self.st.heap[self.st.get(ref).meta]
            init = self.class_lookup(mo, '__init__')
            if isinstance(init, Fn):
                hd = HDict()
                for k, x in self.st.get(ref).d.items():
                    hd.d[k] = x
                    hd.keys[k] = k
                self.call(init, [ref, n.name, Tup(bases), self.st.alloc(hd)], ckw)
        for dd in reversed(n.decorator_list):
            v = self.call(self.eval(dd), [v])
        self.store_name(n.name, v)

    def bind_cm(self, f, cls):
        if isinstance(f, Wrap) and f.kind == 'classmethod':
            f = f.a[0]
        return BM(cls, f)

    def _rescope(self, v, envo, parent):
        if isinstance(v, Fn) and v.env == envo:
            f = Fn()
            for s in Fn.__slots__:
                if hasattr(v, s):
                    setattr(f, s, getattr(v, s))
            f.env = parent
            return f
        if isinstance(v, Wrap) and v.kind in ('property', 'staticmethod', 'classmethod', 'setterprop'):
            return Wrap(v.kind, *(self._rescope(x, envo, parent) for x in v.a))
        return v

    def c3(self, seqs):
        seqs = [list(s) for s in seqs if s]
        out = []
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                self.exc('TypeError', 'MRO conflict')
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def class_lookup(self, c, name):
        for b in c.mro:
            d = self.st.heap[b].d
            if name in d and d[name] is not UNDEF:
                return d[name]
        return None

    def class_of(self, v):
        """HClass ref of a value's type"""
        if isinstance(v, Ref):
            o = self.st.heap[v.o]
            if isinstance(o, HInst):
                return Ref(o.cls) if isinstance(o.cls, int) else o.cls
            if isinstance(o, HClass):
                return Ref(o.meta) if o.meta is not None else self.natives['type']
            if isinstance(o, HList):
                return self.natives.get(o.kind, self.natives['list'])
            if isinstance(o, HDict):
                return self.natives['dict']
            if isinstance(o, HArr):
                return self.natives['ndarray']
            if isinstance(o, HMod):
                return self.natives['module']
        if v is None:
            return self.natives['NoneType']
        if isinstance(v, (bool, SymBool)):
            return self.natives['bool']
        if isinstance(v, int):
            return self.natives['int']
        if isinstance(v, Num):
            return self.natives['int' if v.k == 'i' else 'float']
        if isinstance(v, (str, SStr)):
            return self.natives['str']
        if isinstance(v, bytes):
            return self.natives['bytes']
        if isinstance(v, Tup):
            return self.natives['tuple']
        if isinstance(v, (Fn, BM, Builtin, Cb)):
            return self.natives['function']
        if isinstance(v, Wrap) and v.kind == 'property':
            return self.natives['property']
        return None

    # ---- attribute access
    def getattr(self, o, name, default=None, has_default=False):
        return self.lift(lambda o: self._getattr(o, name, default, has_default), o)

    def is_inst(self, v):
        return isinstance(v, Ref) and isinstance(self.st.heap[v.o], HInst)

    def _attr_fail(self, o, name, default, has_default):
        if self.lib.real_attr(self, o, name):
            raise Giveup('attribute %s is not modelled at %s' % (name, self.where()))
        if has_default:
            return default
        self.exc('AttributeError', name)

    def _getattr(self, o, name, default=None, has_default=False):
        st = self.st
        if isinstance(o, Ref):
            ob = st.heap[o.o]
            if isinstance(ob, HInst):
                if name == '__class__':
                    return Ref(ob.cls)
                if name == '__dict__':
                    hd = HDict()
                    for k, x in ob.d.items():
                        hd.d[k] = x
                        hd.keys[k] = k
                    hd.kind = ('instdict', o.o)
                    return st.alloc(hd)
                cls = st.heap[ob.cls]
                cv = self.class_lookup(cls, name)
                if cv is not None and self.is_data_desc(cv):
                    return self.desc_get(cv, o, Ref(ob.cls), name, default, has_default)
                if name in ob.d:
                    v = ob.d[name]
                    if isinstance(v, Alt) and any(x is UNDEF for c, x in v.alts) or v is UNDEF:
                        def f(x):
                            if x is UNDEF:
                                return self._attr_miss(o, cls, cv, name, default, has_default)
                            return x
                        return self.split(v, f) if isinstance(v, Alt) else f(v)
                    return v
                return self._attr_miss(o, cls, cv, name, default, has_default)
            if isinstance(ob, HClass):
                v = self.class_attr(o, ob, name)
                if v is not None:
                    return v[0]
                return self._attr_fail(o, name, default, has_default)
            if isinstance(ob, HMod):
                if name in ob.d:
                    return ob.d[name]
                if self.find_module(ob.name + '.' + name):
                    return self.import_module(ob.name + '.' + name)
                if '__star__' in ob.d:
                    for m in ob.d['__star__'].l:
                        if self.lib.ext_has(m.name, name):
                            return self.ext_attr(m, name)
                return self._attr_fail(o, name, default, has_default)
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, Fn):
            if name == '__name__':
                return o.name
            if name == '__doc__':
                d = ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
                m = self.mods.get(o.mod)
                if d is None and m is not None and str(self.st.get(m).d.get('__file__')).endswith('.f'):
                    return o.name + '(...)'       # f2py always provides one
                return d
            c = self.fn_cells.get((id(o.node), o.env))
            if c is not None and c.o in self.st.heap and name in self.st.heap[c.o].d:
                return self.st.heap[c.o].d[name]
            if name in ('__code__', '__defaults__'):
                return Opq(('fnattr', id(o.node), name))
            return self._attr_fail(o, name, default, has_default)
        if isinstance(o, BM) and name in ('__self__', 'im_self'):
            return o.self
        if isinstance(o, BM) and name in ('__func__', 'im_func'):
            return o.fn
        if isinstance(o, BM) and name == '__name__':
            return self._getattr(o.fn, name)
        if isinstance(o, Wrap):
            return self.lib.wrap_attr(self, o, name)
        if isinstance(o, Opq):
            if o.t[0] == 'frozen':
                v = self.lib.frozen_attr(self, o, name)
                if v is not None:
                    return v
            return Opq(('attr', o.t, name))
        v = self.lib.builtin_attr(self, o, name)
        if v is None:
            return self._attr_fail(o, name, default, has_default)
        return v[0]

    def class_attr(self, o, ob, name):
        if name == '__name__':
            return (ob.name,)
        if name == '__mro__':
            return (Tup(tuple(Ref(x) for x in ob.mro)),)
        if name == '__bases__':
            return (Tup(tuple(Ref(x) for x in ob.bases)),)
        if name == '__class__':
            return (self.class_of(o),)
        if name == '__dict__':
            hd = HDict()
            for k, x in ob.d.items():
                hd.d[k] = x
                hd.keys[k] = k
            return (self.st.alloc(hd),)
        v = self.class_lookup(ob, name)
        if v is not None:
            if isinstance(v, Wrap):
                if v.kind == 'staticmethod':
                    return (v.a[0],)
                if v.kind == 'classmethod':
                    return (BM(o, v.a[0]),)
            if self.is_inst(v):
                m = self.find_special(v, '__get__')
                if m is not None:
                    return (self.call(m, [None, o]),)
            return (v,)
        if ob.meta is not None:
            v = self.class_lookup(self.st.heap[ob.meta], name)
            if v is not None:
                if isinstance(v, Fn):
                    return (BM(o, v),)
                return (v,)
        r = self.lib.native_class_attr(self, o, ob, name)
        return r

    def is_data_desc(self, v):
        if isinstance(v, Wrap) and v.kind == 'property':
            return True
        if self.is_inst(v):
            c = self.st.heap[self.st.heap[v.o].cls]
            return self.class_lookup(c, '__set__') is not None
        return False

    def desc_get(self, cv, o, cls, name, default, has_default):
        if isinstance(cv, Wrap) and cv.kind == 'property':
            return self._guard_attr(lambda: self.call(cv.a[0], [o]), default, has_default)
        m = self.find_special(cv, '__get__')
        if m is None:
            d = self.st.heap[o.o].d
            if name in d:
                return d[name]
            return cv
        return self._guard_attr(lambda: self.call(m, [o, cls]), default, has_default)

    def _guard_attr(self, thunk, default, has_default):
        if not has_default:
            return thunk()
        outs, caught, rest = self.collect(thunk, ExcC)
        for c, s in caught:
            self.st = s
            if self.exc_matches(c.v, self.natives['AttributeError']):
                outs.append((s, default))
            else:
                rest.append((c, s))
        return self.resume(outs, rest)

    def _attr_miss(self, o, cls, cv, name, default, has_default):
        if cv is not None:
            if isinstance(cv, Fn) or isinstance(cv, (Builtin, )):
                return BM(o, cv)
            if isinstance(cv, Wrap):
                if cv.kind == 'staticmethod':
                    return cv.a[0]
                if cv.kind == 'classmethod':
                    return BM(self.class_of(o), cv.a[0])
                return cv
            if self.is_inst(cv):
                m = self.find_special(cv, '__get__')
                if m is not None:
                    return self._guard_attr(lambda: self.call(m, [o, self.class_of(o)]), default, has_default)
            return cv
        ob = self.st.heap[o.o]
        if cls.native is not None:
            r = self.lib.native_inst_attr(self, o, ob, cls, name)
            if r is not None:
                return r[0]
        ga = self.class_lookup(cls, '__getattr__')
        if ga is not None:
            return self._guard_attr(lambda: self.call(ga, [o, name]), default, has_default)
        return self._attr_fail(o, name, default, has_default)

    def setattr(self, o, name, v):
        return self.lift(lambda o: self._setattr(o, name, v), o)

    def _setattr(self, o, name, v):
        st = self.st
        if isinstance(o, Ref):
            ob = st.heap[o.o]
            if isinstance(ob, HInst):
                cls = st.heap[ob.cls]
                sa = self.class_lookup(cls, '__setattr__')
                if isinstance(sa, Fn):
                    return self.call(sa, [o, name, v])
                return self.obj_setattr(o, name, v)
            if isinstance(ob, (HClass, HMod)):
                st.w(o).d[name] = v
                return
            if isinstance(ob, HArr):
                if name == 'shape':
                    return self.lib.set_shape(self, o, v)
        if isinstance(o, (Opq, Ext)):
            return
        if isinstance(o, Fn):
            c = self.fn_cells.get((id(o.node), o.env))
            if c is None:
                c = self.fn_cells[(id(o.node), o.env)] = st.alloc(HEnv(None))
            elif c.o not in st.heap:
                st.heap[c.o] = st.heap[st.alloc(HEnv(None)).o]
            st.w(c).d[name] = v
            return
        self.exc('AttributeError', name)

    def obj_setattr(self, o, name, v):
        st = self.st
        ob = st.heap[o.o]
        cv = self.class_lookup(st.heap[ob.cls], name)
        if cv is not None:
            if isinstance(cv, Wrap) and cv.kind == 'property':
                if len(cv.a) > 1 and cv.a[1] is not None:
                    return self.call(cv.a[1], [o, v])
                self.exc('AttributeError', name)
            if self.is_inst(cv):
                m = self.find_special(cv, '__set__')
                if m is not None:
                    return self.call(m, [o, v])
        st.w(o).d[name] = v

    def delattr(self, o, name):
        if self.is_inst(o):
            ob = self.st.heap[o.o]
            da = self.class_lookup(self.st.heap[ob.cls], '__delattr__')
            if isinstance(da, Fn):
                return self.call(da, [o, name])
            if name in ob.d:
                del self.st.w(o).d[name]
                return
            self.exc('AttributeError', name)
        if isinstance(o, Ref):
            ob = self.st.heap[o.o]
            if isinstance(ob, (HClass, HMod)):
                if name in ob.d:
                    del self.st.w(o).d[name]
                    return
                self.exc('AttributeError', name)
        if isinstance(o, Opq):
            return
        self.exc('AttributeError', name)

    def find_special(self, v, name):
        """bound special method found on the type (instances only)"""
        if isinstance(v, Ref):
            ob = self.st.heap[v.o]
            if isinstance(ob, HInst):
                m = self.class_lookup(self.st.heap[ob.cls], name)
                if m is not None:
                    if isinstance(m, Wrap):
                        return m.a[0] if m.kind == 'staticmethod' else BM(Ref(ob.cls), m.a[0])
                    return BM(v, m)
            elif isinstance(ob, HClass) and ob.meta is not None:
                m = self.class_lookup(self.st.heap[ob.meta], name)
                if isinstance(m, Fn):
                    return BM(v, m)
        return None

    def ext_attr(self, m, name):
        full = m.name + '.' + name
        return self.lib.ext_value(self, full)

    # ---- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        return self.lift(lambda f: self._call(f, list(args), kw), f)

    def _call(self, f, args, kw):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, BM):
            return self._call(f.fn, [f.self] + args, kw)
        if isinstance(f, Builtin):
            if f.name[:3] == 'nl:':
                if args and isinstance(self.norm(args[0]), HAlt):
                    return self.lift(lambda x: f.f(self, [x] + args[1:], kw), args[0])
                return f.f(self, args, kw)
            return self.lift_args(f.f, args, kw)
        if isinstance(f, Ref):
            ob = self.st.heap[f.o]
            if isinstance(ob, HClass):
                return self.instantiate(f, ob, args, kw)
            if isinstance(ob, HInst):
                m = self.find_special(f, '__call__')
                if m is not None:
                    return self.call(m, args, kw)
            self.exc('TypeError', 'object is not callable')
        if isinstance(f, Ext):
            return self.lift_args(lambda it, a, k: self.lib.call_ext(it, f.name, a, k), args, kw)
        if isinstance(f, Cb):
            return self.lib.call_cb(self, f, args, kw)
        if isinstance(f, Wrap):
            return self.lib.call_wrap(self, f, args, kw)
        if isinstance(f, Opq):
            return Opq(('call', f.t, tuple(self.key(a) for a in args),
                        tuple(sorted((k, self.key(v)) for k, v in kw.items()))))
        self.exc('TypeError', 'object is not callable')

    def lift_args(self, f, args, kw):
        n = len(args)
        ks = list(kw)
        return self.lift(lambda *a: f(self, list(a[:n]), dict(zip(ks, a[n:]))), *(list(args) + [kw[k] for k in ks]))

    def instantiate(self, ref, ob, args, kw):
        if ob.meta is not None:
            mc = self.class_lookup(self.st.heap[ob.meta], '__call__')
            if isinstance(mc, Fn):
                return self.call(mc, [ref] + args, kw)
        new = self.class_lookup(ob, '__new__')
        if isinstance(new, Wrap):
            new = new.a[0]
        if isinstance(new, Fn):
            inst = self.call(new, [ref] + args, kw)
        else:
            r = self.lib.native_new(self, ref, ob, args, kw)
            if r is not None:
                if not (isinstance(r, Ref) and isinstance(self.st.heap[r.o], HInst)):
                    return r
                inst = r
            else:
                inst = self.st.alloc(HInst(ref.o))

        def init(inst):
            if isinstance(inst, Ref) and isinstance(self.st.heap[inst.o], HInst) and \
                    ref.o in self.st.heap[self.st.heap[inst.o].cls].mro:
                i = self.class_lookup(self.st.heap[self.st.heap[inst.o].cls], '__init__')
                if isinstance(i, (Fn, Wrap, Builtin)):
                    self.call(i, [inst] + args, kw)
                elif i is None and not isinstance(new, Fn) and ob.native in (None, 'object') and (args or kw):
                    self.exc('TypeError', '%s() takes no arguments' % ob.name)
            return inst
        return self.lift(init, inst)

    def bind(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        d = {}
        kw = dict(kw)
        n = len(pos)
        if len(args) > n and not a.vararg:
            self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
        for x, v in zip(pos, args):
            d[x.arg] = v
        if a.vararg:
            d[a.vararg.arg] = Tup(args[n:])
        ko = {x.arg for x in a.kwonlyargs}
        names = {x.arg for x in a.args}
        extra = {}
        for k, v in kw.items():
            if k in names or k in ko:
                if k in d:
                    self.exc('TypeError', 'multiple values for argument %s' % k)
                d[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            self.exc('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, sorted(extra)[0]))
        nd = len(f.defaults)
        for i, x in enumerate(pos):
            if x.arg not in d:
                j = i - (n - nd)
                if j < 0:
                    self.exc('TypeError', '%s() missing argument %s' % (f.name, x.arg))
                d[x.arg] = f.defaults[j]
        kd = dict(f.kwdefaults)
        for x in a.kwonlyargs:
            if x.arg not in d:
                if x.arg not in kd:
                    self.exc('TypeError', '%s() missing argument %s' % (f.name, x.arg))
                d[x.arg] = kd[x.arg]
        if a.kwarg:
            hd = HDict()
            for k, v in extra.items():
                hd.d[k] = v
                hd.keys[k] = k
            d[a.kwarg.arg] = self.st.alloc(hd)
        return d

    def call_fn(self, f, args, kw):
        hook = self.opaque.get((f.mod, f.name))
        if hook is not None:
            return hook(self, f, args, kw)
        d = self.bind(f, args, kw)
        if getattr(f, 'cm', False):
            return GenCM(f, d)
        return self.run_fn(f, d)

    def run_fn(self, f, d, hook=None):
        if self.depth > 90:
            self.exc('RecursionError', f.name)
        fr = Frame()
        e = HEnv(f.env)
        e.d = d
        env = self.st.alloc(e)
        loc, glo, nonl, gen = assigned_names(f.node)
        fr.mod, fr.env, fr.node, fr.name = f.mod, env.o, f.node, f.name
        fr.locals, fr.globals, fr.nonlocals = loc, glo, nonl
        fr.cls = f.cls
        fr.self = None
        fr.yields = None
        fr.hook = hook
        a = f.node.args
        if a.posonlyargs + a.args:
            fr.self = (a.posonlyargs + a.args)[0].arg
        if f.mod.startswith(self.pkg):
            self.analysed.add('%s.%s' % (f.mod, f.name))
        if gen:
            fr.yields = self.st.alloc(HList([], 'iter'))
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            outs, caught, rest = self.collect(lambda: self.exec_block(f.node.body), RetC)
            outs = [(s, None) for s, v in outs]
            if gen:
                outs = [(s, fr.yields) for s, v in outs] + [(s, fr.yields) for c, s in caught]
            else:
                outs += [(s, c.v) for c, s in caught]
            outs = self.partition(outs)
        finally:
            self.frames.pop()
            self.depth -= 1
        return self.resume(outs, rest)

    # -------------------------------------------------------------- expressions
    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Giveup('expression %s at %s' % (type(n).__name__, self.where()))
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, float):
            return Num(C(v), 'f')
        if isinstance(v, complex):
            return Opq(('complex', v))
        return v

    def e_Name(self, n):
        return self.load_name(n.id)

    def e_Tuple(self, n):
        return Tup(self.eval_seq(n.elts))

    def e_List(self, n):
        return self.st_list(self.eval_seq(n.elts))

    def st_list(self, items, kind='list'):
        return self.st.alloc(HList(list(items), kind))

    def e_Set(self, n):
        return self.lib.mk_set(self, self.eval_seq(n.elts))

    def eval_seq(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                out.extend(self.lift_iter(v))
            else:
                out.append(self.eval(e))
        return out

    def lift_iter(self, v):
        if isinstance(v, Alt):
            r = self.lift(lambda x: Tup(self.iterate(x)), v)
            if isinstance(r, Tup):
                return list(r.l)
            raise Giveup('ambiguous sequence')
        return self.iterate(v)

    def e_Dict(self, n):
        hd = HDict()
        ref = self.st.alloc(hd)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.dict_update(self, ref, self.eval(v))
            else:
                kv = self.eval(k)
                self.setitem(ref, kv, self.eval(v))
        return ref

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                s = self.lib.to_str(self, x) if v.format_spec is None and v.conversion in (-1, 115) else \
                    SStr((('fmt', self.key(x), v.conversion, ast.dump(v.format_spec) if v.format_spec else ''),))
                parts.extend(s.parts if isinstance(s, SStr) else [s])
        s = SStr(parts)
        return self.lib.mkstr(s)

    def e_Lambda(self, n):
        return self.mkfn(n, '<lambda>')

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        return self.branch(c, lambda: self.eval(n.body), lambda: self.eval(n.orelse))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i])
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: False if isinstance(v, SymBool) else v)
            return self.branch(c, lambda: True if isinstance(v, SymBool) else v, lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        op = type(n.op).__name__
        if op == 'Not':
            return self.notb(self.truth(v))
        return self.unop(op, v)

    def notb(self, c):
        if isinstance(c, bool):
            return not c
        return SymBool(c.F, c.T)

    def unop(self, op, v):
        def f(v):
            p = num_poly(v)
            if p is not None:
                if op == 'USub':
                    return mknum(neg(p), kind_of(v))
                if op == 'UAdd':
                    return v
                if op == 'Invert':
                    return mknum(sub(neg(p), ONE), 'i')
            if isinstance(v, Ref):
                ob = self.st.heap[v.o]
                if isinstance(ob, HInst):
                    m = self.find_special(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
                    if m is not None:
                        return self.call(m, [])
                    if ob.payload is not None:
                        return self.unop(op, ob.payload)
                    self.exc('TypeError', 'bad operand for unary')
                if isinstance(ob, HArr):
                    return self.lib.arr_map(self, v, lambda x: self.unop(op, x), neg if op == 'USub' else None)
            if isinstance(v, Opq):
                return Num(A(mk_atom('unk', (('unop', op, v.t),))), 'f')
            self.exc('TypeError', 'bad operand type for unary %s' % op)
        return self.lift(f, v)

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lift(lambda a, b: self._binop(op, a, b), a, b)

    def payload(self, v):
        if isinstance(v, Ref):
            ob = self.st.heap[v.o]
            if isinstance(ob, HInst) and ob.payload is not None:
                return ob.payload
        return v

    def _binop(self, op, a, b):
        ia, ib = self.is_inst(a), self.is_inst(b)
        if ia or ib:
            nm = BINNAME[op]
            if ia:
                m = self.find_special(a, '__%s__' % nm)
                if m is not None:
                    r = self.call(m, [b])
                    if not (isinstance(r, Ext) and r.name == 'NotImplemented'):
                        return r
            if ib:
                m = self.find_special(b, '__r%s__' % nm)
                if m is not None:
                    return self.call(m, [a])
            pa, pb = self.payload(a), self.payload(b)
            if pa is a and pb is b:
                self.exc('TypeError', 'unsupported operand types for %s' % op)
            return self.binop(op, pa, pb)
        if op == 'MatMult':
            return self.lib.NP['dot'](self, [a, b], {})
        pa, pb = num_poly(a), num_poly(b)
        if pa is not None and pb is not None:
            return self.lib.arith(self, op, pa, pb, kind_of(a), kind_of(b))
        r = self.lib.special_binop(self, op, a, b)
        return r

    def e_Compare(self, n):
        a = self.eval(n.left)

        def go(i, a):
            b = self.eval(n.comparators[i])
            r = self.compare(type(n.ops[i]).__name__, a, b)
            if i == len(n.ops) - 1:
                return r
            c = self.truth(r)
            return self.branch(c, lambda: go(i + 1, b), lambda: False)
        return go(0, a)

    def compare(self, op, a, b):
        return self.lift(lambda a, b: self._compare(op, a, b), a, b)

    def guardbool(self, op, p):
        g = norm_cmp(op, p)
        d = self.st.facts.decide(g)
        if d is not None:
            return d
        return SymBool(((g,),), ((neg_guard(g),),))

    def opqbool(self, key):
        d = self.st.facts.opq.get(key)
        if d is not None:
            return d
        return SymBool(((('opq', key, True),),), ((('opq', key, False),),))

    def _compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            return r if op == 'Is' else self.notb(r)
        if op in ('In', 'NotIn'):
            r = self.truth(self.lib.contains(self, b, a))
            return r if op == 'In' else self.notb(r)
        ia, ib = self.is_inst(a), self.is_inst(b)
        if ia or ib:
            nm = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op]
            rn = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'gt', 'LtE': 'ge', 'Gt': 'lt', 'GtE': 'le'}[op]
            if ia:
                m = self.find_special(a, '__%s__' % nm)
                if m is not None:
                    return self.call(m, [b])
                if nm == 'ne':
                    m = self.find_special(a, '__eq__')
                    if m is not None:
                        return self.notb(self.truth(self.call(m, [b])))
            if ib:
                m = self.find_special(b, '__%s__' % rn)
                if m is not None:
                    return self.call(m, [a])
            pa, pb = self.payload(a), self.payload(b)
            if pa is not a or pb is not b:
                return self.compare(op, pa, pb)
            if op == 'Eq':
                return a == b
            if op == 'NotEq':
                return not (a == b)
            self.exc('TypeError', 'unorderable types')
        pa, pb = num_poly(a), num_poly(b)
        if pa is not None and pb is not None:
            return self.guardbool(CMP[op], sub(pa, pb))
        return self.lib.special_compare(self, op, a, b)

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, Opq) or isinstance(b, Opq):
                return self.opqbool(('isnone', (a if isinstance(a, Opq) else b).t))
            return a is None and b is None
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a == b:
                return True
            return self.opqbool(('is', self.key(a), self.key(b)))
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return self.truth(self.compare('Eq', a, b))
        if isinstance(a, Num) and isinstance(b, Num):
            return a == b
        return same(a, b)

    def truth(self, v):
        """bool or SymBool (Alts are turned into SymBool)"""
        if isinstance(v, bool):
            return v
        if isinstance(v, SymBool):
            T = [c for c in v.T]
            f = self.st.facts
            dt = [all(f.decide(g) is True for g in c) for c in v.T]
            if any(dt):
                return True
            df = [all(f.decide(g) is True for g in c) for c in v.F]
            if any(df):
                return False
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Num):
            return self.guardbool('!=', v.p)
        if isinstance(v, (str, bytes)):
            return len(v) > 0
        if isinstance(v, Tup):
            return len(v.l) > 0
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return self.opqbool(('nonempty', v.parts))
        if isinstance(v, Alt) or (isinstance(v, Ref) and isinstance(self.st.heap.get(v.o), HAlt)):
            return self.lift(self.truth, v)
        if isinstance(v, Ref):
            ob = self.st.heap[v.o]
            if isinstance(ob, HList):
                return len(ob.l) > 0 if ob.kind != 'iter' else True
            if isinstance(ob, HDict):
                return len(ob.d) > 0
            if isinstance(ob, HInst):
                m = self.find_special(v, '__bool__')
                if m is not None:
                    return self.truth(self.call(m, []))
                if ob.payload is not None:
                    return self.truth(ob.payload)
                m = self.find_special(v, '__len__')
                if m is not None:
                    return self.truth(self.call(m, []))
                return True
            if isinstance(ob, HArr):
                return self.lib.arr_truth(self, v, ob)
            return True
        if isinstance(v, Opq):
            return self.opqbool(('truth', v.t))
        return True

    def e_Call(self, n):
        f = self.eval(n.func)
        args = self.eval_seq(n.args)
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                def upd(v):
                    ob = self.st.get(v)
                    kw.update(ob.d)
                if isinstance(v, Alt):
                    raise Giveup('ambiguous **kwargs')
                upd(v)
            else:
                kw[k.arg] = v
        fr = self.frames[-1]
        old = fr.node
        fr.node = n
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not args:
            if isinstance(f, Builtin) and f.name == 'super':
                return Wrap('super', Ref(fr.cls), self.load_name(fr.self))
        r = self.call(f, args, kw)
        fr.node = old
        return r

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr)

    def e_Subscript(self, n):
        o = self.eval(n.value)
        i = self.eval_index(n.slice)
        return self.getitem(o, i)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*(self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_index(x) for x in s.elts])
        return self.eval(s)

    def e_Slice(self, n):
        return self.eval_index(n)

    def getitem(self, o, i):
        return self.lift(lambda o, i: self.lib.getitem(self, o, i), o, i)

    def setitem(self, o, i, v):
        return self.lift(lambda o, i: self.lib.setitem(self, o, i, v), o, i)

    def delitem(self, o, i):
        return self.lift(lambda o, i: self.lib.delitem(self, o, i), o, i)

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.store_name(n.target.id, v)
        return v

    def e_Starred(self, n):
        raise Giveup('starred')

    # comprehensions: evaluated in a nested frame sharing the enclosing env
    def _comp(self, n, elt):
        fr = self.frames[-1]
        outer_first = self.eval(n.generators[0].iter)
        nf = Frame()
        for s in Frame.__slots__:
            setattr(nf, s, getattr(fr, s))
        env = self.st.alloc(HEnv(fr.env))
        nf.env = env.o
        nf.locals = frozenset()
        nf.nonlocals = frozenset()
        self.frames.append(nf)

        def go(gi):
            if gi == len(n.generators):
                elt()
                return
            g = n.generators[gi]
            it = outer_first if gi == 0 else self.eval(g.iter)

            def body(x):
                self.assign(g.target, x)
                self.comp_ifs(g.ifs, 0, lambda: go(gi + 1))
            self.for_each(it, body, n)
        try:
            go(0)
        finally:
            self.frames.pop()

    def comp_ifs(self, ifs, i, then):
        if i == len(ifs):
            return then()
        c = self.truth(self.eval(ifs[i]))
        self.branch(c, lambda: self.comp_ifs(ifs, i + 1, then), lambda: None)

    def for_each(self, it, body, node):
        """run body(x) for each element"""
        def f(it):
            seq = self.lib.sym_seq(self, it)
            if seq is not None:
                from . import loops
                return loops.for_symbolic(self, seq, body, node)
            for x in self.iterate(it):
                body(x)
        self.lift(f, it)

    def e_ListComp(self, n):
        r = self.st_list([])

        def elt():
            v = self.eval(n.elt)
            self.lift(lambda r: self.st.w(r).l.append(v), r)
        self._comp(n, elt)
        return r

    def e_GeneratorExp(self, n):
        r = self.e_ListComp(n)
        return self.lift(self._to_iter, r)

    def _to_iter(self, r):
        self.st.w(r).kind = 'iter'
        return r

    def e_SetComp(self, n):
        r = self.e_ListComp(n)
        return self.lift(lambda r: self.lib.mk_set(self, self.iterate(r)), r)

    def e_DictComp(self, n):
        hd = self.st.alloc(HDict())

        def elt():
            k = self.eval(n.key)
            self.setitem(hd, k, self.eval(n.value))
        self._comp(n, elt)
        return hd

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else None
        if self.frames[-1].hook is not None:
            return self.frames[-1].hook(v)
        y = self.frames[-1].yields
        self.lift(lambda y: self.st.w(y).l.append(v), y)
        return None

    def e_YieldFrom(self, n):
        v = self.eval(n.value)
        y = self.frames[-1].yields
        for x in self.lift_iter(v):
            self.lift(lambda y: self.st.w(y).l.append(x), y)
        return None

    def iterate(self, v):
        return self.lib.iterate(self, v)

    # -------------------------------------------------------------- loops
    def x_For(self, n):
        it = self.eval(n.iter)

        def f(it):
            from . import loops
            seq = self.lib.sym_seq(self, it)
            if seq is not None:
                loops.for_symbolic(self, seq, lambda x: (self.assign(n.target, x), self.exec_block(n.body)), n,
                                   orelse=n.orelse)
                return
            self.for_concrete(n, self.lib.live_iter(self, it))
        self.lift(f, it)

    def for_concrete(self, n, nxt):
        """nxt(): next element or StopIteration, evaluated against the current state"""
        brk, rest = [], []
        cur = None
        first = True
        while True:
            def it():
                x = nxt()
                self.assign(n.target, x)
                self.exec_block(n.body)
            done = False
            try:
                nxt_peek = nxt
                outs, caught, r = self.collect(it, (BrkC, ContC))
            except StopIteration:
                done = True
            if done:
                break
            rest += r
            brk += [(s, None) for c, s in caught if isinstance(c, BrkC)]
            outs = [(s, None) for s, v in outs] + [(s, None) for c, s in caught if isinstance(c, ContC)]
            if not outs:
                self.resume(brk, rest)
                return
            self.merge(outs)
        final = []
        if n.orelse:
            outs, caught, r = self.collect(lambda: self.exec_block(n.orelse), ())
            rest += r
            final = [(s, None) for s, v in outs]
        else:
            final = [(self.st, None)]
        self.resume(brk + final, rest)

    def x_While(self, n):
        from . import loops
        start = self.st.copy()
        brk, rest = [], []
        symexits = 0
        iters = 0
        while True:
            c = self.truth(self.eval(n.test))
            if c is False:
                break
            if not isinstance(c, bool):
                symexits += 1
            exits_before = len(brk) + len(rest)
            if iters > 300 or symexits > self.unroll_sym:
                if self.cut:
                    self.cuts += 1
                    return self.resume(self.partition(brk), rest)
                self.st = start
                return loops.while_fix(self, n)

            def body():
                if c is not True:
                    s1 = self.st.assume_any(c.T)
                    s2 = self.st.assume_any(c.F)
                    if s2 is not None:
                        brk_cond.append((s2, None))
                    if s1 is None:
                        raise Dead()
                    self.st = s1
                self.exec_block(n.body)
            brk_cond = []
            try:
                outs, caught, r = self.collect(body, (BrkC, ContC))
            except Dead:
                outs, caught, r = [], [], []
            iters += 1
            rest += r
            brk += brk_cond
            brk += [(s, None) for cc, s in caught if isinstance(cc, BrkC)]
            outs = [(s, None) for s, v in outs] + [(s, None) for cc, s in caught if isinstance(cc, ContC)]
            if len(brk) + len(rest) > exits_before and c is True:
                symexits += 1
            if not outs:
                return self.resume(self.partition(brk), rest)
            self.merge(outs)
        if n.orelse:
            outs, caught, r = self.collect(lambda: self.exec_block(n.orelse), ())
            self.resume([(s, None) for s, v in outs] + brk, rest + r)
            return
        self.resume([(self.st, None)] + brk, rest)

    # -------------------------------------------------------------- keys
    def key(self, v, depth=0):
        """hashable canonical name of a value (contents for arrays / lists)"""
        if isinstance(v, Num):
            return ('n', v.p)
        if isinstance(v, (int, str, bytes, type(None), bool)):
            return v
        if isinstance(v, Tup):
            return ('t',) + tuple(self.key(x, depth) for x in v.l)
        if isinstance(v, SStr):
            return ('s',) + v.parts
        if isinstance(v, Ref):
            ob = self.st.heap.get(v.o)
            if isinstance(ob, HArr):
                return ('arr', self.lib.arr_key(self, ob))
            if isinstance(ob, HList):
                return ('l', ob.kind) + tuple(self.key(x, depth) for x in ob.l)
            if isinstance(ob, HDict):
                return ('d',) + tuple((k, self.key(x, depth)) for k, x in ob.d.items())
            if isinstance(ob, HInst) and ob.payload is not None:
                return self.key(ob.payload)
            return ('ref', v.o)
        if isinstance(v, Alt):
            return ('alt',) + tuple((c, self.key(x, depth)) for c, x in v.alts)
        if isinstance(v, (Fn, BM)) and depth < 2:
            return self.lib.fn_key(self, v)
        return v


BINNAME = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
           'Pow': 'pow', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift',
           'MatMult': 'matmul'}
CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}


class Merger:
    """merge of several states reached under exclusive path suffixes"""

    def __init__(self, it, sts):
        self.it = it
        self.sts = sts
        L = 0
        p0 = sts[0].pc
        mn = min(len(s.pc) for s in sts)
        while L < mn and all(s.pc[L] == p0[L] for s in sts):
            L += 1
        self.L = L
        suff = [s.pc[L:] for s in sts]
        # non-exclusive identical suffixes get an opaque choice
        seen = {}
        for i, c in enumerate(suff):
            if c in seen:
                k = ('choice', next(it.choice))
                suff[i] = c + (('opq', k, True),)
                j = seen[c]
                suff[j] = suff[j] + (('opq', k, False),)
            else:
                seen[c] = i
        self.suff = suff
        self.unified = {}
        self.inv = {}
        self.extra = {}
        self.tok = Tok()

    def value(self, vs):
        return self._val([(g, v, s) for g, v, s in zip(self.suff, vs, self.sts)])

    def _val(self, al):
        v0 = al[0][1]
        if all(same(v, v0) for g, v, s in al[1:]):
            return v0
        vs = [v for g, v, s in al]
        if all(isinstance(v, (bool, SymBool)) for v in vs):
            T, F = [], []
            for g, v, s in al:
                if v is True:
                    T.append(g)
                elif v is False:
                    F.append(g)
                else:
                    T += [g + c for c in v.T]
                    F += [g + c for c in v.F]
            return SymBool(T, F)
        if all(num_poly(v) is not None and not isinstance(v, (bool, SymBool)) for v in vs):
            ks = {kind_of(v) for v in vs}
            alts = [(g, num_poly(v)) for g, v, s in al]
            alts[-1] = ((), alts[-1][1])
            return mknum(case(tuple(alts)), 'i' if ks == {'i'} else 'f')
        if all(isinstance(v, Tup) for v in vs) and len({len(v.l) for v in vs}) == 1:
            return Tup([self._val([(g, v.l[i], s) for g, v, s in al]) for i in range(len(v0.l))])
        if all(isinstance(v, Ref) for v in vs):
            r = self._unify(al)
            if r is not None:
                return r
        if all(isinstance(v, BM) for v in vs) and all(same(v.fn, v0.fn) for v in vs):
            r = self._val([(g, v.self, s) for g, v, s in al])
            if isinstance(r, Ref):
                return BM(r, v0.fn)
        out = []
        for g, v, s in al:
            if isinstance(v, Alt):
                for c, x in v.alts:
                    out.append((g + c, x))
            else:
                out.append((g, v))
        # collapse equal alternatives
        ded = []
        for c, x in out:
            for i, (c2, x2) in enumerate(ded):
                if same(x, x2):
                    conjs = c2[0][1] if len(c2) == 1 and c2[0][0] == 'or' else (c2,)
                    nc = conjs + (c,)
                    ded[i] = ((('or', nc),), x2)
                    break
            else:
                ded.append((c, x))
        if len(ded) == 1:
            return ded[0][1]
        return Alt(ded)

    def _unify(self, al):
        """merge references to objects allocated on each path"""
        key = tuple(v.o for g, v, s in al)
        k2 = (key, tuple(id(s) for g, v, s in al))
        if k2 in self.unified:
            return Ref(self.unified[k2])
        objs = [s.heap.get(v.o) for g, v, s in al]
        if any(o is None for o in objs):
            return None
        t = type(objs[0])
        if any(type(o) is not t for o in objs) or t in (HClass, HMod, HAlt, HEnv):
            return None
        for (g, v, s) in al:
            for s2 in self.sts:
                if s2 is not s and v.o in s2.heap and len(set(key)) > 1:
                    # shared object on one side: only unify if fresh on every side
                    return None
        for o in key:
            if o in self.inv and self.inv[o] != k2:
                return None
        if len(set(key)) != len(key):
            return None
        # structural compatibility
        if t is HInst and len({o.cls for o in objs}) != 1:
            return None
        if t is HList and (len({len(o.l) for o in objs}) != 1 or len({o.kind for o in objs}) != 1):
            return None
        if t is HDict and len({tuple(o.d) for o in objs}) != 1:
            return None
        if t is HArr and (len({tuple(map(str, o.shape)) for o in objs}) != 1 or len({o.k for o in objs}) != 1
                          or len({tuple(o.pos) if o.pos is not None else None for o in objs}) != 1
                          or len({o.sl for o in objs}) != 1):
            return None
        new = next(_oid)
        self.unified[k2] = new
        for o in key:
            self.inv[o] = k2
        self.extra[new] = None
        ob = self._obj([(g, o, s) for (g, v, s), o in zip(al, objs)])
        if ob is None:
            del self.unified[k2], self.extra[new]
            for o in key:
                del self.inv[o]
            return None
        ob.tok = None
        self.extra[new] = ob
        return Ref(new)

    def _dict(self, al):
        """merge of attribute dictionaries [(gate, dict, state)]"""
        d0 = al[0][1]
        keys = list(d0)
        for g, d, s in al[1:]:
            for k in d:
                if k not in d0:
                    keys.append(k)
        seen = set()
        out = {}
        for k in keys:
            if k in seen:
                continue
            seen.add(k)
            vs = [d.get(k, UNDEF) for g, d, s in al]
            v0 = vs[0]
            if all(v is v0 for v in vs):
                out[k] = v0
            else:
                out[k] = self._val([(g, v, s) for (g, d, s), v in zip(al, vs)])
        return out

    def _obj(self, al):
        o0 = al[0][1]
        t = type(o0)
        if any(type(o) is not t for g, o, s in al):
            return self._halt(al)
        if t is HAlt:
            return self._halt(al)
        if t is HInst:
            if len({o.cls for g, o, s in al}) != 1:
                return self._halt(al)
            n = o0.clone()
            n.d = self._dict([(g, o.d, s) for g, o, s in al])
            n.payload = self._val([(g, o.payload, s) for g, o, s in al])
            return n
        if t in (HClass, HMod, HEnv):
            n = o0.clone()
            n.d = self._dict([(g, o.d, s) for g, o, s in al])
            return n
        if t is HList:
            if len({len(o.l) for g, o, s in al}) != 1 or len({(o.kind, o.pos) for g, o, s in al}) != 1:
                return self._halt(al)
            n = o0.clone()
            n.l = [self._val([(g, o.l[i], s) for g, o, s in al]) for i in range(len(o0.l))]
            return n
        if t is HDict:
            if len({tuple(o.d) for g, o, s in al}) != 1:
                return self._halt(al)
            n = o0.clone()
            n.d = self._dict([(g, o.d, s) for g, o, s in al])
            return n
        if t is HBuf:
            if all(o.l is not None for g, o, s in al) and len({len(o.l) for g, o, s in al}) == 1:
                n = o0.clone()
                n.l = [self._val([(g, o.l[i], s) for g, o, s in al]) for i in range(len(o0.l))]
                n.writes = max(o.writes for g, o, s in al)
                return n
            if all(o.vec is not None for g, o, s in al):
                n = o0.clone()
                alts = [(g, o.vec) for g, o, s in al]
                alts[-1] = ((), alts[-1][1])
                n.vec = case(tuple(alts))
                n.writes = max(o.writes for g, o, s in al)
                return n
            return self._halt(al)
        if t is HArr:
            n = o0.clone()
            if len({(o.buf, tuple(map(str, o.shape)), o.k) for g, o, s in al}) == 1:
                return n
            b = self._unify([(g, Ref(o.buf), s) for g, o, s in al])
            if b is None or len({(tuple(map(str, o.shape)), o.k) for g, o, s in al}) != 1:
                return self._halt(al)
            n.buf = b.o
            return n
        return self._halt(al)

    def _halt(self, al):
        out = []
        for g, o, s in al:
            if isinstance(o, HAlt):
                out += [(g + c, x) for c, x in o.alts]
            else:
                out.append((g, o))
        return HAlt(out)

    def finish(self):
        s0 = self.sts[0]
        heap = dict(s0.heap)
        rest = self.sts[1:]
        # objects present in several states with different contents
        diff = []
        for o, ob in s0.heap.items():
            for s in rest:
                x = s.heap.get(o)
                if x is not ob:
                    diff.append(o)
                    break
        for s in rest:
            for o, ob in s.heap.items():
                if o not in heap:
                    heap[o] = ob
                    diff.append(o) if any(s2 is not s and o in s2.heap for s2 in rest) else None
        done = set()
        for o in diff:
            if o in done:
                continue
            done.add(o)
            al = [(g, s.heap[o], s) for g, s in zip(self.suff, self.sts) if o in s.heap]
            if len(al) == 1 or all(x[1] is al[0][1] for x in al):
                heap[o] = al[0][1]
                continue
            ob = self._obj(al)
            ob.tok = None
            heap[o] = ob
        for o, ob in self.extra.items():
            heap[o] = ob
        base = merge_facts(Facts_prefix(self.sts), [s.facts for s in self.sts])
        pc = s0.pc[:self.L]
        live = [c for c in self.suff]
        if not exhaustive(live):
            g = ('or', tuple(live))
            pc = pc + (g,)
            base = base.assume(g) or base
        return State(heap, base, pc)


def Facts_prefix(sts):
    """facts common to all states (cheap: longest common guard prefix)"""
    fs = [s.facts for s in sts]
    L = 0
    mn = min(len(f.gl) for f in fs)
    while L < mn and all(f.gl[L] == fs[0].gl[L] for f in fs):
        L += 1
    for f in fs:
        if len(f.gl) == L:
            return f
    r = Facts()
    for g in fs[0].gl[:L]:
        n = r.assume(g)
        if n is not None:
            r = n
    return r

"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet on them.
usage: autoref.py KIND OUTDIR   (KIND: delegate, rename, swap, temps, whiles, loops, lambdas, split, elif, all)"""
import ast
import os
import shutil
import sys

SKIP = ('tests', 'test')


class Base(ast.NodeTransformer):
    pass


def loc_names(fn):
    """names that are plainly local to fn and not shared with nested scopes"""
    bad, loc = set(), set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            for m in ast.walk(n):
                if isinstance(m, ast.Name):
                    bad.add(m.id)
                if isinstance(m, ast.arg):
                    bad.add(m.arg)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bad.add(n.name)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                bad.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            loc.add(n.id)
        if isinstance(n, ast.Name) and n.id in ('locals', 'vars', 'exec', 'eval'):
            return set()
    for a in ast.walk(fn.args):
        if isinstance(a, ast.arg):
            bad.add(a.arg)
    return loc - bad


class Rename(Base):
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        names = loc_names(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = 'v_' + n.id
        return fn


class Swap(Base):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse, n.body
        return n


class Temps(Base):
    """return E -> t = E; return t ; conditions into variables"""
    k = 0

    def new(self):
        Temps.k += 1
        return 't_%d' % Temps.k

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        t = self.new()
        return [ast.Assign([ast.Name(t, ast.Store())], n.value, lineno=0), ast.Return(ast.Name(t, ast.Load()))]

    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.orelse) == 1 and isinstance(n.orelse[0], list):
            n.orelse = n.orelse[0]
        t = self.new()
        c = n.test
        n.test = ast.Name(t, ast.Load())
        return [ast.Assign([ast.Name(t, ast.Store())], c, lineno=0), n]

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_Lambda(self, n):
        return n


class Whiles(Base):
    """for i in range(..) -> while (only when the body neither continues nor rebinds i)"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'xrange') and
                len(it.args) in (1, 2) and isinstance(n.target, ast.Name)) or n.orelse:
            return n
        i = n.target.id
        for m in ast.walk(ast.Module(n.body, [])):
            if isinstance(m, ast.Continue) or isinstance(m, ast.Name) and m.id == i and isinstance(m.ctx, ast.Store):
                return n
        Whiles.k += 1
        lo = it.args[0] if len(it.args) == 2 else ast.Constant(0)
        hi = it.args[-1]
        e, c = 'end_%d' % Whiles.k, 'cnt_%d' % Whiles.k
        return [ast.Assign([ast.Name(c, ast.Store())], lo, lineno=0), ast.Assign([ast.Name(e, ast.Store())], hi, lineno=0),
                ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                          [ast.Assign([ast.Name(i, ast.Store())], ast.Name(c, ast.Load()), lineno=0)] + n.body +
                          [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))], [])]


class Loops(Base):
    """x = [e for ..] -> loop with append"""
    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and len(n.targets) == 1:
            g = v.generators[0]
            Temps.k += 1
            t = 'acc_%d' % Temps.k
            tn = {m.id for m in ast.walk(g.target) if isinstance(m, ast.Name)}
            mp = {x: x + '_c' for x in tn}
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [v.elt], []))
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            f = ast.For(g.target, g.iter, [body], [], lineno=0)
            for part in [g.target, body]:
                for m in ast.walk(part):
                    if isinstance(m, ast.Name) and m.id in mp:
                        m.id = mp[m.id]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()), lineno=0), f,
                    ast.Assign(n.targets, ast.Name(t, ast.Load()), lineno=0)]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n


class Delegate(Base):
    """f(args) -> return _f_impl(args) ; methods too"""
    def wrap(self, fn, method):
        a = fn.args
        if fn.decorator_list or a.posonlyargs or a.kwonlyargs or (fn.name.startswith('__') and fn.name != '__init__'):
            return [fn]
        if any(isinstance(m, (ast.Yield, ast.YieldFrom)) for m in ast.walk(fn)):
            return [fn]
        if any(isinstance(m, ast.Name) and m.id in ('super', '__class__', 'locals', 'inspect') for m in ast.walk(fn)):
            return [fn]
        if method and (not a.args or a.args[0].arg not in ('self', 'cls')):
            return [fn]
        import copy
        impl = copy.deepcopy(fn)
        impl.name = ('impl_of_' if method else '_impl_of_') + fn.name.replace('__', 'dunder')
        impl.args.defaults = []
        args = a.args[1:] if method else a.args
        call = [ast.Name(x.arg, ast.Load()) for x in args]
        if a.vararg:
            call.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        kws = [ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []
        f = ast.Attribute(ast.Name(a.args[0].arg, ast.Load()), impl.name, ast.Load()) if method else ast.Name(impl.name, ast.Load())
        doc = fn.body[:1] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
        fn.body = doc + [ast.Return(ast.Call(f, call, kws))]
        return [impl, fn]

    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                out += self.wrap(s, False)
            elif isinstance(s, ast.ClassDef):
                b = []
                for m in s.body:
                    # a subclass that overrides the method and calls the base must reach the base's code
                    if isinstance(m, ast.FunctionDef) and m.name not in OVERRIDDEN:
                        b += self.wrap(m, True)
                    else:
                        b.append(m)
                s.body = b
                out.append(s)
            else:
                out.append(s)
        n.body = out
        return n


class Elif(Base):
    """if c: return A; rest  ->  if c: return A else: rest"""
    def blk(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                s.orelse = self.blk(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.blk(n.body)
        return n


class Split(Base):
    """a, b = x, y with plain names -> temporaries; augmented attribute assignments of numbers stay"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and \
                len(n.targets[0].elts) == len(n.value.elts) and not any(isinstance(e, ast.Starred) for e in n.value.elts + n.targets[0].elts):
            ts = []
            out = []
            for v in n.value.elts:
                Temps.k += 1
                t = 's_%d' % Temps.k
                ts.append(t)
                out.append(ast.Assign([ast.Name(t, ast.Store())], v, lineno=0))
            for t, x in zip(ts, n.targets[0].elts):
                out.append(ast.Assign([x], ast.Name(t, ast.Load()), lineno=0))
            return out
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n


class Flip(Base):
    """a < b -> b > a for single comparisons without calls"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and not any(isinstance(m, ast.Call) for m in ast.walk(n)):
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


OVERRIDDEN = set()
KINDS = dict(rename=Rename, swap=Swap, temps=Temps, whiles=Whiles, loops=Loops, delegate=Delegate, elif_=Elif, split=Split, flip=Flip)


def main():
    kinds, out = sys.argv[1].split(','), sys.argv[2]
    if kinds == ['all']:
        kinds = list(KINDS)
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree('/repo/package', out, ignore=shutil.ignore_patterns('.git', 'build', '*.so'))
    files = []
    for d, ds, fs in os.walk(os.path.join(out, 'inference')):
        if any(p in SKIP for p in d.split(os.sep)):
            continue
        for f in fs:
            if f.endswith('.py') and f != 'setup.py' and 'test' not in f:
                files.append(os.path.join(d, f))
    trees = {}
    for f in files:
        try:
            trees[f] = ast.parse(open(f).read())
        except SyntaxError:
            pass
    seen = {}
    for f, t in trees.items():
        for n in ast.walk(t):
            if isinstance(n, ast.ClassDef):
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        seen.setdefault(m.name, set()).add((f, n.name))
    OVERRIDDEN.update(k for k, v in seen.items() if len(v) > 1)
    for f, t in trees.items():
        for k in kinds:
            t = KINDS[k]().visit(t)
        ast.fix_missing_locations(t)
        s = ast.unparse(t)
        compile(s, f, 'exec')
        open(f, 'w').write(s + '\n')
    print(len(trees), 'files rewritten')


if __name__ == '__main__':
    main()

"""Client programs: small drivers over the public API whose inputs are symbols.

The client is analysed together with the repository source; its ``__check__`` calls are the proof obligations.
"""
import ast
from .values import *
from .interp import Interp, Ctl, ExcC, Dead, Giveup, RetC
from .facts import Facts, sample, witness, const_value
from .terms import (C, A, ZERO, ONE, add, sub, mul, div, neg, powi, mk_atom, norm_cmp, neg_guard, find_case, case_alts, subst,
                    all_atoms, unknown_atoms, weak_atoms, sym, Env, EvalError, guard_str)
from . import lib
import numpy as np

HOLDS, VIOL, UNDEC = 'holds', 'violated', 'undecided'


class Result:
    __slots__ = ('label', 'status', 'why', 'where', 'method')

    def __init__(self, label, status, why='', where='', method=''):
        self.label, self.status, self.why, self.where, self.method = label, status, why, where, method


# ----------------------------------------------------------------- decision
def weakness(it, polys, guards=()):
    """'unk' | 'phi' | None"""
    ats = set()
    for p in polys:
        ats |= all_atoms(p)

    def walk(g):
        if g[0] == 'or':
            for c in g[1]:
                for h in c:
                    walk(h)
        elif g[0] == 'opq':
            if isinstance(g[1], tuple) and g[1] and g[1][0] == 'choice':
                marks.add('unk')
        else:
            ats.update(all_atoms(g[1]))
    marks = set()
    for g in guards:
        walk(g)
    if 'unk' in marks or any(a.op == 'unk' for a in ats):
        return 'unk'
    if not it.weak_ok and any(a.op == 'phi' for a in ats):
        return 'phi'
    return None


def path_guards(st):
    """all guards constraining the path (facts plus path condition disjunctions)"""
    gl = tuple(st.facts.gl)
    return gl


def prove_zero(it, p, facts, depth=0):
    """-> (status, why, method)"""
    if not p.t:
        return HOLDS, '', 'canonical'
    if it.abbrev:
        return prove_zero_lazy(it, p, facts)
    q = facts.simp(p)
    if not q.t:
        return HOLDS, '', 'canonical'
    a = find_case(q)
    if a is not None and depth < 14:
        worst = (HOLDS, '', 'gated')
        for conj, v in case_alts(a):
            f = facts
            for g in conj:
                f = f.assume(g)
                if f is None:
                    break
            if f is None:
                continue
            r = prove_zero(it, subst(q, {a: v}), f, depth + 1)
            if r[0] == VIOL:
                if not depth:
                    r = confirm(it, p, facts, r)
                return r
            if r[0] == UNDEC:
                worst = r
            elif worst[0] == HOLDS and r[2] == 'random':
                worst = r
        return worst
    return rand_zero(it, q, facts)


def confirm(it, p, facts, r):
    """a valuation found under a splitting of the gates must refute the unsplit term as well"""
    try:
        x = np.asarray(it.wenv.poly(p), float)
        if x.size and np.max(np.abs(x)) > 1e-7 * max(1e-3, it.wenv._mag(p)) and np.all(it.wenv.guards(facts.gl)):
            return r
    except EvalError:
        pass
    return UNDEC, 'gates not decided', ''


def prove_zero_lazy(it, p, facts):
    """large gated terms: congruence of f(ite(c, x, y)) with ite(c, f(x), f(y)), then random interpretation of the whole"""
    from .loops import factor_case
    tot = ZERO
    for m, c in p.t:
        t = C(c)
        for a, e in m:
            t = mul(t, powi(factor_case(A(a)), e))
        tot = add(tot, t)
    if not tot.t:
        return HOLDS, '', 'canonical'
    r = rand_zero(it, tot, facts, n=24)
    if r[0] == VIOL:
        return r
    return _rand_split(it, tot, facts, r)


def _rand_split(it, p, facts, r0, depth=0):
    """the valuations above may miss rare gates: look at each alternative of the outermost gates on its own"""
    a = next((a for m, c in p.t for a, e in m if a.op == 'case' and a.rank == 0), None)
    if a is None:
        a = next((x for m, c in p.t for b, e in m if b.op == 'app' for x in [next((
            y for arg in b.args[1:] if isinstance(arg, Poly) for mm, cc in arg.t for y, ee in mm if y.op == 'case'),
            None)] if x is not None), None)
    if a is None or depth > 2:
        return r0
    worst = r0
    for c, v in case_alts(a):
        f = facts
        for h in c:
            f = f.assume(h)
            if f is None:
                break
        if f is None:
            continue
        q = subst(p, {a: v})
        if not q.t:
            continue
        r = rand_zero(it, q, f, n=6)
        if r[0] != VIOL:
            r = _rand_split(it, q, f, r, depth + 1)
        if r[0] == VIOL:
            return r
        if r[0] == UNDEC:
            worst = r
    return worst




def rand_zero(it, q, facts, n=8):
    got = 0
    for s in range(1, n + 1):
        env = sample(facts.gl, s)
        if env is None:
            if s >= 3 and not got:
                break
            continue
        try:
            x = np.asarray(env.poly(q), float)
            m = max(1e-3, env._mag(q))
        except EvalError:
            continue
        if x.size and not np.all(np.isfinite(x)):
            continue
        got += 1
        if x.size and np.max(np.abs(x)) > 1e-7 * m:
            w = weakness(it, (q,), facts.gl)
            if w:
                return UNDEC, 'depends on %s value' % w, ''
            it.wenv = env
            return VIOL, 'differs by %.4g at %s' % (float(np.max(np.abs(x))), witness(env, (q,), facts)), 'random'
    if got >= 3:
        return HOLDS, '', 'random'
    return UNDEC, 'no valuation found', ''


def refute(it, conj, facts):
    """can the failing conjunction hold?  -> (status, why, method)"""
    f = facts
    for g in conj:
        f = f.assume(g)
        if f is None:
            return HOLDS, '', 'facts'
    nes = [g for g in conj if g[0] == '!=']
    if nes:
        # the failing conjunction needs p != 0: try to show p == 0 on this path
        for g in nes:
            base = facts
            for h in conj:
                if h is not g:
                    base = base.assume(h) if base is not None else None
            if base is None:
                return HOLDS, '', 'facts'
            r = prove_zero(it, g[1], base)
            if r[0] == HOLDS:
                return r
        if len(nes) == 1 and len(conj) == 1:
            return r
    if len(facts.gl) < 60 and len(conj) <= 3:
        for g in conj:
            if g[0] in ('<', '<=') and find_case(g[1]) is None and len(g[1].t) > 3 and _sum_of_facts(g, facts):
                return HOLDS, '', 'random'
    gl = f.gl
    if it.abbrev:
        for g in conj:
            if g[0] in ('<', '<=') and _lazy_split(g, facts):
                return HOLDS, '', 'facts'
        for s in range(1, 41):
            env = sample(facts.gl, s)
            if env is None:
                if s > 4:
                    break
                continue
            try:
                bad = all(g[0] not in ('opq', 'or') and bool(np.all(env.guards((g,)))) for g in conj)
            except EvalError:
                continue
            if bad:
                w = weakness(it, [g[1] for g in conj], f.gl)
                if w:
                    return UNDEC, 'depends on %s value' % w, ''
                return VIOL, 'fails at ' + witness(env, [g[1] for g in conj], f), 'witness'
    # split on case atoms in inequalities
    env = None
    for s in range(1, 7):
        env = sample(gl + tuple(conj), s, tries=25)
        if env is not None:
            break
    if env is None:
        for g in conj:
            if g[0] in ('<', '<='):
                r = _ineq_split(it, g, facts, conj)
                if r:
                    return HOLDS, '', 'facts'
                if _sum_of_facts(g, facts):
                    return HOLDS, '', 'random'
        env = None if it.abbrev else _viol_split(tuple(conj) + tuple(gl), [40])
        if env is None:
            return UNDEC, 'not proved: ' + ' & '.join(guard_str(g) for g in conj)[:300], ''
    w = weakness(it, [g[1] for g in conj if g[0] not in ('opq', 'or')], f.gl)
    if w:
        return UNDEC, 'depends on %s value' % w, ''
    return VIOL, 'fails at ' + witness(env, [g[1] for g in conj if g[0] not in ('opq', 'or')], f), 'witness'


def _viol_split(gs, budget, over=()):
    """a valuation satisfying all the guards, looked for gate by gate (innermost first), and confirmed on the unsplit guards"""
    f = Facts()
    for g in gs:
        f = f.assume(g)
        if f is None:
            return None
    a = next((a for g in gs if g[0] not in ('opq', 'or') for a in [find_case(g[1])] if a is not None), None)
    if a is None:
        budget[0] -= 1
        for s in range(1, 4):
            env = sample(gs, s, tries=15)
            if env is not None:
                return env
        return None
    for c, v in case_alts(a):
        if budget[0] <= 0:
            return None
        new = tuple(g if g[0] == 'opq' else _subst_guard(g, {a: v}) for g in gs) + tuple(c)
        new = tuple(g for g in new if g[0] in ('opq', 'or') or g[1].const() is None or not Facts().decide(g))
        env = _viol_split(new, budget)
        if env is not None:
            try:
                if bool(np.all(env.guards(gs))):
                    return env
            except EvalError:
                pass
    return None


def _subst_guard(g, mp):
    if g[0] == 'opq':
        return g
    if g[0] == 'or':
        return ('or', tuple(tuple(_subst_guard(h, mp) for h in c) for c in g[1]))
    return norm_cmp(g[0], subst(g[1], mp))


def _sum_of_facts(g, facts):
    """g (p < 0 or p <= 0) contradicts the path when p plus up to three path facts (each <= 0) is identically zero, one of
    them strict; identity is decided by random interpretation"""
    from itertools import combinations
    qs = [h for h in facts.gl if h[0] in ('<', '<=') and h is not g][-16:]
    envs = []
    for s in range(1, 12):
        e = sample(facts.gl[:-1] if facts.gl and facts.gl[-1] == g else facts.gl, s)
        if e is not None:
            envs.append(e)
        if len(envs) == 4:
            break
    if len(envs) < 3:
        return False
    try:
        P = np.array([float(e.poly(g[1])) for e in envs])
        M = np.array([max(1.0, e._mag(g[1])) for e in envs])
        Q = [np.array([float(e.poly(h[1])) for e in envs]) for h in qs]
    except (EvalError, TypeError):
        return False
    for n in (1, 2, 3):
        for c in combinations(range(len(qs)), n):
            if np.all(np.abs(P + sum(Q[i] for i in c)) <= 1e-9 * M) and (g[0] == '<' or any(qs[i][0] == '<' for i in c)):
                return True
    return False


def _lazy_split(g, facts, depth=0):
    """True when g is refuted after splitting the gates that are summands of it, outermost first"""
    if facts.decide(g) is False:
        return True
    if depth > 8:
        return False
    a = next((a for m, c in g[1].t for a, e in m if a.op == 'case' and a.rank == 0), None)
    if a is None:
        return _chain(g, facts.gl) or (depth < 7 and _deep_split(g, facts, facts.gl))
    for c, v in case_alts(a):
        f = facts
        for h in c:
            f = f.assume(h)
            if f is None:
                break
        if f is None:
            continue
        if not _lazy_split(norm_cmp(g[0], subst_top(g[1], a, v)), f, depth + 1):
            return False
    return True


def subst_top(p, a, v):
    tot = ZERO
    for m, c in p.t:
        t = C(c)
        for b, e in m:
            t = mul(t, powi(v if b is a else A(b), e))
        tot = add(tot, t)
    return tot


def _deep_split(g, facts, gl, depth=0):
    """split a gate that occurs inside a function argument of g (or of a fact linked to g), everywhere at once"""
    ats = {b for b in all_atoms(g[1]) if b.op == 'app'}
    for h in gl:
        if h[0] in ('<', '<=') and len(h[1].t) == 2 and any(b in ats for m, c in h[1].t for b, e in m):
            ats |= {b for m, c in h[1].t for b, e in m}
    a = None
    for b in sorted(ats, key=lambda b: b.id):
        a = find_case(A(b))
        if a is not None:
            break
    if a is None:
        return False
    for c, v in case_alts(a):
        f = facts
        for h in c:
            f = f.assume(h)
            if f is None:
                break
        if f is None:
            continue
        mp = {a: v}
        g2 = norm_cmp(g[0], subst(g[1], mp))
        gl2 = tuple(norm_cmp(h[0], subst(h[1], mp)) if h[0] in ('<', '<=') else h for h in f.gl)
        if f.decide(g2) is False or _chain(g2, gl2):
            continue
        if depth > 4 or not _deep_split(g2, f, gl2, depth + 1):
            return False
    return True


def _chain(g, gl):
    """g: x - y <= 0 is impossible when the facts give a chain y < ... < x of differences of atoms (transitive closure)"""
    def pair(p):
        if len(p.t) != 2:
            return None
        (m1, c1), (m2, c2) = p.t
        if len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1 or c1 != -c2:
            return None
        return (m1[0][0], m2[0][0]) if c1 > 0 else (m2[0][0], m1[0][0])
    q = pair(g[1])
    if q is None:
        return False
    edges = {}
    for h in gl:
        if h[0] in ('<', '<='):
            w = pair(h[1])
            if w:
                edges.setdefault(w[0], []).append((w[1], h[0] == '<'))
    # g says x (op) y; look for y .. x going upwards
    x, y = q
    seen = {(y, False)}
    todo = [(y, False)]
    need = g[0] == '<='
    while todo:
        u, st = todo.pop()
        if u is x and (st or not need):
            return True
        for v, s in edges.get(u, ()):
            k = (v, st or s)
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return False


def _ineq_split(it, g, facts, conj, depth=0):
    """True when g is refuted after splitting its case atoms"""
    a = find_case(g[1])
    if a is None or depth > 10:
        return facts.decide(g) is False
    for c, v in case_alts(a):
        f = facts
        for h in c:
            f = f.assume(h)
            if f is None:
                break
        if f is None:
            continue
        g2 = norm_cmp(g[0], subst(g[1], {a: v}))
        if f.decide(g2) is False:
            continue
        if not _ineq_split(it, g2, f, conj, depth + 1):
            return False
    return True


def feasible(it):
    """(True, witness) | (False, '') | (None, why)"""
    gl = it.st.facts.gl
    for s in (1, 2, 3):
        env = sample(gl, s)
        if env is not None:
            w = weakness(it, (), gl)
            if w:
                return None, 'path depends on %s value' % w
            return True, witness(env, (), it.st.facts)
    return None, 'path feasibility unknown'


def decide(it, label, cond):
    where = it.where()
    if cond is True:
        it.results.append(Result(label, HOLDS, '', where, 'canonical'))
        return
    if cond is False:
        ok, w = feasible(it)
        it.results.append(Result(label, VIOL if ok else UNDEC, w or 'on every input', where))
        return
    worst = (HOLDS, '', 'facts')
    for conj in cond.F:
        r = refute(it, conj, it.st.facts)
        if r[0] == VIOL:
            worst = r
            break
        if r[0] == UNDEC:
            worst = r
        elif worst[0] == HOLDS and r[2] == 'random':
            worst = r
    it.results.append(Result(label, worst[0], worst[1], where, worst[2]))


# ----------------------------------------------------------------- intrinsics
I = {}


def intrinsic(name, nl=True):
    def deco(f):
        I[name] = Builtin(('nl:' if nl else '') + name, f)
        return f
    return deco


def _attrs(k):
    at = {}
    d = k.get('dom')
    if isinstance(d, str):
        at['dom'] = (d,)
    elif isinstance(d, Tup):
        at['dom'] = tuple(float(num_poly(x).const()) if not isinstance(x, str) else x for x in d.l)
    return at


@intrinsic('__sym__')
def i_sym(it, a, k):
    return Num(sym(a[0], 0, **_attrs(k)), 'f')


@intrinsic('__int__')
def i_int(it, a, k):
    p = sym(a[0], 0, kind='int', dom=('int', a[1], a[2])) if len(a) > 2 else sym(a[0], 0, kind='int')
    if len(a) == 2:
        it.st.facts = it.st.facts.assume(norm_cmp('>=', sub(p, C(a[1]))))
    return Num(p, 'i')


@intrinsic('__arr__')
def i_arr(it, a, k):
    sh = a[1]
    shape = (sh,) if isinstance(sh, int) else tuple(sh.l)
    n = 1
    for d in shape:
        n *= d
    at = _attrs(k)
    vals = [Num(sym('%s%d' % (a[0], j), 0, **at), 'f') for j in range(n)]
    return lib.arr_new(it, vals, shape, 'f', owner=a[0])


@intrinsic('__iarr__')
def i_iarr(it, a, k):
    vals = [Num(sym('%s%d' % (a[0], j), 0, kind='int'), 'i') for j in range(a[1])]
    return lib.arr_new(it, vals, (a[1],), 'i', owner=a[0])


@intrinsic('__vec__')
def i_vec(it, a, k):
    n = num_poly(a[1])
    at = _attrs(k)
    p = A(mk_atom('sym', (a[0],), 1, len=n, **at))
    return lib.vec_new(it, p, n, 'f', owner=a[0])


@intrinsic('__fun__')
def i_fun(it, a, k):
    at = _attrs(k)
    if 'elementwise' in k:
        at['elementwise'] = k['elementwise']
    return Cb(a[0], at, k.get('ret', 0))


@intrinsic('__opaque__')
def i_opaque(it, a, k):
    return Opq(('client', a[0]))


@intrinsic('__assume__')
def i_assume(it, a, k):
    c = it.truth(a[0])
    if c is True:
        return None
    if c is False:
        raise Dead()
    s = it.st.assume_any(c.T)
    if s is None:
        raise Dead()
    it.st = s


@intrinsic('__check__')
def i_check(it, a, k):
    assert len(a) == 2 and isinstance(a[0], str), '__check__(label, condition)'
    decide(it, a[0], it.truth(a[1]))


def deep_eq(it, a, b):
    """bool | SymBool: structural equality, arrays elementwise"""
    def f(a, b):
        a, b = it.payload(a), it.payload(b)
        if lib.is_vec(it, a) or lib.is_vec(it, b):
            if not (lib.is_vec(it, a) and lib.is_vec(it, b)):
                return False
            pa, pb = lib.arr_poly(it, it.st.get(a)), lib.arr_poly(it, it.st.get(b))
            return it.guardbool('==', sub(pa, pb))
        na = lib.to_nested(it, a) if not isinstance(a, Tup) and lib.is_arr(it, a) else None
        nb = lib.to_nested(it, b) if not isinstance(b, Tup) and lib.is_arr(it, b) else None
        if na is not None or nb is not None:
            if na is None:
                na = lib.to_nested(it, a)
            if nb is None:
                nb = lib.to_nested(it, b)
            if na is None or nb is None:
                if (na or nb)[1] == ():
                    x = a if na is None else na[0][0]
                    y = b if nb is None else nb[0][0]
                    return deep_eq(it, x, y)
                return False
            if na[1] != nb[1]:
                return False
            return lib.all_of(it, [lambda x=x, y=y: deep_eq(it, x, y) for x, y in zip(na[0], nb[0])])
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.l) != len(b.l):
                return False
            return lib.all_of(it, [lambda x=x, y=y: deep_eq(it, x, y) for x, y in zip(a.l, b.l)])
        if lib.is_list(it, a) and lib.is_list(it, b):
            x, y = it.st.get(a).l, it.st.get(b).l
            if len(x) != len(y):
                return False
            return lib.all_of(it, [lambda u=u, v=v: deep_eq(it, u, v) for u, v in zip(x, y)])
        if lib.is_dict(it, a) and lib.is_dict(it, b):
            x, y = it.st.get(a).d, it.st.get(b).d
            if set(x) != set(y):
                return False
            return lib.all_of(it, [lambda kk=kk: deep_eq(it, x[kk], y[kk]) for kk in x])
        return it.truth(it.compare('Eq', a, b))
    return it.lift(f, a, b)


@intrinsic('__eq__')
def i_eq(it, a, k):
    """elementwise obligations (finer reports than one conjunction)"""
    assert len(a) == 3 and isinstance(a[0], str), '__eq__(label, a, b)'
    def f(x, y):
        x, y = it.payload(x), it.payload(y)
        decide_deep(it, a[0], x, y)
    it.lift(f, a[1], a[2])


def decide_deep(it, label, x, y):
    if lib.is_arr(it, x) and lib.is_arr(it, y) and not lib.is_vec(it, x) and not lib.is_vec(it, y):
        nx, ny = lib.to_nested(it, x), lib.to_nested(it, y)
        if nx[1] == ny[1] and nx[0]:
            for j, (u, v) in enumerate(zip(nx[0], ny[0])):
                decide(it, label, it.truth(deep_eq(it, u, v)))
            return
    decide(it, label, it.truth(deep_eq(it, x, y)))


@intrinsic('__same__', nl=False)
def i_same(it, a, k):
    if len(a) == 3:             # an obligation, like __eq__, but one for the whole
        it.lift(lambda x, y: decide(it, a[0], it.truth(deep_eq(it, it.payload(x), it.payload(y)))), a[1], a[2])
        return None
    assert len(a) == 2, '__same__(a, b) or __same__(label, a, b)'
    return deep_eq(it, a[0], a[1])


@intrinsic('__shares__', nl=False)
def i_shares(it, a, k):
    x, y = a
    if lib.is_arr(it, x) and lib.is_arr(it, y):
        p, q = it.st.get(x), it.st.get(y)
        return p.buf == q.buf and (p.pos is None or q.pos is None or bool(set(p.pos) & set(q.pos)))
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x.o == y.o
    return False


@intrinsic('__note__')
def i_note(it, a, k):
    it.notes.append(tuple(repr(x) for x in a))


@intrinsic('__show__')
def i_show(it, a, k):
    print('SHOW', *[show(it, x) for x in a])


def show(it, v, d=0):
    if isinstance(v, Ref) and d < 3:
        ob = it.st.heap[v.o]
        if isinstance(ob, HArr):
            if ob.pos is None:
                return 'vec<%s>' % lib.arr_poly(it, ob)
            return 'arr%s' % [show(it, x, d + 1) for x in lib.arr_vals(it, ob)]
        if isinstance(ob, HList):
            return '%s%s' % (ob.kind, [show(it, x, d + 1) for x in ob.l])
        if isinstance(ob, HDict):
            return '{%s}' % ', '.join('%s: %s' % (k, show(it, x, d + 1)) for k, x in ob.d.items())
        if isinstance(ob, HInst):
            return '<%s %s>' % (it.st.get(ob.cls).name, {k: show(it, x, d + 1) for k, x in ob.d.items()})
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(show(it, x, d + 1) for x in v.l)
    return repr(v)


@intrinsic('__fs_exists__', nl=False)
def i_fsx(it, a, k):
    from . import fsmodel
    return fsmodel.ex_cond(it, a[0])


@intrinsic('__fs_put__')
def i_fsput(it, a, k):
    from . import fsmodel
    fsmodel.put(it, a[0], Tup(('file', Tup((Tup(('text', a[1])),)))))


@intrinsic('__fs_get__')
def i_fsget(it, a, k):
    from . import fsmodel
    v = fsmodel.fs(it).d.get(fsmodel.key(it, a[0]), UNDEF)

    def f(v):
        if v is UNDEF:
            return None
        if v.l[0] == 'file' and len(v.l[1].l) == 1 and v.l[1].l[0].l[0] == 'text':
            return v.l[1].l[0].l[1]
        return v
    return it.split(v, f) if isinstance(v, Alt) else f(v)


@intrinsic('__fs_keep__')
def i_fskeep(it, a, k):
    """obligation at every later file operation: this content is in some file"""
    it.kept = getattr(it, 'kept', []) + [(a[0], Tup(('file', Tup((Tup(('text', a[1])),)))))]
    it.results.append(Result(a[0], HOLDS, 'watched at every file operation', it.where()))


@intrinsic('__fs_keepfile__')
def i_fskeepfile(it, a, k):
    from . import fsmodel
    it.kept = getattr(it, 'kept', []) + [(a[0], fsmodel.get(it, a[1]))]
    it.results.append(Result(a[0], HOLDS, 'watched at every file operation', it.where()))


@intrinsic('__fs_unkeep__')
def i_fsunkeep(it, a, k):
    it.kept = []


@intrinsic('__fs_copy__')
def i_fscopy(it, a, k):
    from . import fsmodel
    fsmodel.put(it, a[1], fsmodel.get(it, a[0]))


@intrinsic('__rng_state__')
def i_rng(it, a, k):
    r = it.st.get(it.rng).d
    return Tup((r['state'], r['n']))


@intrinsic('__no_source__')
def i_nosource(it, a, k):
    """from here on the source code of classes is not available to the program"""
    it.no_source = True


@intrinsic('__reach__')
def i_reach(it, a, k):
    """obligation: this point must not be reached"""
    ok, w = feasible(it)
    it.results.append(Result(a[0], VIOL if ok else UNDEC, w, it.where()))


# ----------------------------------------------------------------- running
CURRENT = [None]


def run_client(name, src, opaque=None, setup=None, root='/repo/package', maxsteps=None, allow_exc=False, abbrev=0, unroll=None, cut=False, parts=None, part_mods=()):
    """analyse one client; returns (interp, results)"""
    it = CURRENT[0] = Interp(root=root, opaque=opaque)
    if maxsteps:
        it.MAXSTEPS = maxsteps
    it.abbrev = abbrev
    it.cut = cut
    it.parts, it.part_mods = parts, part_mods
    Facts.LAZY = bool(abbrev)
    if unroll is not None:
        it.unroll_sym = unroll
    if setup:
        setup(it)
    mo = HMod('client')
    ref = it.st.alloc(mo)
    it.mods['client'] = ref
    mo.d['__name__'] = 'client'
    for k, v in I.items():
        mo.d[k] = v
    it.sources['client'] = src
    tree = ast.parse(src)
    try:
        outs, caught, rest = it.collect(lambda: it.run_module('client', ref, tree), ())
        for c, s in rest:
            it.st = s
            if isinstance(c, ExcC):
                nm, msg, wh = describe_exc(it, c)
                ok, w = feasible(it)
                it.results.append(Result('no unexpected exception', VIOL if ok else UNDEC,
                                         '%s(%s) raised at %s; %s' % (nm, msg, wh, w), wh))
        if outs:
            it.results.append(Result('client runs to completion', HOLDS, '', '', ''))
    except Giveup as e:
        it.results.append(Result('analysis', UNDEC, 'gave up: %s' % e, it.where()))
    except RecursionError:
        it.results.append(Result('analysis', UNDEC, 'gave up: recursion', it.where()))
    for r in it.results:
        r.label = '%s: %s' % (name, r.label)
    return it


def describe_exc(it, c):
    v = c.v
    if isinstance(v, Ref):
        ob = it.st.heap[v.o]
        if isinstance(ob, HInst):
            a = ob.d.get('args')
            msg = ''
            if isinstance(a, Tup) and a.l:
                msg = a.l[0] if isinstance(a.l[0], str) else show(it, a.l[0])
            return it.st.get(ob.cls).name, str(msg)[:160], ob.d.get('__where__', c.where)
    return 'exception', '', c.where

"""Path facts: intervals on linear forms over value numbers, plus opaque truths."""
from fractions import Fraction
import random
import numpy as np
from . import terms as T
from .terms import (Poly, add, sub, scale, neg, mul, C, A, ZERO, ONE, Env, EvalError, norm_cmp, neg_guard,
                    is_int, all_atoms, unknown_atoms, weak_atoms, subst, from_dict, guard_str, find_case, case_alts)

TOP = (None, False, None, False)


def isect(a, b):
    lo, ls, hi, hs = a
    lo2, ls2, hi2, hs2 = b
    if lo2 is not None and (lo is None or lo2 > lo or (lo2 == lo and ls2)):
        lo, ls = lo2, ls2
    if hi2 is not None and (hi is None or hi2 < hi or (hi2 == hi and hs2)):
        hi, hs = hi2, hs2
    return (lo, ls, hi, hs)


def empty(iv):
    lo, ls, hi, hs = iv
    return lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs)))


def iv_scale(iv, k):
    lo, ls, hi, hs = iv
    if k == 0:
        return (Fraction(0), False, Fraction(0), False)
    if k > 0:
        return (None if lo is None else lo * k, ls, None if hi is None else hi * k, hs)
    return (None if hi is None else hi * k, hs, None if lo is None else lo * k, ls)


def iv_add(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return (lo, a[1] or b[1], hi, a[3] or b[3])


def split(p):
    """p = k*q + c with q normalised (leading coef 1, no constant); q None if constant"""
    c = p.const_part()
    rest = Poly(tuple((m, v) for m, v in p.t if m != ())) if c != 0 else p
    if not rest.t:
        return None, Fraction(0), c
    k = rest.t[0][1]
    return (rest if k == 1 else scale(rest, 1 / k)), k, c


class Facts:
    __slots__ = ('iv', 'ne', 'opq', 'gl', 'ors', '_memo')

    def __init__(self, iv=None, ne=None, opq=None, gl=(), ors=()):
        self.iv = iv or {}
        self.ne = ne or {}
        self.opq = opq or {}
        self.gl = gl
        self.ors = ors      # disjunctions not yet resolved
        self._memo = {}

    # ------------------------------------------------------------ assume
    def assume(self, g):
        """Facts with guard g added, or None when contradictory (with unit propagation over pending disjunctions)"""
        f = self._assume(g)
        if f is None or f is self or not f.ors or g[0] == 'or':
            return f
        for o in f.ors:
            live = []
            for c in o[1]:
                x = f
                sat = True
                for h in c:
                    d = f.decide(h)
                    if d is False:
                        x = None
                        break
                    if d is None:
                        sat = False
                if x is not None:
                    live.append((c, sat))
            if not live:
                return None
            if any(sat for c, sat in live):
                f = Facts(f.iv, f.ne, f.opq, f.gl, tuple(y for y in f.ors if y is not o))
                continue
            if len(live) == 1:
                f = Facts(f.iv, f.ne, f.opq, f.gl, tuple(y for y in f.ors if y is not o))
                for h in live[0][0]:
                    f = f.assume(h)
                    if f is None:
                        return None
                return f if len(f.ors) == 0 else f
        return f

    def _assume(self, g):
        if g[0] == 'or':
            live = []
            for c in g[1]:
                f = self
                for h in c:
                    f = f.assume(h)
                    if f is None:
                        break
                if f is not None:
                    if f is self:
                        return self
                    live.append(f)
            if not live:
                return None
            if len(live) == 1:
                return live[0]
            if g in self.ors:
                return self
            return Facts(self.iv, self.ne, self.opq, self.gl + (g,), self.ors + (g,))
        d = self.decide(g)
        if d is True:
            return self
        if d is False:
            return None
        if g[0] == 'opq':
            o = dict(self.opq)
            o[g[1]] = g[2]
            return Facts(self.iv, self.ne, o, self.gl + (g,), self.ors)
        op, p = g
        a = find_case(p)
        if a is not None:
            live = []
            for conj, v in case_alts(a):
                f = self
                for h in conj:
                    f = f.assume(h)
                    if f is None:
                        break
                if f is None:
                    continue
                g2 = norm_cmp(op, subst(p, {a: v}))
                if f.decide(g2) is False:
                    continue
                live.append((f, g2))
            if not live:
                return None
            if len(live) == 1:
                r = live[0][0].assume(live[0][1])
                if r is self:
                    r = Facts(self.iv, self.ne, self.opq, self.gl + (g,), self.ors)
                return r
        q, k, c = split(p)
        if q is None:
            return self
        bound = -c / k
        if op == '!=':
            n = dict(self.ne)
            n[q] = n.get(q, frozenset()) | {bound}
            f = Facts(self.iv, n, self.opq, self.gl + (g,), self.ors)
            # tighten closed ends
            iv = f.iv.get(q)
            if iv:
                lo, ls, hi, hs = iv
                if lo == bound:
                    ls = True
                if hi == bound:
                    hs = True
                niv = self._tight(q, (lo, ls, hi, hs))
                d2 = dict(f.iv)
                d2[q] = niv
                f.iv = d2
            return f
        if op == '==':
            new = (bound, False, bound, False)
        elif (op in ('<', '<=')) == (k > 0) or op in ('<', '<='):
            strict = op == '<'
            if k > 0:
                new = (None, False, bound, strict)
            else:
                new = (bound, strict, None, False)
        iv = dict(self.iv)
        cur = iv.get(q, TOP)
        r = isect(cur, new)
        for b in self.ne.get(q, ()):
            lo, ls, hi, hs = r
            if lo == b:
                ls = True
            if hi == b:
                hs = True
            r = (lo, ls, hi, hs)
        r = self._tight(q, r)
        if empty(r):
            return None
        iv[q] = r
        return Facts(iv, self.ne, self.opq, self.gl + (g,), self.ors)

    def _tight(self, q, r):
        if is_int(q):
            lo, ls, hi, hs = r
            if lo is not None:
                f = lo.__floor__() if lo.denominator != 1 else lo
                if lo.denominator != 1:
                    lo = Fraction(lo.__ceil__())
                elif ls:
                    lo = lo + 1
                ls = False
            if hi is not None:
                if hi.denominator != 1:
                    hi = Fraction(hi.__floor__())
                elif hs:
                    hi = hi - 1
                hs = False
            return (lo, ls, hi, hs)
        return r

    # ------------------------------------------------------------ decide
    def decide(self, g):
        if g[0] == 'or':
            ds = []
            for c in g[1]:
                cd = [self.decide(h) for h in c]
                if all(x is True for x in cd):
                    return True
                ds.append(False if any(x is False for x in cd) else None)
            return False if all(x is False for x in ds) else None
        if g[0] == 'opq':
            v = self.opq.get(g[1])
            return None if v is None else v == g[2]
        op, p = g
        c = p.const()
        if c is not None:
            return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
        key = (op, p)
        if key in self._memo:
            return self._memo[key]
        v = T.closed(p)
        if v is not None:
            return {'<': v < 0, '<=': v < 0, '==': False, '!=': True}[op]
        self._memo[key] = None
        r = self._decide(op, p)
        if r is None:
            p2 = self._reduce(p)
            if p2 is not None:
                c = p2.const()
                if c is not None:
                    r = {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
                else:
                    r = self.decide((op, p2))
        if r is None:
            r = self._decide_case(op, p)
        self._memo[key] = r
        return r

    def _reduce(self, p):
        """a polynomial of the same sign as p: denominators of known sign cleared, common factors of known sign removed"""
        if len(p.t) > 40:
            return None
        q = p
        for _ in range(4):
            inv = None
            for m, c in q.t:
                for a, e in m:
                    if a.op == 'inv' and e > 0 and a.rank == 0:
                        inv = a
                        break
                if inv is not None:
                    break
            if inv is None:
                break
            s, st = self._atom_sign(inv)
            if s is None:
                return None
            n = max((dict(m).get(inv, 0) for m, c in q.t), default=0)
            den = inv.args[0]
            out = {}
            tot = ZERO
            for m, c in q.t:
                d = dict(m)
                k = d.pop(inv, 0)
                t = Poly(((tuple(x for x in m if x[0] is not inv), c),))
                for _ in range(int(n - k)):
                    t = mul(t, den)
                tot = add(tot, t)
            q = tot if (s > 0 or n % 2 == 0) else neg(tot)
            if len(q.t) > 60:
                return None
        # common monomial factor
        if q.t:
            common = None
            for m, c in q.t:
                d = dict(m)
                common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d and
                                                   (e > 0) == (d[a] > 0)}
            sg = 1
            drop = {}
            for a, e in (common or {}).items():
                if a.rank:
                    continue
                s, st = self._atom_sign(a)
                if s is None or not st:
                    if e % 2 == 0 and A(a) in self.ne and 0 in self.ne[A(a)]:
                        s = 1
                    else:
                        continue
                if e % 2 and s < 0:
                    sg = -sg
                drop[a] = e
            if drop:
                t = []
                for m, c in q.t:
                    d = dict(m)
                    mm = tuple((a, d[a] - drop.get(a, 0)) for a, e in m if d[a] - drop.get(a, 0) != 0)
                    t.append((mm, c))
                q = from_dict(dict(t)) if len(dict(t)) == len(t) else q
                if sg < 0:
                    q = neg(q)
        return q if q != p else None

    LAZY = False            # large gated terms: split only on gates that are summands of the comparison

    def _decide_case(self, op, p, fuel=3):
        if Facts.LAZY:
            a = None
            for m, c in p.t:
                for b, e in m:
                    if b.op == 'case' and len(b.args) <= 3 and not any(x.op == 'case' for gs, v in b.args
                                                                      for x in all_atoms(v)):
                        a = b
        else:
            a = find_case(p)
        if a is None:
            return None
        res = set()
        for conj, v in case_alts(a):
            f = self
            for g in conj:
                f = f.assume(g)
                if f is None:
                    break
            if f is None:
                continue
            q = subst(p, {a: v})
            r = f.decide(norm_cmp(op, q))
            res.add(r)
            if None in res or len(res) > 1:
                return None
        return res.pop() if res else None

    def _decide(self, op, p):
        q, k, c = split(p)
        iv = self.interval(q)
        lo, ls, hi, hs = iv_add(iv_scale(iv, k), (c, False, c, False))
        if op == '<':
            if hi is not None and (hi < 0 or (hi == 0 and hs)):
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == '<=':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and (lo > 0 or (lo == 0 and ls)):
                return False
        else:
            pos = None
            if (lo is not None and (lo > 0 or (lo == 0 and ls))) or \
                    (hi is not None and (hi < 0 or (hi == 0 and hs))):
                pos = False
            elif lo is not None and lo == 0 and hi == 0:
                pos = True
            elif -c / k in self.ne.get(q, ()):
                pos = False
            elif is_int(q) and (-c / k).denominator != 1:
                pos = False
            if pos is None:
                return None
            return pos if op == '==' else not pos
        return None

    def interval(self, q, depth=2):
        key = ('iv', q, depth)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = self.iv.get(q, TOP)
        r = self.iv.get(q, TOP)
        r = isect(r, self._termwise(q))
        if depth > 0:
            for q1, iv1 in self.iv.items():
                if iv1 == TOP or q1 == q:
                    continue
                d1 = dict(q1.t)
                # eliminate a shared monomial
                for m, c in q.t:
                    if m in d1:
                        a = c / d1[m]
                        rest = sub(q, scale(q1, a))
                        if len(rest.t) > max(2, len(q.t)):
                            continue
                        rq, k, c0 = split(rest)
                        if rq is None:
                            ivr = (c0, False, c0, False)
                        else:
                            ivr = iv_add(iv_scale(self.interval(rq, depth - 1), k), (c0, False, c0, False))
                        r = isect(r, iv_add(ivr, iv_scale(iv1, a)))
                        if r[0] is not None and r[2] is not None and empty(r):
                            return r
        self._memo[key] = r
        return r

    def _termwise(self, q):
        tot = (Fraction(0), False, Fraction(0), False)
        for m, c in q.t:
            if m == ():
                tot = iv_add(tot, (c, False, c, False))
                continue
            tot = iv_add(tot, iv_scale(self._mono(m), c))
            if tot[0] is None and tot[2] is None:
                return TOP
        return tot

    def _mono(self, m):
        mp = Poly(((m, Fraction(1)),))
        r = self.iv.get(mp, TOP)
        # sign analysis of the product
        sg = 1
        strict = True
        known = True
        for a, e in m:
            s, st = self._atom_sign(a)
            if e % 2 == 0:
                if s is None:
                    st = (e < 0)
                s = 1
            if s is None:
                known = False
                break
            sg *= s
            strict = strict and st
        if known and sg:
            r = isect(r, (Fraction(0), strict, None, False) if sg > 0 else (None, False, Fraction(0), strict))
        if len(m) == 1 and m[0][1] == 1:
            r = isect(r, self._atom_iv(m[0][0]))
        elif r[2] is None and all(e > 0 for a, e in m):     # bounded nonnegative factors
            hi, st = Fraction(1), False
            for a, e in m:
                v = self._atom_iv(a)
                if v[0] is None or v[0] < 0 or v[2] is None:
                    break
                hi, st = hi * v[2]**e, st or v[3]
            else:
                r = isect(r, (None, False, hi, st))
        return r

    def _atom_iv(self, a):
        r = self.iv.get(A(a), TOP)
        op = a.op
        if op == 'abs':
            r = isect(r, (Fraction(0), False, None, False))
        elif op == 'exp':
            r = isect(r, (Fraction(0), True, None, False))
        elif op == 'erfc':
            r = isect(r, (Fraction(0), True, Fraction(2), True))
        elif op == 'sqrt':
            lo, st = self._pint(a.args[0])[:2] if not a.rank else (None, False)
            r = isect(r, (Fraction(0), lo is not None and (lo > 0 or lo == 0 and st), None, False))
        elif op in ('max2', 'imax'):
            for x in a.args:
                iv = self._pint(x)
                r = isect(r, (iv[0], iv[1], None, False))
        elif op == 'min2':
            for x in a.args:
                iv = self._pint(x)
                r = isect(r, (None, False, iv[2], iv[3]))
        if r == TOP and op not in PRI and a.rank == 0:
            v = const_value(a)
            if v is not None:
                fv = Fraction(repr(float(v)))
                eps = abs(fv) / 10**9
                r = isect(r, (fv - eps, True, fv + eps, True)) if fv else r
        dom = a.attrs.get('dom')
        if dom:
            if dom[0] == 'int':
                r = isect(r, (Fraction(dom[1]), False, Fraction(dom[2]), False))
            if dom[0] == 'pos':
                r = isect(r, (Fraction(0), True, None, False))
            elif dom[0] == 'neg':
                r = isect(r, (None, False, Fraction(0), True))
            elif dom[0] == 'unit':
                r = isect(r, (Fraction(0), True, Fraction(1), True))
        if op == 'sym' and a.args[0] == 'pi':
            r = isect(r, (Fraction(314159, 100000), True, Fraction(31416, 10000), True))
        return r

    def _pint(self, p):
        q, k, c = split(p)
        if q is None:
            return (c, False, c, False)
        if len(q.t) > 3:
            return TOP
        return iv_add(iv_scale(isect(self.iv.get(q, TOP), self._termwise(q)), k), (c, False, c, False))

    def _atom_sign(self, a):
        lo, ls, hi, hs = self._atom_iv(a)
        if (lo is None or lo < 0) and (hi is None or hi > 0) and a.op in PRI and self.iv:
            lo, ls, hi, hs = self.interval(A(a), 1)
        if a.op == 'inv':
            lo, ls, hi, hs = self._pint(a.args[0])
            if (lo is None or lo < 0) and (hi is None or hi > 0) and self.iv:
                q, k, c = split(a.args[0])
                if q is not None and len(q.t) <= 4:
                    lo, ls, hi, hs = iv_add(iv_scale(self.interval(q, 1), k), (c, False, c, False))
            if lo is not None and lo >= 0:
                return 1, True
            if hi is not None and hi <= 0:
                return -1, True
            return None, False
        if lo is not None and (lo > 0 or (lo == 0)):
            return 1, lo > 0 or ls
        if hi is not None and hi <= 0:
            return -1, hi < 0 or hs
        return None, False

    # ------------------------------------------------------------ helpers
    def equalities(self):
        out = []
        for q, (lo, ls, hi, hs) in self.iv.items():
            if lo is not None and lo == hi:
                out.append(sub(q, C(lo)))
        return out

    def simp(self, p):
        """rewrite p with the equalities (used before comparing)"""
        mp = solve(self.equalities())
        for _ in range(4):
            r = subst(p, mp)
            if r == p:
                return r
            p = r
        return p

    def common(self, others):
        """facts entailed by self and all others (for joins): guards of self known in the others"""
        f = Facts()
        for g in self.gl:
            if all(o.decide(g) is True for o in others):
                f = f.assume(g) or f
        for q, (lo, ls, hi, hs) in self.iv.items():
            # weaker hull
            ivs = [o.interval(q, 1) for o in others] + [(lo, ls, hi, hs)]
            los = [i[0] for i in ivs]
            his = [i[2] for i in ivs]
            if None not in los:
                m = min(los)
                s = all(i[1] or i[0] > m for i in ivs)
                f = f.assume(norm_cmp('>' if s else '>=', sub(q, C(m)))) or f
            if None not in his:
                m = max(his)
                s = all(i[3] or i[2] < m for i in ivs)
                f = f.assume(norm_cmp('<' if s else '<=', sub(q, C(m)))) or f
        return f

    def describe(self):
        return ' & '.join(guard_str(g) for g in self.gl)


_cv = {}


def const_value(a):
    """numeric value of an atom without free parts, or None"""
    if a in _cv:
        return _cv[a]
    v = None
    free = [b for b in all_atoms(A(a)) if b.op in ('sym', 'phi', 'unk', 'app', 'opq') and not (
        b.op == 'sym' and b.args[0] == 'pi')]
    if not free:
        try:
            v = Env(1).atom(a)
            if not np.isscalar(v) or not np.isfinite(v):
                v = None
        except EvalError:
            v = None
    _cv[a] = v
    return v


PRI = {'phi': 0, 'unk': 0, 'app': 1, 'idx': 1, 'sym': 2}


def solve(eqs):
    """triangular substitution {atom: Poly} for a list of polys == 0"""
    mp = {}
    for p in eqs:
        for _ in range(5):
            r = subst(p, mp)
            if r == p:
                break
            p = r
        cands = []
        for m, c in p.t:
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.op not in PRI or a.rank:
                    continue
                rest = sub(p, Poly(((m, c),)))
                if a in all_atoms(rest) or any(a in all_atoms(x) for x in mp.values()) and False:
                    continue
                cands.append((PRI[a.op], -a.id, a, scale(rest, -1 / c)))
        if not cands:
            continue
        cands.sort(key=lambda t: t[:2])
        _, _, a, v = cands[0]
        mp = {b: subst(x, {a: v}) for b, x in mp.items()}
        mp[a] = v
    return mp


def sample(guards, seed, tries=60, fixed=None):
    """Env satisfying the guards, or None.  Equalities solved, inequalities repaired."""
    rnd = random.Random(seed)
    eqs = [g[1] for g in guards if g[0] == '==']
    mp = solve(eqs)
    ineq = [g for g in guards if g[0] not in ('==', 'opq', 'or')]
    opq = [g for g in guards if g[0] == 'opq']
    o = {g[1]: g[2] for g in opq}
    for t in range(tries):
        s = seed * 1000 + t
        over = dict(fixed or {})
        over.update(mp)
        sc = rnd.choice((1.0, 1.0, 0.3, 3.0))
        try:
            env = Env(s, over, sc, o)
            ok = _repair(env, ineq, over, rnd, s, sc, o)
        except EvalError:
            continue
        if ok is None:
            continue
        env = ok
        try:
            env._app_over()
            if not _truth(env.guards(guards)) or not _domains(env, over):
                continue
        except EvalError:
            continue
        return env
    return None


def _domains(env, over):
    """atoms whose value was chosen to satisfy the guards are still in their domains"""
    for a in over:
        dom = a.attrs.get('dom')
        if not dom or a.rank:
            continue
        v = float(env.atom(a))
        if dom[0] == 'pos' and not v > 0 or dom[0] == 'neg' and not v < 0 or dom[0] == 'unit' and not 0 < v < 1:
            return False
        if dom[0] in ('int', 'range') and not dom[1] <= v <= dom[2]:
            return False
        if dom[0] == 'int' and v != round(v) or dom[0] == 'choice' and v not in [float(c) for c in dom[1]]:
            return False
    return True


def _truth(x):
    return bool(np.all(x))


def _repair(env, ineq, over, rnd, s, sc, opq):
    for step in range(40):
        bad = None
        for g in ineq:
            try:
                if not _truth(env.guards((g,))):
                    bad = g
                    break
            except EvalError:
                return None
        if bad is None:
            return env
        # choose a free atom occurring linearly
        p = bad[1]
        cands = []
        seen = set()
        expanded = subst(p, {a: v for a, v in over.items() if isinstance(v, Poly)})
        for m, c in expanded.t:
            for a, e in m:
                if e == 1 and a.op in PRI and a.rank == 0 and not isinstance(over.get(a), Poly) and a not in seen:
                    seen.add(a)
                    cands.append(a)
        if not cands:
            # non-linear: perturb any free sym below
            cands = [a for a in all_atoms(expanded) if a.op in ('sym', 'phi', 'app', 'idx') and a.rank == 0
                     and not isinstance(over.get(a), Poly) and not (a.op == 'sym' and a.args[0] == 'pi')]
            if not cands:
                return None
            a = rnd.choice(cands)
            v0 = env.atom(a)
            nv = v0 * rnd.choice((-1, 0.3, 2, 0.5)) + rnd.uniform(-1, 1)
            if a.attrs.get('kind') == 'int':
                nv = round(nv)
            dom = a.attrs.get('dom')
            if dom and dom[0] == 'unit':
                nv = rnd.uniform(.01, .99)
            elif dom and dom[0] == 'pos':
                nv = abs(nv)
            elif dom and dom[0] == 'neg':
                nv = -abs(nv)
            over[a] = float(nv)
            env = Env(s, over, sc, opq)
            continue
        a = rnd.choice(cands)
        v0 = float(env.atom(a))
        f0 = float(env.poly(p))
        o2 = dict(over)
        o2[a] = v0 + 1.0
        e2 = Env(s, o2, sc, opq)
        slope = float(e2.poly(p)) - f0
        if slope == 0:
            over[a] = v0 + rnd.uniform(-2, 2)
            env = Env(s, over, sc, opq)
            continue
        target = -abs(rnd.choice((0.1, 0.5, 1.0, 2.0)) * rnd.random()) - 0.01
        if bad[0] == '!=':
            target = rnd.uniform(0.2, 2)
        if bad[0] == '<=' and rnd.random() < 0.2:
            target = 0.0
        nv = v0 + (target - f0) / slope
        if a.attrs.get('kind') == 'int':
            nv = float(np.floor(nv) if slope > 0 else np.ceil(nv))
        dom = a.attrs.get('dom')
        if dom and dom[0] == 'pos' and nv <= 0:
            nv = rnd.random() * 0.5 + 0.01
        elif dom and dom[0] == 'neg' and nv >= 0:
            nv = -rnd.random() * 0.5 - 0.01
        elif dom and dom[0] == 'unit' and not 0 < nv < 1:
            nv = rnd.uniform(.01, .99)
        elif dom and dom[0] in ('int', 'range') and not dom[1] <= nv <= dom[2]:
            nv = float(rnd.randint(int(dom[1]), int(dom[2]))) if dom[0] == 'int' else rnd.uniform(dom[1], dom[2])
        if abs(nv) > 1e5:
            nv = v0 + rnd.uniform(-2, 2)
        over[a] = nv
        env = Env(s, over, sc, opq)
    return None


def compare(p, q, facts=None, n=6, extra=(), tol=1e-7, weak_ok=False):
    """'eq' | 'ne' | 'unk', witness text"""
    facts = facts or Facts()
    p, q = C(p), C(q)
    d = sub(p, q)
    if not d.t:
        return 'eq', ''
    d = facts.simp(d)
    if not d.t:
        return 'eq', ''
    guards = facts.gl + tuple(extra)
    got = 0
    for s in range(1, n + 1):
        env = sample(guards, s)
        if env is None:
            continue
        try:
            a, b = env.poly(p), env.poly(q)
        except EvalError:
            continue
        a, b = np.asarray(a, float), np.asarray(b, float)
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            continue
        got += 1
        m = max(1e-3, float(np.max(np.abs(a))) if a.size else 0, float(np.max(np.abs(b))) if b.size else 0)
        if a.shape != b.shape and a.ndim and b.ndim:
            return ('unk' if unknown_atoms(d) else 'ne'), 'shapes %s vs %s' % (a.shape, b.shape)
        if a.size and np.max(np.abs(a - b)) > tol * m:
            if unknown_atoms(p) or unknown_atoms(q):
                return 'unk', 'depends on unknown'
            if not weak_ok and (weak_atoms(p) or weak_atoms(q)):
                return 'unk', 'depends on loop-carried value'
            return 'ne', witness(env, (p, q), facts)
    if got >= 3:
        return 'eq', 'random interpretation (%d valuations)' % got
    return 'unk', 'no valuation found'


def witness(env, ps, facts=None):
    ats = set()
    for p in ps:
        ats |= all_atoms(p)
    if facts is not None:
        for g in facts.gl:
            if g[0] not in ('opq', 'or'):
                ats |= all_atoms(g[1])
    out = []
    for a in sorted(ats, key=lambda a: a.id):
        if a.op in ('sym', 'phi') and a.rank == 0:
            try:
                out.append('%s=%.4g' % (a, env.atom(a)))
            except EvalError:
                pass
    return ', '.join(out[:14])


def entails(facts, g, n=6, weak_ok=False):
    """True (holds on all), False (definite counterexample), None (undecided); and witness"""
    d = facts.decide(g)
    if d is True:
        return True, ''
    if g[0] == 'opq':
        return d, ''
    p = facts.simp(g[1])
    g = norm_cmp(g[0], p)
    d = facts.decide(g)
    if d is True:
        return True, ''
    if d is False:
        # definitely violated provided the path is feasible
        env = sample(facts.gl, 3)
        if env is None:
            return None, 'path feasibility unknown'
        if unknown_atoms(p) or (not weak_ok and weak_atoms(p)):
            return None, 'weak'
        return False, witness(env, (p,), facts)
    for s in range(1, n + 1):
        env = sample(facts.gl + (neg_guard(g),), s, tries=25)
        if env is not None:
            if unknown_atoms(p) or (not weak_ok and weak_atoms(p)):
                return None, 'counterexample depends on unknown/loop-carried values'
            return False, witness(env, (p,), facts)
    return None, 'undecided'

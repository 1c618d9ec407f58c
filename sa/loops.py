"""Loop fixpoints: anti-unification of loop-entry and back-edge states, Houdini inequality invariants."""
import ast
import hashlib
from .values import *
from .values import _oid
from .terms import (C, A, ZERO, ONE, add, sub, mul, neg, mk_atom, norm_cmp, neg_guard, case, subst, all_atoms, vsum,
                    slice_, unindex, veclen, Poly, app, rebuild)
from .interp import Giveup, Ctl, BrkC, ContC, RetC, ExcC, Dead, Merger, Frame
from .facts import Facts


class Gen:
    """joint generalisation of an entry state and a back-edge state"""

    def __init__(self, it, base, back, tag):
        self.it, self.base, self.back = it, base, back
        self.tag = tag
        self.table = {}         # (x, y) -> phi atom
        self.phis = []          # [(atom, x, y)]
        self.objmap = {}        # (ho, bo) -> new oid
        self.newobjs = {}
        self.bools = 0
        self.template = []      # list of (path, value) for isomorphism

    def phi(self, x, y, kind, rank=0, **attrs):
        key = (x, y, kind)
        if key not in self.table:
            a = mk_atom('phi', ('%s.%d' % (self.tag, len(self.phis)),), rank, **({'kind': 'int'} if kind == 'i' else {}), **attrs)
            self.table[key] = a
            self.phis.append((a, x, y))
        return A(self.table[key])

    def au(self, x, y, kind):
        if x == y:
            return x
        if x.rank or y.rank:
            return self.phi(x, y, kind, max(x.rank, y.rank), len=veclen(x))
        y2 = factor_case(y)
        x2 = factor_case(x)
        ax, ay = x2.single_atom(), y2.single_atom()
        if ax is not None and ay is not None and ax.op == ay.op == 'app' and ax.args[0] == ay.args[0] and \
                len(ax.args) == len(ay.args):
            new = []
            ok = True
            for u, v in zip(ax.args[1:], ay.args[1:]):
                if isinstance(u, Poly) and isinstance(v, Poly):
                    new.append((u, v))
                elif u == v:
                    new.append(u)
                else:
                    ok = False
            if ok:
                args = tuple(self.au(u[0], u[1], 'f') if isinstance(u, tuple) and len(u) == 2 and isinstance(u[0], Poly)
                             else u for u in new)
                return rebuild(ax, (ax.args[0],) + args)
        return self.phi(x, y, kind)

    def val(self, path, h, b):
        """h: value in the entry state, b: value on the back edge"""
        if same(h, b):
            return h
        ph, pb = num_poly(h), num_poly(b)
        if ph is not None and pb is not None and not isinstance(h, (bool, SymBool)) and not isinstance(b, (bool, SymBool)):
            k = 'i' if kind_of(h) == 'i' and kind_of(b) == 'i' else 'f'
            return mknum(self.au(ph, pb, k), k)
        if isinstance(h, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            key = ('phi', self.tag, path)
            return SymBool(((('opq', key, True),),), ((('opq', key, False),),))
        if isinstance(h, Tup) and isinstance(b, Tup) and len(h.l) == len(b.l):
            return Tup([self.val(path + (i,), u, v) for i, (u, v) in enumerate(zip(h.l, b.l))])
        if isinstance(h, Ref) and isinstance(b, Ref):
            r = self.ref(path, h, b)
            if r is not None:
                return r
        if isinstance(h, BM) and isinstance(b, BM) and same(h.fn, b.fn):
            r = self.val(path, h.self, b.self)
            if not isinstance(r, Alt):
                return BM(r, h.fn)
        return self.alts(path, h, b)

    def alts(self, path, h, b):
        items = []
        for v in (h, b):
            items += [x for c, x in v.alts] if isinstance(v, Alt) else [v]
        out = []
        for x in items:
            px = num_poly(x)
            if px is not None and not isinstance(x, (bool, SymBool)):
                x = Num(A(mk_atom('phi', ('%s.%r' % (self.tag, path),), 0)), 'f')
                if not any(isinstance(y, Num) for y in out):
                    out.append(x)
                continue
            if not any(same(x, y) for y in out):
                out.append(x)
        if len(out) > 4 or any(isinstance(x, Ref) and isinstance(self.base.heap.get(x.o), (type(None),)) and
                               x.o not in self.base.heap for x in out):
            raise Giveup('loop-carried value %r' % (path,))
        alts = []
        pre = ()
        for i, x in enumerate(out):
            g = ('opq', ('phi', self.tag, path, i), True)
            if i < len(out) - 1:
                alts.append((pre + (g,), x))
                pre = pre + (('opq', ('phi', self.tag, path, i), False),)
            else:
                alts.append((pre, x))
        return Alt(alts)

    def ref(self, path, h, b):
        key = (h.o, b.o)
        if key in self.objmap:
            return Ref(self.objmap[key])
        ho, bo = self.base.heap.get(h.o), self.back.heap.get(b.o)
        if ho is None or bo is None or type(ho) is not type(bo):
            return None
        if b.o in self.base.heap:
            return None          # pre-existing object: keep as alternatives
        if isinstance(ho, HInst) and ho.cls != bo.cls:
            return None
        if isinstance(ho, (HClass, HMod, HEnv, HAlt)):
            return None
        new = ('obj', len(self.objmap))
        no = self.it_oid(path)
        self.objmap[key] = no
        ob = self.obj(path, ho, bo, self.base.heap.get(h.o))
        if ob is None:
            del self.objmap[key]
            return None
        self.newobjs[no] = ob
        return Ref(no)

    def it_oid(self, path):
        k = (self.tag, 'oid', path)
        if k not in self.it.cells:
            self.it.cells[k] = next(_oid)
        return self.it.cells[k]

    def obj(self, path, ho, bo, base):
        t = type(ho)
        if t is not type(bo):
            return None
        n = ho.clone()
        n.tok = None
        if t in (HEnv, HMod, HClass, HInst, HDict):
            d = {}
            if t is HDict and set(ho.d) != set(bo.d):
                return None
            for k in list(ho.d) + [k for k in bo.d if k not in ho.d]:
                u, v = ho.d.get(k, UNDEF), bo.d.get(k, UNDEF)
                if u is UNDEF or v is UNDEF:
                    if u is v:
                        continue
                    # defined only inside the loop: keep undefined-or-value
                    if t is HEnv:
                        d[k] = self.undef(path + (k,), u, v)
                        continue
                    d[k] = self.undef(path + (k,), u, v)
                    continue
                d[k] = self.val(path + (k,), u, v)
            n.d = d
            if t is HInst:
                n.payload = self.val(path + ('$p',), ho.payload, bo.payload) if not same(ho.payload, bo.payload) else ho.payload
            return n
        if t is HList:
            if len(ho.l) != len(bo.l) or ho.kind != bo.kind:
                return None
            n.pos = ho.pos
            n.l = [self.val(path + (i,), u, v) for i, (u, v) in enumerate(zip(ho.l, bo.l))]
            return n
        if t is HBuf:
            if ho.l is not None and bo.l is not None and len(ho.l) == len(bo.l):
                n.l = [self.val(path + (i,), u, v) for i, (u, v) in enumerate(zip(ho.l, bo.l))]
                return n
            if ho.vec is not None and bo.vec is not None:
                n.vec = self.au(ho.vec, bo.vec, 'f')
                return n
            return None
        if t is HArr:
            if tuple(map(str, ho.shape)) != tuple(map(str, bo.shape)) or ho.k != bo.k:
                return None
            if ho.buf == bo.buf:
                return n if ho.pos == bo.pos else None
            if ho.pos != bo.pos:
                # views of different buffers: materialise
                if ho.pos is None or bo.pos is None:
                    return None
                bufs = [self.val(path + ('e', i), u, v) for i, (u, v) in enumerate(
                    zip([self.base.heap[ho.buf].l[p] for p in ho.pos], [self.back.heap[bo.buf].l[p] for p in bo.pos]))]
                no = self.it_oid(path + ('buf',))
                nb = HBuf(bufs)
                nb.tok = None
                self.newobjs[no] = nb
                n.buf, n.pos = no, list(range(len(bufs)))
                return n
            r = self.ref(path + ('buf',), Ref(ho.buf), Ref(bo.buf))
            if r is None:
                return None
            n.buf = r.o
            return n
        return None

    def undef(self, path, u, v):
        w = v if u is UNDEF else u
        key = ('phi', self.tag, path, 'undef')
        alts = [x for c, x in w.alts] if isinstance(w, Alt) else [w]
        alts = [x for x in alts if x is not UNDEF]
        if len(alts) == 1:
            x = alts[0]
            p = num_poly(x)
            if p is not None and not isinstance(x, (bool, SymBool)):
                x = Num(A(mk_atom('phi', ('%s.%r' % (self.tag, path),), 0)), kind_of(x))
            elif isinstance(x, SymBool):
                k2 = ('phi', self.tag, path, 'b')
                x = SymBool(((('opq', k2, True),),), ((('opq', k2, False),),))
            elif isinstance(x, Ref) and x.o not in self.base.heap:
                return UNDEF_LOOP
            elif isinstance(x, Tup):
                return UNDEF_LOOP
            return Alt((((('opq', key, True),), UNDEF), ((('opq', key, False),), x)))
        return UNDEF_LOOP


class _UL(V):
    """variable whose value at the loop head is not tracked (only written inside the loop)"""
    def __repr__(self):
        return 'UNDEF_LOOP'


UNDEF_LOOP = UNDEF


def factor_case(p):
    """case(g -> F(x); F(y)) == F(case(g -> x; y))"""
    a = p.single_atom()
    if a is None or a.op != 'case':
        return p
    alts = [(gs, factor_case(v)) for gs, v in a.args]
    ats = [v.single_atom() for gs, v in alts]
    if any(x is None or x.op != 'app' for x in ats):
        return p
    f = ats[0]
    if any(x.args[0] != f.args[0] or len(x.args) != len(f.args) for x in ats):
        return p
    new = []
    for i in range(1, len(f.args)):
        vs = [x.args[i] for x in ats]
        if all(v == vs[0] for v in vs):
            new.append(vs[0])
        elif all(isinstance(v, Poly) for v in vs):
            new.append(case(tuple((gs, v) for (gs, _), v in zip(alts, vs))))
        else:
            return p
    return rebuild(f, (f.args[0],) + tuple(new))


def merge_states(it, sts):
    it.st = sts[0]
    it.merge([(s, None) for s in sts])
    return it.st


def reachable_frames(it):
    return set()


def fix(it, entry, step, node, after):
    """entry: State at loop head.
    step(): executed with it.st = head state; returns (backs, exits, rest):
        backs  [State] reaching the head again, exits [State] leaving normally, rest [(ctl, State)]
    after(exits, rest): continue."""
    tag0 = 'L%s' % (getattr(node, 'lineno', 0),)
    head = entry
    shape_prev = None
    gen = None
    hsub = {}
    nres = len(it.results)
    for rnd in range(9):
        it.st = head.copy()
        backs, exits, rest = step()
        del it.results[nres:]
        if not backs:
            break
        B = merge_states(it, backs)
        tag = '%s@%d' % (tag0, rnd)
        g = Gen(it, entry, B, tag)
        nh = dict(entry.heap)
        objs = []
        for o, ob in entry.heap.items():
            bo = B.heap.get(o)
            if bo is None or bo is ob:
                continue
            objs.append(o)
            r = g.obj((o,), ob, bo, ob)
            if r is None:
                raise Giveup('loop modifies the structure of an object (%s) at %s' % (type(ob).__name__, it.where()))
            nh[o] = r
        nh.update(g.newobjs)
        newhead = State(nh, entry.facts, entry.pc)
        sig = signature(newhead, objs, g)
        stable = shape_prev is not None and sig == shape_prev
        gen, last_head = g, head
        if stable:
            break
        shape_prev = sig
        head = newhead
        objs_prev = objs
    else:
        raise Giveup('loop fixpoint did not converge at %s' % it.where())
    if gen is None:
        # body never reaches the head again
        it.st = head
        return after(exits, rest)
    # head: state whose phis are named by the tag of the previous round; compute invariants
    phis = head_phis(head, objs)
    base_of, back_of = match(entry, head, objs, it), None
    inv = []
    cands = candidates(it, entry, head, objs, base_of)
    fct = entry.facts
    for rnd in range(6):
        f = entry.facts
        for c in cands:
            f2 = f.assume(c)
            if f2 is not None:
                f = f2
        it.st = State(dict(head.heap), f, entry.pc)
        backs, exits, rest = step()
        del it.results[nres:]
        keep = []
        for c in cands:
            ok = True
            for b in backs:
                s1 = match(b, head, objs, it)
                if s1 is None:
                    ok = False
                    break
                p = subst(c[1], {a: v for a, v in s1.items()})
                if any(a in all_atoms(p) and a not in s1 for a in ()):
                    ok = False
                if b.facts.decide(norm_cmp(c[0], p)) is not True:
                    ok = False
                    break
            if ok:
                keep.append(c)
        if len(keep) == len(cands):
            break
        cands = keep
    else:
        cands = []
    # canonical renaming: digest of the complete loop summary
    f = entry.facts
    for c in cands:
        f2 = f.assume(c)
        if f2 is not None:
            f = f2
    s1 = None
    if backs:
        B = merge_states(it, [b for b in backs])
        s1 = match(B, head, objs, it)
    order = list(phis)
    ren = {a: mk_atom('sym', ('$%d' % i,), a.rank, **a.attrs) for i, a in enumerate(order)}
    rs = {a: A(b) for a, b in ren.items()}
    parts = []
    for a in order:
        parts.append((str(base_of.get(a)), str(subst(s1[a], rs)) if s1 and a in s1 else '?'))
    ex = []
    for s in list(exits) + [s for c, s in rest]:
        ex.append(str([g if g[0] in ('opq', 'or') else (g[0], str(subst(g[1], rs))) for g in s.pc[len(entry.pc):]]))
    dig = hashlib.blake2b(repr((parts, ex)).encode(), digest_size=6).hexdigest()
    final = {}
    for i, a in enumerate(order):
        final[a] = A(mk_atom('phi', ('%s.%s.%d' % (tag0, dig, i),), a.rank, **a.attrs))
    # closed forms
    closed = closed_forms(it, order, base_of, s1, final)
    final.update(closed)
    nh = dict(head.heap)
    touched = set(objs) | set(gen.newobjs)
    for o in list(nh):
        ob = nh[o]
        if entry.heap.get(o) is not ob:
            nh[o] = subst_obj(ob, final)
    f = entry.facts
    for c in cands:
        f2 = f.assume(norm_cmp(c[0], subst(c[1], final)))
        if f2 is not None:
            f = f2
    it.st = State(nh, f, entry.pc)
    backs, exits, rest = step()
    return after(exits, rest)


def closed_forms(it, order, base_of, s1, final):
    """additive recurrences driven by a unit counter"""
    out = {}
    if not s1:
        return out
    cnt = None
    for a in order:
        if a in s1 and a.attrs.get('kind') == 'int':
            d = sub(s1[a], A(a))
            if d == ONE:
                cnt = a
                break
    if cnt is None:
        return out
    K = final[cnt]
    k0 = base_of[cnt]
    n = sub(A(cnt), k0)          # iterations done so far
    nF = sub(K, k0)
    for a in order:
        if a is cnt or a not in s1:
            continue
        d = sub(s1[a], A(a))
        ats = all_atoms(d)
        others = [b for b in order if b in ats and b is not cnt]
        if others:
            continue
        if cnt not in ats:
            out[a] = add(base_of[a], mul(d, nF))
        else:
            if a.rank:
                continue
            # prefix sum over j = k0 .. k-1
            j = mk_atom('sym', ('$j',), 0, kind='int')
            dj = subst(d, {cnt: add(k0, A(j))})
            v = unindex(dj, j, mk_len(nF))
            if v is not None:
                out[a] = add(base_of[a], vsum(v))
    return out


def mk_len(p):
    return p


def subst_obj(ob, mp):
    n = ob.clone()
    n.tok = None

    def v(x):
        if isinstance(x, Num):
            return mknum(subst(x.p, mp), x.k)
        if isinstance(x, Tup):
            return Tup([v(y) for y in x.l])
        if isinstance(x, Alt):
            return Alt(tuple((c, v(y)) for c, y in x.alts))
        return x
    if hasattr(n, 'd') and isinstance(n.d, dict):
        n.d = {k: v(x) for k, x in n.d.items()}
    if isinstance(n, (HList, HBuf)) and n.l is not None:
        n.l = [v(x) for x in n.l]
    if isinstance(n, HBuf) and n.vec is not None:
        n.vec = subst(n.vec, mp)
    if isinstance(n, HInst):
        n.payload = v(n.payload)
    return n


def slots(head, objs):
    """ordered (path, getter) of numeric values in the objects"""
    seen = set()
    out = []

    def walk(path, x):
        if isinstance(x, Num):
            out.append((path, x))
        elif isinstance(x, Tup):
            for i, y in enumerate(x.l):
                walk(path + (i,), y)
        elif isinstance(x, Alt):
            for i, (c, y) in enumerate(x.alts):
                walk(path + ('alt', i), y)
        elif isinstance(x, BM):
            walk(path + ('self',), x.self)
        elif isinstance(x, Ref):
            wobj(path, x.o)
        elif x is not None:
            out.append((path, x))

    def wobj(path, o):
        if o in seen or o not in head.heap:
            return
        seen.add(o)
        ob = head.heap[o]
        if isinstance(ob, (HClass, HMod)) and o not in objs:
            return
        if hasattr(ob, 'd') and isinstance(ob.d, dict):
            for k, x in ob.d.items():
                walk(path + (k,), x)
        if isinstance(ob, (HList, HBuf)) and ob.l is not None:
            for i, x in enumerate(ob.l):
                walk(path + (i,), x)
        if isinstance(ob, HBuf) and ob.vec is not None:
            out.append((path + ('vec',), Num(ob.vec, 'f')))
        if isinstance(ob, HInst):
            walk(path + ('$p',), ob.payload)
        if isinstance(ob, HArr):
            wobj(path + ('buf',), ob.buf)
    for o in objs:
        wobj((o,), o)
    return out


def signature(head, objs, gen):
    """template up to renaming of phis"""
    names = {}
    out = []

    def nm(p):
        m = {}
        for a in sorted(all_atoms(p), key=lambda a: a.id):
            if a.op == 'phi' and str(a.args[0]).startswith(gen.tag):
                if a not in names:
                    names[a] = mk_atom('sym', ('$s%d' % len(names),), a.rank)
                m[a] = A(names[a])
        return subst(p, m) if m else p

    def vv(x):
        if isinstance(x, Num):
            return ('n', nm(x.p), x.k)
        if isinstance(x, SymBool):
            return ('b', repr(x).replace(gen.tag, 'T'))
        return repr(x).replace(gen.tag, 'T')
    for path, x in slots(head, objs):
        out.append((path, vv(x)))
    return tuple(out)


def head_phis(head, objs):
    out = []
    seen = set()
    for path, x in slots(head, objs):
        if isinstance(x, Num):
            for a in sorted(all_atoms(x.p), key=lambda a: a.id):
                if a.op == 'phi' and '@' in str(a.args[0]) and a not in seen:
                    seen.add(a)
                    out.append(a)
    return out


def match(st, head, objs, it):
    """phi -> value in state st, by structural matching of the head template against st"""
    mp = {}
    seen = set()

    def m_poly(t, v):
        a = t.single_atom()
        if a is not None and a.op == 'phi' and '@' in str(a.args[0]):
            if a not in mp:
                mp[a] = v
            return
        if t == v:
            return
        v2 = factor_case(v)
        b = v2.single_atom()
        t2 = factor_case(t)
        a = t2.single_atom()
        if a is not None and b is not None and a.op == b.op == 'app' and len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                if isinstance(x, Poly) and isinstance(y, Poly):
                    m_poly(x, y)

    def m_val(t, v):
        if isinstance(t, Num):
            p = num_poly(v)
            if p is not None:
                m_poly(t.p, p)
        elif isinstance(t, Tup) and isinstance(v, Tup):
            for x, y in zip(t.l, v.l):
                m_val(x, y)
        elif isinstance(t, Ref) and isinstance(v, Ref):
            m_obj(t.o, v.o)
        elif isinstance(t, BM) and isinstance(v, BM):
            m_val(t.self, v.self)

    def m_obj(to, vo):
        if (to, vo) in seen:
            return
        seen.add((to, vo))
        t, v = head.heap.get(to), st.heap.get(vo)
        if t is None or v is None or type(t) is not type(v):
            return
        if isinstance(t, (HClass,)) and to not in objs:
            return
        if hasattr(t, 'd') and isinstance(t.d, dict):
            for k, x in t.d.items():
                if k in v.d:
                    m_val(x, v.d[k])
        if isinstance(t, (HList, HBuf)) and t.l is not None and v.l is not None:
            for x, y in zip(t.l, v.l):
                m_val(x, y)
        if isinstance(t, HBuf) and t.vec is not None and v.vec is not None:
            m_poly(t.vec, v.vec)
        if isinstance(t, HInst):
            m_val(t.payload, v.payload)
        if isinstance(t, HArr):
            if t.pos is not None and v.pos is not None and t.pos != v.pos:
                tb, vb = head.heap[t.buf], st.heap[v.buf]
                for i, j in zip(t.pos, v.pos):
                    m_val(tb.l[i], vb.l[j])
            else:
                m_obj(t.buf, v.buf)
    for o in objs:
        m_obj(o, o)
    return mp


def candidates(it, entry, head, objs, base_of):
    """inequalities between loop-carried / invariant scalars that hold on entry"""
    terms = []

    def put(p):
        if p.rank == 0 and p not in terms:
            terms.append(p)
    for path, x in slots(head, objs):
        if isinstance(x, Num) and any(a in base_of for a in all_atoms(x.p)):
            put(x.p)
    terms = terms[:16]
    ints = [t for t in terms if all(a.attrs.get('kind') == 'int' for a in t.atoms())]
    inv = [ZERO]
    # invariant scalars visible in the current frame
    fr = it.frames[-1]
    if fr.env is not None and fr.env in head.heap:
        for k, x in head.heap[fr.env].d.items():
            p = num_poly(x) if not isinstance(x, (bool, SymBool)) else None
            if p is not None and p not in terms and p not in inv and len(inv) < 8:
                inv.append(p)
    for g in entry.facts.gl:
        if g[0] in ('<', '<=') and len(inv) < 12 and len(g[1].t) == 1:
            pass
    kc = getattr(it, 'loop_bound', None)
    if kc is not None and kc not in inv:
        inv.append(kc)
    out = []
    for i, u in enumerate(terms):
        for v in terms[i + 1:] + inv:
            bu, bv = subst(u, base_of), subst(v, base_of)
            for op in ('<=', '>='):
                if entry.facts.decide(norm_cmp(op, sub(bu, bv))) is True:
                    strict = '<' if op == '<=' else '>'
                    if entry.facts.decide(norm_cmp(strict, sub(bu, bv))) is True:
                        out.append(norm_cmp(strict, sub(u, v)))
                    out.append(norm_cmp(op, sub(u, v)))
    return out[:120]


# ---------------------------------------------------------------- loop forms
def while_fix(it, n):
    entry = it.st.copy()

    def step():
        outs, caught, rest = it.collect(lambda: it.truth(it.eval(n.test)), ())
        exits, backs = [], []
        for s, c in outs:
            it.st = s
            if c is not True:
                s2 = s if c is False else s.assume_any(c.F)
                if s2 is not None:
                    exits.append((s2, 'else'))
                if c is False:
                    continue
            s1 = s if c is True else s.assume_any(c.T)
            if s1 is None:
                continue

            def body(s1=s1):
                it.st = s1
                it.exec_block(n.body)
            o, cg, r = it.collect(body, (BrkC, ContC))
            backs += [x for x, v in o] + [x for cc, x in cg if isinstance(cc, ContC)]
            exits += [(x, 'brk') for cc, x in cg if isinstance(cc, BrkC)]
            rest = rest + r
        return backs, Exits(exits), rest

    def after(exits, rest):
        norm = [s for s, k in exits.l if k == 'else']
        brk = [(s, None) for s, k in exits.l if k == 'brk']
        final = []
        rest = list(rest)
        if norm:
            if n.orelse:
                def els():
                    merge_states(it, norm)
                    it.exec_block(n.orelse)
                o, c, r = it.collect(els, ())
                final += [(s, None) for s, v in o]
                rest += r
            else:
                final += [(s, None) for s in norm]
        return it.resume(final + brk, rest)
    return fix(it, entry, step, n, after)


class Exits:
    def __init__(self, l):
        self.l = l

    def __iter__(self):
        return iter([s for s, k in self.l])


def seq_elem(it, seq, k):
    """element number k (Poly) of a symbolic sequence"""
    if seq.kind == 'range':
        lo, hi, st = seq.a
        return it.binop('Add', lo, it.binop('Mult', mknum(k, 'i'), st))
    if seq.kind == 'vec':
        return it.lib.getitem(it, seq.a[0], mknum(k, 'i'))
    if seq.kind == 'enum':
        return Tup((it.binop('Add', seq.a[1], mknum(k, 'i')), seq_elem(it, it.lib.sym_seq(it, seq.a[0]), k)))
    if seq.kind == 'zip':
        out = []
        for x in seq.a:
            s = it.lib.sym_seq(it, x)
            out.append(seq_elem(it, s, k) if s is not None else it.getitem(x, mknum(k, 'i')))
        return Tup(out)
    if seq.kind == 'conc':
        return it.getitem(seq.a[0], mknum(k, 'i'))
    raise Giveup('sequence')


def seq_len(it, seq):
    if seq.kind == 'range':
        lo, hi, st = [num_poly(x) for x in seq.a]
        c = st.const()
        if c == 1:
            return sub(hi, lo)
        if c == -1:
            return sub(lo, hi)
        raise Giveup('range step')
    if seq.kind == 'vec':
        n = it.st.heap[seq.a[0].o].shape[0]
        return n if isinstance(n, Poly) else C(n)
    if seq.kind == 'enum':
        return seq_len(it, it.lib.sym_seq(it, seq.a[0]))
    if seq.kind == 'zip':
        for x in seq.a:
            s = it.lib.sym_seq(it, x)
            if s is not None:
                return seq_len(it, s)
    if seq.kind == 'conc':
        return C(it.lib.b_len(it, [seq.a[0]], {}))
    raise Giveup('sequence length')


def for_symbolic(it, seq, body, node, orelse=None):
    n = seq_len(it, seq)
    if it.st.facts.decide(norm_cmp('<=', n)) is True:
        # empty
        if orelse:
            it.exec_block(orelse)
        return
    cell = it.st.alloc(HDict())
    it.st.w(cell).d['k'] = 0
    entry0 = it.st
    # n >= 0 always for lengths; a negative range is empty
    nn = it.guardbool('<=', n)
    if nn is not False:
        def empty():
            if orelse:
                it.exec_block(orelse)
        return it.branch(nn, empty, lambda: _for(it, cell, n, seq, body, node, orelse))
    return _for(it, cell, n, seq, body, node, orelse)


def _for(it, cell, n, seq, body, node, orelse):
    entry = it.st.copy()
    saved = getattr(it, 'loop_bound', None)
    it.loop_bound = n

    def step():
        k = num_poly(it.st.get(cell).d['k'])
        c = it.guardbool('<', sub(k, n))
        exits, backs, rest = [], [], []
        s = it.st
        if c is not True:
            s2 = s if c is False else s.assume_any(c.F)
            if s2 is not None:
                exits.append((s2, 'else'))
            if c is False:
                return [], Exits(exits), rest
        s1 = s if c is True else s.assume_any(c.T)
        if s1 is None:
            return [], Exits(exits), rest

        def run():
            it.st = s1
            x = seq_elem(it, seq, k)
            body(x)
        o, cg, r = it.collect(run, (BrkC, ContC))
        bs = [x for x, v in o] + [x for cc, x in cg if isinstance(cc, ContC)]
        for b in bs:
            b.w(cell).d['k'] = mknum(add(k, ONE), 'i')
        backs += bs
        exits += [(x, 'brk') for cc, x in cg if isinstance(cc, BrkC)]
        return backs, Exits(exits), rest + r

    def after(exits, rest):
        it.loop_bound = saved
        norm = [s for s, k in exits.l if k == 'else']
        brk = [(s, None) for s, k in exits.l if k == 'brk']
        final = []
        rest = list(rest)
        if norm:
            if orelse:
                def els():
                    merge_states(it, norm)
                    it.exec_block(orelse)
                o, c, r = it.collect(els, ())
                final += [(s, None) for s, v in o]
                rest += r
            else:
                final += [(s, None) for s in norm]
        return it.resume(final + brk, rest)
    return fix(it, entry, step, node, after)


def for_fix(it, n, start, it_value):
    """concrete but long loop with symbolic exits: solve by fixpoint from the start state"""
    it.st = start
    seq = Wrap('conc', it_value)
    ob = it.st.get(it_value)
    if isinstance(ob, HList) and ob.kind == 'range' and len(ob.l) > 1 and ob.l[1] - ob.l[0] == 1:
        seq = Wrap('range', ob.l[0], ob.l[-1] + 1, 1)
    cell = it.st.alloc(HDict())
    it.st.w(cell).d['k'] = 0
    return _for(it, cell, seq_len(it, seq), seq, lambda x: (it.assign(n.target, x), it.exec_block(n.body)), n, n.orelse)

"""Front end for fixed-form Fortran 77: parses a source file and lowers it to a Python syntax tree for the interpreter.

Scalars modified through by-reference dummies are returned and reassigned at call sites; arrays are shared.
Subscripts go through ``__f_get``/``__f_set``, which raise on an index outside the declared extent.  The names the
extension exports to Python follow the .pyf file beside the source, or its ``cf2py`` comments when there is none.
"""
import ast
import os
import re


class FortranError(Exception):
    pass


TOK = re.compile(r"""\s*(?:
   (?P<num>(?:\d+\.(?!(?:eq|ne|lt|le|gt|ge|and|or|not|eqv|neqv)\.)\d*|\.\d+|\d+)(?:[ed][+-]?\d+)?)
  |(?P<log>\.(?:true|false)\.)
  |(?P<op>\.(?:eqv|neqv|eq|ne|lt|le|gt|ge|and|or|not)\.|\*\*|//|==|/=|<=|>=|[-+*/(),=:<>])
  |(?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
  |(?P<id>[a-z][a-z0-9_]*)
)""", re.X | re.I)

RELOPS = {'.eq.': '==', '.ne.': '!=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>=',
          '==': '==', '/=': '!=', '<': '<', '<=': '<=', '>': '>', '>=': '>='}

INTR = {'sqrt', 'log', 'exp', 'abs', 'max', 'min', 'dble', 'real', 'int', 'float', 'mod', 'dlog', 'dexp', 'dsqrt',
        'dabs', 'max0', 'min0', 'amax1', 'amin1', 'dmax1', 'dmin1', 'nint', 'sign', 'sin', 'cos', 'tan', 'atan',
        'log10', 'alog', 'iabs', 'log_gamma', 'dfloat', 'sngl', 'floor'}
CANON = {'dlog': 'log', 'alog': 'log', 'dexp': 'exp', 'dsqrt': 'sqrt', 'dabs': 'abs', 'iabs': 'abs', 'max0': 'max',
         'min0': 'min', 'amax1': 'max', 'amin1': 'min', 'dmax1': 'max', 'dmin1': 'min', 'float': 'dble',
         'real': 'dble', 'dfloat': 'dble', 'sngl': 'dble'}


# ------------------------------------------------------------------ lines
def logical_lines(path):
    """-> ([(lineno, label, text)], [f2py directive text])"""
    out, f2py = [], []
    with open(path, errors='replace') as fh:
        for no, raw in enumerate(fh, 1):
            line = raw.rstrip('\n').rstrip('\r')
            if not line.strip():
                continue
            c0 = line[0]
            if c0 in 'cC*!':
                m = re.match(r'[cC*!]f2py\s*(.*)', line)
                if m:
                    f2py.append((no, m.group(1).strip().lower()))
                continue
            if line.startswith('\t'):
                if len(line) > 1 and line[1] in '123456789':
                    label, cont, text = '', True, line[2:]
                else:
                    label, cont, text = '', False, line[1:]
            else:
                # a tab inside the label field ends it
                head = line[:6]
                if '\t' in head:
                    lab, text = line.split('\t', 1)
                    label, cont = lab.strip(), False
                else:
                    label, text = line[:5].strip(), line[6:]
                    cont = len(line) > 5 and line[5] not in ' 0'
            text = strip_comment(text).replace('\t', ' ')
            if cont and out:
                o = out[-1]
                out[-1] = (o[0], o[1], o[2] + ' ' + text.strip())
            elif text.strip() or label:
                out.append((no, label, text.strip()))
    return out, f2py


def strip_comment(s):
    q = None
    for i, ch in enumerate(s):
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch == '!':
            return s[:i]
    return s


def tokenize(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise FortranError('cannot tokenize %r' % s[i:])
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v if k == 'str' else v.lower()))
        i = m.end()
    return out


class P:
    """expression parser"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) and self.t[self.i][0] != 'str' else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def take(self, v=None):
        if self.i >= len(self.t):
            raise FortranError('unexpected end of statement')
        x = self.t[self.i]
        if v is not None and x[1] != v:
            raise FortranError('expected %s, found %s' % (v, x[1]))
        self.i += 1
        return x

    def expr(self):
        return self.lor()

    def lor(self):
        a = self.land()
        while self.peek() in ('.or.', '.eqv.', '.neqv.'):
            op = self.take()[1]
            b = self.land()
            a = ('or', a, b) if op == '.or.' else ('eqv' if op == '.eqv.' else 'neqv', a, b)
        return a

    def land(self):
        a = self.lnot()
        while self.peek() == '.and.':
            self.take()
            a = ('and', a, self.lnot())
        return a

    def lnot(self):
        if self.peek() == '.not.':
            self.take()
            return ('not', self.lnot())
        return self.rel()

    def rel(self):
        a = self.arith()
        if self.peek() in RELOPS:
            op = RELOPS[self.take()[1]]
            return ('cmp', op, a, self.arith())
        return a

    def arith(self):
        if self.peek() in ('+', '-'):
            op = self.take()[1]
            a = self.term()
            if op == '-':
                a = ('neg', a)
        else:
            a = self.term()
        while self.peek() in ('+', '-'):
            op = self.take()[1]
            a = ('bin', op, a, self.term())
        return a

    def term(self):
        a = self.power()
        while self.peek() in ('*', '/'):
            op = self.take()[1]
            a = ('bin', op, a, self.power())
        return a

    def power(self):
        a = self.prim()
        if self.peek() == '**':
            self.take()
            if self.peek() == '-':
                self.take()
                return ('bin', '**', a, ('neg', self.power()))
            return ('bin', '**', a, self.power())
        return a

    def prim(self):
        k, v = self.take()
        if k == 'num':
            if re.fullmatch(r'\d+', v):
                return ('int', int(v))
            return ('real', v.replace('d', 'e'))
        if k == 'log':
            return ('bool', v == '.true.')
        if k == 'str':
            return ('str', v[1:-1])
        if v == '(':
            e = self.expr()
            self.take(')')
            return e
        if v == '-':
            return ('neg', self.prim())
        if k == 'id':
            if self.peek() == '(':
                self.take()
                args = []
                if self.peek() != ')':
                    args.append(self.expr())
                    while self.peek() == ',':
                        self.take()
                        args.append(self.expr())
                self.take(')')
                return ('call', v, args)
            return ('var', v)
        raise FortranError('unexpected %s' % v)


def parse_expr(s):
    p = P(tokenize(s))
    e = p.expr()
    if p.i != len(p.t):
        raise FortranError('trailing text in expression %r' % s)
    return e


def split_top(s):
    out, d, q, cur = [], 0, None, ''
    for ch in s:
        if q:
            cur += ch
            if ch == q:
                q = None
            continue
        if ch in '\'"':
            q = ch
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# ------------------------------------------------------------------ subprograms
class Sub:
    def __init__(self, name, args, isfun, line):
        self.name, self.args, self.isfun, self.line = name, args, isfun, line
        self.types = {}
        self.dims = {}
        self.params = {}
        self.data = {}
        self.saved = set()
        self.external = set()
        self.body = []       # parsed statements
        self.intents = {}
        self.implicit_none = False
        self.mod = set()

    def typ(self, v):
        t = self.types.get(v)
        if t:
            return t
        return 'i' if v[0] in 'ijklmn' else 'r'


TYPES = [(re.compile(r'double\s+precision\b', re.I), 'r'), (re.compile(r'real(\s*\*\s*\d+)?\b', re.I), 'r'),
         (re.compile(r'integer(\s*\*\s*\d+)?\b', re.I), 'i'), (re.compile(r'logical(\s*\*\s*\d+)?\b', re.I), 'l'),
         (re.compile(r'character(\s*\*\s*\(?[\d*]+\)?)?', re.I), 'c')]


def parse_file(path):
    lines, f2py = logical_lines(path)
    subs, cur, pend = [], None, []
    starts = []
    for no, lab, txt in lines:
        low = txt.lower()
        m = re.match(r'(?:(double\s+precision|real(?:\s*\*\s*\d+)?|integer(?:\s*\*\s*\d+)?|logical)\s+)?'
                     r'(subroutine|function)\s+([a-z][a-z0-9_]*)\s*(\((.*)\))?\s*$', low)
        if cur is None:
            if not m:
                raise FortranError('%s:%d: statement outside a subprogram' % (path, no))
            args = [a.strip() for a in (m.group(5) or '').split(',') if a.strip()]
            cur = Sub(m.group(3), args, m.group(2) == 'function', no)
            if m.group(1):
                cur.types[cur.name] = {'d': 'r', 'r': 'r', 'i': 'i', 'l': 'l'}[m.group(1)[0]]
            stm = []
            starts.append((no, cur))
            continue
        if re.fullmatch(r'end(\s*(subroutine|function)(\s+\w+)?)?', low):
            if lab:
                stm.append((no, lab, 'continue'))
            build(cur, stm)
            subs.append(cur)
            cur = None
            continue
        stm.append((no, lab, txt))
    for no, t in f2py:
        own = None
        for s0, s in starts:
            if s0 <= no:
                own = s
        m = re.match(r'intent\s*\(([^)]*)\)\s*(.*)', t)
        if own is not None and m:
            for a in m.group(2).split(','):
                own.intents[a.strip()] = set(x.strip() for x in m.group(1).split(','))
    return subs


def decl_items(sub, rest, t):
    rest = rest.strip()
    if rest.startswith('::'):
        rest = rest[2:]
    for it in split_top(rest):
        m = re.match(r'([a-z][a-z0-9_]*)\s*(?:\((.*)\))?$', it.strip().lower())
        if not m:
            raise FortranError('declaration %r' % it)
        if t:
            sub.types[m.group(1)] = t
        if m.group(2) is not None:
            sub.dims[m.group(1)] = dims_of(m.group(2))


def dims_of(s):
    out = []
    for d in split_top(s):
        if ':' in d:
            lo, hi = d.split(':', 1)
        else:
            lo, hi = '1', d
        out.append((parse_expr(lo), None if hi.strip() == '*' else parse_expr(hi)))
    return out


def build(sub, stm):
    ex = []
    for no, lab, txt in stm:
        low = txt.lower()
        if low.startswith('implicit'):
            sub.implicit_none = 'none' in low
            continue
        done = False
        if not re.match(r'[a-z][a-z0-9_]*\s*(\([^=]*\))?\s*=', low) or low.startswith('parameter'):
            for rx, t in TYPES:
                m = rx.match(txt)
                if m and not re.match(r'\s*=', txt[m.end():]):
                    decl_items(sub, txt[m.end():], t)
                    done = True
                    break
            if done:
                continue
            if low.startswith('dimension'):
                decl_items(sub, txt[9:], None)
                continue
            if low.startswith('external') or low.startswith('intrinsic'):
                if low.startswith('external'):
                    sub.external |= {x.strip() for x in low[8:].split(',')}
                continue
            if low.startswith('save'):
                names = [x.strip() for x in low[4:].split(',') if x.strip()]
                sub.saved |= set(names) if names else {'*'}
                continue
            if re.match(r'parameter\s*\(', low):
                inner = txt[txt.index('(') + 1:txt.rindex(')')]
                for a in split_top(inner):
                    n, v = a.split('=', 1)
                    sub.params[n.strip().lower()] = parse_expr(v)
                continue
            if re.match(r'data\s', low):
                parse_data(sub, txt[4:])
                continue
            if low.startswith('common') or low.startswith('equivalence') or low.startswith('entry'):
                raise FortranError('%s: unsupported statement %r' % (sub.name, txt))
        ex.append((no, lab, txt))
    for v in sub.data:
        sub.saved.add(v)
    sub.body = block(sub, ex)


def parse_data(sub, s):
    parts = s.split('/')
    for k in range(0, len(parts) - 1, 2):
        names = [n for n in split_top(parts[k].strip().lstrip(',')) if n]
        vals = []
        for v in split_top(parts[k + 1]):
            m = re.match(r'(\d+)\s*\*\s*(.+)', v)
            if m:
                vals += [parse_expr(m.group(2))] * int(m.group(1))
            else:
                vals.append(parse_expr(v))
        for n in names:
            e = parse_expr(n)
            if e[0] == 'var':
                if e[1] in sub.dims:
                    size = 1
                    for lo, hi in sub.dims[e[1]]:
                        if hi is None or hi[0] != 'int' or lo[0] != 'int':
                            raise FortranError('data extent of %s' % n)
                        size *= hi[1] - lo[1] + 1
                    sub.data[e[1]] = ('array', vals[:size])
                    vals = vals[size:]
                else:
                    sub.data[e[1]] = ('scalar', vals.pop(0))
            else:
                d = sub.data.setdefault(e[1], ('elems', []))
                d[1].append((e[2], vals.pop(0)))


def block(sub, ex):
    """structure the statement list: returns nested tuples"""
    pos = [0]

    def parse(stop, dolab=None):
        """stop: set of terminating keywords"""
        out = []
        while pos[0] < len(ex):
            no, lab, txt = ex[pos[0]]
            low = re.sub(r'\s+', ' ', txt.lower().strip())
            key = None
            if low in ('endif', 'end if'):
                key = 'endif'
            elif low == 'else':
                key = 'else'
            elif re.match(r'else ?if ?\(', low):
                key = 'elseif'
            elif low in ('enddo', 'end do'):
                key = 'enddo'
            if key in stop:
                return out, key
            if key:
                raise FortranError('%s:%d: unexpected %s' % (sub.name, no, key))
            pos[0] += 1
            if lab and lab == dolab:
                if low != 'continue':
                    out.append(simple(no, lab, txt))
                else:
                    out.append((no, lab, ('nop',)))
                return out, 'dolab'
            m = re.match(r'do (\d+) ?,? ?(while ?\(.*\)|[a-z][a-z0-9_]* ?=.*)$', low)
            m2 = None if m else re.match(r'do (while ?\(.*\)|[a-z][a-z0-9_]* ?=.*)$', low)
            if m or m2 or low == 'do':
                head = m.group(2) if m else (m2.group(1) if m2 else None)
                if m:
                    b, k = parse(set(), m.group(1))
                    if k != 'dolab':
                        raise FortranError('%s:%d: do label %s not found' % (sub.name, no, m.group(1)))
                else:
                    b, k = parse({'enddo'})
                    pos[0] += 1
                if head is None:
                    out.append((no, lab, ('dowhile', ('bool', True), b)))
                elif head.startswith('while'):
                    c = head[head.index('(') + 1:head.rindex(')')]
                    out.append((no, lab, ('dowhile', parse_expr(c), b)))
                else:
                    v, rng = head.split('=', 1)
                    r = [parse_expr(x) for x in split_top(rng)]
                    out.append((no, lab, ('do', v.strip(), r, b)))
                continue
            m = re.match(r'if ?\(', low)
            if m:
                c, rest = balanced(txt[txt.index('('):])
                cond = parse_expr(c)
                if rest.strip().lower() == 'then':
                    arms = []
                    b, k = parse({'else', 'elseif', 'endif'})
                    arms.append((cond, b))
                    els = []
                    while k != 'endif':
                        t = ex[pos[0]][2]
                        pos[0] += 1
                        if k == 'elseif':
                            c2, rest2 = balanced(t[t.index('('):])
                            b, k = parse({'else', 'elseif', 'endif'})
                            arms.append((parse_expr(c2), b))
                        else:
                            els, k = parse({'endif'})
                    pos[0] += 1
                    node = els
                    for cnd, b in reversed(arms):
                        node = [(no, '', ('if', cnd, b, node))]
                    out.append((no, lab, node[0][2]))
                else:
                    out.append((no, lab, ('if', cond, [simple(no, '', rest.strip())], [])))
                continue
            out.append(simple(no, lab, txt))
        return out, None

    def simple(no, lab, txt):
        low = re.sub(r'\s+', ' ', txt.lower().strip())
        if low in ('continue', ''):
            return (no, lab, ('nop',))
        if low == 'return':
            return (no, lab, ('return',))
        if low == 'exit' or low == 'cycle':
            return (no, lab, (low,))
        m = re.match(r'go ?to (\d+)$', low)
        if m:
            return (no, lab, ('goto', m.group(1)))
        if re.match(r'(print|write|format|pause|read)\b', low) and not re.match(r'(print|write|read)\s*=', low):
            return (no, lab, ('nop',))
        if re.match(r'stop\b', low):
            return (no, lab, ('stop',))
        m = re.match(r'call ([a-z][a-z0-9_]*)', low)
        if m:
            e = parse_expr(txt.strip()[4:].strip())
            return (no, lab, ('callsub', e[1], e[2] if e[0] == 'call' else []))
        # assignment
        p = P(tokenize(txt))
        lhs = p.prim()
        p.take('=')
        rhs = p.expr()
        if p.i != len(p.t):
            raise FortranError('%s:%d: %r' % (sub.name, no, txt))
        return (no, lab, ('assign', lhs, rhs))

    b, k = parse(set())
    return gotos(sub, b)


def balanced(s):
    d, q = 0, None
    for i, ch in enumerate(s):
        if q:
            if ch == q:
                q = None
            continue
        if ch in '\'"':
            q = ch
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                return s[1:i], s[i + 1:]
    raise FortranError('unbalanced %r' % s)


def has_goto(stmts, lab, deep=False):
    """does a goto to lab occur in the list (outside loops, unless deep)"""
    for no, l, s in stmts:
        if s[0] == 'goto' and s[1] == lab:
            return True
        if s[0] == 'if' and (has_goto(s[2], lab, deep) or has_goto(s[3], lab, deep)):
            return True
        if s[0] in ('do', 'dowhile', 'loop') and deep and has_goto(s[-1], lab, deep):
            return True
    return False


def subst_goto(stmts, lab, by):
    out = []
    for no, l, s in stmts:
        if s[0] == 'goto' and s[1] == lab:
            s = by
        elif s[0] == 'if':
            s = ('if', s[1], subst_goto(s[2], lab, by), subst_goto(s[3], lab, by))
        out.append((no, l, s))
    return out


def gotos(sub, stmts):
    """turn structured gotos into loops, innermost lists first"""
    out = []
    for no, l, s in stmts:
        if s[0] == 'if':
            s = ('if', s[1], gotos(sub, s[2]), gotos(sub, s[3]))
        elif s[0] in ('do', 'dowhile', 'loop'):
            b = gotos(sub, s[-1])
            # goto to the terminal label of the loop = cycle
            last = b[-1][1] if b else ''
            if last and has_goto(b, last):
                b = subst_goto(b, last, ('cycle',))
            s = s[:-1] + (b,)
        out.append((no, l, s))
    # backward gotos, innermost (last label) first
    i = len(out) - 1
    while i >= 0:
        lab = out[i][1]
        if lab:
            js = [j for j in range(i, len(out)) if has_goto(out[j:j + 1], lab)]
            if js:
                j = js[-1]
                region = out[i:j + 1]
                region[0] = (region[0][0], '', region[0][2])
                if any(uses_loopctl(x[2]) for x in region):
                    raise FortranError('%s: goto %s mixed with exit/cycle' % (sub.name, lab))
                region = subst_goto(region, lab, ('cycle',)) + [(out[i][0], '', ('exit',))]
                out[i:j + 1] = [(out[i][0], '', ('loop', region))]
        i -= 1
    # forward gotos
    i = len(out) - 1
    while i >= 0:
        lab = out[i][1]
        if lab:
            js = [j for j in range(0, i) if has_goto(out[j:j + 1], lab)]
            if js:
                j = js[0]
                region = out[j:i]
                if any(uses_loopctl(x[2]) for x in region):
                    raise FortranError('%s: goto %s mixed with exit/cycle' % (sub.name, lab))
                region = subst_goto(region, lab, ('exit',)) + [(out[j][0], '', ('exit',))]
                out[j:i] = [(out[j][0], '', ('loop', region))]
                i = j
        i -= 1
    return out


def uses_loopctl(s):
    if s[0] in ('exit', 'cycle'):
        return True
    if s[0] == 'if':
        return any(uses_loopctl(x[2]) for x in s[2] + s[3])
    return False


# ------------------------------------------------------------------ lowering
def N(s):
    return ast.parse(s, mode='eval').body


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def name(v, ctx=None):
    return ast.Name(id=v, ctx=ctx or ast.Load())


class Lower:
    def __init__(self, sub, subs):
        self.s = sub
        self.subs = subs
        self.tmp = 0
        self.pre = []
        self.line = sub.line

    def var(self, v):
        if v in self.s.params:
            return self.ex(self.s.params[v])[0]
        if v == self.s.name and self.s.isfun:
            return name('%s__r' % v)
        if v in self.s.saved or ('*' in self.s.saved and v not in self.s.args):
            return name('%s__%s' % (self.s.name, v))
        return name('v_' + v)

    def ex(self, e):
        """-> (ast, type)"""
        k = e[0]
        if k == 'int':
            return ast.Constant(e[1]), 'i'
        if k == 'real':
            return call('__f_const', ast.Constant(e[1])), 'r'
        if k == 'bool':
            return ast.Constant(e[1]), 'l'
        if k == 'str':
            return ast.Constant(e[1]), 'c'
        if k == 'var':
            if e[1] in self.s.params:
                a, t = self.ex(self.s.params[e[1]])
                return self.conv(a, t, self.s.typ(e[1])), self.s.typ(e[1])
            return self.var(e[1]), self.s.typ(e[1])
        if k == 'neg':
            a, t = self.ex(e[1])
            return ast.UnaryOp(op=ast.USub(), operand=a), t
        if k == 'not':
            return ast.UnaryOp(op=ast.Not(), operand=self.ex(e[1])[0]), 'l'
        if k in ('and', 'or'):
            a, b = self.ex(e[1])[0], self.ex(e[2])[0]
            return ast.BoolOp(op=ast.And() if k == 'and' else ast.Or(), values=[a, b]), 'l'
        if k in ('eqv', 'neqv'):
            a, b = self.ex(e[1])[0], self.ex(e[2])[0]
            return ast.Compare(left=a, ops=[ast.Eq() if k == 'eqv' else ast.NotEq()], comparators=[b]), 'l'
        if k == 'cmp':
            ops = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE}
            return ast.Compare(left=self.ex(e[2])[0], ops=[ops[e[1]]()], comparators=[self.ex(e[3])[0]]), 'l'
        if k == 'bin':
            a, ta = self.ex(e[2])
            b, tb = self.ex(e[3])
            t = 'i' if ta == tb == 'i' else 'r'
            if e[1] == '/' and t == 'i':
                return call('__f_idiv', a, b), 'i'
            if e[1] == '**':
                return ast.BinOp(left=a, op=ast.Pow(), right=b), t if t == 'i' else ta if ta == 'r' else 'r'
            op = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div}[e[1]]()
            return ast.BinOp(left=a, op=op, right=b), t
        if k == 'call':
            return self.ref(e)
        raise FortranError('expression %s' % k)

    def index(self, arr, args):
        dims = self.s.dims[arr]
        if len(args) != len(dims):
            raise FortranError('%s: rank of %s' % (self.s.name, arr))
        ix = []
        for a, (lo, hi) in zip(args, dims):
            x = self.ex(a)[0]
            l = self.ex(lo)[0]
            ix.append(ast.BinOp(left=x, op=ast.Sub(), right=l))
        return ast.Tuple(elts=ix, ctx=ast.Load())

    def ref(self, e):
        nm, args = e[1], e[2]
        if nm in self.s.dims:
            return call('__f_get', self.var(nm), self.index(nm, args), ast.Constant(nm)), self.s.typ(nm)
        if nm in self.subs and nm not in self.s.args:
            return self.usercall(nm, args), self.subs[nm].typ(nm)
        if nm in self.s.args:
            # dummy procedure supplied by Python: f2py drops the leading dimension argument
            return self.callback(nm, args), self.s.typ(nm)
        c = CANON.get(nm, nm)
        if c in INTR:
            xs = [self.ex(a) for a in args]
            t = xs[0][1]
            av = [a for a, _ in xs]
            if c == 'dble':
                return call('__f_real', av[0]), 'r'
            if c in ('int', 'nint', 'floor'):
                return call('__f_' + c, av[0]), 'i'
            if c == 'mod':
                return call('__f_mod', *av), t
            if c in ('max', 'min', 'abs'):
                return call('__f_' + c, *av), 'i' if all(tt == 'i' for _, tt in xs) else 'r'
            return call('__f_' + c, *av), 'r'
        raise FortranError('%s: unknown function %s' % (self.s.name, nm))

    def newtmp(self):
        self.tmp += 1
        return 't__%d' % self.tmp

    def callback(self, nm, args):
        xs = [self.var(a[1]) for a in args if a[0] == 'var' and a[1] in self.s.dims]
        if not xs:
            xs = [self.ex(a)[0] for a in args]
        t = self.newtmp()
        self.pre.append(self.at(ast.Assign(targets=[name(t, ast.Store())],
                                           value=call('__f_real', call('__f_callback', name('v_' + nm), *xs)))))
        return name(t)

    def at(self, st):
        st.lineno = self.line
        return st

    def usercall(self, nm, args):
        sub = self.subs[nm]
        if len(args) != len(sub.args):
            raise FortranError('%s: call of %s with %d arguments' % (self.s.name, nm, len(args)))
        av = []
        for a, d in zip(args, sub.args):
            if a[0] == 'var' and a[1] in self.s.dims:
                av.append(self.var(a[1]))
            elif d in sub.dims:
                raise FortranError('%s: sequence association in call of %s' % (self.s.name, nm))
            elif a[0] == 'var' and a[1] not in self.s.params:
                if d in sub.mod:
                    av.append(call('__f_maybe', ast.Lambda(args=ast.arguments(
                        posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=self.var(a[1]))))
                else:
                    av.append(self.var(a[1]))
            else:
                av.append(self.ex(a)[0])
        outs = ([nm] if sub.isfun else []) + [d for d in sub.args if d in sub.mod and d not in sub.dims]
        t = self.newtmp()
        self.pre.append(self.at(ast.Assign(targets=[name(t, ast.Store())], value=call('f_' + nm, *av))))
        for j, d in enumerate(outs):
            if sub.isfun and j == 0:
                continue
            a = args[sub.args.index(d)]
            self.pre.append(self.store(a, ast.Subscript(value=name(t), slice=ast.Constant(j), ctx=ast.Load()),
                                       sub.typ(d)))
        return ast.Subscript(value=name(t), slice=ast.Constant(0), ctx=ast.Load())

    def conv(self, a, t, want):
        if want == 'i' and t == 'r':
            return call('__f_int', a)
        if want == 'r' and t == 'i':
            return call('__f_real', a)
        return a

    def store(self, lhs, val, t):
        if lhs[0] == 'var':
            v = lhs[1]
            if v in self.s.params:
                return self.at(ast.Pass())
            if v in self.s.dims:
                return self.at(ast.Expr(call('__f_fill', self.var(v), self.conv(val, t, self.s.typ(v)))))
            tgt = self.var(v)
            return self.at(ast.Assign(targets=[name(tgt.id, ast.Store())],
                                      value=self.conv(val, t, self.s.typ(v))))
        if lhs[0] == 'call' and lhs[1] in self.s.dims:
            return self.at(ast.Expr(call('__f_set', self.var(lhs[1]), self.index(lhs[1], lhs[2]),
                                         self.conv(val, t, self.s.typ(lhs[1])), ast.Constant(lhs[1]))))
        return self.at(ast.Pass())

    def stmts(self, b):
        out = []
        for no, lab, s in b:
            self.line = no
            out.extend(self.st(s))
        return out or [self.at(ast.Pass())]

    def flush(self):
        p, self.pre = self.pre, []
        return p

    def st(self, s):
        k = s[0]
        if k == 'nop':
            return []
        if k == 'return':
            return [self.ret()]
        if k == 'stop':
            return [self.at(ast.Expr(call('__f_stop')))]
        if k == 'exit':
            return [self.at(ast.Break())]
        if k == 'cycle':
            return [self.at(ast.Continue())]
        if k == 'goto':
            raise FortranError('%s:%d: unstructured goto %s' % (self.s.name, self.line, s[1]))
        if k == 'assign':
            v, t = self.ex(s[2])
            st = self.store(s[1], v, t)
            return self.flush() + [st]
        if k == 'callsub':
            if s[1] not in self.subs:
                raise FortranError('%s: unknown subroutine %s' % (self.s.name, s[1]))
            self.usercall(s[1], s[2])
            return self.flush()
        if k == 'if':
            c = self.ex(s[1])[0]
            pre = self.flush()
            line = self.line
            st = ast.If(test=c, body=self.stmts(s[2]), orelse=self.stmts(s[3]) if s[3] else [])
            st.lineno = line
            return pre + [st]
        if k == 'do':
            r = [self.ex(x)[0] for x in s[2]]
            pre = self.flush()
            line = self.line
            if len(s[2]) == 3:
                e = s[2][2]
                step = e[1] if e[0] == 'int' else -e[1][1] if e[0] == 'neg' and e[1][0] == 'int' else None
                if not step:
                    raise FortranError('%s:%d: do step' % (self.s.name, line))
            else:
                step = 1
            end = ast.BinOp(left=r[1], op=ast.Add(), right=ast.Constant(1 if step > 0 else -1))
            tgt = self.var(s[1]).id
            st = ast.For(target=name(tgt, ast.Store()),
                         iter=call('range', r[0], end, ast.Constant(step)),
                         body=self.stmts(s[3]), orelse=[])
            st.lineno = line
            return pre + [st]
        if k == 'dowhile':
            line = self.line
            c = self.ex(s[1])[0]
            if self.pre:
                pre = self.flush()
                brk = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=c), body=[self.at(ast.Break())], orelse=[])
                brk.lineno = line
                st = ast.While(test=ast.Constant(True), body=pre + [brk] + self.stmts(s[2]), orelse=[])
            else:
                st = ast.While(test=c, body=self.stmts(s[2]), orelse=[])
            st.lineno = line
            return [st]
        if k == 'loop':
            line = self.line
            st = ast.While(test=ast.Constant(True), body=self.stmts(s[1]), orelse=[])
            st.lineno = line
            return [st]
        raise FortranError('statement %s' % k)

    def ret(self):
        s = self.s
        outs = [self.var(s.name)] if s.isfun else []
        outs += [call('__f_maybe', ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                                                 defaults=[]), body=self.var(d)))
                 for d in s.args if d in s.mod and d not in s.dims]
        return self.at(ast.Return(value=ast.Tuple(elts=outs, ctx=ast.Load())))

    def function(self):
        s = self.s
        body = []
        saved = sorted({v for v in self.allvars() if (v in s.saved or '*' in s.saved) and v not in s.args})
        if saved:
            body.append(ast.Global(names=['%s__%s' % (s.name, v) for v in saved]))
        self.line = s.line
        if s.isfun:
            body.append(self.at(ast.Assign(targets=[name('%s__r' % s.name, ast.Store())],
                                           value=call('__f_undef', ast.Constant(s.name)))))
        # local arrays
        for v, d in s.dims.items():
            if v not in s.args and v not in saved:
                body.append(self.at(ast.Assign(targets=[name('v_' + v, ast.Store())], value=self.alloc(v))))
        body += self.stmts(s.body)
        body.append(self.ret())
        f = ast.FunctionDef(name='f_' + s.name, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg='v_' + a) for a in s.args], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[], returns=None)
        f.lineno = s.line
        pre = []
        for v in saved:
            d = s.data.get(v)
            tgt = name('%s__%s' % (s.name, v), ast.Store())
            if v in s.dims:
                pre.append(ast.Assign(targets=[tgt], value=self.alloc(v)))
                if d and d[0] == 'array':
                    for j, x in enumerate(d[1]):
                        pre.append(ast.Expr(call('__f_set', self.var(v), ast.Tuple(elts=[ast.Constant(j)], ctx=ast.Load()),
                                                 self.ex(x)[0], ast.Constant(v))))
                elif d:
                    for ix, x in d[1]:
                        pre.append(ast.Expr(call('__f_set', self.var(v), self.index(v, ix), self.ex(x)[0],
                                                 ast.Constant(v))))
            elif d:
                a, t = self.ex(d[1])
                pre.append(ast.Assign(targets=[tgt], value=self.conv(a, t, s.typ(v))))
            else:
                pre.append(ast.Assign(targets=[tgt], value=call('__f_undef', ast.Constant(v))))
        for p in pre:
            p.lineno = s.line
        return pre + [f]

    def alloc(self, v):
        sh = []
        for lo, hi in self.s.dims[v]:
            if hi is None:
                raise FortranError('extent of %s' % v)
            sh.append(ast.BinOp(left=ast.BinOp(left=self.ex(hi)[0], op=ast.Sub(), right=self.ex(lo)[0]),
                                op=ast.Add(), right=ast.Constant(1)))
        return call('__f_alloc', ast.Constant(self.s.typ(v)), *sh)

    def allvars(self):
        s = self.s
        out = set(s.dims) | set(s.data) | set(s.types)
        out -= set(s.args) | set(s.params) | {s.name} | set(self.subs) | s.external
        used = set()

        def ex(e):
            if isinstance(e, (tuple, list)):
                if isinstance(e, tuple) and e and e[0] in ('var', 'call'):
                    used.add(e[1])
                for x in e:
                    ex(x)
            elif isinstance(e, str):
                used.add(e)
        ex([x[2] for x in s.body])
        return {v for v in out if v in used or v in s.data}


def modified(subs):
    """fixpoint: scalar/array dummies a subprogram may assign"""
    changed = True

    def ex(s, e):
        if isinstance(e, tuple) and e and e[0] == 'call' and e[1] in subs and e[1] not in s.args:
            args(s, e[1], e[2])
        if isinstance(e, (tuple, list)):
            for x in e:
                ex(s, x)

    def args(s, nm, al):
        for a, d in zip(al, subs[nm].args):
            if d in subs[nm].mod and a[0] in ('var', 'call') and a[1] in s.args:
                s.mod.add(a[1])

    def walk(s, b):
        for no, lab, x in b:
            k = x[0]
            if k == 'assign':
                if x[1][1] in s.args:
                    s.mod.add(x[1][1])
                ex(s, x[2])
                ex(s, x[1])
            elif k == 'callsub':
                if x[1] in subs:
                    args(s, x[1], x[2])
                ex(s, x[2])
            elif k == 'if':
                ex(s, x[1])
                walk(s, x[2])
                walk(s, x[3])
            elif k == 'do':
                if x[1] in s.args:
                    s.mod.add(x[1])
                ex(s, x[2])
                walk(s, x[3])
            elif k == 'dowhile':
                ex(s, x[1])
                walk(s, x[2])
            elif k == 'loop':
                walk(s, x[1])
    while changed:
        before = sum(len(s.mod) for s in subs.values())
        for s in subs.values():
            walk(s, s.body)
        changed = sum(len(s.mod) for s in subs.values()) != before


# ------------------------------------------------------------------ Python interface
def parse_pyf(path):
    """-> {routine: (kind, args, {arg: dict(type, dims, intent, default, optional)})}"""
    out = {}
    cur = None
    with open(path) as fh:
        for raw in fh:
            line = raw.split('!')[0].strip()
            if not line:
                continue
            low = line.lower()
            m = re.match(r'(subroutine|function)\s+(\w+)\s*\(([^)]*)\)', low)
            if m:
                cur = (m.group(1), [a.strip() for a in m.group(3).split(',') if a.strip()], {})
                out[m.group(2)] = cur
                continue
            if low.startswith('end'):
                if re.match(r'end\s*(subroutine|function)', low):
                    cur = None
                continue
            if cur is None or low.startswith('use') or low.startswith('external'):
                continue
            m = re.match(r'(integer|real\*8|real|double precision|logical)\b\s*,?\s*(.*?)::\s*(.*)$', low)
            if not m:
                continue
            attrs = split_top(m.group(2))
            for v in split_top(m.group(3)):
                nm, _, dflt = v.partition('=')
                d = dict(type='i' if m.group(1) == 'integer' else 'l' if m.group(1) == 'logical' else 'r',
                         dims=None, intent=set(), default=dflt.strip() or None, optional=False)
                for a in attrs:
                    a = a.strip()
                    mm = re.match(r'(\w+)\s*(?:\((.*)\))?$', a)
                    if not mm:
                        continue
                    if mm.group(1) == 'dimension':
                        d['dims'] = dims_of(mm.group(2))
                    elif mm.group(1) == 'intent':
                        d['intent'] |= {x.strip() for x in mm.group(2).split(',')}
                    elif mm.group(1) == 'optional':
                        d['optional'] = True
                cur[2][nm.strip()] = d
    return {k: v for k, v in out.items() if not k.endswith('logf')}


def iface_of(subs):
    """interface derived from cf2py comments"""
    out = {}
    for s in subs.values():
        args = {}
        for a in s.args:
            args[a] = dict(type=s.typ(a), dims=s.dims.get(a), intent=set(s.intents.get(a, {'in'})), default=None,
                           optional=False)
        for a in s.args:
            dm = args[a]['dims']
            it = args[a]['intent']
            if dm and ('in' in it or 'inout' in it):
                for j, (lo, hi) in enumerate(dm):
                    if hi is not None and hi[0] == 'var' and hi[1] in args and args[hi[1]]['default'] is None:
                        args[hi[1]]['default'] = 'shape(%s,%d)' % (a, j)
                        args[hi[1]]['optional'] = True
        out[s.name] = ('function' if s.isfun else 'subroutine', s.args, args)
    return out


def wrapper(sub, ifc, subs):
    kind, order, args = ifc
    pos, opt = [], []
    for a in order:
        if a in sub.external:
            pos.append(a)
            continue
        d = args.get(a)
        if d is None:
            d = args[a] = dict(type=sub.typ(a), dims=sub.dims.get(a), intent={'in'}, default=None, optional=False)
        it = d['intent']
        if 'hide' in it or ('out' in it and 'in' not in it):
            continue
        if d['optional'] or d['default'] is not None:
            opt.append(a)
        else:
            pos.append(a)
    src = ['def %s(%s):' % (sub.name, ', '.join(['v_' + a for a in pos] + ['v_%s=None' % a for a in opt]))]

    def dimexpr(e):
        """extent expression in terms of the wrapper's variables"""
        if e[0] == 'int':
            return str(e[1])
        if e[0] == 'var':
            return 'v_' + e[1]
        if e[0] == 'bin':
            return '(%s %s %s)' % (dimexpr(e[2]), '//' if e[1] == '/' else e[1], dimexpr(e[3]))
        if e[0] == 'neg':
            return '(-%s)' % dimexpr(e[1])
        raise FortranError('extent in interface of %s' % sub.name)

    def extent(lo, hi):
        if lo == ('int', 1):
            return dimexpr(hi)
        return '(%s - %s + 1)' % (dimexpr(hi), dimexpr(lo))
    # scalars first, then arrays
    for a in pos:
        d = args.get(a)
        if a in sub.external:
            continue
        if d['dims'] is None:
            src.append('    v_%s = __f_scalar(v_%s, %r)' % (a, a, d['type']))
        else:
            src.append('    v_%s = __f_array(v_%s, %r, %d, %r, %r)' % (
                a, a, d['type'], len(d['dims']), a in sub.mod or 'out' in d['intent'], a))
    for a in opt:
        d = args[a]
        if d['dims'] is not None:
            raise FortranError('optional array in interface of %s' % sub.name)
        src.append('    if v_%s is None:' % a)
        m = re.match(r'shape\((\w+),\s*(\d+)\)$', d['default'] or '')
        m2 = re.match(r'\(?\s*len\((\w+)\)\s*([-+]\s*\d+)?\s*\)?$', d['default'] or '')
        if m:
            src.append('        v_%s = __f_shape(v_%s, %s)' % (a, m.group(1), m.group(2)))
        elif m2:
            src.append('        v_%s = __f_shape(v_%s, 0)%s' % (a, m2.group(1), (m2.group(2) or '').replace(' ', '')))
        elif d['default'] is not None and re.match(r'-?\d+(\.\d*)?$', d['default']):
            src.append('        v_%s = %s' % (a, d['default']))
        else:
            raise FortranError('default of %s in interface of %s' % (a, sub.name))
        src.append('    else:')
        src.append('        v_%s = __f_scalar(v_%s, %r)' % (a, a, d['type']))
    for a in pos:
        d = args.get(a)
        if a not in sub.external and d['dims'] is not None:
            src.append('    __f_extent(v_%s, %r, %s)' % (a, a, ', '.join(
                'None' if hi is None else extent(lo, hi) for lo, hi in d['dims'])))
    for a in order:
        if a in pos or a in opt:
            continue
        d = args[a]
        if d['dims'] is not None:
            src.append('    v_%s = __f_alloc(%r, %s)' % (a, d['type'], ', '.join(extent(lo, hi) for lo, hi in d['dims'])))
        else:
            src.append('    v_%s = %s' % (a, '0' if d['type'] == 'i' else '0.0' if d['type'] == 'r' else 'False'))
    src.append('    r__ = f_%s(%s)' % (sub.name, ', '.join('v_' + a for a in order)))
    rets = []
    outs = ([sub.name] if sub.isfun else []) + [d for d in sub.args if d in sub.mod and d not in sub.dims]
    if sub.isfun:
        rets.append('r__[0]')
    for a in order:
        d = args.get(a)
        if d is None or a in sub.external or 'out' not in d['intent']:
            continue
        if d['dims'] is not None:
            rets.append('v_' + a)
        elif a in outs:
            rets.append('__f_out(r__[%d])' % outs.index(a) if d['type'] != 'l' else 'r__[%d]' % outs.index(a))
        else:
            rets.append('v_' + a)
    src.append('    return %s' % (rets[0] if len(rets) == 1 else '(%s)' % ', '.join(rets) if rets else 'None'))
    return ast.parse('\n'.join(src)).body


_cache = {}


def load(path):
    """Python syntax tree equivalent to the extension module"""
    pyf = path[:-2] + '.pyf'
    key = (path, os.path.getmtime(path), os.path.exists(pyf) and os.path.getmtime(pyf))
    if key in _cache:
        return _cache[key]
    subs = {s.name: s for s in parse_file(path)}
    modified(subs)
    body = []
    for s in subs.values():
        body += Lower(s, subs).function()
    ifc = parse_pyf(pyf) if os.path.exists(pyf) else iface_of(subs)
    for nm, i in ifc.items():
        if nm in subs:
            body += wrapper(subs[nm], i, subs)
    tree = ast.Module(body=body, type_ignores=[])
    fix_lines(tree)
    _cache[key] = tree
    return tree


def fix_lines(tree):
    ast.fix_missing_locations(tree)

"""Systematic small edits of one Python source file, analysed in scratch copies (nothing is built or run).
usage: automut.py PROPS file [--func name,name] [--max N] [--every K]: prints the edits no check reports."""
import argparse, ast, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument('props'); ap.add_argument('file'); ap.add_argument('--func'); ap.add_argument('--skip'); ap.add_argument('--max', type=int, default=400)
ap.add_argument('--all', action='store_true', help='print the caught ones too')
a = ap.parse_args()
src = '/repo/package'
text = open(src + '/inference/' + a.file).read()
tree = ast.parse(text)
lines = text.split('\n')
offs = [0]
for l in lines:
    offs.append(offs[-1] + len(l.encode()) + 1)
btext = text.encode()
def span(n):
    return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
muts = []
def rep(n, new, what):
    i, j = span(n)
    muts.append((i, j, new, n.lineno, what))
def seg(n):
    i, j = span(n)
    return btext[i:j].decode()
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['/'], ast.Pow: ['*'], ast.Mod: ['+']}
def walk(n, fn, active):
    for c in ast.iter_child_nodes(n):
        f, act = fn, active
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
            f = fn + '.' + c.name if fn else c.name
            act = not a.func or any(x == c.name or x == f for x in a.func.split(',')) or (active and bool(fn))
            if a.skip and (c.name in a.skip.split(',') or f in a.skip.split(',')):
                act = False
        if act:
            visit(c, f)
        walk(c, f, act)
def visit(c, f):
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        for o in CMP.get(type(c.ops[0]), []):
            rep(c, '%s %s %s' % (seg(c.left), o, seg(c.comparators[0])), f)
    elif isinstance(c, ast.BinOp) and not (isinstance(c.op, ast.Mod) and isinstance(c.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(c.left, 'value', None), str)):
        for o in BIN.get(type(c.op), []):
            rep(c, '(%s) %s (%s)' % (seg(c.left), o, seg(c.right)), f)
    elif isinstance(c, ast.BoolOp):
        o = ' or ' if isinstance(c.op, ast.And) else ' and '
        rep(c, o.join('(%s)' % seg(v) for v in c.values), f)
    elif isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool):
        rep(c, repr(c.value + 1), f)
        if c.value:
            rep(c, '0' if isinstance(c.value, int) else '0.', f)
    elif isinstance(c, ast.Constant) and isinstance(c.value, bool):
        rep(c, repr(not c.value), f)
    elif isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.Not, ast.USub)):
        rep(c, seg(c.operand), f)
    elif isinstance(c, ast.If):
        rep(c.test, 'not (%s)' % seg(c.test), f)
    elif isinstance(c, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Delete, ast.Break)):
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
            return
        rep(c, 'pass', f)
        if isinstance(c, ast.Return) and c.value is not None and isinstance(c.value, ast.Tuple) and len(c.value.elts) > 1:
            e = c.value.elts
            rep(c.value, '(%s)' % ', '.join(seg(x) for x in reversed(e)), f)
    elif isinstance(c, ast.Call) and len(c.args) >= 2 and not any(isinstance(x, ast.Starred) for x in c.args):
        x, y = c.args[:2]
        i, j = span(x)[0], span(y)[1]
        muts.append((i, j, '%s, %s' % (seg(y), seg(x)), c.lineno, f))
walk(tree, '', not a.func)
seen, keep = set(), []
for m in muts:
    new = btext[:m[0]] + m[2].encode() + btext[m[1]:]
    if new in seen:
        continue
    seen.add(new)
    try:
        compile(new, 'x', 'exec')
    except SyntaxError:
        continue
    keep.append((m, new))
random.seed(1)
if len(keep) > a.max:
    keep = sorted(random.sample(keep, a.max), key=lambda x: x[0][3])
print(len(keep), 'mutants', flush=True)
def one(k):
    m, new = keep[k]
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree(src, d + '/package', ignore=shutil.ignore_patterns('*.so', '*.dSYM', '__pycache__', 'build'))
        open(d + '/package/inference/' + a.file, 'wb').write(new)
        st = []
        for pid in a.props.split(','):
            try:
                r = subprocess.run(['python3-vt', '/verif/run.py', pid, '--jobs', '4'], capture_output=True, text=True, timeout=800,
                                   env=dict(os.environ, VERIF_ROOT=d + '/package', VERIF_EVIDENCE=d + '/ev'))
            except subprocess.TimeoutExpired:
                st.append('timeout')
                continue
            if r.returncode == 1:
                return True, pid
            st.append('rc=%d und=%d' % (r.returncode, sum(l.startswith('UNDEC') for l in r.stdout.splitlines())))
        return False, ' '.join(st)
    finally:
        shutil.rmtree(d)
n = 0
with ThreadPoolExecutor(4) as ex:
    for k, (ok, st) in enumerate(ex.map(one, range(len(keep)))):
        n += ok
        m = keep[k][0]
        if a.all or not ok:
            print('%s %4d %-22s %s -> %s  [%s]' % ('ok  ' if ok else 'MISS', m[3], m[4][-22:], ' '.join(btext[m[0]:m[1]].decode().split())[:60], ' '.join(m[2].split())[:60], st), flush=True)
print('%d of %d caught' % (n, len(keep)))

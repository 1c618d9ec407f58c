"""Quick mutation of one source file, analysed in a scratch copy of the sources (nothing is built or run).
usage: mut.py PROPS file < JSON list of [old, new] or [file, old, new]"""
import json, os, shutil, subprocess, sys, tempfile
props = sys.argv[1].split(',')
file = sys.argv[2] if len(sys.argv) > 2 else None
from concurrent.futures import ThreadPoolExecutor
src = '/repo/package'
muts = json.load(sys.stdin)
def one(k):
    m = muts[k]
    f, old, new = m if len(m) == 3 else (file, m[0], m[1])
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree(src, d + '/package', ignore=shutil.ignore_patterns('*.so', '*.dSYM', '__pycache__', 'build'))
        p = d + '/package/inference/' + f
        s = open(p).read()
        if s.count(old) != 1:
            return k, 'BAD PATTERN (%d)' % s.count(old), ''
        open(p, 'w').write(s.replace(old, new))
        out = []
        for pid in props:
            r = subprocess.run(['python3-vt', '/verif/run.py', pid, '--jobs', '4'], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_ROOT=d + '/package', VERIF_EVIDENCE=d + '/ev'))
            lines = [l for l in r.stdout.splitlines() if l.startswith('  ')]
            und = sum(l.startswith('UNDEC') for l in r.stdout.splitlines())
            if r.returncode == 1:
                out.append('CAUGHT %s (%d) %s' % (pid, len(lines), lines[0][:150] if lines else ''))
            else:
                out.append('missed %s rc=%d undecided=%d' % (pid, r.returncode, und) + (r.stderr[-300:] if r.returncode else ''))
        return k, ' | '.join(out), ''
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(3) as ex:
    for k, r, _ in ex.map(one, range(len(muts))):
        m = muts[k]
        print('%2d %-70s %s' % (k, repr(m[-1])[:70], r), flush=True)

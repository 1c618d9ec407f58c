#!/usr/bin/env python3
"""seed.py NAME [--keep]   evaluates seeded/NAME in a private copy of /repo (bind-mounted over /repo in its own mount namespace)
   seed.py --try PATCH PROPS...   applies a patch there and runs the named checks (or all)
Prints: build, stable tests, demo (clean / patched), checks that report."""
import json, os, subprocess, sys, shutil, tempfile

INNER = r'''
set -e
mount --bind "$COPY" /repo
cd /repo
git -c safe.directory='*' checkout -q -- . 
if [ -n "$DEMO" ]; then bash /opt/vp/build.sh >/tmp/s/b0.$$ 2>&1 || echo BUILD0 FAILED; set +e; (cd /repo; timeout 300 bash "$DEMO/demo.sh" >/tmp/s/d0.$$ 2>&1); echo "demo clean: $?"; set -e; fi
git -c safe.directory='*' apply "$PATCH"
bash /opt/vp/build.sh >/tmp/s/b1.$$ 2>&1 && echo "build ok" || { echo "BUILD FAILED"; tail -3 /tmp/s/b1.$$; }
if [ -n "$TESTS" ]; then
bash /opt/vp/test.sh /tmp/s/o.$$ >/dev/null 2>&1 || true
python3 - /tmp/s/o.$$ <<'PY'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
print('stable tests failing:', sorted(b-o))
PY
fi
if [ -n "$DEMO" ]; then set +e; (cd /repo; timeout 300 bash "$DEMO/demo.sh" >/tmp/s/d1.$$ 2>&1); echo "demo patched: $?"; tail -2 /tmp/s/d1.$$; set -e; fi
cd /verif
set +e
for p in $PROPS; do
  out=$(python3-vt run.py $p 2>&1); rc=$?
  if [ $rc = 1 ]; then echo "CAUGHT by $p"; echo "$out" | grep '^  ' | head -3 | cut -c1-300; elif [ $rc != 0 ]; then echo "ERROR $p rc=$rc"; echo "$out" | tail -3; fi
  echo "$out" | grep '^UNDECIDED' | head -2 | cut -c1-300
done
rm -f /tmp/s/*.$$
'''


def main():
    os.makedirs('/tmp/s', exist_ok=True)
    tests = '1' if '--notest' not in sys.argv else ''
    args = [a for a in sys.argv[1:] if a not in ('--notest', '--all')]
    if args[0] == '--try':
        patch, props, demo = os.path.abspath(args[1]), args[2:], ''
        tests = ''
    else:
        d = os.path.abspath('/verif/seeded/' + args[0])
        patch, demo = d + '/patch.diff', d
        props = args[1:] or [json.load(open(d + '/meta.json'))['property']]
    if '--all' in sys.argv or not props:
        props = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    copy = tempfile.mkdtemp(prefix='seed', dir='/tmp/s')
    ev = tempfile.mkdtemp(prefix='ev', dir='/tmp/s')
    subprocess.check_call(['cp', '-a', '/repo/.', copy])
    if demo:
        dd = tempfile.mkdtemp(prefix='demo', dir='/tmp/s')
        subprocess.check_call('cp -a %s/. %s && rm -f %s/*.diff %s/meta.json' % (demo, dd, dd, dd), shell=True)
        demo = dd
    env = dict(os.environ, COPY=copy, PATCH=patch, DEMO=demo, PROPS=' '.join(props), TESTS=tests, VERIF_EVIDENCE=ev)
    try:
        r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER], env=env)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(ev, ignore_errors=True)
        if demo:
            shutil.rmtree(demo, ignore_errors=True)
    return r.returncode


sys.exit(main())

"""mkseed.py NAME PROPERTY  reads JSON {"edits": [[file, old, new]...], "needs":..., "what_it_breaks":..., "demo": python} on stdin"""
import json, os, subprocess, sys, tempfile, shutil
name, prop = sys.argv[1:3]
spec = json.load(sys.stdin)
d = '/verif/seeded/' + name
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(dir='/tmp')
subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
for f, a, b in spec['edits']:
    p = w + '/r/package/inference/' + f
    s = open(p).read()
    assert s.count(a) == 1, (f, a, s.count(a))
    open(p, 'w').write(s.replace(a, b))
diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
open(d + '/patch.diff', 'wb').write(diff)
open(d + '/demo.py', 'w').write(spec['demo'])
open(d + '/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec python "$(dirname "$0")/demo.py"\n')
json.dump(dict(property=prop, needs=spec['needs'], what_it_breaks=spec['what_it_breaks']), open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(w)

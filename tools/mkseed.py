#!/usr/bin/env python3
"""mkseed.py ID...: builds /verif/seeded/ID from tools/seeds/ID.py and confirms it (scratch copies of /repo)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
for sid in sys.argv[1:]:
    spec = {}
    exec(open(V + '/tools/seeds/%s.py' % sid).read(), spec)
    d = V + '/seeded/' + sid
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(V + '/tools/kit', d + '/kit', ignore=lambda p, n: [x for x in n if x in ('demo.sh', '__pycache__')])
    shutil.copytree(V + '/shim', d + '/kit/shim')
    shutil.copy(V + '/tools/kit/demo.sh', d)
    open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/kit")\nfrom kit import *\n' + spec['demo'].lstrip('\n'))
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['what']}, open(d + '/meta.json', 'w'), indent=1)
    w = '/tmp/mkseed-' + sid
    shutil.rmtree(w, ignore_errors=True)
    sh('cp -a /repo %s' % w)
    sh('git checkout -q -- . && git clean -fdq', cwd=w)
    r0 = sh('bash %s/demo.sh' % d, cwd=w)
    for f, old, new in spec['edits']:
        p = w + '/stl-to-ps/' + f
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=w).stdout)
    r1 = sh('bash %s/demo.sh' % d, cwd=w)
    print(sid, 'clean:', r0.returncode, r0.stdout[-300:], '| bug:', r1.returncode, r1.stdout[-300:].strip())
    # builds and passes the stable tests?
    if os.environ.get('NOBUILD'): shutil.rmtree(w, ignore_errors=True); continue
    r = sh('git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/mkseed-out.json; git -C /repo checkout -q -- .' % d)
    try:
        o = json.load(open('/tmp/mkseed-out.json'))
        print('   tests:', json.dumps(o)[:200])
    except Exception as e:
        print('   build/test failed', r.stdout[-800:])
    shutil.rmtree(w, ignore_errors=True)

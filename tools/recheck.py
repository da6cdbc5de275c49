#!/usr/bin/env python3
"""python3 tools/recheck.py [id or prefix ...] [--all-checks]: run the property's quick check against planted bugs kept under seeded/.

With no id: all of them. Results go to tools/catches.json. JOBS=n runs n bugs at a time.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from plant import check, sh
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
todo = sorted(k for k in os.listdir(V + '/seeded') if not ids or any(k.startswith(i) for i in ids))
os.makedirs('/tmp/plant', exist_ok=True)
vcopy = tempfile.mkdtemp(prefix='v_', dir='/tmp/plant')
sh('cp -a %s/run.py %s/lib %s/checks %s/' % (V, V, V, vcopy))


def one(k):
    d = tempfile.mkdtemp(prefix='re_', dir='/tmp/plant')
    try:
        sh('cp -a /repo %s/repo && git -C %s/repo checkout -q -- .' % (d, d))
        a = sh('git -C %s/repo apply %s/seeded/%s/patch.diff' % (d, V, k))
        prop = json.load(open('%s/seeded/%s/meta.json' % (V, k)))['property']
        if a.returncode: return k, prop, None, -1, [a.stderr[:100]]
        return (k, prop) + check(d, prop, vcopy)
    finally:
        shutil.rmtree(d, ignore_errors=True)


f = V + '/tools/catches.json'
with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
    for k, prop, hit, rc, keys in ex.map(one, todo):
        print(k, prop, 'CAUGHT' if hit else '*** MISSED', 'rc=%d' % rc, keys[:4], flush=True)
        c = json.load(open(f)) if os.path.exists(f) else {}
        c[k] = '%s: %s' % (prop, keys[0] if keys else '') if hit else 'missed'
        json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
shutil.rmtree(vcopy, ignore_errors=True)

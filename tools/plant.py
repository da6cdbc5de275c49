#!/usr/bin/env python3
"""Plant bugs: python3 tools/plant.py BUGS.py [id ...]

BUGS.py holds bug(id, property, file, [(old, new), ...], needs, breaks, demo). For each: build the patch in a scratch
copy of /repo, run the demonstration on both trees and the stable tests on the patched one, keep it under
/verif/seeded/<id>/ when all of that is as it should be, and run the property's quick check on the patched tree.
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$(mktemp -d)" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TZ=UTC\n/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\nrc=$?\nrm -rf "$NUMBA_CACHE_DIR"\nexit $rc\n'


def bug(id, prop, file, edits, needs, breaks, demo):
    files = file if isinstance(file, list) else [(file, edits)]
    BUGS.append(dict(id=id, prop=prop, files=files, needs=needs, breaks=breaks, demo=textwrap.dedent(demo).lstrip()))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def edit(path, edits):
    b = open(path, 'rb').read(); crlf = b'\r\n' in b
    for o, n in edits:
        o, n = o.encode(), n.encode()
        if crlf: o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
        if b.count(o) != 1: raise ValueError('%d matches in %s of %r' % (b.count(o), path, o))
        b = b.replace(o, n)
    open(path, 'wb').write(b)


def original_lines(patch):
    """Removed lines that come from the base commit / all removed lines."""
    f = None; orig = tot = 0; base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()[:7]
    for l in patch.splitlines():
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and not l.startswith('---'):
            tot += 1
            w = sh('git -C /repo blame -s --abbrev=7 -L%d,%d HEAD -- %s' % (n, n, f)).stdout.lstrip('^')
            orig += w.startswith(base[:6]); n += 1
        elif l.startswith(' '): n += 1
    return orig, tot


def stage1(b):
    d = tempfile.mkdtemp(prefix='plant_', dir='/tmp/plant'); R = d + '/repo'
    out = dict(id=b['id'], prop=b['prop'], dir=d, ok=False)
    try:
        sh('cp -a /repo %s && git -C %s checkout -q -- .' % (R, R))
        for f, e in b['files']: edit(os.path.join(R, f), e)
        patch = sh('git -C %s diff --no-color' % R).stdout
        out['orig'] = original_lines(patch)
        if out['orig'][0] == 0: out['why'] = 'changes no original line'; return out
        k = d + '/demo'; os.makedirs(k)
        open(k + '/demo.sh', 'w').write(DEMO_SH); open(k + '/demo.py', 'w').write(b['demo']); os.chmod(k + '/demo.sh', 0o755)
        clean = sh('bash %s/demo.sh' % k, cwd='/repo', timeout=300)
        if clean.returncode: out['why'] = 'demo fails on the clean tree: ' + clean.stdout[-500:] + clean.stderr[-700:]; return out
        bad = sh('bash %s/demo.sh' % k, cwd=R, timeout=300)
        if not bad.returncode: out['why'] = 'demo passes with the bug'; return out
        out['demo'] = (bad.stderr or bad.stdout).strip().splitlines()[-1:][0][:200] if (bad.stderr or bad.stdout).strip() else ''
        e = dict(os.environ, PROJECT_DIR_FRM=R, PYTHONPATH=R, MPLBACKEND='Agg', TZ='UTC', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=d + '/pyc', NUMBA_CACHE_DIR=d + '/numba', MPLCONFIGDIR=d)
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                        '--junitxml=' + d + '/junit.xml', 'tests'], cwd=R, env=e, capture_output=True)
        sh('python3 /opt/vp/results.py %s/o.json junit:%s/junit.xml' % (d, d))
        o = json.load(open(d + '/o.json')); stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [t for t in stable if t not in set(o['passed'])]
        if miss: out['why'] = 'tests notice: %s' % miss[:3]; return out
        sh('git -C %s checkout -q -- tests' % R)
        t = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        open(t + '/patch.diff', 'w', newline='').write(subprocess.run(['git', '-C', R, 'diff', '--no-color', '--binary'], capture_output=True).stdout.decode())
        chk = sh('git -C /repo apply --check %s/patch.diff' % t)
        if chk.returncode: out['why'] = 'patch does not apply: ' + chk.stderr; return out
        shutil.copy(k + '/demo.sh', t); shutil.copy(k + '/demo.py', t)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(t + '/meta.json', 'w'), indent=1)
        out['ok'] = True
    except Exception as x:
        out['why'] = repr(x)
    finally:
        if not out['ok']: shutil.rmtree(d, ignore_errors=True)
    return out


def check(d, prop, vcopy, extra=''):
    r = sh('python3 %s/run.py %s %s' % (vcopy, prop, extra), env=dict(os.environ, FRM_REPO=d + '/repo'))
    hit = 'VIOLATION property=' + prop in r.stdout
    keys = [l.strip().split(' x')[0] for l in r.stdout.splitlines() if l.startswith('  ') and ' x' in l]
    return hit, r.returncode, keys


def main():
    for f in sys.argv[1:2]: exec(compile(open(f).read(), f, 'exec'), dict(bug=bug))
    want = set(sys.argv[2:]); todo = [b for b in BUGS if not want or b['id'] in want]
    vcopy = tempfile.mkdtemp(prefix='v_', dir='/tmp/plant')
    sh('cp -a %s/run.py %s/lib %s/checks %s/' % (V, V, V, vcopy))
    res = []
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS","5"))) as ex:
        for o in ex.map(stage1, todo):
            res.append(o)
            print(o['id'], 'OK' if o['ok'] else 'REJECTED: ' + o.get('why', ''), o.get('orig'), o.get('demo', ''), flush=True)
    for o in res:
        if not o['ok']: continue
        hit, rc, keys = check(o['dir'], o['prop'], vcopy)
        print('%s %s %s rc=%d %s' % (o['id'], o['prop'], 'CAUGHT' if hit else '*** MISSED', rc, keys[:4]), flush=True)
        shutil.rmtree(o['dir'], ignore_errors=True)
    shutil.rmtree(vcopy, ignore_errors=True)


if __name__ == '__main__':
    main()

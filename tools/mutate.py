#!/usr/bin/env python3
"""Development: small systematic source changes, to find behaviour the checks do not watch.

mutate.py FILE[,FILE..] [--n N] [--seed S] [--scale X] [--jobs J]: mutants of each file are made in scratch copies of /repo, and the checks
anchored in that file run on each (thinned by --scale, stopping at the first violation). Survivors are printed and kept in OUT.
Nothing here is used by a check.
"""
import warnings; warnings.simplefilter("ignore")
import argparse, ast, glob, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading, queue
SWAP = {'following': 'preceding', 'preceding': 'following', 'left': 'right', 'right': 'left', 'modifiedfollowing': 'following', 'forward': 'backward',
        'call': 'put', 'put': 'call', 'spot': 'forward', 'linear': 'nearest', 'first': 'last', 'last': 'first', 'ffill': 'bfill', 'bfill': 'ffill'}
SKIPFN = {'plot', 'plot_smile', 'simulate_gbm_fx_rate_path', 'simulate_heston_fx_rate_path', 'create_date_grid_for_fx_exposures', '__repr__', '__str__', 'plot_zero_rates', 'display_name'}


def mutants(path):
    src = open(path, 'rb').read()
    lines = src.split(b'\n')
    off = [0]
    for l in lines: off.append(off[-1] + len(l) + 1)
    tree = ast.parse(src)
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(a, b, new, kind, line): out.append((a, b, new.encode() if isinstance(new, str) else new, kind, line))

    def op(l, r, olds, news, kind, line):
        a, b = pos(l)[1], pos(r)[0]
        mid = src[a:b]
        i = mid.find(olds.encode())
        if i >= 0: add(a + i, a + i + len(olds), news, kind, line)

    def walk(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in SKIPFN: return
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]: walk(d, True)
            for s in n.body: walk(s, True)
            return
        if isinstance(n, ast.ClassDef):
            for s in n.body: walk(s, True)
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and ast.dump(n.test).count('__main__'): return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)): return
        if isinstance(n, ast.Assert): n2 = n.test; walk(n2, infn); return
        if isinstance(n, ast.AnnAssign):
            if n.value: walk(n.value, infn)
            return
        if not infn and isinstance(n, (ast.Expr,)): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).split('.')[0] in ('print', 'warnings', 'plt', 'ax', 'fig'): return
        L = getattr(n, 'lineno', 0)
        if isinstance(n, ast.BinOp):
            t = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Pow: ('**', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&')}.get(type(n.op))
            if t: op(n.left, n.right, *t, 'bin', L)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='), ast.In: (' in ', ' not in '), ast.Is: (' is ', ' is not '), ast.IsNot: (' is not ', ' is ')}.get(type(n.ops[0]))
            if t: op(n.left, n.comparators[0], *t, 'cmp', L)
        elif isinstance(n, ast.BoolOp):
            t = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            op(n.values[0], n.values[1], *t, 'bool', L)
            vs = n.values
            for i in range(len(vs)):
                if i == 0: add(pos(vs[0])[0], pos(vs[1])[0], b'', 'dropop', L)
                else: add(pos(vs[i-1])[1], pos(vs[i])[1], b'', 'dropop', L) if src[pos(vs[i-1])[1]:pos(vs[i])[0]].count(b')') == src[pos(vs[i-1])[1]:pos(vs[i])[0]].count(b'(') else None
        elif isinstance(n, (ast.Set, ast.List)) and len(n.elts) > 1 and all(isinstance(e, (ast.Constant, ast.Attribute, ast.Name)) for e in n.elts):
            for i in range(len(n.elts)):
                if i == 0: add(pos(n.elts[0])[0], pos(n.elts[1])[0], b'', 'dropelt', L)
                else: add(pos(n.elts[i-1])[1], pos(n.elts[i])[1], b'', 'dropelt', L)
        elif isinstance(n, ast.UnaryOp):
            a, b = pos(n); a2, _ = pos(n.operand)
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)): add(a, a2, b'(' if src[a:a2].endswith(b'(') else b'', 'unary', L)
        elif isinstance(n, ast.Constant):
            a, b = pos(n)
            if n.value is True: add(a, b, 'False', 'const', L)
            elif n.value is False: add(a, b, 'True', 'const', L)
            elif isinstance(n.value, int): add(a, b, str(n.value + 1), 'const', L)
            elif isinstance(n.value, float): add(a, b, repr(n.value * 1.05 if n.value else .01), 'const', L)
            elif isinstance(n.value, str) and n.value in SWAP: add(a, b, repr(SWAP[n.value]), 'str', L)
        elif isinstance(n, (ast.If, ast.IfExp)):
            a, b = pos(n.test); add(a, b, 'True', 'iftrue', L); add(a, b, 'False', 'iffalse', L)
        elif isinstance(n, ast.Call):
            f = n.func
            a, b = pos(n)
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if isinstance(f, ast.Attribute):
                if name in ('copy', 'sort_values', 'sort_index', 'sort', 'reset_index', 'flatten', 'ravel', 'normalize', 'strip', 'lower', 'drop_duplicates', 'to_numpy', 'round') and not (isinstance(f.value, ast.Name) and f.value.id in ('np', 'pd', 'copy')):
                    add(a, b, src[pos(f.value)[0]:pos(f.value)[1]], 'dropcall', L)
                if name in ('abs', 'atleast_1d', 'asarray', 'array', 'sort', 'real', 'exp', 'sqrt', 'floor') and isinstance(f.value, ast.Name) and n.args:
                    add(a, b, b'(' + src[pos(n.args[0])[0]:pos(n.args[0])[1]] + b')', 'dropcall', L)
            if n.keywords:
                prev = pos(n.args[-1])[1] if n.args else None
                for i, k in enumerate(n.keywords):
                    e = pos(k.value)[1]
                    if prev is not None: add(prev, e, b'', 'dropkw', L)
                    elif i + 1 < len(n.keywords): add(pos(k)[0], pos(n.keywords[i+1])[0], b'', 'dropkw', L)
                    prev = e
            for x, y in (('minimum', 'maximum'), ('maximum', 'minimum'), ('min', 'max'), ('max', 'min'), ('any', 'all'), ('all', 'any'), ('argmin', 'argmax'), ('argmax', 'argmin')):
                if name == x:
                    e = pos(f)[1]; add(e - len(x), e, y, 'minmax', L)
            if name not in ('ValueError',):
                for k in n.keywords:
                    if isinstance(k.value, ast.Constant) and k.arg and isinstance(k.value.value, bool): pass
        if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,))) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = pos(n); add(a, b, 'pass', 'delete', L)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.JoinedStr) or isinstance(c, ast.arguments): continue
            walk(c, infn)
    for s in tree.body: walk(s, False)
    good = []
    for a, b, new, kind, line in out:
        m = src[:a] + new + src[b:]
        if m == src: continue
        try: compile(m, path, 'exec')
        except SyntaxError: continue
        good.append((m, kind, line, src[:a].split(b'\n')[-1].decode('utf8', 'replace').strip()[-60:] + '[[' + src[a:b].decode('utf8', 'replace')[:60] + '=>' + new.decode('utf8', 'replace')[:40] + ']]' + src[b:].split(b'\n')[0].decode('utf8', 'replace').strip()[:50]))
    return good


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files'); ap.add_argument('--n', type=int, default=60); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--scale', default='0.25'); ap.add_argument('--jobs', type=int, default=7); ap.add_argument('--out', default='/tmp/mut.jsonl')
    ap.add_argument('--checks'); ap.add_argument('--lines'); ap.add_argument('--kinds')
    a = ap.parse_args()
    anchors = {}
    for c in sorted(glob.glob('/verif/checks/c??.py')):
        if c.endswith(('c29.py',)): continue
        s = open(c).read(); s = s[s.index('ANCHORS'):]; s = s[:s.index(']')]
        for f in re.findall(r"'(frm/[^']*)'", s): anchors.setdefault(f, []).append(os.path.basename(c)[:-3].upper())
    work = []
    for f in a.files.split(','):
        ms = [m for m in mutants('/repo/' + f) if not a.kinds or m[1] in a.kinds.split(',')]
        if a.lines:
            lo, hi = map(int, a.lines.split('-')); ms = [m for m in ms if lo <= m[2] <= hi]
        random.Random(a.seed).shuffle(ms)
        checks = a.checks.split(',') if a.checks else sorted(anchors.get(f, []), key=lambda c: (c in ('C30',), c))
        print(f, len(ms), 'mutants,', checks, flush=True)
        for m in ms[:a.n]: work.append((f, checks) + m)
    q = queue.Queue()
    for i in range(a.jobs):
        d = '/tmp/mw%d' % i
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', d]); q.put(d)
    lock = threading.Lock(); tally = {}

    def one(w):
        f, checks, m, kind, line, txt = w
        d = q.get()
        orig = open('/repo/' + f, 'rb').read()
        try:
            open(d + '/' + f, 'wb').write(m)
            killed, rcs = None, []
            env = dict(os.environ, FRM_REPO=d, FRMMON_FIRST='1', FRMMON_SCALE=a.scale)
            for c in checks:
                try:
                    p = subprocess.run([sys.executable, '/tmp/vv/run.py', c, '--workers', '1'], env=env, capture_output=True, text=True, timeout=400)
                    rc, o = p.returncode, p.stdout
                except subprocess.TimeoutExpired: rc, o = 'timeout', ''
                rcs.append(rc)
                if rc not in (0, 3): killed = c; break
            r = dict(file=f, line=line, kind=kind, text=txt, killed=killed, rcs=rcs)
            with lock:
                open(a.out, 'a').write(json.dumps(r) + '\n')
                t = tally.setdefault(f, [0, 0]); t[0 if killed else 1] += 1
                if not killed: print('SURVIVED %s:%d %s %s %s' % (f, line, kind, txt, rcs), flush=True)
        finally:
            open(d + '/' + f, 'wb').write(orig); q.put(d)
    with ThreadPoolExecutor(a.jobs) as ex: list(ex.map(one, work))
    for f, t in tally.items(): print(f, 'killed', t[0], 'survived', t[1])
    while not q.empty(): shutil.rmtree(q.get(), ignore_errors=True)


main()

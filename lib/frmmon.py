"""Monitor framework: seeded workloads, reference-model oracles, evidence.

A check module (checks/cNN.py) defines PROPERTY, RULE, ANCHORS and SECTIONS, a list of
Section(name, fn, quick, thorough). fn(m, rng) runs one workload case: it calls the real code through m.call(),
and hands what it observed to the oracle through m.ok / m.close. Every case is a pure function of
(seed, section, index), so a replay file names exactly those three.
"""
import argparse, contextlib, hashlib, importlib, json, multiprocessing, os, sys, time, traceback, warnings

warnings.filterwarnings('ignore')
import logging
logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FRM_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class CaseAbort(Exception):
    """The case cannot go on (its violation, if any, is already recorded)."""


class Section:
    def __init__(self, name, fn, quick, thorough, require=()):
        self.name, self.fn, self.quick, self.thorough, self.require = name, fn, quick, thorough, tuple(require)


def jsonable(x, depth=0):
    if isinstance(x, (str, bool, type(None), int)):
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item()) if not isinstance(x, np.datetime64) else str(x)
    if isinstance(x, (pd.Timestamp,)):
        return x.isoformat()
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 40 else 'array%s[%s..]' % (x.shape, jsonable(x.ravel()[:5].tolist()))
    if isinstance(x, pd.DataFrame):
        return x.head(20).astype(str).to_dict('list')
    if isinstance(x, (pd.Series, pd.Index)):
        return [str(v) for v in list(x)[:40]]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return str(x)[:300]


class Mon:
    """What one worker observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events, self.violations, self.digests, self.samples = {}, [], set(), {}
        self.evaluations = self.judgements = self.calls = 0
        self.section = self.index = None
        self.case_desc = None
        self.probe = None

    # --- workload side
    def rng(self, section, index):
        h = int.from_bytes(hashlib.sha256(('%s|%s' % (self.prop, section)).encode()).digest()[:8], 'little')
        return np.random.default_rng([self.seed, h, index])

    def case(self, nontrivial=True, **desc):
        """Declare the input of the current case (for evidence and witness)."""
        self.case_desc = desc
        if nontrivial:
            d = hashlib.blake2b(json.dumps([self.section, jsonable(desc)], sort_keys=True).encode(), digest_size=8)
            self.digests.add(d.hexdigest())
        if len(self.samples.setdefault(self.section, [])) < 2:
            self.samples[self.section].append(jsonable(desc))

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    # --- observation side
    def call(self, key, fn, *a, **k):
        """Run the code under test; an exception on an input the property admits is a violation."""
        self.calls += 1
        name = self.probe.wants(fn) if self.probe else None
        twin = self.probe.twin(a, k) if name else None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    r = fn(*a, **k)
        except CaseAbort:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.fail(key + ':raised', {'exception': '%s: %s' % (type(e).__name__, str(e)[:300]),
                                        'at': ['%s:%s %s' % (os.path.relpath(f.filename, REPO), f.lineno, f.name) for f in tb[-4:]]})
            raise CaseAbort(key)
        if twin is not None:
            self.probe.check(fn, twin, name)
        return r

    def refuses(self, key, fn, *a, **k):
        """The property says this input is refused: anything but an exception is a violation."""
        self.calls += 1
        self.judgements += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    r = fn(*a, **k)
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException:
            return True
        self.fail(key + ':accepted', {'returned': r})
        return False

    def fail(self, key, witness=None):
        self.violations.append({'key': key, 'section': self.section, 'index': self.index,
                                'case': jsonable(self.case_desc), 'witness': jsonable(witness)})

    def ok(self, cond, key, witness=None):
        self.judgements += 1
        try:
            good = bool(np.all(cond))
        except Exception:
            good = False
        if not good:
            self.fail(key, witness() if callable(witness) else witness)
        return good

    def close(self, got, want, key, rtol=1e-9, atol=1e-12, witness=None):
        self.judgements += 1
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            good = g.shape == w.shape or g.size == w.size == 1
            if good:
                g, w = g.reshape(-1), w.reshape(-1)
                both_nan = np.isnan(g) & np.isnan(w)
                with np.errstate(all='ignore'):
                    good = bool(np.all(both_nan | (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w)))
        except Exception as e:
            good, g, w = False, repr(got)[:300], repr(want)[:300]
        if not good:
            self.fail(key, {'got': got, 'want': want, 'rtol': rtol, 'atol': atol,
                            **((witness() if callable(witness) else witness) or {})})
        return good

    def run_case(self, section, index):
        self.section, self.index, self.case_desc = section.name, index, None
        self.evaluations += 1
        rng = self.rng(section.name, index)
        np.random.seed(int(rng.integers(2 ** 31)))
        try:
            section.fn(self, rng)
        except CaseAbort:
            pass
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            # The oracle could not interpret what the code under test returned (wrong type, shape or columns).
            tb = traceback.extract_tb(e.__traceback__)
            self.fail('%s:malformed-result' % section.name,
                      {'exception': '%s: %s' % (type(e).__name__, str(e)[:300]),
                       'at': ['%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-3:]]})

    def export(self):
        return dict(events=self.events, violations=self.violations, digests=sorted(self.digests), samples=self.samples,
                    evaluations=self.evaluations, judgements=self.judgements, calls=self.calls)


# --- reach: which source lines of the code under test the workload executed
REACHED = {}


def start_reach():
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, 'frmmon')
    root = os.path.realpath(REPO) + os.sep + 'frm' + os.sep

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(root):
            REACHED.setdefault(f[len(root) - 4:], set()).add(line)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def executable_lines(path):
    """Lines inside functions of a source file (module-level lines run at import)."""
    src = open(path).read()
    out = set()

    def walk(co, top):
        if not top:
            out.update(l for _, _, l in co.co_lines() if l)
        for c in co.co_consts:
            if hasattr(c, 'co_code'):
                walk(c, False)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        walk(compile(src, path, 'exec'), True)
    return out


def worker(args):
    modname, prop, tier, seed, jobs = args
    mod = sys.modules[modname]
    by = {s.name: s for s in mod.SECTIONS}
    m = Mon(prop, tier, seed)
    if prop != 'C29':       # C29 watches every call itself
        import purity
        purity.fresh_start()
        m.probe = purity.Probe(m, *((1.5, 6.0) if tier == 'quick' else (10.0, 60.0)))
    t = {}
    quiet = open(os.devnull, 'w')   # the code under test prints notices
    for name, idx in jobs:
        t0 = time.time()
        with contextlib.redirect_stdout(quiet):
            m.run_case(by[name], idx)
        t[name] = t.get(name, 0.0) + time.time() - t0
        if len(m.violations) > (0 if os.environ.get('FRMMON_FIRST') else 400):   # FRMMON_FIRST: development only
            break
    out = m.export()
    out['time'] = t
    out['reached'] = {k: sorted(v) for k, v in REACHED.items()}
    return out


def load_known(prop):
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('KNOWN property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                known[key.split('=', 1)[1]] = text.strip()
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    sys.modules['frmmon'] = sys.modules['__main__']
    import frm
    assert os.path.realpath(frm.__file__).startswith(os.path.realpath(REPO) + os.sep), frm.__file__
    start_reach()
    modname = 'checks.' + a.prop.lower()
    mod = importlib.import_module(modname)
    assert mod.PROPERTY == a.prop

    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier = r['seed'], r['tier']
        jobs = [(v['section'], v['index']) for v in r['violations'][:5]]
    else:
        jobs = [(s.name, i) for s in mod.SECTIONS if not a.only or a.only in s.name
                for i in range(s.quick if a.tier == 'quick' else s.thorough)]
    if os.environ.get('FRMMON_SCALE'):       # development only: a thinned workload
        k = float(os.environ['FRMMON_SCALE'])
        jobs = sorted([j for j in jobs if j[1] * k % 1 < k], key=lambda j: j[1])
    nw = a.workers or min(8, os.cpu_count() or 1)
    if a.replay:
        nw = 1
    if hasattr(mod, 'warmup'):
        mod.warmup()
    shards = [jobs[i::nw] for i in range(nw)]
    if nw == 1:
        outs = [worker((modname, a.prop, a.tier, a.seed, shards[0]))]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(nw) as pool:
            outs = pool.map(worker, [(modname, a.prop, a.tier, a.seed, s) for s in shards], chunksize=1)

    ev, viol, dig, samples, reached, tm = {}, [], set(), {}, {}, {}
    tot = dict(evaluations=0, judgements=0, calls=0)
    for o in outs:
        for k, v in o['events'].items():
            ev[k] = ev.get(k, 0) + v
        viol += o['violations']
        dig.update(o['digests'])
        for k, v in o['samples'].items():
            samples.setdefault(k, []).extend(v)
        for k, v in o['reached'].items():
            reached.setdefault(k, set()).update(v)
        for k, v in o['time'].items():
            tm[k] = round(tm.get(k, 0.0) + v, 2)
        for k in tot:
            tot[k] += o[k]
    viol.sort(key=lambda v: (v['key'], v['section'], v['index']))
    known = load_known(a.prop)
    new = [v for v in viol if v['key'] not in known]
    seen_known = sorted({v['key'] for v in viol if v['key'] in known})

    reach = {}
    for f in mod.ANCHORS:
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            ex = executable_lines(p)
            reach[f] = '%d/%d function lines executed' % (len(ex & reached.get(f, set())), len(ex))
            if os.environ.get('FRMMON_UNREACHED'):   # for development: lines the workload never ran
                src = open(p).read().splitlines()
                with open(os.environ['FRMMON_UNREACHED'], 'a') as o:
                    for l in sorted(ex - reached.get(f, set())): o.write('%s:%d:%s\n' % (f, l, src[l - 1]))
    sec_counts = {}
    for s, _ in jobs:
        sec_counts[s] = sec_counts.get(s, 0) + 1
    missing = []
    if not a.replay and not a.only:
        for s in mod.SECTIONS:
            for r in s.require:
                if ev.get(r, 0) == 0:
                    missing.append('%s: event %r never observed' % (s.name, r))
        if tot['judgements'] == 0 or not dig:
            missing.append('nothing was observed')

    wall = time.time() - t0
    evidence = dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration',
                    coverage=dict(evaluations=tot['evaluations'], distinct_nontrivial=len(dig), rule=mod.RULE,
                                  samples=[{'section': k, 'case': c} for k, v in sorted(samples.items()) for c in v[:2]],
                                  calls_into_code_under_test=tot['calls'], oracle_judgements=tot['judgements'],
                                  cases_per_section=sec_counts, seconds_per_section=tm,
                                  events_observed=dict(sorted(ev.items())), reach=reach),
                    assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(new))
    if not a.replay and not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % a.prop)
        json.dump(evidence, open(tmp, 'w'), indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', a.prop + '.json'))

    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s [%s]' % (a.prop, known[k], k))
    print('%s %s seed=%d: %d cases, %d distinct, %d calls, %d judgements, %.1f s' % (
        a.prop, a.tier, a.seed, tot['evaluations'], len(dig), tot['calls'], tot['judgements'], wall))
    if a.verbose:
        print(json.dumps(tm), json.dumps(ev), json.dumps(reach), sep='\n')
    if new:
        if a.replay:
            path = a.replay
        else:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s_%s_%d.json' % (a.prop, a.tier, a.seed))
            by, pick = {}, []
            for v in new:
                by.setdefault(v['key'], []).append(v)
            for k, v in by.items():
                pick += v[:3]
            json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, violations=pick), open(path, 'w'), indent=1, default=str)
        counts = {}
        for v in new:
            counts[v['key']] = counts.get(v['key'], 0) + 1
        for k, n in sorted(counts.items(), key=lambda x: -x[1])[:12]:
            v = next(x for x in new if x['key'] == k)
            print('  %s x%d  [%s #%d] case=%s witness=%s' % (k, n, v['section'], v['index'],
                  json.dumps(v['case'], default=str)[:400], json.dumps(v['witness'], default=str)[:450]))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if missing:
        print('INCONCLUSIVE: ' + '; '.join(missing))
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())

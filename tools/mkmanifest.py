"""Write MANIFEST.json from the check modules present in checks/."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOT_APPLICABLE = {}
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'Check not built yet.')))
        continue
    env = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('ASSUMPTIONS', 'TECHNIQUE'):
            try:
                env[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    ass = env.get('ASSUMPTIONS', [])
    checks.append(dict(
        property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'],
        thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
        technique=env.get('TECHNIQUE', 'runtime monitoring: oracle (independent reference model and algebraic laws) observing the real code under seeded random and boundary workloads'),
        level='exploration',
        level_note='No violation among the executions generated for the seed (counts, reach and events in the evidence file); not exhaustive. Trusts the reference model in the check, numpy, scipy and pandas.' + (' Assumes: ' + ' '.join(ass) if ass else '')))
json.dump(dict(version=1, setup_cmd='python3 run.py --setup', hooks=dict(guard='FRM_MONITOR', enable='No hooks were added to /repo: the monitors observe public functions and interpreter events (sys.monitoring) from outside.', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='Pure Python library: nothing is compiled; each check imports /repo/frm afresh with scratch bytecode and numba caches.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

#!/usr/bin/env python3
"""python3 tools/catches.py PLANT_OUTPUT...: record in catches.json which planted bugs were caught and by which judgement."""
import ast, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = V + '/tools/catches.json'
c = json.load(open(f)) if os.path.exists(f) else {}
for a in sys.argv[1:]:
    for l in open(a):
        m = re.match(r'(\S+) (C\d\d) (CAUGHT|\*\*\* MISSED) rc=\d+ (\[.*)', l)
        if not m: continue
        keys = ast.literal_eval(m.group(4))
        c[m.group(1)] = '%s: %s' % (m.group(2), keys[0] if keys else '') if m.group(3) == 'CAUGHT' else 'missed'
json.dump(c, open(f, 'w'), indent=1, sort_keys=True)

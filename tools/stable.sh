#!/bin/bash
# Runs the repository's tests and prints stable tests that did not pass.
bash /opt/vp/test.sh /tmp/stable_out.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stable_out.json'))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print('stable', len(b['stable']), 'not passing', len(miss), miss[:5]); print('failed', len(o['failed']))"
git -C /repo status --short | head

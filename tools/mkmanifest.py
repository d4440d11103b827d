"""Writes MANIFEST.json from the table of what is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.claims import CLAIMS, NOT
checks = []
for pid in sorted(CLAIMS):
    level, technique, note = CLAIMS[pid]
    checks.append(dict(property=pid, quick_cmd=f'python3 check.py {pid} --tier quick',
                       thorough_cmd=f'python3 check.py {pid} --tier thorough',
                       technique=technique, level=level, level_note=note))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = [dict(property=p, reason=NOT.get(p, 'not reached: no check for it is built yet')) for p in ids if p not in CLAIMS]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='see DESIGN.md; the checks add no hook to /repo'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed')

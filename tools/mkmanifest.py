"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import tasks
tasks.load_all()
from dv.harness import TASKS
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
have = {p for t in TASKS.values() for p in t.props}
NA = {}
TECH = 'contract-based deductive verification: path-exhaustive symbolic execution of the extracted source, obligations discharged by z3'
NOTE = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks = []
for p in props:
    if p in have:
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p,
                           technique=TECH, level=LEVEL.get(p, 'proof'), level_note=NOTE.get(p, DEFAULT)))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, 'no check yet')) for p in props if p not in have],
         notes='No hooks in /repo: the checks read its sources and import the unmodified package. Repairs are listed in known_findings.json.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), [x['property'] for x in m['not_applicable']])

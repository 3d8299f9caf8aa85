"""Writes MANIFEST.json from the rule registry and the texts below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from sa import core, allrules  # noqa
from sa.notes import TECH, NOTE, NA

props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for i in props:
    if core.RULES.get(i) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH[i], level='other', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 --version && clang++-18 --version', checks=checks, not_applicable=na,
               notes='Static analysis of /repo source only (python3 stdlib + the clang++ 18 front end); nothing of batoid is executed by a check. See DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na], 'not')

"""Writes MANIFEST.json from the properties and the profiles."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.profile import PROFILE  # noqa: E402

NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if i not in PROFILE:
    na.append(dict(property=i, reason=NA.get(i, 'the check is not built yet')))
    continue
  prof = PROFILE[i]
  checks.append(dict(
      property=i,
      quick_cmd=f'python3 check.py {i} --tier quick',
      thorough_cmd=f'python3 check.py {i} --tier thorough',
      evidence_file=f'evidence/{i}.json',
      technique='deterministic simulation with fault injection: seeded '
      'search over ' + prof['search'] + '; oracle: ' + prof['oracle'],
      level='exploration', level_note=prof['note']))
doc = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
           not_applicable=na,
           notes='No hooks in /repo: every seam is an existing interface '
           '(tensor operations, file system layer, HDF5 module, CUDA runtime '
           'headers). See DESIGN.md; known and repaired defects are in '
           'known_findings.jsonl.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(doc, f, indent=1)
  f.write('\n')

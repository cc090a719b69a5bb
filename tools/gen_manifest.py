"""Writes MANIFEST.json from the scenario registry and the list of properties that are not claimed."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.registry import SCENARIOS, NOT_APPLICABLE

checks = []
for pid in sorted(SCENARIOS):
    checks.append({
        'property': pid,
        'quick_cmd': f'python3-vt -m sa.run {pid}',
        'thorough_cmd': f'python3-vt -m sa.run {pid} --thorough',
        'technique': 'static analysis: interprocedural abstract interpretation of the source with value numbering, trace partitioning, heap '
                     'aliasing and effect tracking; ' + SCENARIOS[pid]['rule'],
        'level': 'other',
        'level_note': 'The current source is abstractly interpreted, never executed: symbolic arrays of unknown length and values, one analysis per trace '
                      'partition. An obligation is discharged by equal canonical value numbers (or a decided heap/effect fact), or else by random '
                      'interpretation of the value numbers (sound for alarms: an alarm needs two interpretations consistent with the path; one-sided for '
                      'equalities). Library behaviour of numpy/scipy is modelled by hand. Undecided obligations are counted in the evidence and claimed by nobody.',
    })
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q sa', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT_APPLICABLE.items()) if p not in SCENARIOS]}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
ids = {json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))}
missing = ids - set(SCENARIOS) - set(NOT_APPLICABLE)
print("missing:", sorted(missing))

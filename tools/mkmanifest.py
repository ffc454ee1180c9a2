"""Writes ../MANIFEST.json from the property list and the check modules present."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
import sys
sys.path.insert(0, here)
from techs import T
TECH = {k: v[0] for k, v in T.items()}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'props', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
            technique=TECH.get(i, 'runtime monitoring: seeded workloads on the real code, reference-model oracle at the public API'),
            level='exploration',
            level_note='Held on the executions driven by the seeded workload (counts and samples in the evidence file); '
                       'nothing is claimed about inputs the workload does not produce. Trusts numpy/scipy/unum and the '
                       'independent reference model in /verif.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
           notes='Pure Python, no native code, no threads: monitors are attached from the harness at the public API '
                 '(no hooks in /repo). Fixes of genuine defects are "fix:" commits, listed in known_findings.json.')
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')

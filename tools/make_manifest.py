"""writes /verif/MANIFEST.json"""
import json
import os
import jsonschema
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B check.py '
EXPL = 'all explicit Runge-Kutta and Nystrom solvers'
TECH = ('contract-based deductive verification: obligations generated from the current source by '
        'symbolic execution of the real functions with the loop rule (vc/), discharged by normal form '
        'and z3; bounded run-time contract monitors stand in where labelled')
CHECKS = {}
NA = {}


def claim(p, note, level='proof', tech=TECH):
    CHECKS[p] = dict(property=p, quick_cmd=PY + p,
                     thorough_cmd=f'VERIF_TIER=thorough {PY}{p}',
                     technique=tech, level=level, level_note=note)


exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/setup_check.py',
         checks=[CHECKS[i] for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA])
assert set(ids) == set(CHECKS) | set(NA) and not set(CHECKS) & set(NA), set(ids) ^ (set(CHECKS) | set(NA))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks')

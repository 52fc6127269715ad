"""Write MANIFEST.json from the checks that exist (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python run.py '
T = {
 'catalog': ('TLA+ catalog of operations (TLC), replayed on the real code',
             'TLC enumerates every catalog entry of the operation with all small shapes, axes, parameters and repeated operands, '
             'derives shape, elements and derivatives symbolically; each entry is replayed on the real code at several points. '
             'Assumes float64 evaluation of the symbolic terms and OpenMDAO itself.'),
}
KIND = {c: 'catalog' for c in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C11', 'C22')}
try:
    from manifest_notes import T as T2, KIND as K2
    T.update(T2)
    KIND.update(K2)
except ImportError:
    pass
checks = []
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
missing = []
for p in props:
    if not os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
        missing.append(p)
        continue
    tech, note = T[KIND[p]]
    checks.append({'property': p, 'quick_cmd': PY + p, 'thorough_cmd': PY + '--thorough ' + p,
                   'technique': tech, 'level': 'model_checking', 'level_note': note})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python run.py --self-test',
           'checks': checks,
           'not_applicable': [{'property': p, 'reason': 'the check is still being built'} for p in missing],
           'notes': 'Specification language: TLA+ with TLC. No hooks in /repo are needed.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), missing)

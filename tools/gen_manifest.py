'''Writes MANIFEST.json: a check for every property with a module in checks/.'''
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

TECHNIQUE = {
    'C28': 'fault injection: every distinct on-disk state of generated connect histories is '
           'reopened and compared with a reference block tree (property-based testing)',
}
DEFAULT = ('property-based testing: structured Hypothesis generators with enumeration, decided '
           'against an independent reference model, with shrinking')
STATEFUL = ('model-based stateful property testing: generated operation histories against a '
            'reference block tree, with shrinking')
for ident in ('C25', 'C26', 'C27'):
    TECHNIQUE[ident] = STATEFUL

props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    ident = p['id']
    if not os.path.exists(os.path.join(ROOT, 'checks', ident.lower() + '.py')):
        missing.append({'property': ident, 'reason': 'check not built yet'})
        continue
    info = json.loads(subprocess.run(
        [PY, os.path.join(ROOT, 'run.py'), '--describe', ident], check=True,
        capture_output=True, text=True).stdout)
    if 'error' in info:
        sys.exit(info['error'])
    checks.append({
        'property': ident,
        'quick_cmd': f'{PY} run.py {ident} --tier quick',
        'thorough_cmd': f'{PY} run.py {ident} --tier thorough',
        'evidence_file': f'evidence/{ident}.json',
        'technique': TECHNIQUE.get(ident, DEFAULT),
        'level': info['level'],
        'level_note': info['rule'],
    })
manifest = {'version': 1, 'setup_cmd': f'{PY} run.py --selftest', 'checks': checks,
            'not_applicable': missing}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(missing), 'missing')

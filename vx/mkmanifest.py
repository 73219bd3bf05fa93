import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
shape = json.load(open(os.path.join(here, 'contracts', 'shape.json')))
notes = json.load(open(os.path.join(here, 'vx', 'levels.json')))
checks = []
for p in props:
    i = p['id']
    level, note = notes.get(i, ['exploration', notes['default']])
    shape['levels'][i] = level
    checks.append({
        'property': i,
        'quick_cmd': f'python3 check.py {i} quick',
        'thorough_cmd': f'python3 check.py {i} thorough',
        'technique': 'contract-based deductive verification of the extracted source (Verus)' + ('' if level == 'proof' else ', bounded stand-in for functions without discharged contract'),
        'level': level,
        'level_note': note,
    })
json.dump(shape, open(os.path.join(here, 'contracts', 'shape.json'), 'w'), indent=1)
json.dump({'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': []}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

"""Write MANIFEST.json from the contracts and the bounded stand-ins that exist."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lst = json.loads(subprocess.run(['python3-vt', '-m', 'pyvc.list'], cwd=HERE, capture_output=True, text=True, check=True).stdout)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    mine = [c for c in lst if i in c['props'] and not c['assumed']]
    bounded = os.path.exists(os.path.join(HERE, 'bounded', i.lower() + '.py'))
    if not mine and not bounded:
        na.append({'property': i, 'reason': 'no check built yet'})
        continue
    fns = sorted({c['target'].split(':')[1] if c['target'] else c['name'] for c in mine})
    if mine:
        level, tech = 'proof', 'contract-based deductive verification of the real functions (pyvc: VCs from the current source, discharged by z3) plus a bounded stand-in for the functions outside the subset'
        note = ('Proved for all inputs, against the current source: ' + ', '.join(fns) + '. Trusted: pyvc and z3, the symbolic start '
                'states and the assumed contracts listed in the evidence. The rest of the path is covered by a bounded stand-in '
                '(labelled bounded, never counted as proved).')
    else:
        level, tech = 'exploration', 'bounded stand-in of the contracts (run-time checked against an independent model on the real code)'
        note = 'Bounded only: the functions behind this property are outside the subset of the verifier (see DESIGN.md).'
    checks.append({'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough',
                   'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt -m pyvc.list >/dev/null', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: nothing in /repo is instrumented. Each check parses /repo\'s current source and imports it from there.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [c['property'] for c in checks if c['level'] == 'proof'], 'with proofs; na', [x['property'] for x in na])

"""Generates properties.jsonl and MANIFEST.json from tools/props.py (kept in one place so they stay in step)."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['tests'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': x.strip(), 'where': p['files'][0]} for x in re.split('[,;/] ', p['mech'])]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt nmv/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'nmv is a deductive verifier over the LLVM IR of /repo\'s current sources; see DESIGN.md. No hooks are needed in /repo.'}
for p in PROPS:
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt nmv/run.py %s' % p['id'],
                            'thorough_cmd': 'VERIF_TIER=thorough python3-vt nmv/run.py %s' % p['id'],
                            'technique': p.get('technique', 'contract-based deductive verification of the compiled source (LLVM IR, loop invariants, z3)'),
                            'level': p.get('level', 'proof'), 'level_note': p['note']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')

"""Writes /verif/MANIFEST.json: a check for every property with a module mc/pNN.py, a reason for every other."""
import json, os, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    f = os.path.join(H, 'mc', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet'))); continue
    env = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) in ('BOUND', 'TECH', 'NOTE'):
            env[node.targets[0].id] = ast.literal_eval(node.value)
    b = env['BOUND']; b = b['quick'] if isinstance(b, dict) else b
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=env.get('TECH', 'explicit-state bounded exhaustive exploration of the real code against a reference model'), level='model_checking',
        level_note='Every case of a finite space is executed on the current tree and compared with an independent reference model (stateless model checking; replayable). Bound: '
                   + b + ' Trusts numpy' + env.get('NOTE', ', Python and the reference model.')))
json.dump(dict(version=1, setup_cmd='./check.sh setup', checks=checks, not_applicable=na,
   notes='No hooks were needed in /repo: checks drive the public API and rebuild the C extensions of the current tree under /verif/.cache.'),
   open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

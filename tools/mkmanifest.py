"""Write /verif/MANIFEST.json from the list of checks."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(V, 'properties.jsonl'))]
info = json.load(open(os.path.join(V, 'tools', 'checks.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in info['checks'] and os.path.exists(
            os.path.join(V, 'harness', i.lower()+'.py')):
        c = info['checks'][i]
        checks.append(dict(
            property=i, quick_cmd=f'./check.sh {i}',
            thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',
            evidence_file=f'evidence/{i}.json', technique=c['technique'],
            level=c.get('level', 'model_checking'), level_note=c.get('note') or 'Exhaustive within small bounds of the model, simulated beyond; conformance by replay into the code'))
    else:
        na.append(dict(property=i, reason=info['not_applicable'].get(
            i, 'check under construction')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes=info['notes'])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')

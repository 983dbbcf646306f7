import json,sys
f='/verif/tools/checks.json'
d=json.load(open(f))
new=json.load(sys.stdin)
d['checks'].update(new.get('checks',{}))
d['not_applicable'].update(new.get('not_applicable',{}))
json.dump(d,open(f,'w'),indent=1)
k='/verif/known_findings.json'
kk=json.load(open(k))
for x in new.get('fixed',[]):
    if x not in kk['fixed']: kk['fixed'].append(x)
for x in new.get('findings',[]):
    kk['findings'].append(x)
json.dump(kk,open(k,'w'),indent=1)

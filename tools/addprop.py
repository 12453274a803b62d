import json,sys
P='/verif/tools/props.json'
d=json.load(open(P))
new=json.load(sys.stdin)
for n in new:
    d['properties']=[p for p in d['properties'] if p['id']!=n['id']]+[n]
d['properties'].sort(key=lambda p:p['id'])
json.dump(d,open(P,'w'),indent=1)

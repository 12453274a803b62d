import json,subprocess,sys
# usage: fixed.py 'substr' PROP ...
P='/verif/known_findings.json'
d=json.load(open(P))
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
have=' '.join(d['fixed'])
a=sys.argv[1:]
m={a[i]:a[i+1] for i in range(0,len(a),2)}
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:') or h in have: continue
    ms=[p for k,p in m.items() if k in s]
    if not ms: print('unmapped',l); continue
    d['fixed'].append(f'fixed: property={ms[0]} {h} {s[5:]}')
json.dump(d,open(P,'w'),indent=1)

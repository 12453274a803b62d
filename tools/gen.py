#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(os.path.join(V, 'tools/props.json')))
TECH = "bounded symbolic execution of the real code's Go SSA, assertions decided by an SMT solver (z3), counterexamples replayed natively"
NOTE = "Holds for every input and operation sequence within the bounds recorded per harness in checks/%s.json and in the evidence; nothing is claimed beyond them. Trusts: the SSA executor (sampled paths are re-run natively and compared), the models listed in DESIGN.md, z3 and the reference model in the harness."
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P['properties']:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(q) + '\n')
m = {"version": 1, "setup_cmd": "cd engine && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor go build -o ../bin/symgo .",
     "hooks": {"guard": "none", "enable": "no hook is compiled into /repo: harnesses enter through a build overlay", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "bin/symgo -prop ID -tier T; see DESIGN.md"}
for p in P['properties']:
    if p.get('na'):
        m['not_applicable'].append({"property": p['id'], "reason": p['na']})
    elif os.path.exists(os.path.join(V, 'checks', p['id'] + '.json')):
        m['checks'].append({"property": p['id'], "quick_cmd": "./bin/symgo -prop %s -tier quick" % p['id'], "thorough_cmd": "./bin/symgo -prop %s -tier thorough" % p['id'],
            "technique": TECH, "level": "model_checking", "level_note": NOTE % p['id']})
    else:
        m['not_applicable'].append({"property": p['id'], "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

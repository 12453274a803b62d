#!/usr/bin/env python3
"""Maintains /verif/seeded (development aid, used by no check).
  seed.py new SPEC.py     create seeded/<id>/ from a spec (id, property, needs, what, edits=[(file,old,new)], demo)
  seed.py verify ID       demo passes on /repo, fails with the patch, build and stable tests pass with the patch
  seed.py catch ID [ID..] run the property's quick check on the patched /repo, expect exit 1
"""
import json, os, subprocess, sys, re, time
S = '/verif/seeded'
DEMO = '''#!/bin/bash
# run in /repo: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
# the recursive mutexes of the module need the Go version it is built with
[ -d /opt/veriftools/go1.23.12/bin ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local
cp "$d/demo_test.go.txt" "$t/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/ecore/zz_demo_test.go\\":\\"$t/zz_demo_test.go\\"}}" > "$t/o.json"
TMPDIR="$t" timeout 250 go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestZZDemo' ./ecore
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
def isclean(): return sh('git -C /repo status --porcelain').stdout == ''
def new(spec):
    assert isclean()
    for s in spec['bugs']:
        d = f'{S}/{s["id"]}'; os.makedirs(d, exist_ok=True)
        for f, a, b in s['edits']:
            p = f'/repo/{f}'; t = open(p).read()
            assert t.count(a) == 1, (s['id'], f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        diff = sh('git -C /repo diff').stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        clean()
        open(f'{d}/demo.sh', 'w').write(DEMO); os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo_test.go.txt', 'w').write(s['demo'])
        json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['what']}, open(f'{d}/meta.json', 'w'), indent=1)
        verify(s['id'])
def orig(id):
    """all removed lines are lines of the original repository"""
    bad = []
    f = ln = None
    for l in open(f'{S}/{id}/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)); continue
        if ln is None: continue
        if l.startswith('-') and not l.startswith('---'):
            b = sh(f'git -C /repo blame -s -L {ln},{ln} {f}').stdout
            if not b.startswith('^'): bad.append(b.strip())
            ln += 1
        elif l.startswith(' '): ln += 1
        elif l.startswith('diff'): ln = None
    return bad
def verify(id):
    assert isclean()
    r = sh(f'bash {S}/{id}/demo.sh', cwd='/repo')
    ok = r.returncode == 0
    msg = '' if ok else r.stdout[-1500:] + r.stderr[-1500:]
    a = sh(f'git -C /repo apply {S}/{id}/patch.diff')
    res = {'clean demo': ok, 'applies': a.returncode == 0}
    try:
        r = sh(f'bash {S}/{id}/demo.sh', cwd='/repo')
        res['demo fails'] = r.returncode != 0 and 'build failed' not in r.stdout
        t = sh('/tmp/t.sh', cwd='/repo').stdout
        res['tests'] = 'missing: []' in t
        if not res['tests']: msg += t
    finally: clean()
    res['notoriginal'] = orig(id)
    print(id, res, msg, flush=True)
def catch(id):
    p = json.load(open(f'{S}/{id}/meta.json'))['property']
    assert isclean()
    sh(f'git -C /repo apply {S}/{id}/patch.diff')
    t = time.time()
    try: r = sh(f'./bin/symgo -prop {p} -tier quick -noevidence', cwd='/verif')
    finally: clean()
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('  check')]
    print(id, p, 'CAUGHT' if r.returncode == 1 else f'missed rc={r.returncode}', f'{time.time()-t:.0f}s', v[:2], flush=True)
if sys.argv[1] == 'new':
    spec = {}; exec(open(sys.argv[2]).read(), spec); new(spec)
else:
    for i in sys.argv[2:] or sorted(os.listdir(S)): (verify if sys.argv[1] == 'verify' else catch)(i)

#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md from checks/ and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def par(d): return ' '.join('%s=%s' % kv for kv in sorted((d or {}).items())) or '-'
b = ['| Property | Harness | Quick | Thorough | Covers |', '|---|---|---|---|---|']
a = []
for f in sorted(glob.glob(V + '/checks/*.json')):
    c = json.load(open(f))
    for h in c['harnesses']:
        b.append('| %s | %s | %s | %s | %s |' % (c['property'], h['fn'], par(h.get('quick')), par({**(h.get('quick') or {}), **(h.get('thorough') or {})}), h.get('bound', '').replace('|', '/')))
    for x in c.get('assumptions', []):
        a.append('* %s: %s' % (c['property'], x))
s = ['| Bug | Property | Breaks | Needs | Caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    w = m.get('caught')
    s.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), w or m['property']))
p = V + '/DESIGN.md'
d = open(p).read()
for k, v in (('bounds', b), ('assumptions', a), ('seeds', s)):
    d = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (k, k), lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (k, '\n'.join(v), k), d, flags=re.S)
open(p, 'w').write(d)

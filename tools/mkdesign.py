#!/usr/bin/env python3
"""Regenerates the generated part of DESIGN.md (between the markers):
per property its harnesses and bounds, the seeded changes, the findings."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
harn = {}
for f in sorted(glob.glob(V + '/harness/*/*.go')):
    pkg = os.path.basename(os.path.dirname(f))
    prop = None; bounds = None; tier = ''
    for line in open(f):
        m = re.match(r'//vf:prop (\S+)', line)
        if m: prop = m.group(1); bounds = None; tier = ''; continue
        m = re.match(r'//vf:bounds (.*)', line)
        if m and prop: bounds = m.group(1).strip(); continue
        m = re.match(r'//vf:tier (\S+)', line)
        if m and prop: tier = m.group(1)
        m = re.match(r'func (Vf\w+)\(', line)
        if m and prop:
            harn.setdefault(prop, []).append((pkg, os.path.basename(f), m.group(1), bounds or '', tier))
            prop = None
out = []
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
extra = {}
p = V + '/tools/design_notes.json'
if os.path.exists(p): extra = json.load(open(p))
out.append('### Per property\n')
for p in props:
    out.append('#### %s %s\n' % (p['id'], p['title']))
    out.append('Statement, anchors: properties.jsonl. Why tests cannot settle it: %s\n' % p['why_tests_cant'])
    if p['id'] in extra:
        out.append(extra[p['id']] + '\n')
    for h in harn.get(p['id'], []):
        out.append('- `%s/%s` **%s**%s: %s' % (h[0], h[1], h[2], ' (thorough only)' if h[4] == 'thorough' else '', h[3]))
    if p['id'] not in harn: out.append('- not claimed (see MANIFEST.json not_applicable)')
    out.append('')
out.append('### Seeded changes\n')
out.append('| id | property | what it breaks | needs | caught by |')
out.append('|---|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
out.append('')
b, e = '<!-- generated: begin -->', '<!-- generated: end -->'
t = open(V + '/DESIGN.md').read()
i, j = t.index(b) + len(b), t.index(e)
open(V + '/DESIGN.md', 'w').write(t[:i] + '\n' + '\n'.join(out) + t[j:])

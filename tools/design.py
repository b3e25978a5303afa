#!/usr/bin/env python3
"""writes the per-property part of DESIGN.md (between the markers) from properties.jsonl and the heads of the harnesses"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); f = '%s/harness/%s.cpp' % (V, p['id'])
    out.append('### %s %s' % (p['id'], p['title']))
    if not os.path.exists(f): out.append('No check yet; not claimed.\n'); continue
    h = open(f).read(); ents = re.findall(r'// @entry: (\S+)', h)
    out.append('Harness `harness/%s.cpp`, entries %s.' % (p['id'], ', '.join(ents)))
    for k, name in (('bound', 'Bounds'), ('outside', 'Outside'), ('assume', 'Assumed')):
        b = re.findall(r'// @%s: (.*)' % k, h)
        if b: out.append('%s: %s.' % (name, '; '.join(b)))
    out.append('')
kf = json.load(open(V + '/known_findings.json'))['findings']
out.append('## Genuine defects found\n')
for f in kf: out.append('* %s (%s%s): %s' % (f['property'], f['status'], ' ' + f['commit'] if 'commit' in f else '', f['what']))
s = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); s.append('* `%s` (%s): %s. Needs: %s. %s' % (n, d['property'], d['what_it_breaks'], d['needs'], d.get('caught_by', '')))
out.append('\n## Planted bugs\nEach is a patch in `seeded/` with a demonstration; none is committed in /repo.\n'); out += s
d = open(V + '/DESIGN.md').read().split('<!-- generated -->')[0]
open(V + '/DESIGN.md', 'w').write(d.rstrip('\n') + '\n\n<!-- generated -->\n## Properties\n' + '\n'.join(out) + '\n')

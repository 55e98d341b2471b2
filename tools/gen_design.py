#!/usr/bin/env python3
# Fills the generated tables of DESIGN.md.
import os, re, json, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + '/harness/*.go')):
    doc, d = [], None
    for l in open(f):
        if l.startswith('// '): doc.append(l[3:].strip())
        elif l.startswith('//verif prop'): d = l
        elif l.startswith('func v'):
            if d:
                m = re.search(r'prop=(\w+)', d)
                tags = [t for t in ('sched', 'race') if ' ' + t in d] + (['thorough only'] if 'tiers=thorough' in d else [])
                rows.append((m.group(1), re.match(r'func (\w+)', l).group(1), ' '.join(doc), ', '.join(tags)))
            doc, d = [], None
        elif not l.startswith('//'): doc, d = [], None
order = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
rows.sort(key=lambda r: order.index(r[0]))
h = ['| property | harness | bounds | |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % r for r in rows]
s = ['| seeded bug | needs | caught by |', '|---|---|---|']
try: caught = json.load(open(here + '/tools/seeds/caught.json'))
except FileNotFoundError: caught = {}
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(here + '/seeded/%s/meta.json' % i))
    s.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), caught.get(i, '-')))
t = open(here + '/DESIGN.md').read()
t = re.sub(r'<!-- HARNESSES -->.*?<!-- END -->', lambda _: '<!-- HARNESSES -->\n' + '\n'.join(h) + '\n<!-- END -->', t, flags=re.S)
t = re.sub(r'<!-- SEEDS -->.*?<!-- END -->', lambda _: '<!-- SEEDS -->\n' + '\n'.join(s) + '\n<!-- END -->', t, flags=re.S)
open(here + '/DESIGN.md', 'w').write(t)

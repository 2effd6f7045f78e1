#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (list of defects, table of planted bugs)."""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = open('DESIGN.md').read()
fixed = json.load(open('known_findings.json'))['fixed']
f = '\n'.join('* %s %s (%s)' % (re.search(r'property=(\S+) (\S+) (.*)', x).group(1), re.search(r'property=(\S+) (\S+) (.*)', x).group(3), re.search(r'property=(\S+) (\S+) (.*)', x).group(2)) for x in fixed)
rows = []
for i in sorted(os.listdir('seeded'), key=lambda i: (json.load(open('seeded/%s/meta.json' % i))['property'], i)):
    m = json.load(open('seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
def put(tag, s):
    global t
    if '@%s@' % tag in t: t = t.replace('@%s@' % tag, '<!--%s-->%s<!--/%s-->' % (tag, s, tag))
    else: t = re.sub(r'<!--%s-->.*?<!--/%s-->' % (tag, tag), lambda m: '<!--%s-->%s<!--/%s-->' % (tag, s, tag), t, flags=re.S)
put('FIXED', '\n' + f + '\n')
put('NBUGS', str(len(rows)))
if '@BUGS@' in t: t = t[:t.index('@BUGS@')]
t = re.sub(r'(\| bug \| property .*?\n\|---.*?\n).*', lambda m: m.group(1), t, flags=re.S)
t += '\n'.join(rows) + '\n'
open('DESIGN.md', 'w').write(t)

#!/usr/bin/env python3
"""Development tool: applies behaviour preserving edits to a scratch copy, runs the existing tests and all checks there; nothing may be reported.
  refactor.py SPEC.py [Cxx...]     the spec calls edit(file, old, new)"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = []
def edit(f, a, b): E.append((f, a, b))
exec(open(sys.argv[1]).read(), dict(edit=edit))
wt = '/tmp/scratch/rf-' + os.path.basename(sys.argv[1])[:-3]
shutil.rmtree(wt, ignore_errors=True)
os.makedirs('/tmp/scratch', exist_ok=True)
subprocess.check_call(['cp', '-a', '/repo', wt])
bad = 0
for f, a, b in E:
    p = wt + '/nytl/' + f
    t = open(p).read()
    if t.count(a) != 1: print('%s: matches %d times: %r' % (f, t.count(a), a[:80])); bad = 1; continue
    open(p, 'w').write(t.replace(a, b))
if bad: sys.exit(1)
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
r = sh(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/tmp/scratch/rf.log 2>&1 && bash /opt/vp/test.sh /tmp/scratch/rf.json >/dev/null 2>&1; tail -5 /tmp/scratch/rf.log; python3 -c "import json; d=json.load(open(\'/tmp/scratch/rf.json\')); print({k:(len(v) if isinstance(v,(list,dict)) else v) for k,v in d.items()})"' % wt])
print(r.stdout)
ids = sys.argv[2:] or re.findall(r'"property": "(C\d+)"', open(VERIF + '/MANIFEST.json').read())
ids = sorted(set(i for i in ids if i not in ('C39', 'C40')))
def one(i):
    return i, sh(['python3', VERIF + '/run_check.py', '--property', i], env=dict(os.environ, NYTL_REPO=wt, VERIF_SEED='1'))
with ThreadPoolExecutor(2) as ex:
    for i, r in ex.map(one, ids):
        if r.returncode: print(i, r.returncode, r.stdout[-1500:])
print('done', len(E), 'edits', ids)
shutil.rmtree(wt)

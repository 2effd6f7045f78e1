#!/usr/bin/env python3
"""Development tool: writes planted bugs to seeded/, confirms them in scratch copies and runs the checks on them.

  plant.py SPEC.py...        specs call bug(...), see below
  plant.py --check [ID...]   run the checks (again) on existing planted bugs
Nothing registered in MANIFEST.json uses this."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
SCRATCH = '/tmp/scratch/pl'
BASE = 'ca91308'
SPECS = []

DEMO_SH = '''#!/bin/bash
# run in the repository: builds and runs the demonstration, fails if the property is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -include cstdint -I. -O1 -w -pthread %s "$d/demo.cpp" -o "$t/demo" || exit 1
cd "$t" && timeout 120 ./demo
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#define EXPECT(x) do { if(!(x)) { std::printf("line %d: %s failed\\n", __LINE__, #x); std::exit(1); } } while(0)
'''

def bug(id, prop, edits, needs, breaks, demo, flags=''):
    SPECS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def in_ns(wt, cmd):
    return sh(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (wt, cmd)])

def copy(wt):
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(os.path.dirname(wt), exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', wt])

def original(wt, diff):
    """whether at least one removed line stems from the original repository, and none from later commits"""
    f, bad, n = None, 0, 0
    for l in diff.splitlines():
        m = re.match(r'--- a/(.*)', l)
        if m: f = m[1]; continue
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m[1]); continue
        if l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            b = sh(['git', '-C', wt, 'blame', '-s', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', f]).stdout
            if b.startswith('^' + BASE[:7]) or b.startswith(BASE): n += 1
            else: bad += 1
            ln += 1
        elif l.startswith(' '): ln += 1
    return n, bad

def check(id, wt, prop):
    env = dict(os.environ, NYTL_REPO=wt, VERIF_SEED='1')
    r = sh(['python3', os.path.join(VERIF, 'run_check.py'), '--property', prop], env=env)
    v = re.findall(r'VIOLATION property=(\S+)', r.stdout)
    return ('caught' if r.returncode == 1 and prop in v else 'MISSED rc=%d' % r.returncode), r.stdout

def plant(s):
    d = os.path.join(SEEDED, s['id'])
    wt = os.path.join(SCRATCH, s['id'])
    copy(wt)
    try:
        for f, a, b in s['edits']:
            p = os.path.join(wt, 'nytl', f)
            t = open(p).read()
            if t.count(a) != 1: return s['id'], 'edit matches %d times: %r' % (t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        diff = sh(['git', '-C', wt, 'diff', '--no-color', '-U3']).stdout
        n, bad = original(wt, diff)
        if not n or bad: return s['id'], 'changed lines: %d original, %d added by fixes' % (n, bad)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(PRE + s['demo'].strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % s['flags'])
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        return s['id'], confirm(s['id'], wt, s['prop'])
    finally:
        shutil.rmtree(wt, ignore_errors=True)

def confirm(id, wt, prop):
    d = os.path.join(SEEDED, id)
    demo = os.path.join(d, 'demo.sh')
    r = sh(['bash', demo], cwd='/repo')
    if r.returncode: return 'INVALID: demo fails on the unchanged tree:\n' + r.stdout[-1500:]
    r = sh(['bash', demo], cwd=wt)
    if not r.returncode: return 'INVALID: demo passes with the change'
    if 'error:' in r.stdout: return 'INVALID: demo does not compile with the change:\n' + r.stdout[:1500]
    t = in_ns(wt, 'bash /opt/vp/build.sh > /dev/null 2>&1 && bash /opt/vp/test.sh /repo/_build/t.json')
    try: res = json.load(open(os.path.join(wt, '_build', 't.json')))
    except Exception: return 'INVALID: build fails\n' + t.stdout[-800:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    if res['failed'] or (base and not base <= set(res['passed'])): return 'INVALID: tests fail: %s' % res['failed']
    ver, out = check(id, wt, prop)
    keys = re.findall(r'VIOLATION[^\n]*', out)
    return ver + ('' if ver == 'caught' else '\n' + out[-600:]) + ' ' + (keys[0][:120] if keys else '')

def recheck(id):
    wt = os.path.join(SCRATCH, id)
    copy(wt)
    try:
        d = os.path.join(SEEDED, id)
        r = sh(['git', '-C', wt, 'apply', os.path.join(d, 'patch.diff')])
        if r.returncode: return id, 'patch does not apply: ' + r.stdout
        return id, confirm(id, wt, json.load(open(os.path.join(d, 'meta.json')))['property'])
    finally:
        shutil.rmtree(wt, ignore_errors=True)

if __name__ == '__main__':
    jobs = int(os.environ.get('JOBS', '4'))
    if sys.argv[1] == '--check':
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        work = lambda ex: ex.map(recheck, ids)
    else:
        only = os.environ.get('ONLY')
        for f in sys.argv[1:]: exec(compile(open(f).read(), f, 'exec'))
        todo = [s for s in SPECS if not only or re.search(only, s['id'])]
        work = lambda ex: ex.map(plant, todo)
    res = {}
    with ThreadPoolExecutor(jobs) as ex:
        for id, r in work(ex):
            print('%-28s %s' % (id, r), flush=True)

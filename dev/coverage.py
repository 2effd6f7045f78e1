#!/usr/bin/env python3
"""Development tool: builds all harness parts with coverage instrumentation, runs 5% of the cases and lists the regions
of the headers that no check executes. Nothing registered in MANIFEST.json uses this."""
import collections, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import run_check as r, checks
from concurrent.futures import ThreadPoolExecutor
DIR = '/tmp/scratch/cov'
os.makedirs(DIR, exist_ok=True)

def one(job):
    p, part = job
    exe = '%s/%s.%s' % (DIR, p, part['name'])
    cmd = ['clang++'] + r.COMMON + ['-O1', '-g0', '-fprofile-instr-generate', '-fcoverage-mapping'] + list(part.get('flags', [])) + \
        [os.path.join(r.HARNESS, part['src']), '-o', exe] + list(part.get('libs', []))
    if subprocess.run(cmd, capture_output=True).returncode: return p, part['name'], 'does not compile', {}
    try: x = subprocess.run([exe, '--seed', '1', '--scale', '0.05', '--out', '/dev/null'], capture_output=True, timeout=300, env=dict(os.environ, LLVM_PROFILE_FILE=exe + '.profraw'))
    except subprocess.TimeoutExpired: return p, part['name'], 'timeout', {}
    subprocess.run(['llvm-profdata-18', 'merge', '-sparse', exe + '.profraw', '-o', exe + '.profdata'], capture_output=True)
    d = json.loads(subprocess.run(['llvm-cov-18', 'export', '-instr-profile', exe + '.profdata', exe, '--skip-functions', '--skip-expansions'], capture_output=True, text=True).stdout)
    cov = {}
    for f in d['data'][0]['files']:
        if '/nytl/' not in f['filename']: continue
        for s in f['segments']:
            if s[3] and not (len(s) > 5 and s[5]):
                k = (f['filename'], s[0], s[1])
                cov[k] = max(cov.get(k, 0), s[2])
    for e in ('', '.profraw', '.profdata'): os.remove(exe + e)
    return p, part['name'], x.returncode, cov

total = collections.Counter()
with ThreadPoolExecutor(6) as ex:
    for p, n, rc, cov in ex.map(one, [(p, part) for p, c in checks.CHECKS.items() for part in c['parts']]):
        if rc: print(p, n, rc)
        for k, v in cov.items(): total[k] = max(total[k], v)
print(len(total), 'regions,', sum(v == 0 for v in total.values()), 'not executed')
for f, l, c in sorted(k for k, v in total.items() if v == 0):
    print(os.path.basename(f), l, c, open(f).read().split('\n')[l - 1].strip()[:100])
shutil.rmtree(DIR, ignore_errors=True)

#!/usr/bin/env python3
"""Development tool: mutates single tokens of /repo's headers and lists the mutants that no related check reports.

  mutate.py HEADER[:from-to] Cxx,Cyy [N workers]     run in a copy of /verif (evidence is rewritten)
Nothing registered in MANIFEST.json uses this."""
import os, re, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hdr = sys.argv[1]; checks = sys.argv[2].split(','); nw = int(sys.argv[3]) if len(sys.argv) > 3 else 3
lo, hi = 0, 10**9
if ':' in hdr:
    hdr, r = hdr.split(':'); lo, hi = map(int, r.split('-'))
src = open('/repo/nytl/' + hdr).read().split('\n')

RULES = [
    (r'(?<![<>=!+\-*/&|-])<(?![<=])(?= )', ['<=', '>']), (r'(?<![<>=!\-])>(?![>=])(?= )', ['>=', '<']), (r'(?<=[\w\])] )<=(?= )', ['<', '>=']), (r'(?<=[\w\])] )>=(?= )', ['>', '<=']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&(?= )', ['||']), (r'\|\|', ['&&']), (r'!(?=[\w(])', ['']),
    (r'(?<=[\w\])] )\+(?= )', ['-', '*']), (r'(?<=[\w\])] )-(?= )', ['+']), (r'(?<=[\w\])] )\*(?= )', ['/', '+']), (r'(?<=[\w\])] )/(?= )', ['*']),
    (r'\+=', ['-=', '=']), (r'(?<!-)-=', ['+=']), (r'\*=', ['/=', '=']), (r'(?<![/<])/=', ['*=']), (r'\|=', ['&=', '=']), (r'&=', ['|=']), (r'\^=', ['|=']),
    (r'(?<=[=(,\s{])-(?=[\w(])', ['']), (r'\b0u?\b(?!\.|x)', ['1']), (r'\b1u?\b(?!\.|e)', ['0', '2']), (r'\b2u?\b(?!\.)', ['1', '3']), (r'\b3u?\b(?!\.)', ['2']), (r'\b0\.0\b', ['1.0']), (r'\b1\.0\b', ['0.0', '2.0']), (r'\b2\.0\b', ['1.0']), (r'\b0\.5\b', ['0.25']),
    (r'\bcos\(', ['sin(']), (r'\bsin\(', ['cos(']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bmax\(', ['min(']), (r'\bmin\(', ['max(']), (r'\babs\(', ['(']),
    (r'\.x\b', ['.y']), (r'\.y\b', ['.z', '.x']), (r'\.z\b', ['.x']), (r'\.w\b', ['.x']), (r'\[r\]\[c\]', ['[c][r]']), (r'\[i\]', ['[0]']), (r'\.begin\(\)', ['.end()']),
    (r'\bcontinue;', ['break;']), (r'\bbreak;', ['continue;']), (r'std::forward<Args>\((\w+)\)', [r'\1']), (r'std::move\((\w+)\)', [r'\1']),
]
muts = []
incomment = False
for n, l in enumerate(src):
    if not lo <= n + 1 <= hi: continue
    code = re.sub(r'//.*', '', l)
    if code.strip().startswith(('#', 'template', 'using', 'static_assert', '*', '/*', 'friend', 'struct', 'class')) or not code.strip(): continue
    if 'NYTL_BYTES_ASSERT(x)' in code: continue
    for rx, reps in RULES:
        for m in re.finditer(rx, code):
            for rep in reps:
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                muts.append((n, new))
    s = code.strip()
    if s.endswith(';') and not s.startswith(('return', 'auto', 'const', 'constexpr', 'throw', '}', 'continue', 'break')) and re.match(r'[\w.\->\[\]():*]+\s*([-+*/|&^]?=|\(|\+\+|--)|\+\+|--', s) and not re.match(r'[\w:<>,]+ [\w]+\s*(;|\{|=|\()', s):
        muts.append((n, re.match(r'\s*', code)[0] + ';'))
seen = set(); muts = [m for m in muts if not (m in seen or seen.add(m))]
print(hdr, len(muts), 'mutants', flush=True)

# first stage: no sanitizers, a tenth of the cases, stops at the first part that reports something
FAST = """
import sys; sys.path.insert(0, %r); import run_check as r, checks, os, shutil, subprocess, resource
resource.setrlimit(resource.RLIMIT_CPU, (70, 70))
from concurrent.futures import ThreadPoolExecutor, as_completed
r.VARIANTS['asan'] = r.VARIANTS['asan0'] = ['clang++', '-O1', '-g0', '-ftrivial-auto-var-init=pattern']
p = %r; b = r.VERIF + '/build/fast-' + str(os.getpid()); os.makedirs(b)
def one(part):
    try:
        v = r.variants_of(checks.CHECKS[p], part, 'quick')[0]
        x = r.build(p, b, part, v)
        if not x['ok']: return 1 if r.headers_ok(b)[0] else 2
        part = dict(part, timeout=60)
        return 1 if r.execute(p, b, part, v, x['exe'], 1, 'quick', 0.1)[1] else 0
    except r.Infra: return 1
rc = 0
with ThreadPoolExecutor(3) as ex:
    for f in as_completed([ex.submit(one, q) for q in checks.CHECKS[p]['parts']]):
        rc = f.result()
        if rc: break
    if rc: shutil.rmtree(b, ignore_errors=True); print('error:' if rc == 2 else ''); sys.stdout.flush(); subprocess.run(['pkill', '-9', '-f', b + '/']); os._exit(rc)
shutil.rmtree(b, ignore_errors=True)
"""
import queue
pool = queue.Queue()
for i in range(nw):
    wt = '/tmp/scratch/mut/%d-%d' % (os.getpid(), i)
    shutil.rmtree(wt, ignore_errors=True); os.makedirs(wt)
    subprocess.check_call(['cp', '-a', '/repo/.', wt]); pool.put(wt)

def one(m):
    n, new = m
    wt = pool.get()
    try:
        t = list(src); t[n] = new
        p = wt + '/nytl/' + hdr
        open(p, 'w').write('\n'.join(t))
        res = []
        for stage in ('fast', 'full'):
            res = []
            for c in checks:
                cmd = [VERIF + '/run_check.py', '--property', c] if stage == 'full' else ['-c', FAST % (VERIF, c)]
                r = subprocess.run(['nice', 'python3'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, NYTL_REPO=wt, VERIF_SEED='1'))
                if r.returncode == 1: return m, [c]
                res.append('%s rc=%d' % (c, r.returncode))
                if r.returncode == 2 and ('do not compile' in r.stdout or 'error:' in r.stdout): return m, res
        return m, res
    finally:
        pool.put(wt)
caught = nocomp = 0
with ThreadPoolExecutor(nw) as ex:
    for (n, new), res in ex.map(one, muts):
        if len(res) == 1 and 'rc' not in res[0]: caught += 1; continue
        if res and 'rc=0' not in res[-1]: nocomp += 1; print('NOANSWER', hdr, n + 1, new.strip(), res, flush=True); continue
        print('SURVIVED %s:%d\n   - %s\n   + %s' % (hdr, n + 1, src[n].strip(), new.strip()), flush=True)
print(hdr, 'caught', caught, 'no answer', nocomp, 'of', len(muts), flush=True)
while not pool.empty(): shutil.rmtree(pool.get(), ignore_errors=True)

#!/usr/bin/env python3
"""Driver of all checks: builds the monitors of one property from the working
tree of /repo, runs them under sanitizers, collects what they observed, writes
evidence/<id>.json and prints the verdict.

  run_check.py --property C01            quick or thorough as of VERIF_TIER
  run_check.py --property C01 --thorough
  run_check.py --replay replays/...json  repeats one recorded violation
  run_check.py --manifest                rewrites MANIFEST.json from checks.py
  run_check.py --selftest                checks that the tools are there
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import checks  # noqa: E402

REPO = os.environ.get('NYTL_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = os.cpu_count() or 8

COMMON = ['-std=c++17', '-include', 'cstdint', '-I' + REPO, '-I' + HARNESS, '-D_GLIBCXX_ASSERTIONS',
          '-Wno-everything', '-pthread']
VARIANTS = {
    # memory errors, leaks and undefined behaviour, deterministic garbage in uninitialised locals
    'asan': ['clang++', '-O1', '-gline-tables-only', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern'],
    'asan0': ['clang++', '-O0', '-gline-tables-only', '-fsanitize=address,undefined',
              '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern'],
    'gcc-asan': ['g++', '-O2', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-w'],
    'opt': ['clang++', '-O3', '-g0', '-DNDEBUG'],
    # what users build: the other compiler (order of evaluation), optimized, without assertions
    'release': ['g++', '-O1', '-fstrict-aliasing', '-g0', '-DNDEBUG', '-w'],
    'gcc-opt': ['g++', '-O3', '-g0', '-w'],
    'tsan': ['clang++', '-O1', '-gline-tables-only', '-fsanitize=thread'],
    'gcc-tsan': ['g++', '-O2', '-g1', '-fsanitize=thread', '-w'],
    'valgrind': ['clang++', '-O1', '-g'],
}
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:strict_string_checks=1:detect_stack_use_after_return=1:'
                    'check_initialization_order=1:hard_rss_limit_mb=6000:color=never:exitcode=66:'
                    'max_uar_stack_size_log=16:abort_on_error=0:allocator_may_return_null=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:color=never',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:color=never:history_size=4',
}


class Infra(Exception):
    """The check itself could not be carried out."""


def say(*a):
    print(*a, flush=True)


def flags(variant, part):
    base = VARIANTS[variant]
    f = [x for x in COMMON if not (base[0] == 'g++' and x.startswith('-Wno-everything'))]
    more = ['-funsigned-char'] if variant == 'release' and part.get('unsigned_char') else []  # as on ARM
    return [base[0]] + f + base[1:] + more + list(part.get('flags', []))


def run(cmd, timeout, env=None, cwd=None, stdout=subprocess.PIPE):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=stdout, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out or b'', err or b'', False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -9, out or b'', err or b'', True


def tool_ok(bdir, compiler, fl):
    """Can this compiler build and run anything at all with these flags?"""
    src = os.path.join(bdir, 'hello.cpp')
    with open(src, 'w') as f:
        f.write('#include <vector>\n#include <iostream>\nint main() { std::vector<int> v(3); return int(v.size()) - 3; }\n')
    exe = os.path.join(bdir, 'hello')
    rc, _, _, _ = run([compiler] + fl + [src, '-o', exe], 120)
    if rc != 0:
        return False
    rc, _, _, _ = run([exe], 60, ENV)
    return rc == 0


def headers_ok(bdir):
    """Do the headers of the library compile on their own?"""
    inc = os.path.join(REPO, 'nytl')
    src = os.path.join(bdir, 'headers.cpp')
    with open(src, 'w') as f:
        for h in sorted(os.listdir(inc)):
            if h.endswith('.hpp'):
                f.write('#include <nytl/%s>\n' % h)
        f.write('int main() {}\n')
    rc, _, err, _ = run(['clang++', '-std=c++17', '-include', 'cstdint', '-I' + REPO, '-w', '-fsyntax-only', src], 120)
    return rc == 0, err.decode(errors='replace')


def read_state(path):
    try:
        with open(path, 'rb') as f:
            b = f.read(136)
        sec = b[:120].split(b'\0')[0].decode(errors='replace')
        case, nchecks = struct.unpack('<QQ', b[120:136])
        return sec, case, nchecks
    except Exception:
        return '?', 0, 0


def summarize(err):
    """First meaningful lines of a sanitizer report."""
    lines = err.splitlines()
    keep = []
    for i, l in enumerate(lines):
        if re.search(r'(ERROR: |runtime error|SUMMARY:|WARNING: |terminate called|what\(\)|Assertion)', l):
            keep.append(l.strip())
    frames = [l.strip() for l in lines if re.match(r'\s*#\d+ ', l) and '/nytl/' in l][:4]
    txt = ' | '.join(keep[:4] + frames)
    return (txt or ' | '.join(lines[-5:]))[:1500]


def build(prop, bdir, part, variant):
    name = part['name'] + '.' + variant
    exe = os.path.join(bdir, name)
    src = [os.path.join(HARNESS, part['src'])]
    if variant == 'release' and part.get('second'):
        src.append(os.path.join(HARNESS, 'second.cpp'))  # a program of two translation units
    cmd = flags(variant, part) + src + ['-o', exe] + list(part.get('libs', []))
    t0 = time.time()
    rc, _, err, to = run(cmd, 600)
    if rc != 0 and (to or rc < 0):
        rc, _, err, to = run(cmd, 600)  # killed: memory pressure?
    return dict(exe=exe, ok=rc == 0, err=err.decode(errors='replace'), cmd=cmd, wall=time.time() - t0, killed=to or rc < 0)


def execute(prop, bdir, part, variant, exe, seed, tier, scale, extra=()):
    """Runs one monitor binary, returns (result json or None, violations)."""
    name = part['name'] + '.' + variant
    out = os.path.join(bdir, name + '.json')
    state = os.path.join(bdir, name + '.state')
    timeout = part.get('timeout', 240 if tier == 'quick' else 780)
    env = dict(ENV)
    attempts = 0
    places = []
    while True:
        attempts += 1
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, '--seed', str(seed), '--tier', tier, '--scale', str(scale), '--out', out, '--state', state]
        cmd += list(extra)
        if variant == 'valgrind':
            cmd = ['valgrind', '-q', '--error-exitcode=66', '--leak-check=full', '--errors-for-leak-kinds=definite'] + cmd
        rc, so, se, to = run(cmd, timeout, env, cwd=bdir)
        err = se.decode(errors='replace')
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
            return res, res['violations'], err
        if 'LeakSanitizer has encountered a fatal error' in err or 'LeakSanitizer does not work under ptrace' in err:
            if 'detect_leaks=1' in env['ASAN_OPTIONS']:
                env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
                continue
        sec, case, _ = read_state(state)
        if rc == 3 and sec == 'exit':
            raise Infra('monitor %s could not write its output' % name)
        res = None
        viol = []
        if rc == 66 and os.path.exists(out):  # finished, but leaks found at exit
            with open(out) as f:
                res = json.load(f)
            viol = list(res['violations'])
        sanitizer = rc == 66 or 'runtime error:' in err or 'ERROR: AddressSanitizer' in err or \
            'WARNING: ThreadSanitizer' in err or 'ERROR: LeakSanitizer' in err
        if sanitizer:
            kind = 'leak' if 'LeakSanitizer' in err else 'race' if 'ThreadSanitizer' in err else 'sanitizer'
            viol.append(dict(key='%s:%s' % (kind, sec), msg=summarize(err), section=sec, case=case, count=1))
            return res, viol, err
        place = ('hang' if to else 'crash', sec)
        places.append(place)
        if attempts >= 2:
            if sec in ('init', '?', 'exit'):
                raise Infra('monitor %s failed outside of the workload (rc %s): %s' % (name, rc, err[-400:]))
            if places[-1] == places[-2]:
                what = 'did not finish within %ds' % timeout if to else 'ended with %s' % rc
                viol.append(dict(key='%s:%s' % place, msg='%s; %s' % (what, summarize(err)), section=sec, case=case, count=1))
                return res, viol, err
            if attempts >= 3:
                raise Infra('monitor %s fails at changing places: %s' % (name, places))


def known_findings():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


def variants_of(cfg, part, tier):
    vs = part.get('variants') or cfg.get('variants') or ['asan']
    if tier == 'thorough':
        vs = part.get('variants_thorough') or cfg.get('variants_thorough') or (vs + ['gcc-asan', 'opt'])
    if part.get('release', cfg.get('release', True)):
        vs = vs + ['release']
    return vs


def check(prop, tier, seed):
    t0 = time.time()
    cfg = checks.CHECKS[prop]
    bdir = os.path.join(VERIF, 'build', '%s-%d' % (prop, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    try:
        return check_in(prop, tier, seed, cfg, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def check_in(prop, tier, seed, cfg, bdir, t0):
    jobs = []
    cfg['parts'][0]['second'] = True
    for part in cfg['parts']:
        part['unsigned_char'] = cfg.get('unsigned_char', False)
    for part in cfg['parts']:
        for k, v in enumerate(variants_of(cfg, part, tier)):
            jobs.append((part, v, seed + 1000003 * k))

    violations = []  # (part, variant, seed, violation)
    results = []
    infra = []
    builderr = []

    def one(job):
        part, variant, s = job
        b = build(prop, bdir, part, variant)
        if not b['ok']:
            return job, b, None, []
        scale = cfg.get('scale', {}).get(variant, {'valgrind': 0.02, 'release': 0.3}.get(variant, 1.0))
        if tier == 'thorough':
            scale *= cfg.get('thorough_scale', 1.0)
        t1 = time.time()
        res, viol, err = execute(prop, bdir, part, variant, b['exe'], s, tier, scale)
        b['run'] = time.time() - t1
        return job, b, res, viol

    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        for f in futs:
            try:
                job, b, res, viol = f.result()
            except Infra as e:
                infra.append(str(e))
                continue
            part, variant, s = job
            if os.environ.get('VH_TIMES'):
                say('time %s.%s: build %.1fs run %.1fs' % (part['name'], variant, b['wall'], b.get('run', 0)))
            if not b['ok']:
                builderr.append((part, variant, s, b))
                continue
            if res:
                results.append((part, variant, s, res))
            for v in viol:
                violations.append((part, variant, s, v))

    if builderr and not violations:
        hok, herr = headers_ok(bdir)
        for part, variant, s, b in builderr:
            fl = [x for x in b['cmd'][1:] if x.startswith('-f') or x.startswith('-O') or x.startswith('-g')]
            if b['killed'] or not tool_ok(bdir, b['cmd'][0], fl):
                infra.append('cannot build anything with %s %s' % (b['cmd'][0], variant))
            elif not hok:
                infra.append('the headers do not compile: ' + herr[:600])
            else:
                # The library compiles but a use of its public interface that the
                # property covers does not.
                first = '; '.join([l for l in b['err'].splitlines() if 'error' in l][:3])
                violations.append((part, variant, s, dict(key='api-compile:' + part['name'], msg=first[:1500],
                                                          section='', case=0, count=1)))

    # --- totals ---
    ev = dict(evaluations=0, distinct_nontrivial=0, oracle_checks=0)
    counters, sections, samples, overflow = {}, {}, [], 0
    for part, variant, s, r in results:
        ev['evaluations'] += r['evaluations']
        ev['oracle_checks'] += r['oracle_checks']
        ev['distinct_nontrivial'] += r['distinct']
        overflow += r['distinct_overflow']
        for k, v in r['counters'].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith('max_') else counters.get(k, 0) + v
        for k, v in r['sections'].items():
            sections[part['name'] + ':' + k] = sections.get(part['name'] + ':' + k, 0) + v
        if variant == variants_of(cfg, part, tier)[0]:
            samples += [part['name'] + ' ' + x for x in r['samples'][:6]]

    need = cfg.get('min_checks', 1000)
    if not violations and not infra:
        if ev['oracle_checks'] < need or ev['distinct_nontrivial'] < cfg.get('min_distinct', 100):
            infra.append('the monitors observed too little: %s' % ev)
        for name, least in cfg.get('min_counters', {}).items():
            if counters.get(name, 0) < least:
                infra.append('the monitors observed too little: %s = %d < %d' % (name, counters.get(name, 0), least))

    # --- verdict ---
    known = {}
    for k in known_findings().get('findings', []):
        if k['property'] == prop:
            known[k['key']] = k
    fresh, listed = {}, {}
    for part, variant, s, v in violations:
        key = part['name'] + '/' + v['key']
        (listed if key in known else fresh).setdefault(key, (part, variant, s, v))
    for key in sorted(listed):
        say('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[key]['what'], key))

    rdir = os.path.join(VERIF, 'replays')
    n = 0
    for key, (part, variant, s, v) in sorted(fresh.items()):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        n += 1
        with open(path, 'w') as f:
            json.dump(dict(property=prop, part=part['name'], variant=variant, seed=s, tier=tier, key=key,
                           section=v['section'], case=v['case'], message=v['msg'],
                           replay='python3 run_check.py --replay ' + path), f, indent=1)
        say('  %s (case %s, seed %s): %s' % (key, v['case'], s, v['msg'][:700]))
        say('VIOLATION property=%s replay=%s' % (prop, path))

    cov = dict(evaluations=ev['evaluations'], distinct_nontrivial=ev['distinct_nontrivial'],
               rule=cfg['rule'], samples=samples[:16] or ['none recorded'],
               oracle_checks=ev['oracle_checks'], observed=counters, cases_per_section=sections,
               instrumentation=sorted({v for p in cfg['parts'] for v in variants_of(cfg, p, tier)}),
               seeds=sorted({s for _, _, s in jobs}))
    if overflow:
        cov['distinct_not_counted'] = overflow
    evid = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'exploration'), coverage=cov,
                assumptions=cfg.get('assumptions', []) + checks.ASSUMPTIONS,
                wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)

    for i in infra:
        say('check %s could not be carried out: %s' % (prop, i))
    if fresh:
        return 1
    if infra:
        return 2
    say('%s held: %d cases, %d oracle checks, %d distinct non-trivial, %.1fs' % (
        prop, ev['evaluations'], ev['oracle_checks'], ev['distinct_nontrivial'], time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = r['property']
    part = [p for p in checks.CHECKS[prop]['parts'] if p['name'] == r['part']][0]
    bdir = os.path.join(VERIF, 'build', 'replay-%d' % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        b = build(prop, bdir, part, r['variant'])
        if not b['ok']:
            say(b['err'][:4000])
            return 1
        extra = ['--section', r['section'], '--case', str(r['case'])] if r['section'] else []
        _, viol, err = execute(prop, bdir, part, r['variant'], b['exe'], r['seed'], r['tier'], 1.0, extra)
        say(err[:6000])
        for v in viol:
            say('%s: %s' % (v['key'], v['msg']))
        say('reproduced' if viol else 'not reproduced')
        return 1 if viol else 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def manifest():
    na = list(checks.NOT_APPLICABLE)
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        for line in f:
            pid = json.loads(line)['id']
            if pid not in checks.CHECKS and pid not in [x['property'] for x in na]:
                na.append(dict(property=pid, reason='The check is not built yet.'))
    m = dict(version=1, setup_cmd='python3 run_check.py --selftest', checks=[], not_applicable=na,
             notes='All checks build monitors from harness/ against the headers in /repo and run them under '
                   'sanitizers; no hooks in /repo are needed. checks.py is the configuration, DESIGN.md the description.')
    for p in sorted(checks.CHECKS):
        c = checks.CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 run_check.py --property ' + p,
                                thorough_cmd='python3 run_check.py --property %s --thorough' % p,
                                evidence_file='evidence/%s.json' % p, technique=c['technique'],
                                level=c.get('level', 'exploration'), level_note=c['note']))
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


def selftest():
    bdir = os.path.join(VERIF, 'build', 'selftest-%d' % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        for v in ('asan', 'tsan'):
            b = VARIANTS[v]
            if not tool_ok(bdir, b[0], b[1:]):
                say('cannot build and run with', ' '.join(b))
                return 1
        ok, err = headers_ok(bdir)
        if not ok:
            say('warning: headers do not compile\n' + err[:2000])
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    say('tools work')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--manifest', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.manifest:
        manifest()
        return 0
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return check(a.property, tier, seed)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Infra as e:
        say('error:', e)
        sys.exit(2)

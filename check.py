#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree
   check.py --replay FILE               replay a recorded violation
   check.py --build                     build variants and harnesses only (used by setup_cmd)
   check.py --manifest                  rewrite MANIFEST.json from properties.jsonl and checks.py
"""
import hashlib, json, os, subprocess, sys, time, glob, shlex, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE, SOLVER_NOTE, ASSUME

VARIANTS = {
    'rel':  ['-O2', '-DNDEBUG'],
    'dbg':  ['-O1'],
    'asan': ['-O1', '-g1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-fno-omit-frame-pointer'],
}
COMMON = ['-std=c++20', '-w', '-I' + REPO + '/include', '-I' + REPO, '-I' + HERE + '/stub', '-I' + HERE + '/harness']
LIBS = ['-llzma', '-lbz2', '-lpthread']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def headers(root):
    r = []
    for d, _, fs in os.walk(root):
        r += [os.path.join(d, f) for f in fs if f.endswith(('.hpp', '.h'))]
    return r

class BuildError(Exception):
    pass

def compile_all(jobs):
    """jobs: list of (cmd, output); outputs written atomically"""
    def one(j):
        cmd, out = j
        tmp = out + '.tmp%d' % os.getpid()
        r = sh(cmd + ['-o', tmp])
        if r.returncode:
            return '%s\n%s' % (' '.join(cmd), r.stdout[-4000:])
        os.replace(tmp, out)
    with ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError(errs[0])

def build(need):
    """need: set of (variant, harness). Returns {(variant, harness): executable}."""
    os.makedirs(BUILD, exist_ok=True)
    repo_hdr = headers(REPO + '/include') + headers(REPO + '/src') + headers(HERE + '/stub')
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    har_hdr = headers(HERE + '/harness')
    repo_key = digest(repo_hdr, 'lib')
    jobs, libs, links, exes = [], {}, [], {}
    for v in sorted({v for v, _ in need}):
        objs = []
        for s in srcs + [REPO + '/main.cpp']:
            if not os.path.exists(s):
                continue
            k = digest([s], repo_key + ' '.join(VARIANTS[v]))
            o = os.path.join(BUILD, 'o-%s-%s-%s.o' % (v, os.path.basename(s)[:-4], k))
            if s.endswith('/main.cpp'):
                libs[(v, 'main')] = o
                if (v, 'main') not in need:
                    continue
            else:
                objs.append(o)
            if not os.path.exists(o):
                jobs.append((['g++'] + COMMON + VARIANTS[v] + ['-c', s], o))
        libs[v] = objs
    for v, h in sorted(need):
        flags = list(VARIANTS[v])
        if h == 'main':
            objs = [libs[(v, 'main')]] + libs[v]
        else:
            s = os.path.join(HERE, 'harness', h + '.cpp')
            fl = ['-O1' if f == '-O2' else f for f in flags]
            k = digest([s] + har_hdr, repo_key + ' '.join(fl))
            o = os.path.join(BUILD, 'o-%s-%s-%s.o' % (v, h, k))
            if not os.path.exists(o):
                jobs.append((['g++'] + COMMON + fl + ['-c', s], o))
            objs = [o] + libs[v]
        k = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, 'x-%s-%s-%s' % (v, h, k))
        exes[(v, h)] = exe
        if not os.path.exists(exe):
            links.append((['g++'] + flags + objs + LIBS, exe))
    # longest first
    jobs.sort(key=lambda j: ('-fsanitize' not in ' '.join(j[0]), 'h_' not in j[1], -os.path.getsize(j[0][-1])))
    seen, uniq = set(), []
    for j in jobs:
        if j[1] not in seen:
            seen.add(j[1]); uniq.append(j)
    compile_all(uniq)
    compile_all(links)
    return exes

def load_known():
    """known-findings.txt:  known: property=C01 variant=.. harness=.. args=".." key=".." :: text
                            fixed: property=C01 <commit> <what failed>   (documentation only)"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                head, text = l[7:].split(' :: ', 1)
                d = dict(t.split('=', 1) for t in shlex.split(head))
                d['text'] = text
                out.append(d)
    return out

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    e['LSAN_OPTIONS'] = 'exitcode=98'
    e['LC_ALL'] = 'C'
    return e

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        exes = build({(d['variant'], d['harness'])} | {tuple(x) for x in d.get('also', [])})
        r = subprocess.run([exes[(d['variant'], d['harness'])]] + d['args'] + ['--replay', d['key']], env=env_for(exes))
        sys.exit(r.returncode)
    if len(sys.argv) >= 2 and sys.argv[1] == '--manifest':
        return manifest()
    if len(sys.argv) >= 2 and sys.argv[1] == '--build':
        need = {(r['variant'], r['harness']) for c in CHECKS.values() for t in ('quick',) for r in c[t]}
        need |= {tuple(x) for c in CHECKS.values() for r in c['quick'] for x in r.get('also', [])}
        build(need)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = CHECKS[prop]
    t0 = time.time()
    runs = chk['quick'] if tier == 'quick' else chk.get('thorough', chk['quick'])
    limit = chk.get('limit', 640 if tier == 'quick' else 6 * 3600)
    need = {(r['variant'], r['harness']) for r in runs}
    for r in runs:
        need |= {tuple(x) for x in r.get('also', [])}
    try:
        exes = build(need)
    except BuildError as e:
        print('BUILD FAILED\n%s' % e)
        return 2
    tb = time.time() - t0
    known = [k for k in load_known() if k['property'] == prop]
    res_dir = os.path.join(BUILD, 'res'); os.makedirs(res_dir, exist_ok=True)
    rep_dir = os.path.join(BUILD, 'replay'); os.makedirs(rep_dir, exist_ok=True)
    tot = dict(cases=0, evals=0, states=0, transitions=0, nontrivial=0)
    detail, samples, viol, kf = [], [], [], []
    exhaustive, err = True, None
    for i, r in enumerate(runs):
        out = os.path.join(res_dir, '%s-%s-%d.json' % (prop, tier, i))
        if os.path.exists(out):
            os.unlink(out)
        left = limit - (time.time() - t0)
        if left < 5:
            exhaustive = False
            detail.append(dict(run=label(r), skipped='time budget used up by the runs before'))
            continue
        cmd = [exes[(r['variant'], r['harness'])]] + r['args'] + ['--out', out, '--budget', '%.1f' % min(left, r.get('budget', 1e9)), '--timeout', str(r.get('timeout', 10)), '--workers', str(min(8, os.cpu_count() or 8))]
        p = subprocess.run(cmd, env=env_for(exes, r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode != 0 or not os.path.exists(out):
            err = 'harness %s ended with %d: %s' % (label(r), p.returncode, p.stdout[-1500:])
            print(err)
            continue
        d = json.load(open(out), strict=False)
        for k in tot:
            tot[k] += d[k]
        exhaustive = exhaustive and d['exhausted']
        detail.append(dict(run=label(r), what=r.get('what', ''), cases=d['cases'], executions=d['evals'], states=d['states'], transitions=d['transitions'],
                           nontrivial=d['nontrivial'], outcomes=d['outcomes'], exhaustive=d['exhausted'], wall_s=round(d['wall'], 2)))
        samples += ['%s: %s' % (label(r), s) for s in d['samples']]
        for f in d['failures']:
            hit = next((k for k in known if k['key'] == f['key'] and k['harness'] == r['harness'] and k.get('variant', r['variant']) == r['variant']), None)
            if hit:
                continue
            viol.append((r, f))
        print('%-60s cases=%d executions=%d states=%d transitions=%d exhaustive=%s %.1fs' % (label(r)[:60], d['cases'], d['evals'], d['states'], d['transitions'], d['exhausted'], d['wall']), flush=True)
        if viol and tier == 'quick':
            break
    # listed findings are replayed one by one
    for k in known:
        v, h = k.get('variant', 'rel'), k['harness']
        ex = build({(v, h)})
        p = subprocess.run([ex[(v, h)]] + shlex.split(k['args']) + ['--replay', k['key']], env=env_for(ex), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode == 1:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
            kf.append(k['text'])
    wall = time.time() - t0
    cov = dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['evals'], samples=samples[:12] or ['none'],
               evaluations=tot['cases'], distinct_nontrivial=tot['nontrivial'], rule=chk.get('rule', ''), exhaustive=bool(exhaustive and not viol),
               runs=detail, build_s=round(tb, 1))
    ev = dict(property=prop, tier='thorough' if tier == 'thorough' else 'quick', seed=seed, level=chk.get('level', 'model_checking'), coverage=cov,
              wall_s=round(wall, 2), violations=len(viol), assumptions=chk.get('assumptions', ASSUME))
    if cov['evaluations'] == cov['traces_validated_against_impl']:
        del cov['evaluations']
    if kf:
        ev['coverage']['known_findings'] = kf
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for n, (r, f) in enumerate(viol[:5]):
        path = os.path.join(rep_dir, '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, variant=r['variant'], harness=r['harness'], args=r['args'], also=r.get('also', []), key=f['key'], message=f['msg'],
                       how='python3 %s/check.py --replay %s' % (HERE, path)), open(path, 'w'), indent=1)
        print('  %s [%s] %s' % (label(r)[:80], f['key'][:300], f['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if viol:
        return 1
    if err:
        return 2
    print('%s held: %d cases, %d executions, %d states, %d transitions, exhaustive=%s, %.1fs' % (prop, tot['cases'], tot['evals'], tot['states'], tot['transitions'], exhaustive, wall))
    return 0

def manifest():
    props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
    m = dict(version=1, setup_cmd='python3 check.py --build', checks=[], not_applicable=[],
             notes='Every check builds the library and its harnesses from /repo and enumerates bounded spaces of formulas, schedules and API histories on the real code (see DESIGN.md). No hooks in /repo are needed. Repaired defects are listed in known-findings.txt.')
    for p in props:
        c = CHECKS.get(p)
        if not c:
            m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check built yet')))
            continue
        m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, technique='model checking: ' + c['technique'],
                                level=c.get('level', 'model_checking'), level_note=c.get('note', SOLVER_NOTE)))
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
    open(HERE + '/MANIFEST.json', 'a').write('\n')
    return 0

def label(r):
    return ' '.join([r['variant'], r['harness']] + [shlex.quote(a) for a in r['args']])

def env_for(exes, r=None):
    e = env()
    for (v, h), x in exes.items():
        if h == 'main' and (r is None or (v, h) in [tuple(y) for y in r.get('also', [])]):
            e['NAPSAT_MAIN_' + v] = x
    e['VERIF_STUB'] = HERE + '/stub'
    e['VERIF_SRC'] = REPO
    return e

if __name__ == '__main__':
    sys.exit(main())

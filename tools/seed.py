#!/usr/bin/env python3
"""seed.py make SPEC.py      build seeded/<id>/ from a specification (dict SEED), confirming it in a scratch copy
   seed.py check ID [tier]   apply seeded/<id>/patch.diff to a scratch copy and run the check of its property there"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def copy():
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp'); run(['cp', '-a', '/repo', d + '/repo']); return d
def demo(sd, repo): return run([sd + '/demo.sh'], cwd=repo)
def make(spec):
    ns = {}; exec(open(spec).read(), ns); bad = 0
    for s in ns['SEEDS']:
        d = copy(); repo = d + '/repo'
        try:
            for f, old, new in s['edits']:
                t = open(repo + '/' + f).read()
                assert t.count(old) == 1, '%s: %d matches in %s of %r' % (s['id'], t.count(old), f, old)
                # the lines replaced must come from the original repository
                open(repo + '/' + f, 'w').write(t.replace(old, new))
            diff = run(['git', 'diff'], cwd=repo).stdout
            sd = V + '/seeded/' + s['id']; os.makedirs(sd, exist_ok=True)
            open(sd + '/patch.diff', 'w').write(diff)
            for x in ('demo.hpp', 'demo.sh'): shutil.copy(V + '/tools/seedlib/' + x, sd)
            for x in ('Sentinel-API.hpp', 'Sentinel-options.hpp'): shutil.copy(V + '/stub/' + x, sd)
            if s.get('sh'): open(sd + '/demo.sh', 'w').write(s['sh']); os.chmod(sd + '/demo.sh', 0o755)
            if s.get('flags'):
                t = open(sd + '/demo.sh').read().replace('repo=$(pwd)\n', 'repo=$(pwd)\nDEMO_FLAGS="%s"\n' % s['flags']); open(sd + '/demo.sh', 'w').write(t)
            if s.get('cpp'): open(sd + '/demo.cpp', 'w').write(s['cpp'])
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(sd + '/meta.json', 'w'), indent=1)
            # lines removed must be original
            orig = run(['git', 'blame', '-s', '3a88d7e', '--', s['edits'][0][0]], cwd=repo)
            for f, old, new in s['edits']:
                bl = run(['git', 'blame', '-s', 'HEAD', '--', f], cwd=repo).stdout.split('\n')
                dl = run(['git', 'diff', '-U0', '--', f], cwd=repo).stdout
                import re
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dl, re.M):
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    for i in range(a, a + n):
                        if not bl[i - 1].startswith('^3a88d7e') and '3a88d7e' not in bl[i - 1][:9]: print('  NOTE %s: line %s:%d is not original: %s' % (s['id'], f, i, bl[i - 1]))
            c = demo(sd, '/repo'); p = demo(sd, repo)
            ok = c.returncode == 0 and p.returncode not in (0, 2)
            print('%s: clean=%d patched=%d %s | %s' % (s['id'], c.returncode, p.returncode, 'OK' if ok else 'BAD', (p.stdout if ok else c.stdout + p.stdout)[-300:].strip().replace('\n', ' / ')), flush=True)
            bad += not ok
        finally:
            shutil.rmtree(d)
    return bad
def check(sid, tier='quick', prop=None):
    d = copy(); repo = d + '/repo'
    try:
        r = run(['git', 'apply', V + '/seeded/' + sid + '/patch.diff'], cwd=repo)
        if r.returncode: print(sid, 'does not apply', r.stdout); return
        p = prop or json.load(open(V + '/seeded/' + sid + '/meta.json'))['property']
        e = dict(os.environ, VERIF_REPO=repo)
        r = run(['python3', V + '/check.py', p, tier], env=e)
        v = [l for l in r.stdout.split('\n') if l.startswith('  ') or 'VIOLATION' in l]
        print('%s %s: rc=%d %s %s' % (sid, p, r.returncode, 'CAUGHT' if r.returncode == 1 and any('VIOLATION' in l for l in v) else 'missed', (v or r.stdout.split('\n')[-3:])[0][:300]), flush=True)
    finally:
        shutil.rmtree(d)
if sys.argv[1] == 'make': sys.exit(make(sys.argv[2]))
for i in sys.argv[2].split(','): check(i, *sys.argv[3:])

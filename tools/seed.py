#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: writes /verif/seeded/<id> for each planted change of SPEC, and confirms it in a
scratch copy: demonstration quiet without it and failing with it, stable tests passing, then the property's check."""
import sys, os, subprocess, shutil, json, runpy, re
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
args = sys.argv[1:]
opts = {a for a in args if a.startswith('--')}
args = [a for a in args if not a.startswith('--')]
specs = runpy.run_path(args[0])['SEEDS']
if args[1:]:
    specs = [s for s in specs if s['id'] in args[1:]]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(s):
    i = s['id']; d = '%s/seeded/%s' % (V, i); w = '/tmp/sw/%s' % i
    os.makedirs(d, exist_ok=True); shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/sw', exist_ok=True)
    sh('cp -a /repo %s' % w)
    for f, old, new in s['edits']:
        p = '%s/pipedream_solver/%s' % (w, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            return i, 'EDIT matches %d times in %s: %r' % (n, f, old[:60])
        open(p, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % w).stdout)
    shutil.copy(V + '/tools/demo_net.py', d + '/demo_net.py')
    open(d + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_net import *\n' + s['demo'])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg %s\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % s.get('env', 'NUMBA_DISABLE_JIT=1'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
    b = sh('bash %s/demo.sh' % d, cwd=w, timeout=300)
    res = 'demo %d/%d' % (a.returncode, b.returncode)
    if a.returncode != 0 or b.returncode == 0:
        return i, res + ' BAD\n' + a.stdout[-1500:] + '\n----\n' + b.stdout[-1500:]
    if 'Traceback' in b.stdout:
        res += ' (traceback: %s)' % b.stdout.strip().splitlines()[-1][:80]
    if '--notest' not in opts:
        t = open('/opt/vp/test.sh').read().replace('/repo', w)
        open('/tmp/sw/%s.test.sh' % i, 'w').write(t)
        sh('bash /tmp/sw/%s.test.sh /tmp/sw/%s.json' % (i, i))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        out = json.load(open('/tmp/sw/%s.json' % i)) if os.path.exists('/tmp/sw/%s.json' % i) else {}
        txt = json.dumps(out)
        passed = out.get('passed', out if isinstance(out, list) else [])
        miss = [b for b in base if b not in passed]
        res += ' tests ' + ('ok' if not miss else 'FAIL %s' % miss)
    if '--nocheck' not in opts:
        for c in s.get('checks', [s['prop']]):
            r = sh('VB_REPO=%s python3 run.py %s quick' % (w, c), cwd=V)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            res += ' %s=%s' % (c, 'CAUGHT' if r.returncode == 1 and v else 'missed(rc %d)' % r.returncode)
            if r.returncode not in (0, 1):
                res += r.stdout[-800:]
    shutil.rmtree(w, ignore_errors=True)
    return i, res


with ThreadPoolExecutor(1 if len(specs) == 1 else 2) as ex:
    for i, r in ex.map(one, specs):
        print(i, r, flush=True)

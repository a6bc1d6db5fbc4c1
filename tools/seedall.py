#!/usr/bin/env python3
"""seedall.py [ID...]: apply every planted bug (or the named ones) to a scratch clone of /repo and run its property's
quick check on it; writes tools/seed_results.json and prints misses. Development tool: no registered check uses it."""
import json, os, subprocess, sys, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + '/seeded'; OUT = V + '/tools/seed_results.json'
def sh(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
W = tempfile.mkdtemp(prefix='seedall_'); R = W + '/repo'
try:
    sh('git', 'clone', '-q', '/repo', R); shutil.copytree(V, W + '/v', ignore=shutil.ignore_patterns('.git', 'seeded', 'build', 'evidence'))
    os.makedirs(W + '/v/evidence', exist_ok=True)
    ids = sys.argv[1:] or sorted(os.listdir(S))
    for i in ids:
        m = json.load(open(f'{S}/{i}/meta.json')); p = m['property']
        sh('git', '-C', R, 'reset', '-q', '--hard')
        a = sh('git', '-C', R, 'apply', f'{S}/{i}/patch.diff')
        if a.returncode: print(i, 'DOES NOT APPLY', a.stdout); continue
        t = time.time(); r = sh('python3', 'tools/check.py', p, 'quick', cwd=W + '/v', env=dict(os.environ, VITA_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'))
        ok = r.returncode == 1 and f'VIOLATION property={p}' in r.stdout
        res[i] = {'property': p, 'caught': ok, 'seconds': round(time.time() - t)}
        print(i, p, 'caught' if ok else 'MISSED rc=%d' % r.returncode, round(time.time() - t), flush=True)
        json.dump(res, open(OUT, 'w'), indent=1, sort_keys=True)
finally: shutil.rmtree(W)

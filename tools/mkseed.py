#!/usr/bin/env python3
"""mkseed.py SEEDS.py [ID ...]: make planted bugs from a table and confirm each in a scratch copy.

Each entry of SEEDS.py's list S: dict(id, prop, edits=[(file, old, new)], demo=C source body, needs, breaks[, flags, sh]).
Confirms: patch applies to HEAD, builds, stable tests pass, demo passes without and fails with it; runs the
property's quick check (VITA_REPO=scratch) and reports whether it is caught. Writes seeded/<id>/.
Development tool only: no registered check uses it.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <limits.h>
#include <math.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "vita/vita.h"
#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "demo: line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
'''
SH = r'''#!/bin/bash
# cwd: a built tree. Exit 0: behaves; nonzero: does not.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -g -O1 @FLAGS@ -w -Iinc "$here/demo.c" $(find src -name '*.c') -lm -o "$t/demo" || exit 3
cd "$t" || exit 3
export ASAN_OPTIONS=@ASAN@ TZ=UTC LC_ALL=C
timeout -s KILL 120 ./demo
'''
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = stable.get('passed') or stable.get('stable') or stable
def one(s):
    d = tempfile.mkdtemp(prefix='seed_%s_' % s['id'], dir='/tmp')
    log = []
    try:
        w = d + '/repo'
        sh(['cp', '-a', '/repo', w]); sh(['git', '-C', w, 'checkout', '-q', '--', '.']); shutil.rmtree(w + '/_build', ignore_errors=True)
        sd = os.path.join(V, 'seeded', s['id'])
        new = d + '/seed'; os.makedirs(new)
        open(new + '/demo.c', 'w').write(PRE + s['demo'])
        flags = s.get('flags', '-fsanitize=address')
        open(new + '/demo.sh', 'w').write(SH.replace('@FLAGS@', flags).replace('@ASAN@', s.get('asan', 'detect_leaks=0:exitcode=99')))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(new + '/meta.json', 'w'), indent=1)
        r0 = sh(['bash', new + '/demo.sh'], cwd=w)
        if r0.returncode: return s['id'], 'DEMO-FAILS-UNPATCHED %d\n%s' % (r0.returncode, r0.stdout[-1500:]), None
        for f, a, b in s['edits']:
            p = w + '/' + f
            t = open(p).read()
            n = t.count(a)
            if n != 1: return s['id'], 'EDIT matches %d times in %s: %r' % (n, f, a[:80]), None
            open(p, 'w').write(t.replace(a, b))
        diff = sh(['git', '-C', w, 'diff']).stdout
        open(new + '/patch.diff', 'w').write(diff)
        # removed lines must be lines of the original repository
        for f in sh(['git', '-C', w, 'diff', '--name-only']).stdout.split():
            bl = sh(['git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f]).stdout.splitlines()
            mine = set(sh(['git', '-C', '/repo', 'rev-list', '--abbrev-commit', '--abbrev=7', '39ee2d6..HEAD']).stdout.split())
            lines = open('/repo/' + f).read().split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? .*$', sh(['git', '-C', w, 'diff', '-U0', '--', f]).stdout, re.M):
                st, n = int(m[1]), int(m[2] or 1)
                for k in range(st, st + n):
                    if bl[k-1].split()[0].lstrip('^')[:7] in mine: log.append('NOTE line %d of %s is ours' % (k, f))
        t = {n: open('/opt/vp/' + n).read().replace('/repo', w).replace('/opt/vp/build.sh', d + '/build.sh') for n in ('build.sh', 'test.sh')}
        for n in t: open(d + '/' + n, 'w').write(t[n])
        r = sh(['bash', d + '/build.sh'])
        if r.returncode: return s['id'], 'BUILD FAILS\n' + r.stdout[-600:], None
        sh(['bash', d + '/test.sh', d + '/o.json'])
        res = open(w + '/_build/results.txt').read()
        passed = set(re.findall(r'PASS (\S+)', res))
        missing = [x for x in stable if x not in passed]
        if missing: return s['id'], 'TESTS FAIL %s' % missing, None
        r1 = sh(['bash', new + '/demo.sh'], cwd=w)
        if r1.returncode in (0, 3): return s['id'], 'DEMO-PASSES-PATCHED %d\n%s' % (r1.returncode, r1.stdout[-500:]), None
        env = dict(os.environ, VITA_REPO=w)
        c = sh([sys.executable, V + '/tools/check.py', s['prop'], 'quick'], env=env)
        caught = c.returncode == 1 and ('VIOLATION property=%s' % s['prop']) in c.stdout
        if os.path.isdir(sd): shutil.rmtree(sd)
        shutil.copytree(new, sd)
        return s['id'], ('CAUGHT' if caught else 'MISSED rc=%d %s' % (c.returncode, c.stdout[-600:])) + ''.join('\n   ' + x for x in log), caught
    finally:
        shutil.rmtree(d, ignore_errors=True)
ns = {}
exec(open(sys.argv[1]).read(), ns)
S = [s for s in ns['S'] if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for i, m, c in ex.map(one, S):
        print(i, m, flush=True)

#!/usr/bin/env python3
"""mutate.py FILE [--skip N] [--every K] [--max M]: systematic source mutants of one library file, run against the
checks that cover it (quick tier) until one reports a violation. Survivors are listed for review. Development tool:
works on a scratch copy of /repo and of /verif (arguments: MUTDIR in the environment, default /tmp/mut/<name>);
no registered check uses it.
"""
import json, os, re, shutil, subprocess, sys, time
CHECKS = {'vec.c': 'C01 C07 C10 C08 C12', 'plist.c': 'C02 C07 C10 C08 C12', 'common.c': 'C26 C01 C02 C10 C11 C07 C08 C12', 'str.c': 'C03 C04 C05 C06 C07 C11 C10 C08 C12',
          'span.c': 'C11 C10', 'mallocator.c': 'C09 C10 C27 C08 C12', 'conv.c': 'C13 C10', 'core.c': 'C26 C10 C12', 'math.c': 'C23 C25', 'comparison.c': 'C23',
          'sockets.c': 'C24 C10', 'fileio.c': 'C18 C19 C10 C08 C12', 'path.c': 'C20 C21 C10 C08 C12', 'datetime.c': 'C15 C16 C17 C10', 'argopt.c': 'C14 C27 C10 C08 C12', 'debug.c': 'C22 C10', 'log.c': 'C22 C10'}
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def mutants(src):
    lines = src.split('\n'); out = []; incomment = False; depth = 0; assertd = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'): incomment = True
        skip = incomment or not s or s.startswith('//') or s.startswith('#') or 'VT_DEBUG_PRINTF' in s
        if '*/' in s: incomment = False
        if skip: continue
        code = l.split('//')[0]
        inside = l.startswith('    ') or l.startswith('\t')
        masked = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '\x00' * (len(m.group()) - 2) + '"', code)
        def add(new, kind): out.append((i, new, kind))
        for m in re.finditer(r'<=|>=|==|!=|(?<![-<>])<(?![<=])|(?<![->])>(?![>=])', masked):
            if s.startswith('static') or s.startswith('extern'): break
            op = m.group()
            for n in {'<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '<': ['<=', '>'], '>': ['>=', '<']}[op]:
                add(l[:m.start()] + n + l[m.end():], op + '->' + n)
        for m in re.finditer(r'(?<= )([-+*/%])(?= )', masked):
            n = {'+': '-', '-': '+', '*': '+', '/': '*', '%': '*'}[m.group()]
            if inside: add(l[:m.start()] + n + l[m.end():], m.group() + '->' + n)
        for m in re.finditer(r'&&|\|\|', masked): add(l[:m.start()] + ('||' if m.group() == '&&' else '&&') + l[m.end():], m.group() + ' swapped')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', masked):
            v = int(m.group())
            for n in (v + 1, v - 1) if v else (1,): add(l[:m.start()] + str(n) + l[m.end():], '%d->%d' % (v, n))
        for m in re.finditer(r'\b(true|false)\b', masked): add(l[:m.start()] + ('false' if m.group() == 'true' else 'true') + l[m.end():], 'bool')
        for m in re.finditer(r'!(?=[\w(])', masked): add(l[:m.start()] + l[m.end():], 'drop !')
        for m in re.finditer(r'\+\+|--', masked): add(l[:m.start()] + ('--' if m.group() == '++' else '++') + l[m.end():], 'incdec')
        for m in re.finditer(r'[-+|&*]=(?!=)', masked): add(l[:m.start()] + '=' + l[m.end():], 'compound assign')
        for m in re.finditer(r'\belse\b', masked):
            pass
        if inside and s.endswith(';') and not re.match(r'(return|break|continue|\}|const |static |char |size_t |int|uint|vt_\w+_t |struct |enum |bool |float |double |real |FILE |va_list|time_t|ssize)', s) and s.count('(') == s.count(')') and not s.startswith(('.', '?', ':')):
            add(re.match(r'\s*', l).group() + ';', 'delete statement')
        if re.match(r'\s*(break|continue);', l): add(re.match(r'\s*', l).group() + ';', 'delete jump')
        m = re.match(r'(\s*)(\}?\s*(?:else )?if) \((.*)\) (\{.*|.*;)$', l)
        if m: add('%s%s (1) %s' % (m.group(1), m.group(2), m.group(4)), 'if true'); add('%s%s (0) %s' % (m.group(1), m.group(2), m.group(4)), 'if false')
        for m in re.finditer(r'\? (.+?) : (.+?)([;,)]|$)', masked):
            if inside: add(l[:m.start()] + '? ' + l[m.start(2):m.end(2)] + ' : ' + l[m.start(1):m.end(1)] + l[m.start(3):], 'ternary swapped')
        for m in re.finditer(r'(?<=, )(\w+->alloctr|alloctr)(?=\))', masked):
            if inside: add(l[:m.start()] + 'NULL' + l[m.end():], 'allocator dropped')
        for m in re.finditer(r'\b(memmove|vt_memmove)\b', masked): add(l[:m.start()] + 'memcpy' + l[m.end():], 'memcpy')
        for m in re.finditer(r'\bsize_t\b(?! *\*)', masked):
            if inside: add(l[:m.start()] + 'uint16_t' + l[m.end():], 'size_t->uint16_t'); add(l[:m.start()] + 'uint8_t' + l[m.end():], 'size_t->uint8_t')
        for m in re.finditer(r'\bint64_t\b(?! *\*)', masked):
            if inside: add(l[:m.start()] + 'int16_t' + l[m.end():], 'int64_t->int16_t')
        for m in re.finditer(r'\bint(8|16|32)_t\b(?! *\*)', masked):
            if inside and m.group(1) != '8': add(l[:m.start()] + 'int8_t' + l[m.end():], 'narrowed')
    seen = set(); res = []
    for i, n, k in out:
        if n != lines[i] and (i, n) not in seen: seen.add((i, n)); res.append((i, n, k))
    return lines, res
def main():
    name = sys.argv[1]; a = sys.argv[2:]
    opt = lambda k, d: int(a[a.index(k) + 1]) if k in a else d
    base = os.environ.get('MUTDIR', '/tmp/mut/' + name.replace('.', '_')); repo = base + '/repo'; ver = base + '/verif'
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    sh(['git', 'clone', '-q', '/repo', repo]); sh(['git', 'clone', '-q', '/verif', ver]); shutil.rmtree(ver + '/seeded', ignore_errors=True)
    path = sh('find %s/src -name %s' % (repo, name), shell=True).stdout.strip(); src = open(path).read(); lines, ms = mutants(src)
    skip, every, mx = opt('--skip', 0), opt('--every', 1), opt('--max', 10**9)
    log = open(base + '/log', 'w'); surv = open(base + '/survivors', 'w'); stats = {'killed': 0, 'nocompile': 0, 'survived': 0, 'error': 0}
    env = dict(os.environ, VITA_REPO=repo, TMPDIR=base + '/tmp'); os.makedirs(base + '/tmp', exist_ok=True); os.chmod(base, 0o755); os.chmod(base + '/tmp', 0o777)
    def show_(i): return '%s:%d %s' % (name, i + 1, lines[i].strip()[:90])
    n = 0
    for q, (i, new, kind) in enumerate(ms):
        if q < skip or (q - skip) % every: continue
        n += 1
        if n > mx: break
        t0 = time.time(); t = list(lines); t[i] = new; open(path, 'w').write('\n'.join(t))
        r = sh(['gcc', '-std=gnu11', '-O2', '-Wall', '-Wextra', '-Werror', '-Wno-unused-variable', '-Wno-unused-but-set-variable', '-Wno-type-limits', '-I' + repo + '/inc', '-c', path, '-o', base + '/x.o'])
        if r.returncode: stats['nocompile'] += 1; continue
        killed = None
        for c in CHECKS[name].split():
            try: r = sh(['python3', ver + '/tools/check.py', c, 'quick'], env=env, timeout=400)
            except subprocess.TimeoutExpired: killed = c + ' TIMEOUT'; stats['error'] += 1; break
            if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout: killed = c; break
            if r.returncode != 0: killed = c + ' ERROR ' + r.stdout[-300:]; stats['error'] += 1; break
        if killed and ' ' not in killed: stats['killed'] += 1
        line = '%s | %s | %s | %s | %.0fs\n' % (show_(i), kind, new.strip()[:90], killed or 'SURVIVED', time.time() - t0)
        log.write(line); log.flush()
        if not killed: stats['survived'] += 1
        if not killed or ' ' in killed: surv.write(line); surv.flush()
        if n % 10 == 0: sh('find %s/build -newermt 2000-01-01 -mmin +3 \\( -name "x*" -o -name "l*.o" \\) -delete' % ver, shell=True)
    open(path, 'w').write(src); json.dump(stats, open(base + '/stats', 'w')); print(name, len(ms), stats)
    sh(['rm', '-rf', repo, ver, base + '/tmp'])
if __name__ == '__main__': main()

#!/usr/bin/env python3
"""Random small mutants of the program, developer tool (no check uses it).
 mutants.py WORKTREE FILE:FROM-TO|FILE CHECK,CHECK,... COUNT SEED
makes one-token changes in a scratch tree, drops those the project's tests notice, runs the given checks until one reports,
and prints the survivors as diffs (most of them are equivalent programs; the others show what a check misses)."""
import os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tree, where, checks, count, seed = sys.argv[1:6]
fn, _, rng = where.partition(':')
path = f'{tree}/src/{fn}'
orig = open(path, encoding='latin-1').read()
lines = orig.split('\n')
lo, hi = map(int, rng.split('-')) if rng else (1, len(lines))
rnd = random.Random(int(seed))


def sh(c, t=600):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -9, 'timeout'


def code_part(l):
    i = l.find('//')
    return l if i < 0 else l[:i]


SUBS = [(r'(?<![<>=!\-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![<>=\-])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
        (r'&&', '||'), (r'\|\|', '&&'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ 1\b', ' + 2'), (r'(?<=[=(,]) ?0(?=[;,)])', ' 1'), (r'(?<=[=(,]) ?1(?=[;,)])', ' 0'),
        (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\+\+', '--'), (r'\bif \((?=[^{]*\) ?\{?$)', 'if (!!0 && '), (r'\bif \((?=[^{]*\) ?\{?$)', 'if (1 || '), (r'!(?=[a-zA-Z])', '')]


def mutate():
    for _ in range(1000):
        n = rnd.randrange(lo - 1, hi)
        l = code_part(lines[n])
        s = l.strip()
        if not s or s.startswith(('*', '/*', '#', '}', 'print2(', 'bug(', 'free_', 'long ', 'vstring', 'flag ', 'char ', 'extern', 'temp_', 'void ', 'nmbrString', 'pntrString', 'struct', '"', 'D(', 'H(')) or 'bug(' in s or 'printf' in s or 'print2' in s:
            continue
        if rnd.random() < 0.2:
            if s.endswith(';') and not s.startswith(('return', 'for', 'else', 'while', 'case', 'default')) and code_part(lines[n - 1]).rstrip().endswith((';', '{', '}', '')) and s.count('(') == s.count(')') and ('=' in s or '(' in s):
                return n, l[:len(l) - len(l.lstrip())] + ';'
            continue
        pat, rep = rnd.choice(SUBS)
        ms = list(re.finditer(pat, l))
        if not ms:
            continue
        m = rnd.choice(ms)
        if l[:m.start()].count('"') % 2:
            continue
        return n, l[:m.start()] + rep + l[m.end():]
    raise SystemExit('no mutant')


open(f'{tree}/vpstub.c', 'w').write('int vp_system(const char *s) { return 0; }\n')
sh(f'gcc -c -o {tree}/vpstub.o {tree}/vpstub.c')
sh(f'mkdir -p {tree}/mobj && cd {tree}/mobj && for f in {tree}/src/m*.c; do gcc -O1 -w -Dsystem=vp_system -c $f & done; wait')
os.environ['VERIF_OBJCACHE'] = '/tmp/objcache'
k = tests = 0
try:
    seen = set()
    while k < int(count):
        n, new = mutate()
        if (n, new) in seen:
            continue
        seen.add((n, new))
        ls = list(lines)
        ls[n] = new
        open(path, 'w', encoding='latin-1').write('\n'.join(ls))
        rc, out = sh(f'cd {tree}/mobj && gcc -O1 -w -Dsystem=vp_system -c {tree}/src/{fn} && gcc -o {tree}/mutmm *.o {tree}/vpstub.o')
        if rc:
            continue
        # the project's golden tests
        dead = False
        rc, out = sh(f'rm -rf {tree}/mt && cp -R {tree}/tests {tree}/mt && cd {tree}/mt && rm -f *.produced && rm -f issue129.in underscores.in; for t in *.in; do METAMATH={tree}/mutmm timeout 20 bash ./run_test.sh -c {tree}/mutmm ${{t%.in}} || exit 1; done', 120)
        if rc:
            tests += 1
            continue
        k += 1
        killer = None
        times = []
        for c in checks.split(','):
            rc, out = sh(f'cd {V} && VERIF_REPO={tree} VERIF_SHRINK=1 nice python3 run_check.py {c} --quick', 1500)
            if rc == 1 or rc == -9 or 'VIOLATION' in out:
                killer = c
                break
            if rc:
                print('??', c, rc, out[-300:])
        print(f'{"KILLED " + killer if killer else "SURVIVED"} {fn}:{n + 1}: {lines[n].strip()}  ==>  {new.strip()}', flush=True)
finally:
    open(path, 'w', encoding='latin-1').write(orig)
print(f'{where}: {k} mutants passed the tests, {tests} did not')

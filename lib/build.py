"""Builds the program under test from /repo/src's working tree, outside /repo.

Variants:
  plain   gcc -O1
  asan    clang -O1 with AddressSanitizer and UndefinedBehaviorSanitizer
In every variant the C library's system() is replaced by a stand-in that only
appends the command line to the file named by VP_SYSTEM_LOG (or does nothing):
a command line that starts with a quote is an operating-system command, and
generated command lines must never reach a real shell."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

from .core import REPO

STUB = r'''
#include <stdio.h>
#include <stdlib.h>
int vp_system(const char *s);
int vp_system(const char *s) {
  const char *f = getenv("VP_SYSTEM_LOG");
  if (!s) return 1;
  if (f) { FILE *fp = fopen(f, "a"); if (fp) { fprintf(fp, "%s\n", s); fclose(fp); } }
  return 0;
}
'''

VARIANTS = {
    'plain': ('gcc', ['-O1', '-w'], []),
    'asan': ('clang', ['-O1', '-g', '-w', '-fno-omit-frame-pointer',
                       '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
             ['-fsanitize=address,undefined']),
}


def compile_objs(base, name, cc, cflags, extra_defs=(), skip=()):
    odir = os.path.join(base, 'obj_' + name)
    os.makedirs(odir)
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', 'm*.c')))
    stub = os.path.join(odir, 'vp_stub.c')
    with open(stub, 'w') as f:
        f.write(STUB)
    jobs = []
    objs = []
    for s in srcs:
        if os.path.basename(s) in skip:
            continue
        o = os.path.join(odir, os.path.basename(s)[:-2] + '.o')
        objs.append(o)
        jobs.append([cc, *cflags, '-Dsystem=vp_system', *extra_defs, '-I', os.path.join(REPO, 'src'), '-c', s, '-o', o])
    o = os.path.join(odir, 'vp_stub.o')
    objs.append(o)
    jobs.append([cc, *cflags, '-c', stub, '-o', o])

    # developer runs over many mutants may keep object files; no registered command sets this variable
    cache = os.environ.get('VERIF_OBJCACHE')
    heads = b''.join(open(h, 'rb').read() for h in sorted(glob.glob(os.path.join(REPO, 'src', 'm*.h')))) if cache else b''

    def run(j):
        if cache:
            src = j[j.index('-c') + 1]
            key = hashlib.sha256(repr([x for x in j[:j.index('-c')] if 'src' not in x]).encode() + open(src, 'rb').read() + heads).hexdigest()
            c = os.path.join(cache, key + '.o')
            if os.path.exists(c):
                shutil.copy(c, j[-1])
                return 0, ''
        r = subprocess.run(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if cache and r.returncode == 0:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(j[-1], c + '.new')
            os.replace(c + '.new', c)
        return r.returncode, r.stdout.decode(errors='replace')
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for j, (rc, out) in zip(jobs, ex.map(run, jobs)):
            if rc:
                sys.stderr.write('build failed: ' + ' '.join(j) + '\n' + out)
                sys.exit(3)
    return objs


def build(base, variants):
    env = {}
    for v in variants:
        cc, cflags, ldflags = VARIANTS[v]
        objs = compile_objs(base, v, cc, cflags)
        exe = os.path.join(base, 'metamath_' + v)
        r = subprocess.run([cc, *cflags, *objs, *ldflags, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors='replace'))
            sys.exit(3)
        env[v] = exe
    return env

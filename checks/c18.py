"""C18  Writing a file keeps the earlier contents as numbered backups, also when the program dies in the middle."""
import os, shutil
from lib import mm, mmgen, inc, build
from lib.core import Check, Violation, Discard

CRASH = r'''
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static long vp_n = 0;
static void vp_tick(void) {
  const char *s = getenv("VP_CRASH");
  const char *c = getenv("VP_COUNT");
  vp_n++;
  if (s && atol(s) == vp_n) _exit(77);
  if (c) { FILE *f = fopen(c, "w"); if (f) { fprintf(f, "%ld", vp_n); fclose(f); } }
}
FILE *vp_fopen(const char *n, const char *m); FILE *vp_fopen(const char *n, const char *m) { vp_tick(); return fopen(n, m); }
int vp_fclose(FILE *f); int vp_fclose(FILE *f) { vp_tick(); return fclose(f); }
int vp_rename(const char *a, const char *b); int vp_rename(const char *a, const char *b) { vp_tick(); return rename(a, b); }
int vp_remove(const char *a); int vp_remove(const char *a) { vp_tick(); return remove(a); }
'''


def prepare(env, base):
    import subprocess
    defs = [f'-D{x}=vp_{x}' for x in ('fopen', 'fclose', 'rename', 'remove')]
    objs = build.compile_objs(base, 'crash', 'gcc', ['-O1', '-w'], extra_defs=defs)
    src = os.path.join(base, 'crash.c')
    with open(src, 'w') as f:
        f.write(CRASH)
    exe = os.path.join(base, 'metamath_crash')
    r = subprocess.run(['gcc', '-O1', '-w', *objs, src, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise SystemExit(r.stdout.decode(errors='replace'))
    env['crash'] = exe


class Dir:
    def __init__(self, files):
        self.f = dict(files)

    def shift(self, name):
        last = 0
        for v in range(1, 10):
            if f'{name}~{v}' not in self.f:
                break
            last = v
        if last == 9:
            last = 8
        for v in range(last, 0, -1):
            self.f[f'{name}~{v + 1}'] = self.f.pop(f'{name}~{v}')
        self.f[f'{name}~1'] = self.f.pop(name)

    def put(self, name, text, nover=False):
        if name in self.f and not nover:
            self.shift(name)
        self.f[name] = text

    def drop(self, name, nover):
        if name in self.f:
            if nover:
                del self.f[name]
            else:
                self.shift(name)


def snap(d):
    out = {}
    for root, _, fs in os.walk(d):
        for n in fs:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read().decode('latin-1')
    return out


def lines(t):
    l = t.split('\n')
    if l and l[-1] == '':
        l.pop()
    return l


OPAQUE = object()


class Sess:
    """random writing commands and their effect on the model directory"""

    def __init__(self, g, t, files):
        self.g, self.t = g, t
        self.d = Dir(files)
        self.flat, _ = t.expand()
        self.main, self.parts = t.split()       # parts: in order of completion?
        self.names = ['o.mm', t.main, 'a.txt', 'b.log'] + (['sub/o.mm'] if t.subdir else [])
        self.log = None

    def order(self):
        return list(self.parts)

    def cmd(self):
        """-> (list of command lines, refused?)"""
        g, d = self.g, self.d
        self.nover = set()
        k = g.weighted([('write', 4), ('split', 3), ('extract', 1), ('log', 2), ('add', 2), ('copy', 1), ('build', 1)])
        nover = g.bool(0.25)
        nv = ' / no_versioning' if nover else ''
        fn = g.choice(self.names)
        if k in ('write', 'split') and self.parts and g.bool(0.15):
            fn = g.choice(sorted(self.parts))
        if nover and k in ('write', 'split', 'extract'):
            self.nover = {fn} | (set(self.parts) if k != 'extract' else set())
        q = f"'{fn}'" if '/' in fn else fn
        if k == 'write':
            keep = g.bool(0.4)
            if fn in self.parts:
                return [f"write source {q}{' / keep_includes' if keep else ''}{nv}"], True, k
            d.put(fn, self.flat, nover)
            if not keep:
                for f in self.parts:
                    d.drop(f, nover)
            return [f'write source {q}{" / keep_includes" if keep else ""}{nv}'], False, k
        if k == 'split':
            if '/' in fn or fn in self.parts:
                fn = q = g.choice(['o.mm', self.t.main])
                if nover:
                    self.nover.add(fn)
            for f, x in self.parts.items():
                if f in d.f:
                    if inc.norm(d.f[f]) == x:
                        continue
                elif f'{f}~1' in d.f and inc.norm(d.f[f'{f}~1']) == x:
                    d.f[f] = d.f.pop(f'{f}~1')
                    continue
                d.put(f, x, nover)
            d.put(fn, self.main, nover)
            return [f'write source {q} / split{nv}'], False, k
        if k == 'extract':
            d.put(fn, OPAQUE, nover)
            return [f'write source {q} / extract *{nv}'], False, k
        if k == 'log':
            d.put(fn, OPAQUE)
            return [f'open log {q}', 'show labels nosuch', 'close log'], False, k
        old = self.text(fn)
        if d.f.get(fn) is OPAQUE:
            k = 'number'
        if k == 'add':
            if old is None:
                return ['tools', f"add {q} '' x", 'exit'], True, k
            d.put(fn, ''.join(l + 'x\n' for l in lines(old)))
            return ['tools', f"add {q} '' x", 'exit'], False, k
        if k == 'copy':
            src = g.choice(self.names)
            o2 = self.text(src)
            if old is None or o2 is None or '/' in fn or '/' in src:
                return ['show labels nosuch'], False, k
            d.put(fn, ''.join(l + '\n' for l in lines(o2)))
            return ['tools', f'copy {src} {fn}', 'exit'], False, k
        n = g.int(1, 5)
        d.put(fn, ''.join(f'{i}\n' for i in range(1, n + 1)))
        return ['tools', f'number {q} 1 {n} 1', 'exit'], False, k

    def text(self, fn):
        x = self.d.f.get(fn)
        return None if x is OPAQUE else x


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.3, nctor=(1, 2), nax=(1, 2), nthm=(1, 2), depth=2, types=(1, 1))
    db = mmgen.Gendb(g, o)
    for _ in range(5):
        t = inc.Tree(g, db.items, ['\n', '\n', ' ', '\n\n'], allow_markup=g.bool(0.5), subdir=g.bool(0.3))
        flat, _ = t.expand()
        if f'$[ {t.main} $]' not in flat:
            break
    else:
        raise Discard('self reference')
    os.makedirs(os.path.join(ctx.dir, 'sub'))
    init = dict(t.files)
    s0 = Sess(g, t, init)
    for n in s0.names + sorted(s0.parts):
        if n not in init and g.bool(0.7):
            init[n] = f'first line of {n}\nold\n'
        if g.bool(0.6):
            nb = g.weighted([(2, 3), (9, 3), (12, 1), (1, 1), (5, 1)])
            gap = g.int(0, 9) if g.bool(0.4) else 0
            for v in range(1, nb + 1):
                if v != gap:
                    init[f'{n}~{v}'] = f'version {v} of {n}\n'
            if n in s0.parts and g.bool(0.3):
                init[f'{n}~1'] = g.choice([s0.parts[n], init.get(n, 'x\n')])
    for n, x in init.items():
        ctx.write(n, x)
    s = Sess(g, t, init)
    rd = f'read {t.main}'
    if g.bool(0.4):
        crash(g, ctx, s, rd, init)
        return
    cmds = [rd]
    groups = []
    for _ in range(g.int(1, 6)):
        c, refused, kind = s.cmd()
        groups.append((len(cmds), c, refused))
        cmds += c
        ctx.count(kind)
    ctx.key(sorted(init.items()), cmds)
    ctx.show('\n'.join(cmds) + '\nfiles: ' + ', '.join(sorted(init)))
    outs, _ = mm.session(ctx.env['plain'], cmds, ctx.dir)
    if '?Error' in outs[0]:
        raise Violation('read', outs[0][:2000])
    for i, c, refused in groups:
        x = ''.join(outs[i:i + len(c)])
        if refused != any(l.startswith('?') for l in x.split('\n')):
            raise Violation('message', f'{c}: expected {"a refusal" if refused else "no message"}, got {x[:1500]}')
    compare(s.d.f, snap(ctx.dir), cmds)
    ctx.count('backups', sum(1 for n in s.d.f if '~' in n))
    ctx.nontrivial(len(cmds) > 2 and any('~' in n for n in s.d.f))


def compare(exp, got, cmds):
    for n in sorted(set(exp) | set(got)):
        if n.startswith('.'):
            continue
        if n not in got:
            raise Violation('lost', f'after {cmds}: {n} does not exist, expected {exp[n] if exp[n] is not OPAQUE else "some contents"!r}; there are {sorted(got)}')
        if n not in exp:
            raise Violation('extra', f'after {cmds}: unexpected file {n}: {got[n][:300]!r}')
        if exp[n] is not OPAQUE and exp[n] != got[n]:
            raise Violation('content', f'after {cmds}: {n} contains {got[n][:1500]!r}, expected {exp[n][:1500]!r}')


def crash(g, ctx, s, rd, init):
    c, refused, kind = s.cmd()
    if refused:
        raise Discard('refused')
    script = '\n'.join(['set scroll continuous', rd] + c) + '\n'
    dry = os.path.join(ctx.dir, '.dry')
    os.makedirs(os.path.join(dry, 'sub'))
    for n, x in init.items():
        with open(os.path.join(dry, n), 'wb') as f:
            f.write(x.encode('latin-1'))
    cnt = os.path.join(ctx.dir, '.count')
    r = mm.run(ctx.env['crash'], (), script, dry, env={'VP_COUNT': cnt})
    mm.health(r, script)
    got = snap(dry)
    compare(s.d.f, got, c)
    with open(cnt) as f:
        n = int(f.read())
    os.unlink(cnt)
    shutil.rmtree(dry)
    # number of calls made by reading alone is small; crash anywhere
    k = n - g.draw(n)
    ctx.key(sorted(init.items()), c, k)
    ctx.show(f'{rd}; {c}; dies before file operation {k} of {n}\nfiles: ' + ', '.join(sorted(init)))
    r = mm.run(ctx.env['crash'], (), script, ctx.dir, env={'VP_CRASH': str(k)})
    if r.rc != 77:
        raise Violation('not-repeatable', f'{c}: the run has {n} file operations once and fewer the next time')
    ctx.count('crashes')
    ctx.count('crash ' + kind)
    after = snap(ctx.dir)
    final = s.d.f

    def fam(n):
        b, _, v = n.rpartition('~')
        return (b, int(v)) if b and v.isdigit() else (n, 0)
    keep = {}
    for n, x in final.items():
        if x is not OPAQUE:
            keep.setdefault(fam(n)[0], set()).add(x)
    for n, x in init.items():
        b, v = fam(n)
        if x not in keep.get(b, ()) or v == 0 and b in s.nover:
            continue                # gone in the completed run, too (oldest backup, / NO_VERSIONING)
        # in its place, or moved to an adjacent one
        places = [b if w == 0 else f'{b}~{w}' for w in (v, v + 1, v - 1) if w >= 0]
        if not any(after.get(p) == x for p in places):
            raise Violation('crash-loss', f'{c} dies before file operation {k} of {n}: the contents of {n} ({x[:200]!r}) are in none of {places}; there are {sorted(after)}')
    ctx.nontrivial()


CHECK = Check('C18', prop, quick=5000, thorough=200000, prepare=prepare,
              rule='random directories with backups (none, gaps, full, more than nine) and random histories of WRITE SOURCE (all qualifiers), OPEN LOG and TOOLS '
                   'commands, compared with a model of the directory; and runs that die before a random file operation of one such command; '
                   'non-trivial = some backup exists afterwards, or a crash; distinct by initial files, commands and crash point')

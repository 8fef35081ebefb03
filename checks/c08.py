"""C08  WRITE SOURCE with inclusions: joined and split forms round-trip."""
import os, re
from lib import mm, mmgen, inc
from lib.core import Check, Violation


def snap(d):
    out = {}
    for root, _, fs in os.walk(d):
        for n in fs:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read().decode('latin-1')
    return out


def toks(s):
    return re.sub(r'\$\(\s.*?\$\)', ' ', s, flags=re.S).split()


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.3, nctor=(1, 3), nax=(1, 2), nthm=(1, 3), depth=2, types=(1, 2))
    d = mmgen.Gendb(g, o)
    t = inc.Tree(g, d.items, ['\n', '\n', ' ', '\n\n', '\n   ', ' $( c\n c $)\n'], allow_markup=g.bool(0.5), subdir=g.bool(0.3))
    os.makedirs(os.path.join(ctx.dir, 'sub'))
    for f, x in t.files.items():
        ctx.write(f, x)
    ctx.key(sorted(t.files.items()))
    flat, _ = t.expand()
    main, parts = t.split()
    op = g.choice(['keep', 'split', 'join', 'refuse', 'chain'])
    if op == 'chain' and f'$[ {t.main} $]' in flat:
        op = 'keep'            # the main file gets another name in a chain, so it must not refer to itself
    nover = ' / no_versioning' if g.bool(0.3) else ''
    ctx.show(f'{op}{nover}\n' + '\n'.join(f'===== {f}\n{x}' for f, x in t.files.items()))
    pre = dict(t.files)
    ctx.count(op)
    ctx.count('included', len(parts))
    exe = ctx.env['plain']
    n = sum(1 for _ in d.items)

    def run(cmds):
        outs, _ = mm.session(exe, cmds, ctx.dir)
        for c, s in zip(cmds, outs):
            if '?' in s.replace('?Warning', '') and op != 'refuse':
                raise Violation('message', f'{c}: {s[:1500]}')
        return outs

    def same(name, exp):
        p = os.path.join(ctx.dir, name)
        if not os.path.exists(p):
            raise Violation('file-missing', f'{op}: {name} does not exist afterwards')
        got = ctx.read(name)
        if got != exp:
            raise Violation('content', f'{op}{nover}: {name} is {got!r}, expected {exp!r}')

    def allowed(names):
        extra = set(snap(ctx.dir)) - set(names)
        if extra:
            raise Violation('extra-files', f'{op}{nover}: unexpected files {sorted(extra)}')
    rd = f'read {t.main}'
    if op == 'keep':
        run([rd, f'write source o.mm / keep_includes{nover}'])
        same('o.mm', flat)
        for f, x in pre.items():
            same(f, x)
        allowed(list(pre) + ['o.mm'])
    elif op == 'split':
        run([rd, f'write source o.mm / split{nover}'])
        same('o.mm', main)
        al = list(pre) + ['o.mm'] + list(parts)
        for f, x in parts.items():
            # a file that differs only by its final line end is left alone
            same(f, pre[f] if f in pre and norm(pre[f]) == x else x)
            if not nover and f in pre and norm(pre[f]) != x:
                same(f + '~1', pre[f])
                al.append(f + '~1')
        for f, x in pre.items():
            if f not in parts:
                same(f, x)
        allowed(al)
    elif op == 'join':
        run([rd, f'write source o.mm{nover}'])
        same('o.mm', flat)
        al = ['o.mm', t.main]
        same(t.main, pre[t.main])
        for f, x in pre.items():
            if f == t.main:
                continue
            if os.path.exists(os.path.join(ctx.dir, f)):
                raise Violation('not-removed', f'{f} still exists although its content is now in the joined file')
            if not nover:
                same(f + '~1', x)
                al.append(f + '~1')
        allowed(al)
    elif op == 'refuse':
        cands = sorted(f for f in parts if '/' not in f)
        if not cands:
            return
        f = g.choice(cands)
        outs = run([rd, f'write source {f} / split{nover}'])
        if 'was not written' not in outs[1]:
            raise Violation('overwrites', f'the output name {f} is an included file, and it was written: {outs[1]}')
        for x, c in pre.items():
            same(x, c)
        allowed(list(pre))
    else:
        # join, read the joined file, split again, read that, join again
        run([rd, f'write source o.mm{nover}', 'erase', 'read o.mm', f'write source p.mm / split{nover}', 'erase', 'read p.mm',
             f'write source q.mm / keep_includes{nover}', f'write source r.mm / split{nover}'])
        same('o.mm', flat)
        same('p.mm', main)
        for f, x in parts.items():
            # (a backup that differs only by a final line end is taken back)
            if not ctx.exists(f) or norm(ctx.read(f)) != norm(x):
                raise Violation('chain-file', f'{f} is {ctx.exists(f) and ctx.read(f)!r}, expected {norm(x)!r}')
        if toks(ctx.read('q.mm')) != toks(flat):
            raise Violation('chain', f'tokens changed: {flat!r} became {ctx.read("q.mm")!r}')
        same('r.mm', main)
        same(t.main, pre[t.main])
    ctx.nontrivial(len(parts) > 0)


norm = inc.norm
CHECK = Check('C08', prop, quick=8000, thorough=200000,
              rule='random trees of included files (nested, repeated, recursive, split-source comments); the files found after WRITE SOURCE plain, '
                   '/ KEEP_INCLUDES, / SPLIT, with and without / NO_VERSIONING, and after join-split-join chains, are compared with a model of the '
                   'tree; non-trivial = at least one included file; distinct by file contents')

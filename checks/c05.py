"""C05  WRITE SOURCE gives back exactly what READ took in."""
from lib import mm, mmgen
from lib.core import Check, Violation


def readonly(g, d):
    labs = sorted(d.db.labels)
    ths = [a.label for a in d.db.order if a.kind == 'p']
    l = g.choice(labs)
    t = g.choice(ths)
    return g.choice(['verify proof *', f'verify proof {t}', 'show labels *', 'show labels * / all / linear', f'show statement {l}',
                     f'show statement {l} / full', f'show statement {l} / comment', f'show proof {t}', f'show proof {t} / all / lemmon / renumber',
                     f'show proof {t} / compressed', f'show proof {t} / statement_summary', f'show usage {l} / recursive',
                     f'show trace_back {t} / axioms', f'show trace_back {t} / essential / count_steps', 'search * "x"', 'search * "the" / comments',
                     f'show source {l}', 'show discouraged', 'verify markup * / file_skip', f'show trace_back {t} / tree', 'show memory',
                     'show settings', 'set width 60', 'set empty_substitution on', 'help read', 'nonsense', f'show statement {l} / mnemonics',
                     f'show proof {t} / detailed_step 1', f'show statement {l} / full / raw'])


def normal(b):
    b = b.replace('\r\n', '\n').replace('\r', '\n') if '\r' in b else b
    return b if b.endswith('\n') else b + '\n'


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.4, nctor=(1, 4), nax=(1, 3), nthm=(1, 4), depth=3, types=(1, 2))
    d = mmgen.Gendb(g, o)
    style = g.draw(4)
    if style == 0:
        text = mmgen.emit(d.items, g, 'wild')
    else:
        text = mmgen.wild_text(g, d.items, g.choice([0.0, 0.05, 0.2]), final_nl=g.bool(0.8),
                               ws=[(' ', 20), ('\n', 6), ('  ', 2), ('\n\n\n', 1), ('\t', 2), ('\f', 1), (' \n', 1), ('\n' + ' ' * 70, 1)])
    if g.bool(0.3):
        text = g.choice(['\n\n', '  ', '$( x $) ', '$( x $)\n', '\n $( $t htmldef "x" as "y"; $)\n']) + text
    cr = g.draw(8)
    if cr == 1:
        text = text.replace('\n', '\r\n')
    elif cr == 2:
        text = text.replace('\n', '\r')
    elif cr == 3 and g.bool():
        text = ''.join(g.weighted([('\n', 3), ('\r', 2), ('\r\n', 2)]) if c == '\n' else c for c in text)
    ctx.write('t.mm', text)
    ctx.key(text)
    ctx.show(text)
    mid = [readonly(g, d) for _ in range(g.small(0, 4))]
    cmds = ['read t.mm'] + mid + ['write source o.mm']
    if g.bool(0.3):
        cmds += ['erase', 'read o.mm', 'write source o2.mm']
    outs, _ = mm.session(ctx.env['plain'], cmds, ctx.dir)
    if '?Error' in outs[0]:
        raise Violation('read', outs[0])
    exp = normal(text)
    for f in ('o.mm', 'o2.mm'):
        if f == 'o2.mm' and 'erase' not in cmds:
            continue
        if not ctx.exists(f):
            raise Violation('no-output', f'{f} was not written: {outs}')
        got = ctx.read(f)
        if got != exp:
            k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            raise Violation('differs', f'{f} differs from the source at byte {k}: wrote {got[max(0,k-40):k+60]!r}, source {exp[max(0,k-40):k+60]!r}; '
                            f'commands {cmds}')
    if ctx.read('t.mm') != text:
        raise Violation('input-changed', 'the input file was modified')
    n = outs[len(mid) + 1]
    ctx.count('commands_between', len(mid))
    ctx.nontrivial(len(text) > 100)


CHECK = Check('C05', prop, quick=10000, thorough=300000,
              rule='random legal sources in random layout (any white space, comments between any tokens, CR LF, missing final newline), random '
                   'read-only commands in between; bytes written compared with bytes read; non-trivial = more than 100 bytes; distinct by source text')

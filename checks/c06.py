"""C06  WRITE SOURCE / FORMAT and / REWRAP change layout only."""
import re
from lib import mm, mmgen, mmref
from lib.core import Check, Violation

WORDS = ['the', 'a', 'proof', 'of', 'x', '_under_', '[Ref]', '(', ')', '<b>', '&amp;', 'e.g.', '"quoted"', 'Contributed', 'Theorem', 'is',
         '(New usage is discouraged.)', '(Proof modification is discouraged.)', '(Contributed by NM, 5-Aug-1993.)', 'http://a.b/c', '#', "it's",
         'page', '12].', 'p.', '100%', '\\', '{', '}', '=====', '.', ',', ';', ':', 'End.', 'Why?', 'No!', "'", '~', '`', '``', '~~', 'See ~', 'ax1',
         '` ( x -> y ) `', '`x`', '~ax1', 'J.', 'long-hyphenated-word-number-one', 'A.', '<HTML>', 'sentence', 'another', 'words', 'which',
         'mp.1', '1', 'http://example.org/a_very_long_url/which_goes_on/and_on/for_more/than_seventy_nine/characters/index.html']
PLACE = '$( PLEASE PUT DESCRIPTION HERE. $)'


def com(g, math=False):
    n = g.weighted([(3, 4), (0, 1), (8, 4), (25, 2), (60, 1)])
    n = g.int(0, n)
    t = ''
    for _ in range(n):
        t += g.choice(WORDS)
        t += g.weighted([(' ', 20), ('\n', 2), ('  ', 2), ('\n\n', 1), ('\n     ', 2), (' \n', 1), ('\t', 1), ('\n\n\n\n\n', 1)])
    t = t.replace('$', '')
    return '$(' + g.choice([' ', ' ', '\n', '\n  ', '  ']) + t + g.choice(['', '', '', '\n', '  ']) + ('' if t and t[-1] in ' \n\t' else ' ') + '$)'


def layout(g, d, dens):
    """source text; every statement followed by white space; comments between statements and inside math sections"""
    out = []
    nl = lambda: g.weighted([('\n', 10), (' ', 3), ('\n\n', 2), ('\n\n\n\n\n', 1), ('  \n', 1), ('\n      ', 1), ('\t', 1)])
    sp = lambda: g.weighted([(' ', 30), ('  ', 2), ('\n', 1), ('\n   ', 1), ('\t', 1), ('     ', 1), ('\n\n', 1)]) + \
        (com(g) + ' ' if g.bool(dens / 20) else '')
    for it in d.items:
        k = it[0]
        while g.bool(dens):
            out.append(com(g) + nl())
        if k in '{}':
            out.append('$' + k)
        elif k in 'cvd':
            out.append('$' + k + sp() + ''.join(x + sp() for x in it[1]) + '$.')
        else:
            mid = ' '
            if g.bool(0.1):
                mid = g.choice(['\n', '  ', ' \n   '])
            if g.bool(dens / 20):
                mid += com(g) + g.choice([' ', '\n'])
            s = it[1] + mid + '$' + k + sp() + ''.join(x + sp() for x in it[2])
            if k == 'p':
                s += '$=' + g.choice([' ', '\n   ']) + ''.join(x + g.weighted([(' ', 20), ('\n  ', 1), ('   ', 1)]) for x in it[3])
            out.append(s + '$.')
        out.append(nl())
    s = ''.join(out)
    return s.rstrip(' \n\t') + '\n'


def scan(text):
    """-> tokens outside comments, list of (comment text, index of the next token), proof sections"""
    toks, coms = [], []
    i = 0
    for m in re.finditer(r'\$\(\s(.*?)\$\)|(\S+)', text, re.S):
        if m.group(2) is not None:
            toks.append(m.group(2))
        else:
            coms.append((m.group(1), len(toks)))
    return toks, coms


def norm(c, rewrap):
    if rewrap:
        c = c.replace('`', ' ` ')
        c = c.replace('~', ' ~ ')
    return c.split()


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.4, nctor=(1, 4), nax=(1, 3), nthm=(1, 3), depth=2, types=(1, 2), dvprob=0.6, extra_dv=0.6)
    d = mmgen.Gendb(g, o)
    text = layout(g, d, g.choice([0.1, 0.3, 0.5]))
    if g.bool(0.5):
        text = '$( header $)\n' + text
    ctx.write('t.mm', text)
    q = g.choice(['format', 'rewrap'])
    width = g.weighted([(79, 5), (60, 1), (100, 1), (72, 1)])
    ctx.key(text, q, width)
    ctx.show(f'width {width} / {q}\n{text}')
    cmds = ['read t.mm', 'verify proof *', f'write source o.mm / {q}', 'verify proof *', 'write source o1.mm', 'erase', 'read o.mm', 'verify proof *',
            f'write source o2.mm / {q}']
    outs, _ = mm.session(ctx.env['plain'], cmds, ctx.dir, width=width)
    if '?Error' in outs[0]:
        raise Violation('read', outs[0][:2000])
    for f in ('o.mm', 'o1.mm', 'o2.mm'):
        if not ctx.exists(f):
            raise Violation('no-output', f'{f} missing: {outs}')
    got = ctx.read('o.mm')
    compare(text, got, q, 'first', width)
    if '?Error' in outs[6]:
        raise Violation('result-unreadable', outs[6][:2000])
    v = [mm.verify_errors(outs[i]) for i in (1, 3, 7)]
    if v[0] or v[1] or v[2]:
        raise Violation('verdict', f'errors {v}')
    if ctx.read('o1.mm') != got:
        raise Violation('not-kept', 'WRITE SOURCE after the reformatting does not give the reformatted text')
    compare(got, ctx.read('o2.mm'), q, 'second', width)
    # a description that is already there is not given another placeholder
    if ctx.read('o2.mm').count(PLACE) != got.count(PLACE):
        raise Violation('placeholder', 'the second run adds placeholders')
    ctx.count(q)
    ctx.count('comments', len(scan(text)[1]))
    ctx.nontrivial(got != text)


def compare(a, b, q, which, width):
    ta, ca = scan(a)
    tb, cb = scan(b)
    if ta != tb:
        k = next((i for i in range(min(len(ta), len(tb))) if ta[i] != tb[i]), min(len(ta), len(tb)))
        raise Violation('tokens', f'{which} /{q}: tokens differ at {k}: {ta[k-5:k+8]} became {tb[k-5:k+8]}\n--- output\n{b}')
    # comments: same ones in the same order, placeholders may be added before $a and $p
    j = 0
    for c, pos in ca:
        w = norm(c, q == 'rewrap')
        while True:
            if j >= len(cb):
                raise Violation('comment-lost', f'{which} /{q}: comment {c!r} is lost or changed\n--- output\n{b}')
            c2, pos2 = cb[j]
            j += 1
            w2 = norm(c2, q == 'rewrap')
            if w2 == w:
                break
            if q == 'rewrap' and w and w[-1][-1].islower() and w2 == w[:-1] + [w[-1] + '.']:
                break
            if ' '.join(w2) != 'PLEASE PUT DESCRIPTION HERE.':
                raise Violation('comment-changed', f'{which} /{q}: comment {c!r} became {c2!r}\n--- output\n{b}')
    for c2, pos2 in cb[j:]:
        if ' '.join(c2.split()) != 'PLEASE PUT DESCRIPTION HERE.':
            raise Violation('comment-added', f'{which} /{q}: comment {c2!r} appeared')
    # every proof section untouched
    pa = re.findall(r'\$=(.*?)\$\.', re.sub(r'\$\(\s.*?\$\)', '', a, flags=re.S), re.S)
    pb = re.findall(r'\$=(.*?)\$\.', re.sub(r'\$\(\s.*?\$\)', '', b, flags=re.S), re.S)
    if pa != pb:
        raise Violation('proof-section', f'{which} /{q}: a proof section was altered')


CHECK = Check('C06', prop, quick=6000, thorough=200000,
              rule='random legal sources in random layout with comments between statements, next to labels and in math sections; the reformatted source is '
                   'compared token by token and comment by comment with the original; non-trivial = output differs from input; distinct by source text')

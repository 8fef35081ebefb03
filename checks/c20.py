"""C20  No file given to READ can crash the program or make it misbehave internally."""
import re
from lib import mm, mmgen, mmref, cmds, inc
from lib.core import Check, Violation, Discard
from checks.c06 import layout, com

FRAG = ['$c', '$v', '$f', '$e', '$d', '$a', '$p', '$.', '$=', '${', '$}', '$(', '$)', '$[', '$]', '$t', '$j', '$', '$!', '$$', '$ ', '$\n', '?', '(', ')', ' ( ', ' ) ', 'A', 'Z', 'ZZ', 'UA', 'VVVVA',
        'wff', '|-', '.', '=', ' ', '\n', '\t', '\r', '\f', '\v', '\x00', '\x01', '\x7f', '\x80', '\xff', '\xe9', '~', '`', '_', '[', ']', '<', '"', "'", '$( Begin $[ a.mm $] $)', '$( End $[ a.mm $] $)',
        '$( Skip $[ a.mm $] $)', '$[ a.mm $]', '$[ t.mm $]', '$[ nosuch.mm $]', '$( $t htmldef "x" as "y"; $)', '$( (Contributed by A, 1-Jan-2000.) $)',
        '\n#*#*#*#*\nx\n#*#*#*#*\n', '\n=-=-=-=-=-\nx\n=-=-=-=-=-\n', 'x' * 50, 'x' * 3000, ' ' * 200, '\n' * 60, '${ ' * 40, '$} ' * 40, '$( $)', 'th1.1', ' : ', ' L : ', 'L1 : L1 : ', ' = ', 'wx = ', ':=', 'th1=', ':?', 'h1=w1',
        'latexdef', 'althtmldef', 'htmltitle', '1-Jan-2000', '(New usage is discouraged.)', '(Proof modification is discouraged.)', '$( $j usage \'x\' avoids \'y\'; $)', '*/', '/*']


def damage(g, s):
    n = g.weighted([(1, 4), (2, 3), (4, 2), (0, 1), (10, 1), (40, 1)])
    for _ in range(n):
        k = g.draw(9)
        i = g.draw(len(s) + 1)
        if k < 3:
            s = s[:i] + g.choice(['', ' ']) + g.choice(FRAG) + g.choice(['', ' ']) + s[i:]
        elif k == 3:
            j = min(len(s), i + g.small(1, 30, 0.8))
            s = s[:i] + s[j:]
        elif k == 4:
            j = min(len(s), i + g.int(1, 60))
            p = g.draw(len(s) + 1)
            s = s[:p] + s[i:j] + s[p:]
        elif k == 5 and i < len(s):
            s = s[:i] + chr(g.draw(256)) + s[i + 1:]
        elif k == 6:
            s = s[:i] + chr(g.draw(256)) + s[i:]
        elif k == 7:
            # a whole token is replaced or repeated
            ts = list(re.finditer(r'\S+', s))
            if ts:
                a, b = g.choice(ts), g.choice(ts)
                s = s[:a.start()] + g.choice([b.group(), a.group() + ' ' + a.group(), a.group() + b.group(), '']) + s[a.end():]
        elif k == 8 and g.bool(0.3):
            s = s[:i]
        elif k == 8:
            s = s.replace(' ', g.choice(['\t', '  ', '\n', '\r\n', '\xa0']), g.int(1, 50)) if g.bool() else s.replace('\n', '\r\n')
    # file names with directories never leave the scratch directory
    return s.replace('/', '|')


def make(g):
    o = mmgen.Opts(compressed=0.5, nctor=(1, 3), nax=(1, 3), nthm=(1, 4), depth=g.choice([2, 3]), types=(1, 2), dvprob=0.4, extra_dv=0.4)
    d = mmgen.Gendb(g, o)
    its = list(d.items)
    for i, it in enumerate(its):
        if it[0] == 'p' and g.bool(0.15):
            its[i] = ('p', it[1], it[2], g.choice([['?'], ['(', ')', '?'], it[3][:1], ['(', 'nosuch', ')', 'A'], it[3][:-1] + ['?']]))
    d.items = its
    t = layout(g, d, g.choice([0.1, 0.3])) if g.bool(0.3) else mmgen.emit(d.items, g, g.choice(['plain', 'wild']))
    if g.bool(0.25):
        syms = sorted({x for it in its if it[0] in 'cv' for x in it[1]})
        t = typeset(g, syms) + t
    return d, t


def typeset(g, syms):
    s = '$( $t\n'
    for x in syms:
        q = x.replace('"', '') or 'q'
        for k in ('htmldef', 'althtmldef', 'latexdef'):
            if g.bool(0.97):
                s += f'{k} "{q}" as "{g.choice(["<I>" + q + "</I>", q, " " + q + " ", "<IMG SRC=x.gif>"])}";\n'
    for k in ('htmltitle', 'htmlhome', 'htmldir', 'exthtmltitle', 'exthtmllabel', 'htmlbibliography', 'htmlcss', 'htmlfont', 'htmlvarcolor', 'extbibliography'):
        if g.bool(0.4):
            s += f'{k} {g.choice(["\"x\"", "\"th1\"", "\"a\" + \"b\"", "\"mmbiblio.html\"", "\"<A HREF=x>y</A>\""])};\n'
    return s + '$)\n'


def judge(o, what, slow=False):
    if 'DEBUGGINGMODEISFOR' in re.sub(r'\s+', '', o.out):
        raise Discard('developer command')
    if o.timeout and slow:
        raise Discard('slow search')
    if o.rc == 1 and 'Therefore we will force an "out of memory"' in re.sub(r'\s+', ' ', o.out) and 'Sanitizer' not in o.err and 'runtime error' not in o.err:
        raise Discard('orderly abort: too many errors')
    if '?Error' in o.out and re.search(r'for "bug\(\d+\)" in the', o.out):
        # the program's own message says that this can happen after reported errors
        raise Discard('internal check after a reported error')
    mm.health(o, what)


def crowd(g, t):
    """many variables, most of them optional in a short theorem with a short proof"""
    n = g.choice([20, 100, 400, 1500])
    s = '\n$c CW CZ $.\n' + '${ ' * g.draw(2)
    close = s.count('${')
    s += '$v ' + ' '.join('cv%d' % i for i in range(n)) + ' $.\n' + ''.join(f'cf{i} $f CW cv{i} $.\n' for i in range(n))
    s += g.choice(['', f'$d {" ".join("cv%d" % i for i in range(min(n, 60)))} $.\n'])
    s += ''.join(f'cx{i} $a CZ{" cv%d" % i if g.bool() else ""} $.\n' for i in range(2))
    for i in range(g.int(1, 3)):
        k = g.choice([0, 1, min(n, 20)])
        vs = ' '.join('cv%d' % g.draw(n) for _ in range(k))
        s += f'cp{i} $p CZ {vs} $= {g.choice(["?", "( ) ?", "( cx0 ) A", "( cx0 cx1 ) AB", "cx0", "( cf1 cf%d cx1 ) ABC" % (n - 1), "cf%d cx1" % (n - 1), "( cp0 ) A", "( nosuch ) A", "( cx0 ) ZA"])} $.\n'
    s += ' $}' * close
    return (s + t) if g.bool() else (t + s)


def prop(g, ctx):
    d, t = make(g)
    if g.bool(0.04):
        t = crowd(g, t)
        ctx.count('many variables')
    s = damage(g, t) if g.bool(0.97) else t
    ctx.write('t.mm', s)
    ctx.write('a.mm', g.choice(['', ' ', '$c zz $.', '$( x $)\n', '$[ t.mm $]\n', '$', 'junk']))
    labels = [it[1] for it in d.items if it[0] in 'feap']
    maths = [' '.join(it[2]) for it in d.items if it[0] in 'feap']
    w = cmds.World(labels, maths, ['o.mm', 'o.txt', 't.mm'])
    lines = ['set scroll continuous', 'read t.mm']
    std = ['verify proof *', 'show statement * / full', 'show proof * / all', 'show proof * / compressed', 'show labels * / all', 'write source o.mm', 'write source o.mm / rewrap', 'verify markup *',
           'search * x / comments', 'show trace_back *', 'write source o.mm / extract *', 'show source *', 'write source o.mm / split', 'save proof * / compressed', 'show statement * / html', 'show discouraged',
           'write theorem_list', 'show usage *', 'erase', 'read o.mm', 'y']
    for _ in range(g.int(0, 6)):
        c = g.choice(std)
        lines.append(c)
    for _ in range(g.int(0, 2)):
        lines.append(cmds.command(g, w, False))
    ctx.key(s, lines)
    ctx.show('\n'.join(lines) + '\n----- t.mm\n' + s)
    o = mm.run(ctx.env['asan'], (), '\n'.join(lines) + '\n', ctx.dir, timeout=40)
    judge(o, '; '.join(lines))
    if '?Error' in o.out:
        ctx.count('rejected')
    else:
        ctx.count('accepted')
    ctx.nontrivial(s != t)


CHECK = Check('C20', prop, quick=3000, thorough=150000, builds=('asan',),
              rule='legal databases damaged by random edits (fragments of the language, bytes, ranges, tokens, truncation, control and 8-bit characters), read and then shown, verified and written in an '
                   'AddressSanitizer/UBSan build; non-trivial = the file was damaged; distinct by file and commands')

"""C21  No sequence of commands on a legal database crashes, corrupts or hangs the program."""
import re
from lib import mm, mmgen, cmds
from lib.core import Check, Violation, Discard
from checks.c20 import make, typeset, judge
from checks.c06 import layout

SLOW = re.compile(r'^\s*(?:im|mi|mat|un|exp|as|rep|e)', re.I)

BIB = 'x\n<A NAME="A1"></A>[A1] Author.\n<A NAME="B2"></A>y\n'
TXT = 'one  two\tthree\n\nfour\nfive five\n one\n'


def database(g):
    o = mmgen.Opts(compressed=g.choice([0, 0.5, 1]), nctor=(1, 3), nax=(1, 3), nthm=(1, 4), depth=g.choice([2, 3]), types=(1, 2), dvprob=0.4, extra_dv=0.4)
    d = mmgen.Gendb(g, o)
    its = list(d.items)
    for i, it in enumerate(its):
        if it[0] == 'p' and g.bool(0.1):
            its[i] = ('p', it[1], it[2], ['?'])
    d.items = its
    return d


TAGS = ['(New usage is discouraged.)', '(Proof modification is discouraged.)', '(Contributed by A. B., 1-Jan-2000.)', '(Revised by C, 29-Feb-2020.)', '(Proof shortened by D, 3-Mar-2021.)', '[A1] p. 3', '~ th1', '` wff `',
        '_emph_', '~ nosuch', '[Nosuch] p. 1', '` nosuch `', '` x', '~', 'http://x.y/z_w', '<HTML>', '</HTML>', '<HTML> <B> x </B> </HTML>', '_a_b', '<PRE>', '</PRE>', '&amp;', 'OLD', 'a\n\nb', '~~', '``', '[', ']', '[[', '$( x',
        'x' * 90, 'Lemma for', '(Contributed by', '1-Jan-2000']


def comments(g, t):
    """a comment with something in it before some statements"""
    def one(m):
        if not g.bool(0.4):
            return m.group()
        c = ' '.join(g.choice(TAGS) if g.bool(0.7) else g.choice(['text', 'Some words.', 'A']) for _ in range(g.int(1, 6)))
        return '$( ' + c.replace('$(', '$').replace('$ ', '') + g.choice([' ', '\n']) + '$) ' + m.group()
    t = re.sub(r'(?<=\s)\S+\s+\$[ap]\s', one, t)
    if g.bool(0.3):
        h = g.choice(['#*#*', '=-=-', '-.-.', '.-.-', '#*#*'])
        hd = '$(\n' + h * 10 + '\n  Heading ' + g.choice(['x', '` wff `', '~ th1', '']) + '\n' + h * 10 + '\n' + g.choice(['', 'Header text _x_ [A1].\n', '\n']) + '$)\n'
        ps = [m.start() for m in re.finditer(r'(?<=\n)[^$\s]\S*\s+\$[ap]\s', t)]
        if ps:
            p = g.choice(ps)
            t = t[:p] + hd + t[p:]
    return t


def prop(g, ctx):
    d = database(g)
    t = comments(g, mmgen.emit(d.items, g, g.choice(['plain', 'plain', 'wild'])))
    syms = sorted({x for it in d.items if it[0] in 'cv' for x in it[1]})
    tex = g.bool(0.6)
    if tex:
        t = typeset(g, syms) + t
    ctx.write('t.mm', t)
    ctx.write('a.txt', TXT)
    ctx.write('mmbiblio.html', BIB)
    ctx.write('mmrecent.html', '<!-- #START# -->\n<!-- #END# -->\n')
    labels = [it[1] for it in d.items if it[0] in 'feap']
    ps = [it[1] for it in d.items if it[0] == 'p']
    maths = [' '.join(it[2]) for it in d.items if it[0] in 'feap']
    w = cmds.World(labels, maths, ['o.mm', 'o.txt', 't.mm', 'a.txt', 'mmbiblio.html', 'mmrecent.html', 'nosuch', '.'])
    sub = cmds.script(g, w, g.int(1, 4)) if g.bool(0.2) else []
    sub = [x for x in sub if not re.match(r'\s*su', x, re.I)]
    if sub and g.bool(0.4):
        # a command file that submits itself, as its last command: the nesting limit is reached
        if g.bool(0.5):
            sub = sub[:1]
        sub.append(g.choice(['submit sub.cmd', 'submit sub.cmd', 'submit sub.cmd / silent']))
    if sub:
        ctx.write('sub.cmd', '\n'.join(sub) + g.choice(['', '\n']))
    lines = ['set scroll continuous'] if g.bool(0.9) else []
    lines.append('read t.mm')
    if g.bool(0.6) and ps:
        lines.append('prove ' + g.choice(ps))
        w2 = cmds.World(labels, maths, w.files)
        for _ in range(g.int(1, 25)):
            lines.append(cmds.command(g, w2, True) if g.bool(0.95) else cmds.answer(g, w2))
    lines += cmds.script(g, w, g.int(0, 12))
    if sub:
        lines.insert(g.int(0, len(lines)), 'submit sub.cmd')
    ctx.key(t, lines)
    ctx.show('\n'.join(lines) + ('\n----- sub.cmd\n' + '\n'.join(sub) if sub else '') + '\n----- t.mm\n' + t)
    o = mm.run(ctx.env['asan'], (), '\n'.join(lines) + ('\n' if g.bool(0.9) else ''), ctx.dir, timeout=30)
    judge(o, 'session', slow=any(SLOW.match(x) for x in lines + sub))
    ctx.count('left' if o.rc == 0 else 'rc %d' % o.rc)
    ctx.count('lines', len(lines))
    ctx.nontrivial(len(lines) > 3)


CHECK = Check('C21', prop, quick=1400, thorough=60000, builds=('asan',),
              rule='random command lines (all commands, qualifiers, argument shapes, answers, truncated and damaged lines, ends of input) on random legal databases in an AddressSanitizer/UBSan build; '
                   'non-trivial = more than one command after READ; distinct by database and commands')

"""C31  ERASE followed by READ is like a fresh start."""
import os, re, shutil
from lib import mm, mmgen, cmds
from lib.core import Check, Violation, Discard
from checks.c20 import typeset, damage
from checks.c21 import database, comments, BIB, SLOW
from checks.c18 import snap

# commands that depend on more than the database, or that could swallow the lines after them
SKIP = re.compile(r'^\s*(?:se?t?\b|s[e ]|set|su|sub|to|h|m[oi]|mid|be|o\w*\b|c\w*\b|exi|ex?\b|era|er|e\b|rea|r\b|sh\w* +(?:mem|ela|e|set|m)|file|f\b|w\w* +[rb]|_)|/\s*(?:ti|te|t\b|int|o)|^\s*sh\w* +[pn].*/\s*h', re.I)


def change(g, text, syms):
    """the same database with something different in it"""
    for _ in range(g.int(1, 4)):
        k = g.draw(6)
        ps = list(re.finditer(r'\$=(?: [^$]*)\$\.', text))
        if k == 0 and ps:
            m = g.choice(ps)
            text = text[:m.start()] + '$= ? $.' + text[m.end():]
        elif k == 1:
            text = re.sub(r'\((?:New usage|Proof modification) is discouraged\.\)', lambda m: m.group() if g.bool() else 'x', text)
        elif k == 2:
            text = re.sub(r'\$\( [^$]*\$\) (?=\S+ \$[ap])', lambda m: m.group() if g.bool() else '', text)
        elif k == 3:
            text = comments(g, text)
        elif k == 4:
            text = re.sub(r'\$\( \$t.*?\$\)\n', lambda m: typeset(g, syms), text, flags=re.S)
        else:
            text = '$( x $)\n' * g.int(1, 5) + text
    return text


def pick(g, w, pa):
    for _ in range(20):
        c = cmds.command(g, w, pa)
        if re.match(r'\s*(?:w\w* +t|ma\w* )', c, re.I):
            # (the default is the format that was used last)
            c += ' / html'
        if SLOW.match(c) and not re.match(r'\s*(?:as|let|e)', c, re.I) and g.bool(0.9):
            continue
        if not SKIP.search(c) and not re.search(r'[^ -~]', c):
            return c
    return 'show labels *'


THEMES = ['show statement * / html', 'show statement * / alt_html', 'show statement ?* / alt_html', 'show statement * / mnemonics', 'show statement * / brief_html', 'write theorem_list / alt_html',
          'write theorem_list / html', 'verify markup *', 'show discouraged', 'show proof * / all', 'show proof * / lemmon / renumber', 'show trace_back * / essential', 'show usage *',
          'search * $* / join', 'search * x / comments', 'show labels * / all', 'show statement * / full', 'save proof * / compressed', 'save proof * / normal', 'write source o.mm / format',
          'write source o.mm / rewrap', 'write source o.mm / extract *', 'show labels *', 'verify proof *']


def play(g, w, ps, n):
    out = []
    while n > 0:
        n -= 1
        if ps and g.bool(0.25):
            out.append('prove ' + g.choice(ps) + g.choice([' / override', '']))
            for _ in range(g.int(1, 6)):
                out.append(pick(g, w, True))
            if g.bool():
                out.append('save new_proof / ' + g.choice(['normal', 'compressed']))
            out.append('_exit_pa / force')
        else:
            out.append(pick(g, w, False))
    return out


def norm(s):
    # (which kind of file is missing is only a matter of the message)
    s = re.sub(r'opened an? (?:HTML|LaTeX) file', 'opened a file', s)
    return re.sub(r'\d+\.\d+ *s(?:ec)?\b', 'T s', s)


def prop(g, ctx):
    d = database(g)
    t1 = comments(g, mmgen.emit(d.items, g, 'plain'))
    syms = sorted({x for it in d.items if it[0] in 'cv' for x in it[1]})
    if g.bool(0.7):
        t1 = typeset(g, syms) + t1
    d2 = d
    if g.bool(0.6):
        t2 = change(g, t1, syms)
    else:
        d2 = database(g)
        t2 = comments(g, mmgen.emit(d2.items, g, 'plain'))
        if g.bool(0.7):
            t2 = typeset(g, sorted({x for it in d2.items if it[0] in 'cv' for x in it[1]})) + t2
    # (symbols get other numbers)
    m = re.search(r'\$c ([^$]*)\$\.', t2)
    if m and g.bool(0.4):
        t2 = t2[:m.start(1)] + ' '.join(g.shuffle(m.group(1).split())) + ' ' + t2[m.end(1):]
    if g.bool():
        t1, t2, d, d2 = t2, t1, d2, d
    if g.bool(0.06):
        # a source without statements
        t1 = (typeset(g, syms) if g.bool(0.8) else '') + g.choice(['', '$( x $)\n', '$c $.\n', ' '])
        d.items = []
    bad = g.bool(0.15)
    if bad:
        t1 = damage(g, t1)

    def world(x, files):
        return cmds.World([it[1] for it in x.items if it[0] in 'feap'], [' '.join(it[2]) for it in x.items if it[0] in 'feap'], files)
    files = ['o.mm', 'o.txt', 'mmbiblio.html', 'nosuch', 'a.mm', 'b.mm']
    w1, w2 = world(d, files), world(d2, files)
    thms = [[it[1] for it in x.items if it[0] == 'p'] for x in (d, d2)]
    pre = play(g, w1, thms[0], g.int(1, 6)) if not g.bool(0.05) else []
    post = play(g, w2, thms[1], g.int(1, 6)) + ['show discouraged', 'verify markup * / file_skip / date_skip', 'verify proof *']
    if g.bool(0.6):
        # the same command before and after
        for _ in range(g.int(1, 2)):
            c = g.choice(THEMES)
            pre.insert(g.int(0, len(pre)) if not thms[0] or not any(x.startswith('prove') for x in pre) else 0, c)
            post.insert(0, c)
    same = g.bool(0.1)
    head = ['set scroll continuous']
    if g.bool(0.2):
        head.append(f'set width {g.choice([40, 60, 200])}')
    script1 = head + ['read a.mm'] + pre
    script2 = ['read b.mm'] + post
    ctx.key(t1, t2, pre, post)
    ctx.show('\n'.join(script1 + ['erase', 'y'] + script2) + '\n----- a.mm\n' + t1 + '\n----- b.mm\n' + t2)
    outs = []
    for name in ('fresh', 'erased'):
        p = os.path.join(ctx.dir, name)
        os.makedirs(p)
        for f, x in (('a.mm', t1), ('b.mm', t2), ('mmbiblio.html', BIB)):
            with open(os.path.join(p, f), 'wb') as fp:
                fp.write(x.encode('latin-1'))

        def run(lines):
            o = mm.run(ctx.env['plain'], (), '\n'.join(lines) + '\n', p)
            if o.timeout:
                ctx.count('slow')
                raise Discard('slow search')
            return o.out
        if name == 'fresh':
            run(script1 + ['erase', 'y', 'exit / force'])
            o = run(head + script2 + ['exit / force'])
        else:
            o = run(script1 + ['erase', 'y'] + script2 + ['exit / force'])
        i = o.rfind('Reading source file "b.mm"')
        if i < 0:
            ctx.count('not read')
            raise Discard('not read')
        outs.append((norm(o[i:]), snap(p)))
    (a, fa), (b, fb) = outs
    if a != b:
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        raise Violation('output', f'after ERASE\n...{b[max(0, i - 300):i]}<<<HERE>>>{b[i:i + 600]}\nbut after a fresh start\n...<<<HERE>>>{a[i:i + 600]}')
    for f in sorted(set(fa) | set(fb)):
        if fa.get(f) != fb.get(f):
            x, y = str(fb.get(f)), str(fa.get(f))
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            raise Violation('file', f'{f}: after ERASE\n...{x[max(0, i - 300):i]}<<<HERE>>>{x[i:i + 600]}\nbut after a fresh start\n...<<<HERE>>>{y[i:i + 600]}')
    ctx.count('damaged' if bad else 'legal')
    ctx.nontrivial(len(pre) > 1)


CHECK = Check('C31', prop, quick=6000, thorough=200000,
              rule='two random databases (unrelated, or one a variation of the other; the first sometimes damaged), random commands on the first, ERASE, READ of the second and random commands on '
                   'it; output and files compared with a fresh session that starts with the second; non-trivial = at least two commands before ERASE; distinct by databases and commands')

"""C26  Markup in descriptions and in files given to MARKUP is rendered as documented."""
import os, re
from lib import mm
from lib.core import Check, Violation, Discard
from checks.c24 import sq, lit, lit1, page

PLAIN = ['the', 'a', 'proof', 'of', 'well', 'known.', 'Theorem', '19', 'page', '12)', 'e.g.', "it's", 'A', 'end.', '0', '-', 'with-hyphen,', '/', '*', '(see', 'x,', ';', '!', 'i.e.,', 'semi;', ']', 'a]', '1.', ':', 'per', '50', 'per-cent', '#3', '^', 'a=b', '+']
SYMS = ['(', ')', '[', ']', '->', '<->', '~', '&', '_', '_a_', '[b]', 'x_1', 'A.', '"', "'", '|-', 'wff', 'z', '<', '/\\', '\\/', 'e.', '.', '__', '[[', '~~', 'http://', '-.', '_V', 'ph', 'CC_', '$b', '%', '{', '}', '^', '#', 'mm', 'a`b', '`']
LABELS = ['ax-1', 'a1i', 'df_x', 'A_1_', 'pm2.1', 'x.y-z', '2', 'th', 'b_c_d', '_z', 'Q-', '0_']


def tag(g):
    return g.choice(['Monk2', 'TakeutiZaring', 'Q', 'A1', 'x.y', 'KalishMontague', 'Z-2', '7'])


class El:
    """source text, and what becomes of it: dict of flags -> text; glue = white space next to it is free"""
    def __init__(self, src, out, markup, warn=None):
        self.src, self.out, self.markup, self.warn = src, out, markup, warn


def element(g, E, plainonly=False):
    """a piece of text without leading or trailing white space.  out(f): f has 'html','sym','lab','num','bib','und'"""
    k = g.weighted([('plain', 10), ('special', 2), ('math', 4), ('label', 3), ('link', 1), ('bib', 2), ('italic', 2), ('sub', 2), ('esc', 2), ('lone', 1), ('open', 1)])
    if k == 'plain' or plainonly:
        w = g.choice(PLAIN)
        return El(w, lambda f: w, False)
    if k == 'special':
        w = g.choice(['<', '>', '"', 'a<b', '"q"', '&amp;', 'A&B', '<=', '->', '("x"', '<B>b</B>', '>>', 'x"'])

        def conv(f):
            return w.replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;') if f['html'] else w
        return El(w, conv, False)
    pre = g.weighted([('', 5), ('(', 1), ("'", 1)])
    post = g.weighted([('', 5), (')', 1), ('.', 1), (',', 1), ("'", 1), ('!', 1)])
    if k == 'math':
        toks = [g.choice(E.syms) for _ in range(g.weighted([(1, 3), (3, 2), (8, 1)]))]
        ws = lambda: g.weighted([(' ', 10), ('\n', 1), ('  ', 1)])
        inner = ws() + ''.join(t.replace('`', '``') + ws() for t in toks)
        if g.bool(0.1):
            pre, post = pre and pre + ' ', post and ' ' + post
        elif g.bool(0.1):
            pre = pre or 'ab'
        src = pre + '`' + inner + '`' + post

        def conv(f):
            if not f['sym']:
                return src
            sp = ('<SPAN ' + E.font + '>', '</SPAN>') if f['alt'] else ('', '')
            return pre + sp[0] + ''.join(E.defs[f['alt']][t] for t in toks) + sp[1] + post
        return El(src, conv, True)
    if k == 'label':
        l = g.choice(list(E.labels)) if g.bool(0.9) else g.choice(['nosuch', 'ax-', 'A_1'])
        ok = l in E.labels
        gap = g.weighted([(' ', 8), ('', 2), ('\n', 1), ('  ', 1)])
        pre = g.weighted([('', 6), ('( ', 1), ('(', 1), ('[ ', 1)])
        post = g.weighted([('', 5), (' )', 1), (' .', 1), (' ,', 1)])
        src = pre + '~' + gap + l + post

        def conv(f):
            if not f['lab']:
                return src
            num = E.pink(l if ok else None) if f['num'] else ''
            f['last'] = num
            return pre + (f'<A HREF="{l}.html">{l}</A>' if ok else f'<FONT COLOR=blue >{l}</FONT>') + num + post
        return El(src, conv, True, None if ok else ('lab', f'?Warning: The label token "{l}"'))
    if k == 'link':
        u = g.choice(['http://us.metamath.org', 'https://a.org/x_y_z.html#a', 'mmset.html#x', 'mmtheorems1.html', 'http://a.org/~~nm/p_1', 'mm_x'])
        src = '~ ' + u

        def conv(f):
            if not f['lab']:
                return src
            v = u.replace('~~', '~')
            return f'<A HREF="{v}">{v}</A>' + (f.get('last', '') if f.get('stale') else '')
        return El(src, conv, True)
    if k == 'bib':
        t = g.choice(E.tags) if g.bool(0.9) else 'Nobody'
        src = pre + '[' + t + ']' + post

        def conv(f):
            return pre + (f'[<A HREF="{E.bib}#{t}">{t}</A>]' if f['bib'] else f'[{und(t, f)}]') + post
        return El(src, conv, True, None if t in E.tags else ('bib', f'?Error: The bibliographic reference "[{t}]"'))
    if k == 'italic':
        ws = [g.choice(['the', 'Title', 'of', 'a', 'Book1', 'e.g.', 'x', '(and)', 'S'][: (6 if i else 5)]) for i in range(g.int(1, 4))]
        if not ws[-1][-1].isalnum():
            ws[-1] = 'End'
        if not ws[0][0].isalnum():
            ws[0] = 'T'
        body = ws[0] + ''.join(g.weighted([(' ', 6), ('\n', 1)]) + w for w in ws[1:])
        src = pre + '_' + body + '_' + post
        return El(src, lambda f: pre + f'<I>{body}</I>' + post if f['und'] else src, True)
    if k == 'sub':
        a, b = g.choice(['x', 'A', 'log', '2', '+', 'x)']), g.choice(['1', 'i', 'n+1', 'abc', 'n+1/2'])
        post = g.choice(['', '', '.', ')', ',', ')x', '-th'])
        return El(a + '_' + b + post, lambda f: f'{a}<SUB><FONT SIZE="-1">{b}</FONT></SUB>{post}' if f['und'] else f'{a}_{b}{post}', True)
    if k == 'esc':
        e = g.choice(['``', '~~', '[[', '__'])
        a, b = g.choice(['', 'a', '(']), g.choice(['', 'b', 'x.', 'c]'])
        key = {'``': 'sym', '~~': 'lab', '[[': 'bib', '__': 'und'}[e]
        if g.bool(0.3):
            # an escape and a subscript in the same word
            b, c = g.choice(['b', 'A', 'x1', '2']), g.choice(['c', 'i', '1', 'n+1'])
            if e != '__':
                return El(a + e + b + '_' + c, lambda f: a + (e[0] if f[key] else e) + (f'{b}<SUB><FONT SIZE="-1">{c}</FONT></SUB>' if f['und'] else b + '_' + c), True)
        return El(a + e + b, lambda f: a + (e[0] if f[key] else e) + b, True)
    if k == 'lone' and g.bool(0.04):
        # a long row of them
        w = ' '.join([g.choice(['_', 'x_', '(_)', '-_', '_|_'])] * g.int(20, 120))
        return El(w, lambda f: w, True)
    if k == 'lone':
        w = g.choice(['_', 'x_', '-_', "(_)"])
        return El(w, lambda f: w, True)
    w = g.choice(['[a b]', '[ b]', '[x, b c ]'])
    return El(w, lambda f: w, True)


def und(t, f):
    """a tag that isn't processed as a reference is normal text"""
    if not f['und'] or '_' not in t:
        return t
    i = t.index('_')
    return t[:i] + '<SUB><FONT SIZE="-1">' + t[i + 1:] + '</FONT></SUB>'


def match(pieces, text):
    """pieces: (text, free) ; white space between two pieces is required unless one of them is markup"""
    i = 0
    free = True
    for t, mk in pieces:
        j = i
        while j < len(text) and text[j].isspace():
            j += 1
        if j == i and not (free or mk):
            return i, ' ' + t
        i = j
        for ch in t:
            if ch.isspace():
                continue
            if mk:
                while i < len(text) and text[i].isspace():
                    i += 1
            if text[i:i + 1] != ch:
                return i, t
            i += 1
        free = mk
    if text[i:].strip():
        return i, '(end)'
    return None


class Env:
    pass


def prop(g, ctx):
    E = Env()
    E.syms = g.sample(SYMS, g.int(4, 20))
    labels = g.sample(LABELS, g.int(2, 8))
    E.labels = {l: i + 1 for i, l in enumerate(labels)}
    E.tags = list(dict.fromkeys(tag(g) for _ in range(g.int(1, 4))))
    E.bib = g.choice(['mmset.html', 'bib.html'])
    E.font = g.choice(['', 'CLASS=math', 'STYLE="color: X"'])
    E.defs = ({}, {})
    src = []
    cs = [s for s in E.syms]
    if '$b' in cs:
        cs.remove('$b')
        E.syms.remove('$b')
    T = []
    for i, s in enumerate(E.syms):
        E.defs[0][s] = f"<IMG SRC='g{i}.gif' ALT='{i}'>"
        E.defs[1][s] = g.choice([f'&#{i};', f'<I>u{i}</I>', f'[U{i}]', f'_{i}_', f'~{i}', f' u{i} ', f'(u{i}', f'`{i}', f'u{i})'])
        T.append(f'htmldef {lit1(g, s)} as {lit(g, E.defs[0][s])};')
        T.append(f'althtmldef {lit1(g, s)} as {lit(g, E.defs[1][s])};')
        if g.bool(0.2):
            T.append(f'latexdef {lit1(g, s)} as "x";')
    T.append(f'htmlbibliography {lit1(g, E.bib)};')
    if E.font:
        T.append(f'htmlfont {lit1(g, E.font)};')
    css = None
    if g.bool(0.5):
        css = g.choice(['<STYLE>.a { x: y }</STYLE>', '<LINK HREF="q.css">'])
        T.append(f'htmlcss {lit1(g, css)};')
    T.append('htmltitle "T";')
    if g.bool(0.9):
        ctx.write(E.bib, '<HTML>\n' + '\n'.join(g.choice(['<A NAME="%s"></A>', "<a name='%s'>x</a>", '<A  NAME=%s></A>', '<A NAME=%s>[%s]</A>'.replace('[%s]', 'q')]) % t for t in E.tags) + '\n</HTML>\n')
        havebib = True
    else:
        havebib = False

    def text(n):
        els = [element(g, E) for _ in range(n)]
        gaps = [g.weighted([(' ', 12), ('\n', 2), ('\n  ', 1), ('  ', 1), ('\n\n', 1)]) for _ in els[1:]]
        return els, gaps

    nstat = len(labels)
    descs = {}
    out = [f'$( $t\n' + '\n'.join(T) + '\n$)\n', '$c ' + ' '.join(cs) + ' $.\n'] if cs else None
    if not out:
        raise Discard('no symbols')
    if g.bool():
        out.reverse()
    for l in labels:
        if g.bool(0.6):
            els, gaps = text(g.weighted([(2, 2), (6, 3), (20, 2)]))
            wrap = g.bool(0.1)
            s = els[0].src + ''.join(a + b.src for a, b in zip(gaps, els[1:]))
            if wrap:
                s = '<HTML> ' + s + ' </HTML>'
            # the text ends with a label or link only if white space follows
            descs[l] = (els, gaps, wrap)
            out.append(f'$( {s} $)\n')
        out.append(f'{l} $a {g.choice(cs)} $.\n')
    base = ''.join(out)
    if base.count('$t') != 1 or '$(' in s_all(descs):
        raise Discard('typesetting keyword twice')
    ctx.write('t.mm', base)
    E.pink = lambda l: '\x01' + (str(E.labels[l]) if l else '(future)') + '\x01'
    jobs = []
    cmds = []
    for k in range(g.weighted([(1, 2), (2, 2), (4, 1)])):
        alt = int(g.bool())
        if g.bool(0.5) and descs:
            l = g.choice(list(descs))
            jobs = [(j[0] if j[1] != l else 'old',) + j[1:] for j in jobs]
            cmds.append(f'show statement {l} / {"alt_html" if alt else "html"}')
            jobs.append(('page', l, alt, None))
        else:
            els, gaps = text(g.weighted([(3, 2), (10, 3), (40, 2)]))
            s = els[0].src + ''.join(a + b.src for a, b in zip(gaps, els[1:]))
            head = g.choice(['', '', '<HTML><HEAD>\n<TITLE>x</TITLE></HEAD>\n', '<head></head>', '</HeAd>'])
            s2 = head + ' ' + s + g.choice(['\n', '', ' \n', '\n\n'])
            f = {q: g.bool(0.7) for q in ('sym', 'lab', 'num', 'bib', 'und', 'css')}
            if g.bool(0.1):
                f = {q: False for q in f}
            ctx.write(f'i{k}.html', s2)
            names = {'sym': 'symbols', 'lab': 'labels', 'num': 'number_after_label', 'bib': 'bib_refs', 'und': 'underscores', 'css': 'css'}
            qs = g.shuffle([names[q] for q in f if f[q]] + ['alt_html' if alt else 'html'])
            cmds.append(f'markup i{k}.html o{k}.html / ' + ' / '.join(qs))
            jobs.append(('markup', (els, gaps, head, s2), alt, dict(f, html=False)))
    ctx.show('\n'.join(cmds) + '\n-----\n' + base + ''.join(f'\n--- i{k}\n' + j[1][3] for k, j in enumerate(jobs) if j[0] == 'markup'))
    ctx.key(base, cmds, [j[1][3] for j in jobs if j[0] == 'markup'])
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm'] + cmds, ctx.dir, width=g.choice([79, 79, 40, 200]))
    if '?' in outs[0]:
        raise Violation('model', f'legal database rejected: {outs[0][:2000]}')
    stale = False
    for k, ((kind, x, alt, f), c, o) in enumerate(zip(jobs, cmds, outs[1:])):
        if kind == 'old':
            continue
        if kind == 'page':
            els, gaps, wrap = descs[x]
            f = dict(html=not wrap, sym=True, lab=True, num=True, bib=True, und=not wrap)
            p = page(os.path.join(ctx.dir, x + '.html'))
        else:
            els, gaps, head, s2 = x
            wrap = False
            p = page(os.path.join(ctx.dir, f'o{k}.html'))
        f['alt'] = alt
        if p is None:
            raise Violation('no file', f'{c}: nothing written: {o}')
        got = re.sub(r'&nbsp;<SPAN\s+CLASS=r\s+STYLE="color:#[0-9A-F]{6}">(\d+|\(future\))</SPAN>', '\x01\\1\x01', p)
        if kind == 'page':
            m = re.search(r'<B>Description:\s*</B>(.*?)</TD>\s*</TR>\s*</TABLE>\s*</CENTER>', got, re.S)
            if not m:
                raise Violation('description', f'{c}: no description in\n{p[:3000]}')
            got = m.group(1)
        if kind == 'markup' and head and f['css'] and css:
            i = head.upper().index('</HEAD>')
            head = head[:i] + css + '\n' + head[i:]
        first = None
        # (known finding: an external link is followed by the number of the label before it)
        for f['stale'] in (False, True):
            f['last'] = ''
            pieces = [(head, True)] if kind == 'markup' and head else []
            for i, e in enumerate(els):
                pieces.append((e.out(f), e.markup))
                if i < len(gaps) and '\n\n' in gaps[i] and kind == 'page' and not wrap:
                    pieces.append(('<P STYLE="margin-bottom:0em">', True))
            r = match(pieces, got)
            if not r:
                stale = stale or f['stale']
                break
            first = first or r
        else:
            i, t = first
            raise Violation('text', f'{c}: shown ...{got[max(0, i - 80):i]!r} | {got[i:i + 80]!r}; expected {t!r} there\n{got}\n{o}')
        if kind == 'markup' and not any(f[q] for q in ('sym', 'lab', 'bib', 'und')) and not (f['css'] and css):
            a = [l.rstrip() for l in s2.rstrip().split('\n')]
            b = [l.rstrip() for l in p.rstrip().split('\n')]
            if a != b:
                raise Violation('copy', f'{c}: the output differs from the input:\n{p!r}\n{s2!r}')
        flat = ' '.join(o.split())
        for e in els:
            if e.warn and f[e.warn[0]] and (e.warn[0] != 'bib' or havebib):
                if e.warn[1] not in flat:
                    raise Violation('no message', f'{c}: {e.warn[1]} is missing in {o}')
        known = [e.warn[1] for e in els if e.warn]
        for m in re.finditer(r'\?(Error|Warning): [^?]*', flat):
            t = m.group()
            if any(t.startswith(x) for x in known) or 'Unable to generate syntax' in t or 'image' in t or '.gif' in t or 'has no comment' in t or 'is incomplete' in t:
                continue
            if not havebib and 'The bibliographic hyperlinks will not be checked' in t:
                continue
            raise Violation('message', f'{c}: {t}')
    if stale:
        raise Violation('stale-number', 'an external link is followed by the number of the label before it')
    ctx.count('elements', sum(len((x if kind == 'markup' else descs[x])[0]) for kind, x, _, _ in jobs))
    ctx.nontrivial(any(any(e.markup for e in (x if kind == 'markup' else descs[x])[0]) for kind, x, _, _ in jobs))


def s_all(descs):
    return ' '.join(e.src for els, _, _ in descs.values() for e in els)


CHECK = Check('C26', prop, quick=8000, thorough=200000, known={'stale-number': lambda v, ctx: v.kind == 'stale-number'},
              rule='random texts composed of words, math symbols, label and web links, references, underscores, escapes, special characters and paragraphs, rendered by MARKUP with '
                   'random qualifiers and as descriptions of web pages, against a reference rendering; non-trivial = the text contains markup; distinct by database, commands and texts')

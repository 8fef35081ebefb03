"""C32  WRITE BIBLIOGRAPHY and WRITE RECENT_ADDITIONS: the listings are complete, exact and sorted, and the rest of the page is kept."""
import os, re
from lib import mm, mmgen
from lib.core import Check, Violation, Discard
from checks.c24 import database, defs, lit, lit1, page, sq

KEYS = ('Axiom Chapter Claim Compare Conclusion Condition Conjecture Corollary Criteria Criterion Definition Equation Example Exercise Fact Figure Introduction Item Lemma Lemmas '
        'Line Lines Notation Note Observation Paragraph Part Postulate Problem Proof Property Proposition Remark Result Rule Scheme Scolia Scolion Section Statement Subsection '
        'Table Theorem').split()
KW = re.compile(r'(?<![A-Za-z0-9])(?:' + '|'.join(KEYS) + ')', re.I)
PLAIN = ['the', 'alpha', 'and', 'see', 'x', 'p.', 'with', '12', 'A.', '(compare)', 'Sublemma', 'disproof', 'e.g.', 'Word', 'outline']
TAGS = ['Monk', 'Foo2', 'A', 'Kunen', 'Suppes', 'T2a', 'Mo']
MON = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
PINK = r'&nbsp;<SPAN CLASS=r STYLE="color:#[0-9A-F]{6}">(\d+)</SPAN>'
DATE = re.compile(r'\d+-[A-Z][a-z][a-z]-\d{4}')


def norm(s):
    return ' '.join(s.split())


def ref(g):
    """a reference, mostly complete"""
    kw = g.choice(KEYS[:6] + ['Theorem'] * 4 + ['Definition', 'Lemma', 'Subsection'] if g.bool(0.6) else KEYS)
    kw = g.choice([kw, kw, kw, kw.lower(), kw.upper()])
    idn = g.choice(['', '3.1', '9', '10', 'A', '2(b)', '19.3', 'of Choice', '4 (i)'])
    noise = g.choice(['of', 'of', 'in', 'from', 'on'])
    tag = g.choice(TAGS)
    n = g.weighted([(g.int(1, 30), 4), (g.int(1, 9999), 2), (22, 2)])
    pg = g.weighted([(str(n), 10), ('xii', 1), ('A3', 1), ('12345', 1)])
    end = g.choice(['', '', '.', ',', ';', ')', '-30', ' ff.'])
    k = g.weighted([('ok', 14), ('nokw', 1), ('nopage', 1), ('esc', 1), ('space', 1), ('math', 1), ('junk', 1)])
    body = kw + ' ' + (idn + ' ' if idn else '') + noise + ' '
    if k == 'ok':
        return f'{body}[{tag}] p. {pg}{end}'
    if k == 'nokw':
        return f'and of [{tag}] p. {pg}{end}'
    if k == 'nopage':
        return f'{body}[{tag}]{g.choice([".", "", ";"])}'
    if k == 'esc':
        return f'{body}[[{tag}]] p. {pg}{end}'
    if k == 'space':
        return f'[{body} x] p. {pg}'
    if k == 'math':
        return f'` [{tag}] p. {pg} ` {g.choice(["", "(q)"])}'
    return g.choice(['[', '[ ]', ']', 'p. 5'])


def model(text, maths):
    """the references of a description: list of (tag, page, id) ; the number of references without keyword, and without page"""
    t = norm(re.sub(r'(?<!`)`(?!`).*?(?<!`)`(?!`)', lambda m: '` `', text, flags=re.S))
    out, nokw, nopage = [], 0, 0
    prev = 0
    refs = [m for m in re.finditer(r'\[([^\]]*)\]', t)]
    i = 0
    spots = []
    while True:
        i = t.find('[', i)
        if i < 0:
            break
        j = t.find(']', i)
        if j < 0:
            break
        s = t[i + 1:j]
        if ' ' in s:
            i += 1
        elif t[i + 1] == '[':
            i += 2
        elif not t[i + 1].isalnum():
            i += 1
        else:
            spots.append((i, j))
            i += 1
    if any(m.start() not in [j for _, j in spots] for m in re.finditer(r'\] p\. [A-Za-z]', t)):
        raise Discard('page of a bracket that is no reference')
    for n, (i, j) in enumerate(spots):
        ms = list(KW.finditer(t, prev, i))
        prev = j + 1
        if not ms:
            nokw += 1
            continue
        end = spots[n + 1][0] if n + 1 < len(spots) else len(t)
        p = re.match(r' p\. ([A-Za-z0-9]+)', t[j + 1:end])
        if not p:
            if re.search(r' p\. [A-Za-z0-9]', t[j + 1:end]):
                raise Discard('page later')
            nopage += 1
            continue
        x = t[ms[-1].start():i]
        if ' p. ' in x or '`' in x:
            raise Discard('page or formula in identifier')
        if not p.group(1).isdigit() and p.group(1) not in ('xii', 'A3'):
            raise Discard('word for a page')
        x = x[0].upper() + x[1:]
        cut = [x.rfind(f' {w} ') for w in ('of', 'in', 'from', 'on')]
        if max(cut) >= 0:
            x = x[:max(cut)]
        out.append((t[i + 1:j], p.group(1), norm(x)))
    return out, nokw, nopage


def template(g):
    L = lambda: [g.choice(['<P>text</P>', '', '  x', '<!-- #START# --> no', ' <!-- #END# -->', 'This page was last updated on 5-May-2001.', '<!-- last updated --> <I>Last updated on 1-Jan-2000 at 1:00 PM ET.</I>', '<HR>']) for _ in range(g.int(0, 4))]
    a, b, c = L(), L(), L()
    miss = g.weighted([('', 14), ('start', 1), ('end', 1)])
    t = a + ([] if miss == 'start' else ['<!-- #START# -->']) + b + ([] if miss == 'end' else ['<!-- #END# -->']) + c
    return a, c, miss, '\n'.join(t) + ('\n' if t and (not t[-1] or g.bool(0.9)) else '')


def prop(g, ctx):
    d, items, db, proofs, incomplete = database(g)
    toks = list(dict.fromkeys(t for it in items if it[0] in 'cv' for t in it[1]))
    html, alt = defs(g, toks, False), defs(g, toks, True)
    order = [b.label for b in db.order]
    pink = {l: i + 1 for i, l in enumerate(order)}
    mb = ext = None
    ren = {}
    if g.bool(0.3) and len(order) > 2:
        mb = g.choice(order[2:])
        if db.asserts[mb].kind != 'a' or any(mb in ' '.join(it[3]).split() for it in items if it[0] == 'p'):
            mb = None
        else:
            ren[mb] = 'mathbox'
    for l in order:
        if l not in ren and g.bool(0.06) and not any(l in ' '.join(it[3]).split() for it in items if it[0] == 'p'):
            ren[l] = l + g.choice(['NEW', 'OLD', 'ALT', 'New'])
    if g.bool(0.3) and len(order) > 1:
        hi = pink[mb] - 1 if mb else len(order)
        if hi >= 2:
            ext = order[g.int(1, hi - 1)]
    R = lambda l: ren.get(l, l)
    inv = {R(l): x for l, x in db.asserts.items()}
    order = [R(l) for l in order]
    pink = {l: i + 1 for i, l in enumerate(order)}
    # descriptions
    pool = [f'{g.int(1, 28)}-{g.choice(MON)}-{g.choice([1993, 2004, 2004, 2019, 2023])}' for _ in range(g.int(1, 6))] + [g.choice(['1-Jan-1993', '31-Dec-1992', '31-Jan-2004', '29-Feb-2004', '31-Dec-2019', '1-Jan-2150'])]
    dates, text, dsc = {}, {}, {}
    out = []
    for it in items:
        if it[0] in 'ap':
            l = R(it[1])
            it = (it[0], l) + it[2:]
            if g.bool(0.85):
                ws = []
                for _ in range(g.weighted([(0, 2), (1, 4), (2, 3), (5, 2)])):
                    ws.append(ref(g) if g.bool(0.6) else ' '.join(g.choice(PLAIN) for _ in range(g.int(1, 6))))
                dd = []
                if g.bool(0.6):
                    for k, w in enumerate(['Contributed', g.choice(['Revised', 'Proof shortened'])][: 1 if g.bool(0.7) else 2]):
                        x = g.choice(pool)
                        dd.append(x)
                        ws.append(f'({w} by {g.choice(["NM", "A. Uthor"])}, {x}.)')
                key = lambda x: (int(x.split('-')[2]), MON.index(x.split('-')[1]), int(x.split('-')[0]))
                if dd:
                    dates[l] = max(map(key, dd))
                s = g.choice([' ', '  ']).join(ws)
                s = ''.join(g.weighted([(' ', 10), ('\n  ', 1), ('\n', 1)]) if c == ' ' else c for c in s) if g.bool(0.7) else s
                if g.bool(0.8) or '[' not in s:
                    out.append(('com', s))
                else:
                    # an additional comment before the description
                    out += [('com', 'Theorem 5 of [Monk] p. 17'), ('com', s)]
                text[l] = s
        out.append(it)
    T = []
    for t in toks:
        T.append(f'htmldef {lit1(g, t)} as {lit(g, html[t])};')
        T.append(f'althtmldef {lit1(g, t)} as {lit(g, alt[t])};')
    T += ['htmlbibliography "mmset.html";', 'htmltitle "T";']
    font = g.choice(['', 'CLASS=math'])
    if font:
        T.append(f'htmlfont {lit(g, font)};')
    if ext:
        T += ['exthtmltitle "E";', f'exthtmllabel {lit1(g, R(ext))};', 'exthtmlhome ' + lit(g, '<A HREF="e.html"><IMG SRC="m.gif">E</A>') + ';', 'exthtmlbibliography "mmhil.html";']
    nodefs = g.bool(0.03)
    if not nodefs:
        out.append(('com', '$t ' + '\n'.join(g.shuffle(T)) + '\n'))
    src = mmgen.emit(out)
    if src.count('$t') != (not nodefs):
        raise Discard('typesetting keyword twice')
    ctx.write('t.mm', src)
    ctx.write('mmset.html', ''.join(f'<A NAME="{t}"></A>\n' for t in TAGS))
    ctx.write('mmhil.html', ''.join(f'<A NAME="{t}"></A>\n' for t in TAGS))
    pages = {}
    for k in range(2):
        pages[f'page{k}.html'] = template(g)
        ctx.write(f'page{k}.html', pages[f'page{k}.html'][3])
    cmds, jobs = [], []
    isalt = False
    for _ in range(g.int(1, 3)):
        f = f'page{g.int(0, 1)}.html'
        if g.bool(0.5):
            cmds.append(f'write bibliography {f}')
            jobs.append(('bib', f, None, None))
        else:
            c = f'write recent_additions {f}'
            lim = 100
            qs = []
            if g.bool(0.6):
                lim = g.choice([1, 2, 3, 5, 0, 20])
                qs.append(f'limit {lim}')
            # (the default is the format that was used last)
            isalt = g.bool()
            qs.append('alt_html' if isalt else 'html')
            cmds.append(c + ''.join(' / ' + q for q in g.shuffle(qs)))
            jobs.append(('rec', f, lim, isalt))
    cmds.append('verify markup * / file_skip / date_skip')
    ctx.show('\n'.join(cmds) + '\n-----\n' + src + ''.join(f'----- {f}\n{p[3]}' for f, p in pages.items()))
    ctx.key(src, cmds, [p[3] for p in pages.values()])
    # the expected references
    rows = {}
    nokw = nopage = 0
    for l in order:
        if 'NEW' in l or 'OLD' in l or l not in text:
            continue
        rs, a, b = model(text[l], None)
        nokw += a
        nopage += b
        for r in rs:
            rows.setdefault(r, []).append(l)
    nrefs = sum(map(len, rows.values()))
    script = ['read t.mm']
    for n, c in enumerate(cmds):
        script += [c]
    outs = []
    snaps = []
    # (each command in a session of its own, or all of them in one, with the files saved in between by the backups)
    outs, _ = mm.session(ctx.env['plain'], script, ctx.dir, width=g.choice([79, 79, 60, 200]))
    if '?Error' in outs[0]:
        raise Violation('model', f'legal database rejected: {outs[0][:2000]}')
    N = lambda s: re.sub(r'(?<=updated on )\d+-\w+-\d+(?: at .*? ET)?', 'DATE', s)
    cur = {f: p[3] for f, p in pages.items()}
    sect = lambda l: 2 if mb and pink[l] >= pink['mathbox'] else 1 if ext and pink[l] >= pink[R(ext)] else 0
    changes = {f: [p[3]] for f, p in pages.items()}
    for c, o, (kind, f, lim, a) in zip(cmds, outs[1:], jobs):
        a_, c_, miss, t = pages[f]
        oo = norm(o)
        if nodefs or miss:
            if nodefs and '?Error' not in oo and '?Warning' not in oo:
                raise Violation('message', f'{c}: {o}')
            if miss and not nodefs and f'?Error: Could not find "<!-- #{miss.upper()}# -->" line' not in oo:
                raise Violation('message', f'{c}: {o}')
            continue
        if '?Error' in o or '?BUG' in o:
            raise Violation('message', f'{c}: {o}')
        if kind == 'bib':
            m = re.search(r'(\d+) references were processed\. (\d+) table rows were written\.', oo)
            if not m or m.groups() != (str(nrefs), str(len(rows))):
                raise Violation('count', f'{c}: expected {nrefs} references in {len(rows)} rows {rows}: {o}')
            got = (oo.count('Bibliography keyword missing'), oo.count('No page number after'))
            if got != (nokw, nopage):
                raise Violation('warnings', f'{c}: {got}, expected {(nokw, nopage)}: {o}')
        else:
            n = min(lim, len([l for l in dates if 1993 <= dates[l][0] < 2100]))
            if f'The {n} most recent theorem(s) were written.' not in oo:
                raise Violation('count', f'{c}: expected {n}: {o}')
        changes[f].append((kind, c, lim, a))
    if not nodefs:
        oo = norm(outs[len(cmds)])
        got = (oo.count('Bibliography keyword missing'), oo.count('No page number after'))
        if got != (nokw, nopage):
            raise Violation('markup', f'VERIFY MARKUP: {got}, expected {(nokw, nopage)}: {outs[len(cmds)]}')
    for f, (a_, c_, miss, t) in pages.items():
        ch = changes[f]
        p = page(os.path.join(ctx.dir, f))
        if miss or nodefs:
            if p != t:
                raise Violation('file', f'{f}: changed although no command could be carried out: {p}')
            continue
        for n in range(len(ch)):
            back = len(ch) - 1 - n
            q = p if not back else page(os.path.join(ctx.dir, f'{f}~{back}'))
            if q is None:
                raise Violation('backup', f'{f}~{back} is missing')
            if n == 0:
                if q != t:
                    raise Violation('backup', f'{f}~{back} is not the old page: {q}')
                continue
            kind, c, lim, a = ch[n]

            def bad(k, what):
                raise Violation(k, f'{c}: {f}: {what}\n{q}')
            lines = q.split('\n')
            if lines[-1:] == ['']:
                lines.pop()
            s = lines.index('<!-- #START# -->') if '<!-- #START# -->' in lines else -1
            e = next((i for i in range(len(lines)) if i > s and lines[i] == '<!-- #END# -->'), -1)
            if s < 0 or e < 0 or [N(x) for x in lines[:s]] != [N(x) for x in a_] or [N(x) for x in lines[e + 1:]] != [N(x) for x in c_]:
                bad('rest', f'the text around the list is not kept; expected {a_} and {c_}')
            body = '\n'.join(lines[s + 1:e])
            if kind == 'bib':
                checkbib(body, rows, pink, sect, bad)
            else:
                checkrec(g, body, order, inv, dates, text, pink, sect, lim, alt if a else html, a, font, bad)
    ctx.count('references', nrefs)
    ctx.count('failing' if nodefs or any(p[2] for p in pages.values()) else 'working')
    ctx.nontrivial(len(rows) > 1 and not nodefs)


def checkbib(body, rows, pink, sect, bad):
    got = []
    cols = {}
    for r in re.findall(r'<TR.*?</TR>', norm(body)):
        m = re.fullmatch(r'<TR( BGCOLOR="?[^>"]*"?)?><TD NOWRAP>\[<A HREF="(\w+\.html)#(\w+)">(\w+)</A>\] p\. (\w*)</TD><TD>(.*?)</TD><TD>(.*)</TD></TR>', r)
        if not m:
            bad('row', f'unexpected {r}')
        links = []
        for x in m.group(7).split(' &nbsp;'):
            y = re.fullmatch(r'<A HREF="(.*?)\.html">(.*?)</A>' + PINK, x.strip())
            if not y or y.group(1) != y.group(2) or pink.get(y.group(1)) != int(y.group(3)):
                bad('link', f'{x} in {r}')
            links.append(y.group(1))
        if m.group(3) != m.group(4):
            bad('row', r)
        got.append((m.group(4), m.group(5), m.group(6), links))
        # (the first statement determines color and bibliography)
        s = min(sect(l) for l in links), max(sect(l) for l in links)
        if s[0] == s[1]:
            cols.setdefault(s[0], set()).add((m.group(1), m.group(2)))
    if re.sub(r'<TR.*?</TR>', '', norm(body)).strip():
        bad('row', 'text between the rows')
    want = {k: sorted(v) for k, v in rows.items()}
    have = {}
    for t, p, i, ls in got:
        if (t, p, i) in have:
            bad('duplicate', f'two rows for {(t, p, i)}')
        have[(t, p, i)] = sorted(ls)
    if have != want:
        bad('rows', f'missing {[(k, v) for k, v in want.items() if have.get(k) != v]}, unexpected {[(k, v) for k, v in have.items() if want.get(k) != v]}')
    for (t, p, i, _), (t2, p2, i2, _) in zip(got, got[1:]):
        if t > t2:
            bad('order', f'{t} before {t2}')
        num = p.isdigit() and p2.isdigit() and len(p) < 5 and len(p2) < 5
        if t == t2 and num and int(p) > int(p2):
            bad('order', f'page {p} before page {p2} of {t}')
        if (t, p) == (t2, p2) and len(i) <= 20 and len(i2) <= 20 and (len(i), i) > (len(i2), i2):
            bad('order', f'{i} before {i2} of {t} p. {p}')
    if any(len(v) > 1 for v in cols.values()) or len({v2[0] for v in cols.values() for v2 in v}) != len(cols):
        bad('colors', cols)
    for s, v in cols.items():
        if {x[1] for x in v} != {'mmhil.html' if s == 1 else 'mmset.html'}:
            bad('bibliography', cols)


def checkrec(g, body, order, inv, dates, text, pink, sect, lim, D, a, font, bad):
    D = {k: sq(v) for k, v in D.items()}
    want = sorted((l for l in dates if 1993 <= dates[l][0] < 2100), key=lambda l: (dates[l], pink[l]), reverse=True)[:lim]
    b = norm(body)
    rows = [norm(x) for x in re.split(r'(?=<TR(?: BGCOLOR=[^>]*)?><TD NOWRAP>)', b) if x.strip()]
    if len(rows) != len(want):
        bad('rows', f'{len(rows)} entries, expected {want}')
    f = lambda ts: span[0] + ''.join(D[t] for t in ts) + span[1]
    span = (sq('<SPAN ' + font + '>'), '</SPAN>') if a else ('', '')
    cols = {}
    for n, (r, l) in enumerate(zip(rows, want)):
        y, mo, dd = dates[l]
        m = re.fullmatch(r'<TR( BGCOLOR=[^>]*)?><TD NOWRAP>(\S+)</TD><TD ALIGN=CENTER><A HREF="(.*?)\.html">(.*?)</A>' + PINK + r'</TD><TD ALIGN=LEFT>(.*)</TD></TR><TR( BGCOLOR=[^>]*)?><TD COLSPAN=3 ALIGN=CENTER>(.*?)</TD></TR>(.*)', r)
        if not m or m.group(2, 3, 4, 5) != (f'{dd}-{MON[mo]}-{y}', l, l, str(pink[l])) or m.group(1) != m.group(7):
            bad('entry', f'expected {l} of {dd}-{MON[mo]}-{y}, found {r}')
        cols.setdefault(sect(l), set()).add(m.group(1))
        ds = m.group(6)
        # the description (its markup is another matter)
        if '`' not in text[l]:
            x = re.sub(r'<A HREF="[^"]*">(\w+)</A>', r'\1', ds)
            x = sq(re.sub(r'</?[A-Z][^>]*>', '', x))
            if x != sq(text[l].replace('[[', '[')):
                bad('description', f'of {l}: {x}, expected {sq(text[l])}')
        bl = inv[l]
        hy = [h for h in bl.mand if h.kind == 'e']
        fm = sq(m.group(8))
        for h in [x.toks for x in hy] + [bl.toks]:
            i = fm.find(f(h))
            if i < 0:
                bad('formula', f'{f(h)} of {l} not in {fm}')
            fm = fm[i + len(f(h)):]
        if fm:
            bad('formula', f'{fm} after the formula of {l}')
        rest = m.group(9)
        if n < len(want) - 1 or lim > len(want):
            i = pink[l] - 1
            s = re.findall(r'<!-- For script: (\w+) = (\S+) -->', rest)
            w = [('current', l)]
            if i:
                w.insert(0, ('previous', order[i - 1]))
            if i + 1 < len(order):
                w.append(('next', order[i + 1]))
            if s != w or rest.count('<TR BGCOLOR=white>') != 1:
                bad('script', f'{s}, expected {w}')
        elif rest:
            bad('script', f'text after the last entry: {rest}')
    if any(len(x) > 1 for x in cols.values()) or len(set(map(tuple, cols.values()))) != len(cols):
        bad('colors', f'{cols}')


CHECK = Check('C32', prop, quick=2500, thorough=60000,
              rule='random databases whose descriptions contain complete and incomplete references and dates, written into random pages; every page written is decoded; '
                   'non-trivial = more than one reference to be listed; distinct by database, commands and pages')

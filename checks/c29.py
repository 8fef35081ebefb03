"""C29  WRITE THEOREM_LIST: the contents page and the list pages show what the database says."""
import os, re
from lib import mm, mmgen
from lib.core import Check, Violation, Discard
from checks.c24 import database, defs, lit, lit1, page, sq

DECO = ['####', '#*#*', '=-=-', '-.-.']
LET = 'hbst'
WORDS = ['alpha', 'Beta', 'of', 'the', 'x', 'sums', '(see', 'note)', 'e.g.', "it's", '12', 'and', 'with-hyphen,', 'end.', '=', 'longerwordinthetext', '/', 'Part', 'PART', '1.1']
PINK = r'(?:&nbsp;)?<SPAN CLASS=r STYLE="color:#[0-9A-F]{6}">(\d+)</SPAN>'
P0 = '<P STYLE="margin-bottom:0em">'


def norm(s):
    return ' '.join(s.split())


def words(g, n):
    return [g.choice(WORDS) for _ in range(n)]


def header(g, lev, text):
    """the raw comment of a section header, and its description"""
    dec = DECO[lev]
    line = lambda: dec * g.choice([1, 1, 4, 19]) + (dec[:g.int(1, 3)] if g.bool(0.3) else '')
    ds = None
    t = g.choice(['', '  ']) + '$(' + g.choice(['', '', '', ' ']) + '\n' + line() + '\n' + g.choice(['  ', '', '      ']) + text + g.choice(['', ' ', '  ']) + '\n' + line()
    if g.bool(0.35):
        ds = words(g, g.choice([1, 3, 10, 30]))
        t += '\n' + g.choice(['', '\n', '\n\n', '  ']) + ''.join(w + g.weighted([(' ', 8), ('\n', 1), ('\n  ', 1)]) for w in ds).strip() + g.choice(['\n', '\n\n', ' ']) + '$)'
        ds = ' '.join(ds)
    else:
        t += '\n' + g.choice(['', '', '\n', '  ']) + '$)'
    return t, ds


def prop(g, ctx):
    d, items, db, proofs, incomplete = database(g)
    toks = list(dict.fromkeys(t for it in items if it[0] in 'cv' for t in it[1]))
    html, alt = defs(g, toks, False), defs(g, toks, True)
    order = [b.label for b in db.order]
    pink = {l: i + 1 for i, l in enumerate(order)}
    # mathboxes, and an extended section
    mb = ext = None
    ren = {}
    if g.bool(0.25) and len(order) > 2:
        cand = [l for l in order[2:] if db.asserts[l].kind == 'a' or True]
        mb = g.choice(cand)
        if db.asserts[mb].kind != 'a' or any(mb in ' '.join(it[3]).split() for it in items if it[0] == 'p'):
            mb = None
        else:
            ren[mb] = 'mathbox'
    if g.bool(0.25) and len(order) > 1:
        hi = pink[mb] - 1 if mb else len(order)
        if hi >= 2:
            ext = order[g.int(1, hi - 1)]
            if g.bool(0.3):
                seq = [it[1] for it in items if it[0] in 'feap']
                ext = g.choice(seq[1:seq.index(ext) + 1])
    R = lambda l: ren.get(l, l)
    if ext:
        # the number of the first assertion of the extended part
        seq = [it[1] for it in items if it[0] in 'feap']
        efirst = 1 + len([l for l in seq[:seq.index(ext)] if l in pink])
    order = [R(l) for l in order]
    pink = {l: i + 1 for i, l in enumerate(order)}
    # descriptions and section headers
    desc = {}
    out = []
    area = []                     # headers since the last assertion: (level, title, description)
    kept = {}
    n = 0
    dens = g.choice([0.0, 0.1, 0.3, 0.6])
    many = g.choice([1, 2, 5])
    for it in items:
        last = None
        if g.bool(dens):
            for _ in range(g.int(1, many)):
                lev = g.int(0, 3)
                n += 1
                title = ' '.join(words(g, g.choice([1, 2, 4, 9]))) + f' h{n}'
                t, ds = header(g, lev, title)
                area.append((lev, title, ds))
                out.append(('raw', t))
                last = t
        if it[0] in 'ap':
            l = R(it[1])
            if last or g.bool(0.7):
                ws = words(g, g.choice([2, 6, 25]))
                if g.bool(0.3):
                    ws = g.choice([['Lemma', 'for'], ['Lemma', 'for', '~ ' + R(g.choice(order))], ['Lemmafor'], ['A', 'Lemma', 'for'], ['Lemmas', 'for'], ['lemma', 'for']]) + ws
                desc[l] = ws
                # (line breaks right after "Lemma" or "for" hide the lemma)
                glue = lambda k: ' ' if k < 2 else g.weighted([(' ', 12), ('\n  ', 2), ('\n', 1)])
                out.append(('com', ''.join(w + glue(k) for k, w in enumerate(ws)).strip()))
            keep = [None] * 4
            for h in area:
                keep[h[0]] = h
                for k in range(h[0] + 1, 4):
                    keep[k] = None
            if any(keep):
                kept[l] = keep
            area = []
            it = (it[0], l) + it[2:]
        out.append(it)
    title = g.choice(['Test Explorer', "A's B C", 'x'])
    T = []
    for t in toks:
        T.append(f'htmldef {lit1(g, t)} as {lit(g, html[t])};')
        T.append(f'althtmldef {lit1(g, t)} as {lit(g, alt[t])};')
    T.append(f'htmltitle {lit(g, title)};')
    font = g.choice(['', 'CLASS=math', 'STYLE="font-family: \'X Y\', serif"'])
    if font:
        T.append(f'htmlfont {lit(g, font)};')
    if ext:
        T += ['exthtmltitle "E";', f'exthtmllabel {lit1(g, ext)};', 'exthtmlhome ' + lit(g, '<A HREF="e.html"><IMG SRC="m.gif">E</A>') + ';']
    dirs = None
    if g.bool(0.2):
        dirs = ('../gif/', '../uni/')
        T += [f'htmldir {lit(g, dirs[0])};', f'althtmldir {lit(g, dirs[1])};']
    tcom = ('com', '$t ' + '\n'.join(g.shuffle(T)) + '\n')
    out.append(tcom)
    text = mmgen.emit(out)
    if text.count('$t') != 1:
        raise Discard('typesetting keyword twice')
    ctx.write('t.mm', text)
    # commands
    cmds, runs = [], []
    isalt = False
    for _ in range(g.weighted([(1, 5), (2, 2)])):
        c = 'write theorem_list'
        per = 100
        lem = ver = False
        qs = []
        if g.bool(0.8):
            per = g.choice([1, 2, 2, 3, 4, 5, 7, 10, len(order), len(order) + 1])
            qs.append(f'theorems_per_page {per}')
        if g.bool(0.35):
            lem = True
            qs.append('show_lemmas')
        if g.bool(0.3):
            ver = True
            qs.append('no_versioning')
        k = g.int(0, 2)
        if k:
            qs.append(['html', 'alt_html'][k - 1])
            isalt = k == 2
        for q in g.shuffle(qs):
            c += ' / ' + q
        cmds.append(c)
        runs.append((per, lem, ver, isalt))
    w = g.choice([79, 79, 60, 130])
    old = 'an old page\n' if g.bool(0.3) else None
    if old:
        ctx.write('mmtheorems1.html', old)
    ctx.show('\n'.join(cmds) + '\n-----\n' + text)
    ctx.key(text, cmds)
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm'] + cmds, ctx.dir, width=w)
    if '?Error' in outs[0]:
        raise Violation('model', f'legal database rejected: {outs[0][:2000]}')
    npages = 0
    for c, o, r in zip(cmds, outs[1:], runs):
        N = (len(order) - 1) // r[0] + 1
        want = [f'Creating mmtheorems{k or ""}.html' for k in range(N + 1)]
        got = re.findall(r'Creating \S+', o)
        if got != want or '?Error' in o or '?BUG' in o or re.search(r'\?Warning: (?!The\s+file\s+"m.gif")', o):
            raise Violation('message', f'{c}: expected {want}: {o}')
        npages = max(npages, N)
    names = {f'mmtheorems{k or ""}.html' for k in range(npages + 1)}
    have = {f.split('~')[0] for f in os.listdir(ctx.dir) if f.startswith('mmtheorems')}
    if have != names:
        raise Violation('files', f'files {sorted(have)}, expected {sorted(names)}')
    if old:
        # the old page is kept as ~1 (or ~2) until a command without backups replaces it
        bk = [page(os.path.join(ctx.dir, f'mmtheorems1.html~{k}')) for k in (1, 2)]
        vs = [not r[2] for r in runs]
        want = None if not vs[0] else 1 if not any(vs[1:]) else 2
        got = 1 + bk.index(old) if old in bk else None
        if got != want:
            raise Violation('backup', f'{cmds}: the old page is in ~{got}, expected {want}')
    per, lem, ver, a = runs[-1]
    N = (len(order) - 1) // per + 1
    D = {k: sq(v) for k, v in (alt if a else html).items()}
    span = (sq('<SPAN ' + font + '>'), '</SPAN>') if a else ('', '')
    f = lambda ts: span[0] + ''.join(D[t] for t in ts) + span[1]
    amp = sq(f'<SPAN {font}>&nbsp;&nbsp;&nbsp; &amp;&nbsp;&nbsp;&nbsp;</SPAN>' if a else "&nbsp;&nbsp;&nbsp;<IMG SRC='amp.gif' WIDTH=12 HEIGHT=19 ALT='&amp;' ALIGN=TOP>&nbsp;&nbsp;&nbsp;")
    arr = sq('&nbsp;&nbsp;&nbsp; <FONT FACE=sans-serif>&#8658;</FONT>&nbsp;&nbsp;&nbsp;' if a else "&nbsp;&nbsp;&nbsp;<IMG SRC='bigto.gif' WIDTH=15 HEIGHT=19 ALT='=&gt;' ALIGN=TOP>&nbsp;&nbsp;&nbsp;")
    # the numbered headers
    cnt = [0] * 4
    toc = []                      # (level, number, title, description, label)
    for l in order:
        for h in kept.get(l, ()):
            if h:
                cnt[h[0]] += 1
                for k in range(h[0] + 1, 4):
                    cnt[k] = 0
                num = f'PART {cnt[0]}' if h[0] == 0 else '.'.join(map(str, cnt[:h[0] + 1]))
                toc.append((h[0], num, h[1], h[2], l))
    pages = []
    for k in range(N + 1):
        p = page(os.path.join(ctx.dir, f'mmtheorems{k or ""}.html'))
        if p is None:
            raise Violation('files', f'no page {k}')
        pages.append(norm(p))
    inv = {R(l): x for l, x in db.asserts.items()}
    anchors = {}
    colours = {}
    for k, p in enumerate(pages):
        def bad(kind, what):
            i = p.find('Contents Summary') if k == 0 else p.find('<CAPTION>')
            raise Violation(kind, f'{cmds[-1]}: page {k or "contents"}: {what}\n{p[max(i, 0):i + 8000]}')
        x = 'TOC of Theorem List' if k == 0 else f'P. {k} of Theorem List'
        if p.count(f'<TITLE>{x} - {title}</TITLE>') != 1:
            bad('title', f'expected {x} - {title}')
        x = 'Table of Contents' if k == 0 else f'p. {k} of {N}'
        if p.count(f'Theorem List ({x})</B>') != 1:
            bad('title', f'expected {x}')
        prev, pt = (k - 1, 'Previous') if k else (N, 'Wrap')
        nxt, nt = (k + 1, 'Next') if k < N else (0, 'Wrap')
        x = f'<A HREF="mmtheorems{prev or ""}.html">&lt; {pt}</A>&nbsp;&nbsp;<A HREF="mmtheorems{nxt or ""}.html">{nt} &gt;</A>'
        if p.count(x) != 3 or len(re.findall(r'&lt; \w+</A>|>\w+ &gt;</A>', p)) != 6:
            bad('neighbours', f'expected {x} three times')
        x = f'<A HREF="{dirs[0 if a else 1]}mmtheorems{k or ""}.html">{"GIF" if a else "Unicode"} version</A>' if dirs else None
        if dirs and p.count(x) != 1 or not dirs and 'version</A>' in p:
            bad('version', f'expected {x}')
        # page list
        m = re.search(r'Jump to page: (.*?) <HR', p)
        rng = lambda i: ((i - 1) * per + 1, min(i * per, len(order)))
        want = []
        for i in range(N + 1):
            want.append((None if i == k else f'mmtheorems{i or ""}.html', str(i) if i else 'Contents') + ((str(rng(i)[0]), str(rng(i)[1])) if i else (None, None)))
        got = []
        for y in re.finditer(r'(?:<A HREF="([^"]*)">(\w+)</A>|(\b\w+))&nbsp;(?:' + PINK.replace('(?:&nbsp;)?', '') + '-' + PINK.replace('(?:&nbsp;)?', '') + ')?', m.group(1) if m else ''):
            got.append((y.group(1), y.group(2) or y.group(3), y.group(4), y.group(5)))
        if got != want:
            bad('page list', f'{got}, expected {want}')
        if not p.endswith('</BODY></HTML>') or p.count('<HTML LANG') != 1:
            bad('page', 'the page is not closed')
        if k == 0:
            continue
        # the list
        lo, hi = rng(k)
        m = re.search(r'<CAPTION><B>Theorem List for ' + re.escape(title) + r' - </B>' + PINK + '<B>-</B>' + PINK, p)
        if not m or m.groups() != (str(lo), str(hi)):
            bad('caption', f'{m and m.groups()}, expected {lo} {hi}')
        i = p.find('<TR><TH COLSPAN=3>Statement</TH></TR>')
        j = p.find('</TABLE></CENTER> <TABLE BORDER=0', i)
        if i < 0 or j < 0:
            bad('list', 'no list of theorems')
        body = p[i + 37:j].replace(P0, ' ')
        rows = [norm(y) for y in re.split(r'(?=<TR(?: BGCOLOR=(?:white|"#[0-9A-F]*"))?><TD)', body)]
        rows = [y for y in rows if y and not re.fullmatch(r'<TR BGCOLOR=white><TD COLSPAN=3><FONT SIZE=-3>&nbsp;</FONT></TD></TR>', y)]
        at = 0

        def nextrow():
            nonlocal at
            at += 1
            return rows[at - 1] if at <= len(rows) else ''
        for q in range(lo, hi + 1):
            l = order[q - 1]
            b = inv[l]
            for h in [t for t in toc if t[4] == l]:
                r = nextrow()
                y = re.fullmatch(r'<TR BGCOLOR="#FFFFF2"><TD COLSPAN=3><CENTER>(?:<FONT SIZE="\+1">)?<B><A NAME="([^"]*)"></A>(.*?)</B>(?:</FONT>)?</CENTER>(.*)</TD></TR>', r)
                if not y or norm(y.group(2)) != f'{h[1]}&nbsp;&nbsp;{h[2]}' or norm(y.group(3)) != (h[3] or ''):
                    bad('header', f'expected {h} above {l}, found {r}')
                anchors.setdefault((k, y.group(1)), []).append((h[0], h[1], h[2], l))
            r = nextrow()
            kind = 'Theorem' if b.kind == 'p' else '<B><FONT COLOR=red>Axiom</FONT></B>' if l.startswith('ax-') else '<B><FONT COLOR=blue>Definition</FONT></B>' if l.startswith('df-') else '<B><FONT COLOR="#00CC00">Syntax</FONT></B>'
            y = re.fullmatch(r'<TR( BGCOLOR=[^>]*)?><TD NOWRAP>(.*?)</TD><TD ALIGN=CENTER><A HREF="([^"]*)">([^<]*)</A>' + PINK + r'(\*?)</TD><TD ALIGN=LEFT><A NAME="([^"]*)"></A>(.*?)(</TD></TR>)', r)
            if not y or y.group(2, 3, 4, 5, 6, 7) != (kind, l + '.html', l, str(q), '*' if b.dvs else '', l):
                bad('row', f'expected {kind} {l} {q} {"*" if b.dvs else ""}, found {r}')
            sect = 2 if mb and q >= pink['mathbox'] else 1 if ext and q >= efirst else 0
            colours.setdefault(sect, set()).add(y.group(1))
            ds = ' '.join(desc.get(l, ()))
            ds = re.sub(r'~ (\S+)', lambda z: f'<A HREF="{z.group(1)}.html">{z.group(1)}</A>#{pink[z.group(1)]}#', ds)
            gd = norm(re.sub(PINK, r'#\1#', y.group(8)))
            hide = ds.startswith('Lemma for ') and not lem
            if hide:
                ds += ' <I>[Auxiliary lemma - not displayed.]</I>'
                ctx.count('hidden lemmas')
            if gd != ds:
                bad('description', f'of {l}: {gd!r}, expected {ds!r}')
            if not hide:
                r = nextrow()
                hy = [h for h in b.mand if h.kind == 'e']
                m = amp.join(f(h.toks) for h in hy) + (arr if hy else '') + f(b.toks)
                y = re.fullmatch(r'<TR( BGCOLOR=[^>]*)?><TD COLSPAN=3 ALIGN=CENTER>(.*)</TD></TR>', r)
                if not y or sq(y.group(2)) != m:
                    bad('formula', f'of {l}: expected {m}, found {sq(r)}')
                colours[sect].add(y.group(1))
        if at != len(rows):
            bad('list', f'more rows than expected: {rows[at:at + 3]}')
        # the three parts of the database
        m = re.search(r'SUMMARY="Color key">(.*?)</TABLE>', p)
        if ext:
            got = re.findall(r'<BR>\(' + PINK + '-' + PINK + r'\)', m.group(1)) if m else None
            e = efirst
            z = pink['mathbox'] if mb else len(order) + 1
            want = [(1, e - 1), (e, z - 1)] + ([(z, len(order))] if mb else [])
            if got != [(str(u), str(v)) for u, v in want if u <= v]:
                bad('color key', f'{got}, expected {want}')
        elif m:
            bad('color key', 'unexpected')
    if any(len(x) > 1 for x in colours.values()) or len(set(map(tuple, colours.values()))) != len(colours):
        raise Violation('colors', f'row colors by part of the database: {colours}')
    # the table of contents
    p = pages[0]

    def bad(kind, what):
        raise Violation(kind, f'{cmds[-1]}: contents: {what}\n{p[p.find("<P><CENTER>"):][:8000]}')
    m = re.search(r'<B>Table of Contents Summary</B></CENTER>(.*?)<HR NOSHADE SIZE=1> <P><CENTER><A NAME="mmdtoc"></A><B>Detailed Table of Contents</B><BR> <B>\(\* means the section header has a description\)</B></CENTER>(.*?)<HR', p)
    if not m:
        bad('contents', 'not found')
    lines = [norm(y) for y in re.sub(r'^(&nbsp; )+', '', m.group(1)).split('<BR>')]
    want = [t for t in toc if t[0] < 2]
    if lines[-1] or len(lines) - 1 != len(want):
        bad('summary', f'{len(lines) - 1} lines, expected {want}')
    for y, t in zip(lines, want):
        y = norm(y.replace('&nbsp; ', ' ').replace('<A NAME="sandbox:bighdr"></A>&#8203;', ''))
        x = f'<A HREF="#dtl:{t[1].replace("PART ", "")}"><B>{t[1]}&nbsp;&nbsp;{t[2]}</B></A>'
        if y != x:
            bad('summary', f'{y!r}, expected {x!r}')
    lines = [norm(y) for y in m.group(2).split('<BR>')]
    if lines[-1] or len(lines) - 1 != len(toc):
        bad('detailed', f'{len(lines) - 1} lines, expected {toc}')
    ind = {}
    named = set()
    for y, t in zip(lines, toc):
        ind.setdefault(t[0], set()).add(re.match(r'(&nbsp; )*', y).group())
        y = norm(re.sub(r'^(&nbsp; )+', '', y))
        z = re.fullmatch(r'((?:<A NAME="[^"]*"></A> ?&#8203; ?)*)<A HREF="mmtheorems(\d+)\.html#([^"]*)">(?:<B>)?(\*?)(.*?)(?:</B>)?</A>(?: &nbsp; <A HREF="([^"]*)\.html">([^<]*)</A>' + PINK + ')?', y)
        if not z or (z.group(4), z.group(5)) != ('*' if t[3] is not None else '', f'{t[1]}&nbsp;&nbsp;{t[2]}'):
            bad('detailed', f'{y!r}, expected {t}')
        where = int(z.group(2))
        if where != (pink[t[4]] - 1) // per + 1 or anchors.get((where, z.group(3))) != [(t[0], t[1], t[2], t[4])]:
            bad('link', f'{y!r} leads to {anchors.get((where, z.group(3)))} on page {where}, expected {t} on page {(pink[t[4]] - 1) // per + 1}')
        x = (t[4], t[4], str(pink[t[4]])) if t[0] > 1 else (None, None, None)
        if z.group(6, 7, 8) != x:
            bad('detailed', f'{y!r}: expected the statement {t[4]}')
        ns = re.findall(r'NAME="([^"]*)"', z.group(1))
        want = [f'dtl:{t[1].replace("PART ", "")}'] if t[0] < 2 else []
        if t[3] is not None and t[4] not in named:
            named.add(t[4])
            want.append(t[4])
        if ns != want:
            bad('detailed', f'{y!r}: names {ns}, expected {want}')
    if any(len(x) != 1 for x in ind.values()) or sorted(ind, key=lambda x: len(min(ind[x]))) != sorted(ind):
        bad('indentation', ind)
    ctx.nontrivial(len(toc) > 1 and len(order) > 3)
    ctx.count('headers', len(toc))


CHECK = Check('C29', prop, quick=3000, thorough=60000,
              rule='random databases with random section headers, descriptions and typesetting definitions; every page written is decoded; '
                   'non-trivial = more than one section header is listed and there are more than three assertions; distinct by database and commands')

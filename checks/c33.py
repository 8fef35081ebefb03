"""C33  The overview pages (symbols, theorems, definitions), the brief lists and the flash cards show what the database says."""
import html as html_, os, re
from lib import mm, mmgen, mmref
from lib.core import Check, Violation, Discard
from checks.c24 import database, defs, lit, lit1, page, sq

PINK = r'(?:&nbsp;)?<SPAN CLASS=r STYLE="color:#[0-9A-F]{6}">(\d+)</SPAN>'
WORDS = ['alpha', 'Beta', 'of', 'the', 'x', 'sums', '(see', 'note)', 'e.g.', "it's", '12', 'and', 'with-hyphen,', 'end.', '=', 'longerwordinthetext', '/', '<', '&', '>', 'a<b', 'x&amp;y', '&lt;', '"q"', 'A.', '<->', 'anextremelylongwordinthetextofit']
NAMES = ['mmascii', 'mmtheoremsall', 'mmdefinitions']


def norm(s):
    return ' '.join(s.split())


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def prop(g, ctx):
    d, items, db, proofs, incomplete = database(g)
    if g.bool(0.04):
        # over 100 assertions: more than one page of WRITE THEOREM_LIST
        c = g.choice([t for it in items if it[0] == 'c' for t in it[1]])
        ty = [it[2][0] for it in items if it[0] == 'a'][-1]
        items = items + [('a', f'zz{i}', [ty, c]) for i in range(g.choice([99, 100, 101, 190, 205]) - g.int(1, len(db.order)))]
        db = mmref.parse(mmgen.emit(items))
        db.hyps = {l: x for l, x in db.labels.items() if isinstance(x, mmref.Hyp)}
        db.asserts = {l: x for l, x in db.labels.items() if not isinstance(x, mmref.Hyp)}
    toks = list(dict.fromkeys(t for it in items if it[0] in 'cv' for t in it[1]))
    html, alt = defs(g, toks, False), defs(g, toks, True)
    if g.bool(0.3):
        for dd in (html, alt):
            dd[g.choice(['|-', g.choice(toks)])] = ''
    order = [b.label for b in db.order]
    pink = {l: i + 1 for i, l in enumerate(order)}
    mb = ext = None
    ren = {}
    if g.bool(0.25) and len(order) > 2:
        mb = g.choice(order[2:])
        if db.asserts[mb].kind != 'a' or any(mb in ' '.join(it[3]).split() for it in items if it[0] == 'p'):
            mb = None
        else:
            ren[mb] = 'mathbox'
    if g.bool(0.25) and len(order) > 1:
        hi = pink[mb] - 1 if mb else len(order)
        if hi >= 2:
            ext = order[g.int(1, hi - 1)]
            if g.bool(0.2):
                seq = [it[1] for it in items if it[0] in 'feap']
                ext = g.choice(seq[1:seq.index(ext) + 1])
    R = lambda l: ren.get(l, l)
    order = [R(l) for l in order]
    pink = {l: i + 1 for i, l in enumerate(order)}
    inv = {R(l): x for l, x in db.asserts.items()}
    desc = {}
    out = []
    for it in items:
        if it[0] in 'ap':
            l = R(it[1])
            if g.bool(0.8):
                ws = [g.choice(WORDS) for _ in range(g.choice([1, 2, 4, 5, 6, 25]))]
                if g.bool(0.1):
                    ws.append('x' * max(1, 29 + g.int(-2, 2) - len(' '.join(ws)) - 1))

                t = ''.join(w + g.weighted([(' ', 12), ('\n  ', 2), ('\n', 1)]) for w in ws).strip()
                desc[l] = t
                out.append(('com', t))
            it = (it[0], l) + it[2:]
        out.append(it)
    title = g.choice(['Test Explorer', "A's B C", 'x'])
    T = []
    for t in toks:
        T.append(f'htmldef {lit1(g, t)} as {lit(g, html[t])};')
        T.append(f'althtmldef {lit1(g, t)} as {lit(g, alt[t])};')
    T.append(f'htmltitle {lit(g, title)};')
    font = g.choice(['', 'CLASS=math', 'STYLE="font-family: \'X Y\', serif"'])
    if font:
        T.append(f'htmlfont {lit(g, font)};')
    etitle = g.choice(['Hilbert "H" Space', 'X+', 'ext'])
    if ext:
        T += [f'exthtmltitle {lit(g, etitle)};', f'exthtmllabel {lit1(g, ext)};', 'exthtmlhome ' + lit(g, '<A HREF="e.html"><IMG SRC="m.gif">E</A>') + ';']
    out.append(('com', '$t ' + '\n'.join(g.shuffle(T)) + '\n'))
    text = mmgen.emit(out)
    if text.count('$t') != 1:
        raise Discard('typesetting keyword twice')
    ctx.write('t.mm', text)
    # commands; the last one that writes a file counts
    cmds, files, exist, made = [], {}, {}, []
    for _ in range(g.weighted([(1, 3), (2, 2), (3, 2), (4, 1)])):
        k = g.weighted([('all', 4), ('brief', 3), ('mnem', 3), ('one', 1)])
        a = g.bool()
        nv = k != 'mnem' and g.bool(0.4)
        fs = []
        if k == 'mnem':
            pat = g.choice(['*', '*', g.choice(order), g.choice(order)[0] + '*', '?*'])
            c = f'show statement {pat} / mnemonics'
            a = True
        elif k == 'brief':
            c = f'show statement * / {g.choice(["brief_alt_html", "brief_al"]) if a else "brief_html"}'
            fs = [(n + '.html', k) for n in NAMES]
            pat = ''
        else:
            pat = g.choice(['*!', '*!', '*' + g.choice(order)[-1], '*']) if k == 'all' else g.choice(order)
            if k == 'all':
                fs = [(n + '.html', k) for n in NAMES]
            c = f'show statement {pat} / {"alt_html" if a else "html"}'
        rx = re.compile(re.escape(pat).replace('\\*', '.*').replace('\\?', '.') + '$')
        hit = [l for l in order if rx.match(l)]
        if k == 'mnem':
            fs = [('mnemosyne.txt', hit)]
        elif pat:
            fs += [(l + '.html', 'page') for l in hit]
        if nv:
            c += ' / no_versioning'
        cmds.append(c)
        made.append([f for f, _ in fs])
        for f, what in fs:
            if f in exist and not nv:
                exist[f] += 1
            else:
                exist.setdefault(f, 0)
            files[f] = (what, a, c)
    if g.bool(0.2):
        # the same commands leave the same files when they come after others
        cmds.insert(0, g.choice(['write theorem_list / theorems_per_page 3', 'show statement * / tex' if False else 'verify proof *', 'show labels *']))
        made.insert(0, None)
    w = g.choice([79, 79, 60, 130])
    ctx.show('\n'.join(cmds) + '\n-----\n' + text)
    ctx.key(text, cmds)
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm'] + cmds, ctx.dir, width=w)
    if '?Error' in outs[0]:
        raise Violation('model', f'legal database rejected: {outs[0][:2000]}')
    for c, m, o in zip(cmds, made, outs[1:]):
        if '?BUG' in o or m is not None and re.search(r'\?(?!Warning)[A-Z]', re.sub(r'\?Error: The current value of \S+ "SPAN|\?Warning.*', '', o)):
            if not (incomplete and 'disjoint variable' in o):
                raise Violation('message', f'{c}: {o}')
        if m is not None:
            got = re.findall(r'Creating (?:HTML|Mnemosyne) file "([^"]*)"', o)
            if got != m:
                raise Violation('message', f'{c}: created {got}, expected {m}')
    have = set(os.listdir(ctx.dir)) - {'t.mm', 'home'} - {f for f in os.listdir(ctx.dir) if re.match(r'mmtheorems\d*\.html', f)}
    want = set(files) | {f'{f}~{k}' for f, n in exist.items() for k in range(1, n + 1)}
    if {f for f in have if not f.startswith('.')} != want:
        raise Violation('files', f'files {sorted(have)}, expected {sorted(want)}')
    for f, (what, a, c) in files.items():
        if what == 'page':
            continue
        p = page(os.path.join(ctx.dir, f))
        D = {k: sq(v) for k, v in (alt if a else html).items()}
        span = (sq('<SPAN ' + font + '>'), '</SPAN>') if a else ('', '')
        form = lambda ts: span[0] + ''.join(D[t] for t in ts) + span[1]
        amp = sq(f'<SPAN {font}>&nbsp;&nbsp;&nbsp; &amp;&nbsp;&nbsp;&nbsp;</SPAN>' if a else "&nbsp;&nbsp;&nbsp;<IMG SRC='amp.gif' WIDTH=12 HEIGHT=19 ALT='&amp;' ALIGN=TOP>&nbsp;&nbsp;&nbsp;")
        arr = sq('&nbsp;&nbsp;&nbsp; <FONT FACE=sans-serif>&#8658;</FONT>&nbsp;&nbsp;&nbsp;' if a else "&nbsp;&nbsp;&nbsp;<IMG SRC='bigto.gif' WIDTH=15 HEIGHT=19 ALT='=&gt;' ALIGN=TOP>&nbsp;&nbsp;&nbsp;")

        def full(b):
            hy = [h for h in b.mand if h.kind == 'e']
            if any(not form(h.toks) for h in hy):
                return None     # a hypothesis that shows nothing: separators are not judged
            return amp.join(form(h.toks) for h in hy) + (arr if hy else '') + form(b.toks)

        def bad(kind, why):
            raise Violation(kind, f'{c}: {f}: {why}\n{p[:9000]}')
        if f == 'mnemosyne.txt':
            want = []
            for l in what:
                b = inv[l]
                hy = ''.join(f'<TRALIGN=LEFT><TD><FONTSIZE="+2">{h.label}</FONT></TD><TD><FONTSIZE="+2">{form(h.toks)}</FONT></TD>' for h in b.mand if h.kind == 'e')
                want.append((l, hy, form(b.toks)))
            got = re.findall(r'<CENTER><B><FONTSIZE="\+1"><FONTCOLOR="#006633"SIZE="\+3">([^<]*)</FONT></FONT></B></CENTER><TABLE>(.*?)</TABLE><BR><FONTSIZE="\+2">Whatistheconclusion\?</FONT><FONTSIZE="\+3">(.*?)</FONT>(?=<CENTER>|$)', sq(p).replace('</TR>', ''))
            # (a definition that ends with </FONT> or holds <CENTER> does not occur)
            if got != want:
                bad('cards', f'cards {got}, expected {want}')
            ctx.count('cards', len(want))
            continue
        q = sq(p)
        name = f[:-5]
        if q.count(f'<TITLE>{name}-{sq(title)}</TITLE>') != 1 or not q.endswith('</BODY></HTML>') or q.count('<HTMLLANG') != 1 or q.count('</TABLE></CENTER>') != 1:
            bad('page', 'title, or end of the page')
        i = p.find('<TABLE BORDER CELLSPACING=0')
        j = p.find('</TABLE></CENTER>', i)
        rows = re.split(r'(?=<TR)', p[i:j])[1:]
        rows = [norm(r) for r in rows]
        # the heading
        if name == 'mmascii':
            head = 'SymbolASCII'
        elif name == 'mmtheoremsall':
            head = 'RefDescription'
        else:
            head = 'RefExpression(seelinkforanydistinctvariablerequirements)'
        if sq(re.sub(r'<[^>]*>', '', rows[0])) != head:
            bad('heading', f'{rows[0]}')
        rows = rows[1:]
        if name == 'mmascii':
            want = [f'<TRALIGN=LEFT><TD>{form([t])}&nbsp;</TD><TD><TT>{sq(esc(t))}</TT></TD></TR>' for t in toks if (alt if a else html)[t]]
            got = [sq(r) for r in rows]
            if got != want:
                for x, y in zip(got + [None] * len(want), want + [None]):
                    if x != y:
                        bad('symbols', f'row {x}, expected {y}')
            ctx.count('symbols', len(want))
            continue
        kind = 'p' if name == 'mmtheoremsall' else 'a'
        at = 0
        colours = {}
        sect = 0
        for l in [R(it[1]) for it in items if it[0] in 'feap']:
            for s, first in (1, R(ext) if ext else None), (2, 'mathbox' if mb else None):
                if l == first:
                    sect = s
                    r = rows[at] if at < len(rows) else ''
                    at += 1
                    x = '<B><FONT COLOR="#006633">' + (etitle if s == 1 else 'User Mathboxes') + '</FONT></B> starts here</TD></TR>'
                    y = re.match(r'<TR( BGCOLOR=[^>]*)><TD COLSPAN=2', r)
                    if not r.endswith(x) or not y:
                        bad('section', f'expected {x} above {l}, found {r}')
                    colours.setdefault(s, set()).add(y.group(1))
            b = inv.get(l)
            if b is None or b.kind != kind:
                continue
            r = rows[at] if at < len(rows) else ''
            at += 1
            if what == 'brief':
                x = f'<TR ALIGN=LEFT><TD ALIGN=LEFT><FONT COLOR=ORANGE>{pink[l]}</FONT> <FONT COLOR=GREEN><A HREF="mmtheorems{(pink[l] - 1) // 100 + 1}.html#{l}">{l}</A></FONT>'
                if not r.startswith(x):
                    bad('row', f'expected {x}, found {r}')
                x = (full(b) or '') + '</TD></TR>'
                if full(b) is not None and sq(r[r.find('</A></FONT>') + 11:]) != x:
                    bad('formula', f'of {l}: expected {x}, found {sq(r)}')
            else:
                y = re.match(r'<TR( BGCOLOR=[^>]*)? ALIGN=LEFT><TD><A HREF="([^"]*)">([^<]*)</A>' + PINK + r'</TD><TD>(.*)</TD></TR>$', r)
                if not y or y.group(2, 3, 4) != (l + '.html', l, str(pink[l])):
                    bad('row', f'expected {l} {pink[l]}, found {r}')
                colours.setdefault(sect, set()).add(y.group(1))
                if kind == 'a':
                    if full(b) is not None and sq(y.group(5)) != full(b):
                        bad('formula', f'of {l}: expected {full(b)}, found {sq(y.group(5))}')
                else:
                    ds = desc.get(l, '')
                    if len(ds) > 29:
                        ds = ds[:26] + '...'
                    gd = norm(y.group(5))
                    if re.search('[<>]', gd) or html_.unescape(gd) not in (norm(ds), norm(html_.unescape(ds))):
                        bad('description', f'of {l}: {gd!r}, expected {ds!r} as HTML')
        if at != len(rows):
            bad('rows', f'more rows than expected: {rows[at:at + 3]}')
        if what != 'brief' and (any(len(x) > 1 for x in colours.values()) or len(set(map(tuple, colours.values()))) != len(colours)):
            bad('colors', f'row colors by part of the database: {colours}')
        ctx.count('rows', at)
    ctx.nontrivial(len(order) > 3 and len(files) > 1)


CHECK = Check('C33', prop, quick=2000, thorough=60000,
              rule='random databases with descriptions, typesetting definitions, an extended part and mathboxes; every overview page and card file is decoded; '
                   'non-trivial = more than three assertions and more than one file; distinct by database and commands')

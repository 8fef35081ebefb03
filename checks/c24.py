"""C24  SHOW STATEMENT / HTML and / ALT_HTML: the web page of an axiom or a theorem shows what the database says."""
import os, re
from lib import mm, mmgen, mmref, notation
from lib.core import Check, Violation, Discard
from checks.c22 import hole, steps_of, expect, blank, place

SQ = re.compile(r'\s+')
WORDS = ['the', 'a', 'proof', 'of', 'x', 'is', 'well', 'known.', 'Theorem', '19', '(see', 'page', '12)', 'e.g.', "it's", 'A', 'end.', '0 = 1', 'lemma', '-', 'with-hyphen,', '/']


def sq(s):
    return SQ.sub('', s)


def lit(g, s):
    """a quoted string, or several joined by +"""
    def one(t):
        if '"' not in t and "'" not in t:
            q = g.choice('"\'')
            return q + t + q
        if '"' in t and "'" in t or g.bool(0.3):
            q = g.choice('"\'')
            return q + t.replace(q, q + q) + q
        q = "'" if '"' in t else '"'
        return q + t + q
    parts = [s]
    while g.bool(0.3) and len(parts) < 5:
        i = g.int(0, len(parts) - 1)
        k = g.int(0, len(parts[i]))
        parts[i:i + 1] = [parts[i][:k], parts[i][k:]]
    plus = g.choice([' + ', '+', ' +\n  ', '\n + ', ' + /* x "y */ '])
    return plus.join(one(p) for p in parts)


def sp(g):
    return g.weighted([(' ', 12), ('\n', 2), ('  ', 1), (' /* a "comment\' ; */ ', 1), ('\n\n', 1), (' /**/ ', 1)])


def defs(g, toks, alt):
    d = {}
    for i, t in enumerate(toks):
        x = f'{"u" if alt else "g"}{i}'
        d[t] = g.choice([x + ';', f'<I>{x}</I>', f'<SPAN CLASS={x} STYLE="color:red">{x}</SPAN>', f'&#{x};', f" <IMG ALT='{x}'> ", f'"{x}"', f"{x}'", f'{x}*\\', f'<FONT FACE="{x} \'s">+</FONT>', f'{x}"" '])
        if i and g.bool(0.05):
            d[t] = d[toks[i - 1]] + '.'
    return d


def page(path):
    try:
        with open(path, errors='surrogateescape') as f:
            return f.read()
    except FileNotFoundError:
        return None


PINK = r'(?:&nbsp;<SPANCLASS=rSTYLE="color:#[0-9A-F]{6}">(\d+)</SPAN>)'


def database(g):
    """a random database with proofs in several notations"""
    o = mmgen.Opts(compressed=0, nctor=(1, 4), nax=(2, 5), nthm=(1, 5), depth=g.choice([2, 3, 4]), types=(1, 4), dvprob=g.choice([0.2, 0.6]), syntax_thm=0.1, extra_dv=g.choice([0.1, 0.5]))
    d = mmgen.Gendb(g, o)
    ren = {}
    for it in d.items:
        if it[0] == 'a' and it[2][0] == '|-' and g.bool(0.8):
            ren[it[1]] = g.choice(['ax-', 'df-', 'df-', 'ax', 'axm-']) + 'q' + str(len(ren))
    R = lambda l: ren.get(l, l)
    items = []
    trees = {}
    for it in d.items:
        if it[0] in 'fea':
            items.append((it[0], R(it[1])) + it[2:])
        elif it[0] == 'p':
            items.append(('p', R(it[1]), it[2], ['?']))
        else:
            items.append(it)

    def rt(t):
        return (R(t[0]), tuple(rt(c) for c in t[1]))
    db = mmref.parse(mmgen.emit(items))
    db.hyps = {l: x for l, x in db.labels.items() if isinstance(x, mmref.Hyp)}
    db.asserts = {l: x for l, x in db.labels.items() if not isinstance(x, mmref.Hyp)}
    proofs = {}
    incomplete = set()
    for i, it in enumerate(items):
        if it[0] != 'p':
            continue
        tree = d.proofs.get(it[1])
        if not tree:
            raise Discard('no tree')
        tree = rt(tree)
        if g.bool(0.12):
            tree = hole(g, tree, 0.15)
        dag = notation.Dag()
        root = dag.tree(tree)
        if dag.size[root] > 150:
            raise Discard('large')
        form = g.choice(['normal', 'compressed', 'compressed'])
        mand = [h.label for h in db.asserts[it[1]].mand]
        st = notation.walk(dag, root, (lambda j: False) if form == 'normal' else (lambda j: bool(dag.nodes[j][1])), lambda j: True)
        used = {x[1] for x in st if x[0] == 'ref'}
        rn = {}
        for x in st:
            if x[0] == 'lab' and x[2] in used:
                rn[x[2]] = len(rn)
        st = [('ref', rn[x[1]], x[2]) if x[0] == 'ref' else ('lab', x[1], rn.get(x[2]), x[3]) for x in st]
        if form == 'compressed':
            labs, letters = notation.enc_compressed(st, mand)
            toks = ['('] + labs + [')'] + d.chop(letters)
        else:
            toks = notation.enc_text(st, False, {k: [h.label for h in b.mand] for k, b in db.asserts.items()}, it[1])
        items[i] = ('p', it[1], it[2], toks)
        proofs[it[1]] = steps_of(dag, root, st, db, it[1])
        if any(s.lab == '?' and s.ess for s in proofs[it[1]]):
            incomplete.add(it[1])
    return d, items, db, proofs, incomplete


def prop(g, ctx):
    d, items, db, proofs, incomplete = database(g)
    holes = any(s.lab == '?' for ss in proofs.values() for s in ss)
    # descriptions, and the typesetting comment
    toks = list(dict.fromkeys(t for it in items if it[0] in 'cv' for t in it[1]))
    html, alt = defs(g, toks, False), defs(g, toks, True)
    desc = {}
    out = []
    for it in items:
        if it[0] in 'ap' and g.bool(0.7):
            t = ''.join(g.choice(WORDS) + g.weighted([(' ', 12), ('\n  ', 2), ('\n', 1)]) for _ in range(g.weighted([(3, 3), (8, 3), (25, 2)]))).strip()
            desc[it[1]] = t
            out.append(('com', t))
        out.append(it)
    font = g.choice(['', '', 'CLASS=math', 'STYLE="font-family: \'X Y\', serif"'])
    title = g.choice(['Test Explorer', 'The "Q" Pages', "A's B & C", 'x'])
    colors = [f'<FONT COLOR="#00{i}">c{i}</FONT>' for i in range(g.int(0, 2))]
    home = g.choice([None, 'hom.html', '../mpeuni/mmset.html'])
    T = []
    for t in toks:
        T.append(f'htmldef{sp(g)}{lit1(g, t)}{sp(g)}as{sp(g)}{lit(g, html[t])}{sp(g)};')
        T.append(f'althtmldef{sp(g)}{lit1(g, t)}{sp(g)}as{sp(g)}{lit(g, alt[t])};')
        if g.bool(0.3):
            T.append(f'latexdef {lit1(g, t)} as {lit(g, "x" + chr(92) + "y")};')
    T.append(f'htmltitle {lit(g, title)};')
    if home:
        T.append('htmlhome ' + lit(g, f'<A HREF="{home}"><IMG SRC="m.gif">Home</A>') + ';')
    if font:
        T.append(f'htmlfont {lit(g, font)};')
    ext = None
    if g.bool(0.2):
        ext = (g.choice([b.label for b in db.order] + [x for x in db.hyps][:3]), g.choice(['Hilbert "H" Space', 'X+']))
        T += [f'exthtmltitle {lit(g, ext[1])};', f'exthtmllabel {lit1(g, ext[0])};', 'exthtmlhome ' + lit(g, '<A HREF="e.html"><IMG SRC="m.gif">E</A>') + ';']
    dirs = None
    if g.bool(0.2):
        dirs = (g.choice(['../gif/', 'g/']), g.choice(['../uni/', '']))
        T += [f'htmldir {lit(g, dirs[0])};', f'althtmldir {lit(g, dirs[1])};']
    url = css = None
    if g.bool(0.2):
        url = g.choice(['<A HREF="http://x.org/*.html">Structured</A>', "<A HREF='*'>*</A>&nbsp;", 'none'])
        T.append(f'htmlexturl {lit(g, url)};')
    if g.bool(0.2):
        css = '<STYLE>.math { font-family: "Q" }\\n .x { color: red }</STYLE>\\n<LINK HREF="a.css">'
        T.append(f'htmlcss {lit(g, css)};')
    T = g.shuffle(T) + [f'htmlvarcolor {lit(g, c)};' for c in colors]
    tcom = ('com', '$t' + sp(g) + '\n'.join(T) + '\n')
    spots = [i for i, it in enumerate(out) if it[0] in 'cv{'] + [len(out)]
    out.insert(g.choice(spots), tcom)
    text = mmgen.emit(out, g, g.choice(['plain', 'ws']))
    if text.count('$t') != 1:
        raise Discard('typesetting keyword twice')
    ctx.write('t.mm', text)
    order = [b.label for b in db.order]
    jobs = []
    for l in g.sample(order, min(len(order), g.int(2, 5))):
        jobs.append((l, g.bool()))
    if g.bool(0.1):
        jobs.append(('?*', g.bool()))
    cmds = [f'show statement {l} / {"alt_html" if a else "html"}' for l, a in jobs]
    if g.bool(0.3):
        ctx.write(jobs[0][0] + '.html' if jobs[0][0] != '?*' else 'x.html', 'old page\n')
    ctx.show('\n'.join(cmds) + '\n-----\n' + text)
    ctx.key(text, cmds)
    w = g.choice([79, 79, 60, 120, 300])
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm'] + cmds, ctx.dir, width=w)
    if '?Error' in outs[0]:
        raise Violation('model', f'legal database rejected: {outs[0][:2000]}')
    latest = {}
    for (l, a), c, o in zip(jobs, cmds, outs[1:]):
        # (the substitutions guessed for unknown steps may violate $d conditions)
        if not (holes and 'disjoint variable ($d) violation' in ' '.join(o.split())) and ('?Error' in o or '?BUG' in o or re.search(r'\?Warning: (?!Statement "[^"]*"\s+has\s+no\s+comment|Unable\s+to\s+generate\s+syntax|A possible infinite loop|The\s+file\s+"m.gif")', o)):
            raise Violation('message', f'{c}: {o}')
        for l2 in order if l == '?*' else [l]:
            latest[l2] = (a, c, o)
    M = Model(db, proofs, incomplete, desc, order)
    for l, (a, c, o) in latest.items():
        p = page(os.path.join(ctx.dir, l + '.html'))
        if p is None:
            raise Violation('no page', f'{c}: no file {l}.html; {o}')
        M.d = {k: sq(v) for k, v in (alt if a else html).items()}
        M.span = ('<SPAN' + sq(font) + '>', '</SPAN>') if a else ('', '')
        if ext:
            seq = [it[1] for it in items if it[0] in 'feap']
        M.judge(ctx, l, sq(p), p, o, ext[1] if ext and seq.index(l) >= seq.index(ext[0]) else title, colors, home)
        q = sq(p)
        x = sq(f'<A HREF="{dirs[0 if a else 1]}{l}.html">{"GIF" if a else "Unicode"} version</A>') if dirs else None
        if dirs and q.count(x) != 1 or not dirs and 'version</A>' in q:
            raise Violation('other version', f'page of {l}: link to the other version {x}:\n{p[:4000]}')
        if url and sq(url.replace('*', l)) not in q:
            raise Violation('url', f'page of {l}: {url} is missing:\n{p[:4000]}')
        if css and sq(css.replace('\\n', '\n')) not in q:
            raise Violation('css', f'page of {l}: {css} is missing:\n{p[:4000]}')
    extra = set(ctx.ls()) - {'t.mm'} - {l + '.html' for l in latest} - {l + '.html~1' for l in latest} if hasattr(ctx, 'ls') else set()
    if extra:
        raise Violation('files', f'unexpected files {sorted(extra)}')
    ctx.nontrivial(any(l in proofs and len(proofs[l]) > 3 for l in latest))
    ctx.count('pages', len(latest))


def lit1(g, s):
    if '"' in s:
        return "'" + s + "'"
    if "'" in s:
        return '"' + s + '"'
    q = g.choice('"\'')
    return q + s + q


class Model:
    def __init__(self, db, proofs, incomplete, desc, order):
        self.db, self.proofs, self.incomplete, self.desc, self.order = db, proofs, incomplete, desc, order
        self.pink = {l: i + 1 for i, l in enumerate(order)}
        self.deps = {t: {s.lab for s in ss if s.ess and s.lab in db.asserts} for t, ss in proofs.items()}
        self.uses = {t: {s.lab for s in ss if s.lab in db.asserts} for t, ss in proofs.items()}

    def closure(self, th):
        seen = set()
        todo = [th]
        while todo:
            for x in self.deps.get(todo.pop(), ()):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen

    def f(self, toks):
        return self.span[0] + ''.join(self.d[t] for t in toks) + self.span[1]

    def link(self, l):
        return f'<AHREF="{l}.html">{l}</A>'

    def judge(self, ctx, l, p, raw, out, title, colors, home):
        db = self.db
        b = db.asserts[l]

        def bad(kind, what):
            i = raw.find('<CENTER><B>')
            raise Violation(kind, f'page of {l}: {what}\n{raw[i:i + 9000]}')

        def need(x, what, n=1):
            if p.count(x) != n:
                bad('page', f'{what}: expected {n} times {x}')
        sub = 'Theorem' if b.kind == 'p' else 'Syntax Definition' if b.toks[0] != '|-' else 'Axiom' if l.startswith('ax-') else 'Definition'
        need(sq(f'<TITLE>{l} - {title}</TITLE>'), 'title')
        m = re.search(r'<B><FONTSIZE="\+1">(\w+)<FONTCOLOR="#006633">([^<]*)</FONT></FONT></B>' + PINK + '</CENTER>', p)
        if not m or m.groups() != (sq(sub), l, str(self.pink[l])):
            bad('heading', f'heading {m and m.groups()}, expected {sub} {l} {self.pink[l]}')
        # neighbours
        n = len(self.order)
        i = self.pink[l] - 1
        prev = self.order[i - 1]
        nxt = self.order[(i + 1) % n]
        need(sq(f'<A HREF="{prev}.html">&lt; {"Previous" if i else "Wrap"}</A>'), 'previous page')
        need(sq(f'<A HREF="{nxt}.html">{"Next" if i + 1 < n else "Wrap"} &gt;</A>'), 'next page')
        need(f'mmtheorems{i // 100 + 1}.html#{l}">Nearbytheorems', 'nearby theorems')
        # description
        if l in self.desc:
            need('<B>Description:</B>' + sq(self.desc[l]) + '</TD>', 'description')
        else:
            need('<B>Description:</B>', 'description', 0)
            if not re.search(r'\?Warning: Statement "' + re.escape(l) + r'"\s+has\s+no\s+comment', out):
                raise Violation('no warning', f'{l} has no comment: {out}')
        # hypotheses and assertion
        hyps = [h for h in b.mand if h.kind == 'e' or sub == 'Syntax Definition']
        m = re.findall(r'SUMMARY="(Hypothes[ie]s)"><CAPTION><B>(Hypothes[ie]s)</B></CAPTION><TR><TH>Ref</TH><TH>Expression</TH></TR>(.*?)</TABLE>', p)
        if hyps:
            w = 'Hypothesis' if len(hyps) == 1 else 'Hypotheses'
            want = [(w, w, ''.join(f'<TRALIGN=LEFT><TD>{h.label}</TD><TD>{self.f(h.toks)}</TD></TR>' for h in hyps))]
        else:
            want = []
        if m != want:
            bad('hypotheses', f'hypotheses {m}, expected {want}')
        m = re.findall(r'SUMMARY="Assertion">.*?</TR>(.*?)</TABLE>', p)
        want = [f'<TRALIGN=LEFT><TD><FONTCOLOR="#006633"><B>{l}</B></FONT></TD><TD>{self.f(b.toks)}</TD></TR>']
        if m != want:
            bad('assertion', f'assertion {m}, expected {want}')
        # distinct variables
        mset = 'mmset.html' if home is None or 'mmset.html' in home else '../mpeuni/mmset.html'
        sp0 = self.span
        m = re.findall(r'#distinct">Distinctvariable</A>group(s?):(.*?)</CENTER>', p)
        dv = {frozenset(x) for x in b.dvs}
        if not dv:
            if m:
                bad('distinct', 'there are no distinct variables')
        else:
            if len(m) != 1 or not m[0][1].startswith(sp0[0]) or not m[0][1].endswith(sp0[1]):
                bad('distinct', f'distinct variables not shown: {m}')
            body = m[0][1][len(sp0[0]):len(m[0][1]) - len(sp0[1])]
            back = {v: k for k, v in self.d.items()}
            got = set()
            groups = [x for x in body.split('&nbsp;') if x]
            for gr in groups:
                vs = [back.get(x) for x in gr.split(',')]
                if None in vs or len(set(vs)) != len(vs) or len(vs) < 2:
                    bad('distinct', f'bad group {gr}')
                got |= {frozenset((x, y)) for x in vs for y in vs if x != y}
            if got != dv:
                bad('distinct', f'distinct variables {sorted(map(sorted, got))}, in force are {sorted(map(sorted, dv))}')
            if (len(groups) > 1) != bool(m[0][0]):
                bad('distinct', 'plural')
            need(f'<AHREF="{mset}#distinct">', 'link')
            ctx.count('dvgroups', len(groups))
        # allowed substitutions
        want = ''
        cnt = 0
        if dv and b.toks[0] == '|-':
            sv = [h.toks[1] for h in b.mand if h.kind == 'f' and h.toks[0] == 'setvar']
            for h in b.mand:
                if h.kind == 'f' and h.toks[0] in ('wff', 'class'):
                    free = [v for v in sv if frozenset((v, h.toks[1])) not in dv]
                    if free:
                        want += '&nbsp;' + self.d[h.toks[1]] + '(' + ','.join(self.d[v] for v in free) + ')'
                        cnt += len(free)
        if want:
            need(f'<AHREF="{mset}#allowedsubst">Allowedsubstitution</A>hint{"s" if cnt > 1 else ""}:{sp0[0]}{want}{sp0[1]}</CENTER>', 'allowed substitutions')
            ctx.count('substitution hints')
        else:
            need('#allowedsubst', 'allowed substitutions', 0)
        # the table of the proof, or of the syntax breakdown
        tabs = re.findall(r'SUMMARY="(Proofoftheorem|Detailedsyntaxbreakdownof\w+)">(.*?)</TABLE>', p)
        if b.kind == 'p':
            if len(tabs) != 1 or tabs[0][0] != 'Proofoftheorem':
                bad('proof', f'{len(tabs)} proof tables')
            rows = self.rows(tabs[0][1], bad)
            exp = expect(self.proofs[l], db, {'lemmon': 1, 'renumber': 1, 'no_repeated_steps': 1})
            ss = self.proofs[l]
            if len(rows) != len(exp):
                bad('proof', f'{len(rows)} steps, expected {len(exp)}: {exp}')
            shown = []
            first = {}
            for s in ss:
                if not s.ess or s.ref or s.lab == '?' or (not s.kids and s.lab in first):
                    continue
                if not s.kids:
                    first[s.lab] = 1
                shown.append(s)
            # (a hypothesis or axiom first used in a syntax part is shown with that part, so only equal lists are matched)
            for k, (r, e) in enumerate(zip(rows, exp)):
                hyp = e[2][0] if len(e[2]) == 2 else ''
                if (r['n'], ','.join(r['hyp']), r['ref']) != (e[0], hyp, e[2][-1]):
                    bad('proof', f'step {e}, shown {r}')
                if e[4] is not None and r['f'] != self.f(e[4]):
                    bad('proof', f'step {e[0]} proves {e[4]}, shown {r["f"]}')
                lab = e[2][-1]
                if (r['link'], r['pink']) != ((lab, self.pink[lab]) if lab in db.asserts else (None, None)):
                    bad('proof', f'step {e[0]}: link and number {r["link"]} {r["pink"]}')
                if lab in db.asserts and r['title'] is not None:
                    t = r['title']
                    dd = sq(self.desc.get(lab, '')).replace('"', "'")
                    if not (t == dd or t.endswith('...') and dd.startswith(t[:-3])):
                        bad('proof', f'step {e[0]}: description {t!r} of {lab}: {dd!r}')
            if len(shown) == len(rows):
                for r, s in zip(rows, shown):
                    if r['depth'] != s.depth + 1:
                        bad('proof', f'step {r["n"]} has depth {r["depth"]}, expected {s.depth + 1}')
            ctx.count('proof rows', len(rows))
        elif sub == 'Syntax Definition':
            if tabs:
                bad('proof', 'a table for a syntax definition')
        else:
            if 'wff' in db_consts(db):
                if not tabs:
                    if 'Unable to generate' not in ' '.join(out.split()):
                        bad('breakdown', 'neither a breakdown nor a warning')
                    ctx.count('no breakdown')
                else:
                    if len(tabs) != 1 or tabs[0][0] != 'Detailedsyntaxbreakdownof' + sub.lower():
                        bad('breakdown', f'tables {[t[0] for t in tabs]}')
                    rows = self.rows(tabs[0][1], bad)
                    fs = {}
                    for k, r in enumerate(rows):
                        if r['n'] != k + 1:
                            bad('breakdown', f'row {k + 1} has number {r["n"]}')
                        if r['ref'] in db.hyps:
                            t = db.hyps[r['ref']].toks
                            if r['hyp'] or r['ref'] not in [h.label for h in list(b.mand) + list(b.optf)]:
                                bad('breakdown', f'row {r}')
                        else:
                            a = db.asserts.get(r['ref'])
                            if a is None or a.index >= b.index or len(a.mand) != len(r['hyp']) or any(h.kind == 'e' for h in a.mand):
                                bad('breakdown', f'row {r}')
                            try:
                                ks = [fs[int(x)] for x in r['hyp']]
                            except (KeyError, ValueError):
                                bad('breakdown', f'row {r} refers to a later step')
                            if any(x[0] != h.toks[0] for x, h in zip(ks, a.mand)):
                                bad('breakdown', f'row {r}: types do not match')
                            t = mmref.subst({h.toks[1]: x[1:] for h, x in zip(a.mand, ks)}, a.toks)
                        fs[k + 1] = list(t)
                        if r['f'] != self.f(t):
                            bad('breakdown', f'row {r}: follows {t}')
                    if not rows or fs[len(rows)] != ['wff'] + list(b.toks[1:]):
                        bad('breakdown', f'the breakdown ends with {fs.get(len(rows))}')
                    ctx.count('breakdowns')
        # where a syntax is defined
        if sub == 'Syntax Definition':
            cs = [t for t in b.toks[1:] if t in db_consts(db)]
            first = next((x for x in db.order[i + 1:] if x.kind == 'a' and x.toks[0] == '|-' and all(c in x.toks for c in cs)), None)
            if first is None:
                want = None
            else:
                want = ('Thissyntaxisprimitive.Thefirstaxiomusingitis' if first.label.startswith('ax-') else 'Seedefinition', first.label, str(self.pink[first.label]))
            m = re.search(r'(Thissyntaxisprimitive\.Thefirstaxiomusingitis|Seedefinition)<AHREF="([^"]*)\.html">([^<]*)</A>' + PINK, p)
            if (m and (m.group(1), m.group(2), m.group(4))) != want or (m and m.group(2) != m.group(3)):
                bad('syntax', f'expected {want}, found {m and m.group()}')
        # the lists
        def lst(head):
            m = re.findall(r'<TR><TDALIGN=LEFT><FONTSIZE=-1><B>' + sq(head) + r'</B>(.*?)</FONT></TD></TR>', p)
            if not m:
                return None
            if len(m) > 1:
                bad('lists', f'{head} twice')
            if m[0] == '(None)':
                return []
            r = re.findall(r'<AHREF="([^"]*)\.html">([^<]*)</A>' + PINK, m[0])
            for x, y, z in r:
                if x != y or str(self.pink.get(x)) != z:
                    bad('lists', f'{head}: {x} {y} {z}')
            rest = re.sub(r'<AHREF="([^"]*)\.html">([^<]*)</A>' + PINK, '', m[0])
            if head != 'Syntax hints:' and rest.replace('&nbsp;', ''):
                bad('lists', f'{head}: {rest}')
            return [x for x, y, z in r]
        want = [x for x in self.order if l in self.uses.get(x, ())]
        if sub == 'Syntax Definition':
            need('isreferencedby:', 'reference list', 0)
        else:
            got = lst(f'This {sub.lower()} is referenced by:')
            if got != want:
                bad('lists', f'referenced by {got}, expected {want}')
        if b.kind == 'p':
            cl = self.closure(l)
            for head, pre in (('This theorem was proved from axioms:', 'ax-'), ('This theorem depends on definitions:', 'df-')):
                want = [x for x in self.order if x in cl and x.startswith(pre) and db.asserts[x].kind == 'a'] or None
                got = lst(head)
                if got != want:
                    bad('lists', f'{head} {got}, expected {want}')
            un = [x for x in self.order if (x in cl or x == l) and x in self.incomplete]
            m = re.findall(r'WARNING:Thisproofdependsonthefollowingunprovedtheorem\(s\):(.*?)</B>', p)
            m2 = p.count(sq('WARNING: This theorem has an incomplete proof.'))
            got = sorted(re.findall(r'<AHREF="([^"]*)\.html">', m[0])) if m else [l] if m2 else []
            if got != sorted(un):
                bad('lists', f'unproved {got}, expected {un}')
            s1 = {x for x in self.uses[l] if db.asserts[x].kind == 'a' and db.asserts[x].toks[0] != '|-'}
            got = lst('Syntax hints:') or []
            if got != [x for x in self.order if x in got] or not s1 <= set(got):
                bad('lists', f'syntax hints {got}, the proof uses {sorted(s1)}')
            have = {t for t in b.toks} | {t for h in b.mand for t in h.toks}
            for x in set(got) - s1:
                a = db.asserts[x]
                if a.kind != 'a' or a.toks[0] == '|-' or any(t in db_consts(db) and t not in have for t in a.toks[1:]):
                    bad('lists', f'syntax hint {x} is used neither by the theorem nor by its proof')
        # dummy variables
        m = re.findall(r'#dvnote1">Dummyvariable(s?)</A>(.*?)(aremutuallydistinctand|is)distinctfromallothervariables', p)
        want = set()
        if b.kind == 'p' and b.toks[0] == '|-':
            inproof = {s.lab for s in self.proofs[l]}
            ov = {h.toks[1] for h in b.optf if h.label in inproof}
            mv = {h.toks[1] for h in b.mand if h.kind == 'f'}
            # every pair of a $d in force that isn't mandatory
            for x, y in b.alldvs:
                if frozenset((x, y)) not in dv:
                    want |= {x, y} & ov
        if not want:
            if m:
                bad('dummies', f'no dummy variables expected, shown {m}')
        else:
            x = m[0][1] if len(m) == 1 else None
            if x is None or not x.startswith(sp0[0]) or not x.endswith(sp0[1]):
                bad('dummies', f'dummy variables {want}, shown {m}')
            x = x[len(sp0[0]):len(x) - len(sp0[1])]
            if sorted(x) != sorted(''.join(self.d[v] for v in want)) or bool(m[0][0]) != (len(want) > 1):
                bad('dummies', f'dummy variables {want}, shown {m}')
            ctx.count('dummies')
        if b.kind == 'p' or tabs or sub == 'Syntax Definition' and 'formoreinformation' in p:
            need('<B>Colorsofvariables:</B>' + ''.join(sq(c) for c in colors) + '</FONT>', 'colors')
        if not p.endswith('</BODY></HTML>') or p.count('<HTMLLANG') != 1:
            bad('page', 'the page is not closed')

    def rows(self, t, bad):
        out = []
        t = t[t.index('<TH>Expression</TH></TR>') + len('<TH>Expression</TH></TR>'):]
        for x in t.split('<TRALIGN=LEFT>')[1:]:
            m = re.match(r'<TD>(\d+)</TD><TD>(.*?)</TD><TD>(?:<AHREF="([^"]*)\.html"(?:TITLE="([^"]*)")?>([^<]*)</A>' + PINK + r'?|([^<]*))</TD><TD><ANAME="(\d+)"></A><SPANCLASS=i>((?:\.)*)(\d+)</SPAN>(.*)</TD></TR>$', x)
            if not m:
                bad('row', f'unreadable row {x}')
            h = m.group(2)
            hs = [] if h == '&nbsp;' else h.split(',')
            if any(re.fullmatch(r'<AHREF="#([\d?]+)">\1</A>', y) is None for y in hs) or m.group(8) != m.group(1) or len(m.group(9)) != int(m.group(10)) - 1 or m.group(3) != m.group(5):
                bad('row', f'row {x}')
            out.append({'n': int(m.group(1)), 'hyp': [re.sub(r'<.*?>', '', y) for y in hs], 'ref': m.group(5) or m.group(7), 'link': m.group(3),
                        'pink': int(m.group(6)) if m.group(6) else None, 'title': m.group(4), 'depth': int(m.group(10)), 'f': m.group(11)})
        return out


def db_consts(db):
    return db.consts


CHECK = Check('C24', prop, quick=8000, thorough=100000,
              rule='random databases with random typesetting definitions and descriptions; each page of 2-5 assertions is decoded; '
                   'non-trivial = the page of a theorem of more than three proof steps; distinct by database and commands')

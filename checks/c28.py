"""C28  VERIFY MARKUP reports exactly the departures from the conventions it checks."""
import re
from collections import Counter
from lib import mm, mmgen, mmref, pa
from lib.core import Check, Violation, Discard
from checks.c24 import lit1

RESERVED = ['con', 'PRN', 'Aux', 'nul', 'com1', 'COM9', 'lpt1', 'Lpt5', 'LPT9', 'com5', 'COM3']
NEARBY = ['conx', 'prn0', 'com0', 'com10', 'lpt', 'lpt0', 'xcon', 'c-on', 'null', 'clock', 'm', 'amm', 'aux.1', 'con,1'[:3] + '.html']
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'is', 'the', 'sum', 'of', 'what', 'we', 'see', 'here.', '(Obvious)', '"so"', 'x', '2', 'it.)', '(by', 'A.B.', '-', 'discouraged.)', '(New', '$x']
KEYS = ['Theorem', 'definition', 'LEMMA', 'Axiom', 'Exercise', 'part', 'Remark', 'Table', 'Scolion', 'Compare', 'Figure', 'Criteria', 'Subsection', 'notation']
NAMES = ['NM', 'A. B. Cee', 'Jo Q', "O'Neil", 'FL', '?who?', 'X Y Z', 'BJ.', 'by him']
MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
DECO = ['####', '#*#*', '=-=-', '-.-.']


def date(g):
    return f'{g.int(1, 31)}-{g.choice(MONTHS)}-{g.choice([g.int(1993, 2030), 1999, 2000, 2001])}'


def bad_date(g):
    d = date(g)
    a, b, c = d.split('-')
    return g.choice([f'0{a}-{b}-{c}', f'{a}-{b}-{c[2:]}', f'{a}-{b.upper()}-{c}', f'{a}-Foo-{c}', f'0-{b}-{c}', f'{g.int(32, 99)}-{b}-{c}', f'{a}-{b}', f'{a}{b}{c}', f'{a}-{b}-0{c}',
                     f'{a}-{b}ruary-{c}', f'{a}/{b}/{c}', f'{b}-{a}-{c}', c, f'{a}-{b}-'])


def valid(d):
    m = re.fullmatch(r'([1-9]\d?)-([A-Z][a-z][a-z])-(\d{4})', d)
    return bool(m) and int(m.group(1)) <= 31 and m.group(2) in MONTHS and m.group(3)[0] != '0'


def key(d):
    a, b, c = d.split('-')
    return int(c), MONTHS.index(b), int(a)


TAGS = ['(Contributed by ', '(Revised by ', '(Proof shortened by ']


def tag(g, which):
    n = g.choice(NAMES) if g.bool(0.96) else g.choice(['A, B', 'C, D, E', ''])
    d = date(g) if g.bool(0.94) else bad_date(g)
    sep = ', ' if g.bool(0.97) else g.choice([' ', ',  ', '; ', ' , '])
    end = '.)' if g.bool(0.96) else g.choice([')', '.', ' .)', '. )', ''])
    return TAGS[which] + n + sep + d + end


def description(g, ref, syntax):
    """(text, list of expected markup warnings given the label)"""
    ws = []
    exp = []
    bib = None
    if g.bool(0.12):
        bib = g.choice(['full', 'full', 'nokey', 'nopage'])
        ws += g.sample(WORDS[:8], g.int(0, 2))
        if bib != 'nokey':
            ws += [g.choice(KEYS), g.choice(['1', '2.3', 'A.', '']), g.choice(['of', 'in', 'from', ''])]
        ws += [g.choice(['[Foo]', '[Bar99]', '[Q3]'])]
        if bib != 'nopage':
            ws += ['p.', g.choice(['1', '12', '345', '9999', '12,', '7.'])]
    for _ in range(g.small(0, 6)):
        r = g.draw(14)
        if r == 0:
            l, ok = ref()
            ws.append('~ ' + l)
            if not ok:
                exp.append(('label', l))
        else:
            ws.append(g.choice(WORDS))
    for ph, p in [('(Proof modification is discouraged.)', 0.15), ('(New usage is discouraged.)', 0.15), ('(New usage is encouraged.)', 0.03), ('(new usage is discouraged.)', 0.02)]:
        if g.bool(p):
            ws.insert(g.int(len(ws) if bib else 0, len(ws)), ph)
    if g.bool(0.9 if not syntax else 0.4):
        ts = [tag(g, 0)] if g.bool(0.97) else []
        for _ in range(g.weighted([(0, 6), (1, 3), (2, 2), (3, 1)])):
            ts.append(tag(g, g.weighted([(0, 1), (1, 12), (2, 12)])))
        if g.bool(0.6):
            # in chronological order, mostly
            ds = []
            for t in ts:
                m = re.search(r'\d+-[A-Z][a-z][a-z]-\d{4}', t)
                ds.append(m.group() if m and valid(m.group()) else None)
            good = sorted([d for d in ds if d], key=key)
            for i, t in enumerate(ts):
                if ds[i]:
                    ts[i] = t.replace(ds[i], good.pop(0))
        if g.bool(0.05):
            ts = g.shuffle(ts)
        ws += ts
    text = ' '.join(w for w in ws if w)
    return text, exp, bib


def norm(s):
    return ' '.join(s.split())


def contrib(desc, lab):
    """(expected warnings, contributor, reviser, most recent date or None when malformed)"""
    t = ' ' + norm(desc) + ' '
    W = []
    got = []
    names = ['contributor', 'reviser', 'proof shortener']
    for k in range(3):
        at = []
        i = t.find(' ' + TAGS[k])
        while i >= 0:
            at.append(i + 1 + len(TAGS[k]))
            i = t.find(' ' + TAGS[k], i + 1)
        if not at:
            got.append(None)
            continue
        s = at[0] if k == 0 else at[-1]
        e = t.find('.) ', s)
        if e < 0:
            got.append((at, s, '', '', False, False))
            continue
        inner = t[s:e]
        name, sp, d = inner.rpartition(' ')
        comma = name.endswith(',')
        got.append((at, s, name[:-1], d, comma, bool(name[:-1]) and bool(d)))
    c, r, sh = got
    if not c:
        W.append(('no contributor', lab))
    elif len(c[0]) > 1:
        W.append(('two contributors', lab))
    for k, x in enumerate(got):
        if x and not x[4]:
            W.append(('no comma', names[k], lab))
        if x and ',' in x[2]:
            W.append(('comma', names[k], lab))
    if c and (r and r[0][0] < c[1] or sh and sh[0][0] < c[1]):
        W.append(('tag order', lab))
    if any(x and not x[5] for x in got):
        W.append(('format', lab))
    for k, x in enumerate(got):
        if x and x[3] and not valid(x[3]):
            W.append(('date', TAGS[k].strip(' ('), x[3], lab))
    dates = [x[3] if x else '' for x in got]
    bad = any(d and not valid(d) for d in dates)
    if not bad:
        ks = [key(d) if d else None for d in dates]
        if ks[0] and (ks[1] and ks[0] >= ks[1] or ks[2] and ks[0] >= ks[2]):
            W.append(('not earlier', lab))
        if ks[1] and ks[2] and (r[1] < sh[1] and ks[1] > ks[2] or r[1] > sh[1] and ks[1] < ks[2]):
            W.append(('wrong order', lab))
        ds = [d for d in dates if d]
        latest = max(ds, key=key) if ds else ''
    else:
        latest = None
    return W, c[2] if c else '', r[2] if r else '', latest, bad


PATS = [
    (r'In statement "(\S+)" at line (\d+) in file "t\.mm"\. Underscores in labels are not', 'underscore'),
    (r'In statement "(\S+)" at line (\d+) in file "t\.mm"\. To workaround', 'reserved'),
    (r'In the \$a statement "(\S+)" at line (\d+) in file "t\.mm", the label does not start with "ax-" or "df-"', 'axname'),
    (r'The token "(\S+)" declared at line (\d+) in file "t\.mm" has an "@" character', 'at'),
    (r'The token "(\S+)" declared at line (\d+) in file "t\.mm" has a "\?" character', 'question'),
    (r'The assertions for statements "(\S+)" and "(\S+)" are different\.', 'assertions'),
    (r'Statement "(\S+)" has (\d+) mandatory hypotheses but "(\S+)" has (\d+)\.', 'count'),
    (r'The mandatory distinct variable pairs for statements "(\S+)" and "(\S+)" are different or', 'pairs'),
    (r'The mandatory hypotheses of statements "(\S+)" and "(\S+)" are different\.', 'hyps'),
    (r'Line number (\d+) ends with a space character', 'space'),
    (r'Line number (\d+) has (\d+) characters \(should have (\d+) or less\)', 'long'),
    (r'Line number (\d+) contains a tab', 'tab'),
    (r'Contributor "\?who\?" should be updated in statement "(\S+)"', 'contributor'),
    (r'Reviser "\?who\?" should be updated in statement "(\S+)"', 'reviser'),
    (r'There is no "\(Contributed by\.\.\.\)" in the comment above statement (?:\d+), label "(\S+)"', 'no contributor'),
    (r'There is more than one "\(Contributed by\.\.\.\)" in the comment above statement (?:\d+), label "(\S+)"', 'two contributors'),
    (r'There is no comma between ([a-z ]+) and date, or period is missing, in the comment above statement (?:\d+), label "(\S+)"', 'no comma'),
    (r'There is a comma in the ([a-z ]+) name ".*" in the comment above statement (?:\d+), label "(\S+)"', 'comma'),
    (r'"\(Contributed by\.\.\.\)" is placed after .* in the comment above statement (?:\d+), label "(\S+)"', 'tag order'),
    (r'There is a formatting error in a .* entry in the comment above statement (?:\d+), label "(\S+)"', 'format'),
    (r'There is a formatting error in the "\(([A-Za-z ]+)\.\.\.\)" date "(\S*)" in the comment above statement (?:\d+), label "(\S+)"', 'date'),
    (r'The "\(Contributed by\.\.\.\)" date is not earlier than .* in the comment above statement (?:\d+), label "(\S+)"', 'not earlier'),
    (r'The "\(Revised by\.\.\.\)" and .* dates are in the wrong order in the comment above statement (?:\d+), label "(\S+)"', 'wrong order'),
    (r'Statement "(\S+)" is a \$a but has a "\(Proof modification is discouraged\.\)" tag', 'a modification'),
    (r'Statement "(\S+)" has suffix "(\S+)" but has no "\(Proof modification is discouraged\.\)" tag', 'old modification'),
    (r'Statement "(\S+)" has suffix "(\S+)" but has no "\(New usage is discouraged\.\)" tag', 'old usage'),
    (r'There is no "Version of " comment at the top', 'no version'),
    (r'The Version date "(.*)" at the top of file "t\.mm" is not a valid date', 'bad version'),
    (r'The "Version of" date (\S+) at the top of file "t\.mm" is less recent than the date (\S+) in the description of statement "(\S+)"', 'old version'),
    (r'missing closing "(\S+)" decoration above statement "(\S+)"', 'decoration'),
    (r'Bibliography keyword missing in comment for "(\S+)"', 'keyword'),
    (r'No page number after \[<author>\] bib ref in "(\S+)"', 'page'),
    (r'The proof of (?:statement )?"(\S+)" in the mathbox for "?(.*?)"?(?: at line \d+ in file "t\.mm")? references (?:statement )?"(\S+)" in the mathbox for "?(.*?)"?(?: at line \d+ in file "t\.mm")?\.(?= |$)', 'mathbox'),
    (r'The label token "(\S+)" \(referenced in comment of statement "(\S+)"\)', 'label'),
    (r'The token "(\S+)", which was defined in a \$v or \$c statement, was not declared in an? (\S+) statement', 'undefined'),
]


def parse(o):
    o = re.sub(r'(characters\s+\(should\s+have\s+\d+\s+or\s+less\):)\n    [^\n]*\.\.\.(?=\n)', r'\1', o)
    flat = norm(o)
    found = Counter()
    for part in re.split(r'(?=\?(?:Warning|Error): )', flat)[1:]:
        part = part.split(': ', 1)[1]
        for p, k in PATS:
            m = re.match(p, part)
            if m:
                found[(k,) + m.groups()] += 1
                break
        else:
            found[('other', part[:300])] += 1
    return found


def refs(pr, mand):
    """the labels a proof refers to"""
    if pr[0] != '(':
        return set(pr)
    i = pr.index(')')
    out = set(pr[1:i])
    n = 0
    for c in ''.join(pr[i + 1:]):
        if 'U' <= c <= 'Y':
            n = n * 5 + ord(c) - 84
        elif 'A' <= c <= 'T':
            n = n * 20 + ord(c) - 64
            if n <= len(mand):
                out.add(mand[n - 1].label)
            n = 0
    return out


def prop(g, ctx):
    d = mmgen.Gendb(g, mmgen.Opts(compressed=0.5, nctor=(1, 4), nax=(1, 4), nthm=(2, 6), depth=2, types=(1, 2), dvprob=0.5, extra_dv=0.4, locals=0.3))
    clean = g.draw(3)                         # 0: keep to the conventions, mostly
    ren = {}
    taken = set()
    toks = {t for it in d.items if it[0] in 'cv' for t in it[1]}

    def fresh(l):
        while l in taken or l in toks or l in d.usedlabels:
            l += g.choice('xyz12')
        taken.add(l)
        return l
    ax = []
    thms = []
    for it in d.items:
        if it[0] not in 'ap':
            continue
        logic = it[2][0] == '|-'
        if it[0] == 'a' and logic and g.bool(0.93):
            ren[it[1]] = fresh(g.choice(['ax-', 'ax-', 'df-']) + g.choice(['1', 'mp', 'gen', 'aOLD', 'b', 'cALT', 'NEW']))
            if ren[it[1]].startswith('ax-'):
                ax.append(it[1])
        elif g.bool(0.12) and clean:
            ren[it[1]] = fresh(g.choice(RESERVED + NEARBY + ['mmfoo', 'MMa', 'mM.1', 'a_b', '_', 'x_', 'ax2', 'df', 'df-x', 'ax-y', 'ax-', 'ax']))
        elif g.bool(0.15):
            ren[it[1]] = fresh(g.choice(['th', 'foo', 'q.']) + g.choice(['OLD', 'ALT', 'OLDx', 'NEW', 'old', 'OLDALT', 'T']))
        elif not clean and '_' in it[1]:
            ren[it[1]] = fresh(it[1].replace('_', '.'))
        if it[0] == 'p':
            thms.append(it[1])
    for it in d.items:
        if it[0] in 'fe' and '_' in it[1] and clean != 1:
            ren[it[1]] = fresh(it[1].replace('_', '.'))
    mb = None
    if g.bool(0.4) and len(thms) > 1:
        mb = g.choice(thms[:-1])
        ren[mb] = 'mathbox'
        if 'mathbox' in taken or 'mathbox' in toks:
            raise Discard('mathbox')
    R = lambda l: ren.get(l, l)
    # items with new labels, followed by the theorems axX for axioms ax-X
    items = []
    nest = 0
    later = []
    for it in d.items:
        nest += (it[0] == '{') - (it[0] == '}')
        if nest == 0 and it[0] != '}':
            while later:
                items += later.pop()
        if it[0] in 'fea':
            items.append((it[0], R(it[1]), list(it[2])))
        elif it[0] == 'p':
            items.append(('p', R(it[1]), list(it[2]), [R(t) for t in it[3]] if g.bool(0.9) else ['?']))
        else:
            items.append((it[0],) if len(it) == 1 else (it[0], list(it[1])))
        if it[0] == 'a' and it[1] in ax and g.bool(0.5):
            l = R(it[1])
            tw = 'ax' + l[3:]
            if not l[3:] or tw in taken or tw in toks or tw in d.usedlabels:
                continue
            taken.add(tw)
            f = list(it[2])
            r = g.draw(8)
            vs = [v for v in set(f) if v in d.db.vars] if hasattr(d.db, 'vars') else []
            vs = sorted(v for ts in d.gvars.values() for v in ts)
            if r == 0 and len(f) > 1:
                f[g.int(1, len(f) - 1)] = g.choice(vs)
            if g.bool(0.6):
                x = d.db.labels[it[1]]
                es = [list(h.toks) for h in x.mand if h.kind == 'e']
                ds = [list(p) for p in x.dvs]
                q = g.draw(7)
                if q == 0 and es:
                    e = g.choice(es)
                    e[g.int(1, len(e) - 1) if len(e) > 1 else 0] = g.choice(vs)
                elif q == 1 and ds:
                    ds.pop(g.draw(len(ds)))
                elif q in (2, 5, 6) and ds:
                    p = g.choice(ds)
                    k = g.draw(2)
                    own = [v for h in x.mand if h.kind == 'f' for v in h.toks[1:]]
                    p[k] = g.choice([v for v in (own if q != 2 and len(own) > 1 else vs) if v != p[1 - k]])
                elif q == 3 and len(es) > 1:
                    es = g.shuffle(es)
                later.append([('{',)] + [('d', p) for p in ds] + [('e', fresh(f'{tw}.{i}'), e) for i, e in enumerate(es)] + [('p', tw, f, ['?']), ('}',)])
                continue
            items.append(('{',))
            if r == 1 and len(vs) > 1:
                items.append(('d', g.sample(vs, 2)))
            if r == 2:
                items.append(('e', fresh(tw + '.1'), [f[0], g.choice(vs)]))
            items.append(('p', tw, f, ['?']))
            items.append(('}',))
    # text
    out = []
    pos = 0
    lines = []
    desc = {}
    exp0 = {}
    headers = {}

    def put(s):
        out.append(s)
    alllabs = [it[1] for it in items if it[0] in 'feap']
    alab = [it[1] for it in items if it[0] in 'ap']

    def ref():
        if g.bool(0.8) or not clean:
            return g.choice(alab), True
        l = g.choice(['nosuch', 'foo.bar', 'q' + alab[0], 'x'])
        return l, l in alab
    top = g.draw(5)
    vdate = date(g) if g.bool(0.9) else f'{g.int(1, 31)}-{g.choice(MONTHS)}-{g.int(2030, 2040)}'
    if g.bool(0.08):
        vdate = g.choice(['13-Foo-2016', '0-Jan-2020', '32-Jan-2020', '2020', '1-1-2020'])
    if g.bool(0.8):
        put(f'$( t.mm - Version of {vdate} $)\n')
        version = vdate
    else:
        version = None
    depth = 0
    pending = None
    boxes = []
    afterbox = False
    ws = lambda: g.weighted([(' ', 60), ('\n  ', 8), ('  ', 4)] + ([(' \n', 1), ('\t', 1), ('\n\n', 1), (' ' * 80, 1)] if clean else []))
    def wrap(ts):
        s = ''
        col = 0
        for t in ts:
            w = ws()
            if col + len(t) > 60 and (g.bool(0.98) or not clean):
                w = '\n'
            s += w + t
            col = len(s) - s.rfind('\n')
        return s
    hdr_of = None
    bibs = {}
    for it in items:
        k = it[0]
        depth += (k == '{') - (k == '}')
        if afterbox and depth - (k == '{') + (k == '}') == 0 and g.bool(0.3 if not boxes else 0.2):
            name = g.choice(['Alice', 'Bob B', 'C.D-E', 'Eve J', 'Alice'])
            n = g.choice([1, 1, 1, 2]) if clean else 1
            s = ''
            for _ in range(n):
                s = f'Mathbox for {name}\n' if not s else s + f'Mathbox for {name}2\n'
            last = name if n == 1 else name + '2'
            put('\n$(\n#*#*#*#*#*#*\n  ' + s + '#*#*#*#*\n$)\n' if n == 1 and hdr_of is None else '\n$( ' + s + ' $)\n')
            boxes.append((None, last))
            fresh_box = True
            if n == 1 and hdr_of is None:
                hdr_of = ('box', None)
        else:
            fresh_box = False
        if fresh_box:
            boxes[-1] = (len(lines), last)
        if not fresh_box and hdr_of is None and g.bool(0.12):
            i = g.draw(4)
            two = g.bool(0.15) and clean
            com = ''
            e = None
            if g.bool(0.4):
                com = ' '.join(g.choice(WORDS[:8]) for _ in range(g.int(1, 5)))
                if g.bool(0.3):
                    l, ok = ref()
                    com += ' ~ ' + l + ' .'
                    e = None if ok else l
            put('\n$(\n' + DECO[i] * 6 + '\n  A title\n' + ('of two lines\n' if two else '') + DECO[i] * 6 + '\n' + com + '\n$)\n')
            hdr_of = ('hdr', DECO[i] if two else None, e)
        if k == '{':
            put('${' + ws())
        elif k == '}':
            put('$}\n')
        elif k in 'cvd':
            put('$' + k + wrap(it[1] + ['$.']) + '\n')
        elif k in 'fe':
            put(it[1] + ' $' + k + wrap(it[2] + ['$.']) + '\n')
        else:
            l = it[1]
            if g.bool(0.95):
                t, e, bib = description(g, ref, k == 'a' and it[2][0] != '|-')
                put('$(' + wrap(t.split(' ')) + ' $)\n')
                desc[l] = t
                exp0[l] = e
                bibs[l] = bib
            else:
                hd = hdr_of
                if fresh_box or hd is not None:
                    put('$( - $)\n')
                desc[l] = ''
                exp0[l] = []
            headers[l] = hdr_of
            hdr_of = None
            put(l + ' $' + k + wrap(it[2] + (['$.'] if k == 'a' else ['$='] + it[3] + ['$.'])) + '\n')
            if l == 'mathbox':
                afterbox = True
        lines.append(it)
    # $t comment
    undefined = []
    put('$( $t\n')
    seen = set()
    for it in items:
        if it[0] in 'cv':
            for t in it[1]:
                if t in seen:
                    continue
                seen.add(t)
                for kind in ('latexdef', 'htmldef', 'althtmldef'):
                    if clean == 2 and g.bool(0.01):
                        undefined.append(('undefined', t, kind))
                        continue
                    q = "'" if '"' in t else '"'
                    put(f'{kind} {q}{t}{q} as "x";\n')
    put('$)\n')
    text = ''.join(out)
    if not clean:
        text = re.sub(r' +(?=\n)', '', text).replace('\t', ' ')
        text = '\n'.join(x for l in text.split('\n') for x in ([l] if len(l) <= 79 else []) or [l])
    ctx.write('t.mm', text)
    try:
        db = mmref.parse(text)
    except mmref.MMError as e:
        raise Discard('illegal: ' + str(e)[:50])
    # where things are
    order = {}
    blank = re.sub(r'\$\(.*?\$\)', lambda m: re.sub(r'\S', ' ', m.group()), text, flags=re.S)
    stm = list(re.finditer(r'(?<!\S)\$[cvfeapd{}](?!\S)', blank))
    lineof = {}
    tokline = {}
    for m, it in zip(stm, lines):
        ln = text.count('\n', 0, m.start()) + 1
        if it[0] in 'feap':
            lineof[it[1]] = ln
        elif it[0] in 'cv':
            for t in it[1]:
                tokline.setdefault(t, ln)
    if len(stm) != len(lines):
        raise Discard('lines')
    num = {it[1]: i + 1 for i, it in enumerate(lines) if it[0] in 'feap'}
    pat = g.choice(['*', '*', '*', g.choice(alab), g.choice(alab)[:2] + '*', g.choice(alab)[:1] + '*,*' + g.choice(alab)[-1:]])
    q = {'DATE_SKIP': g.bool(0.3), 'TOP_DATE_CHECK': g.bool(0.4), 'UNDERSCORE_SKIP': g.bool(0.3), 'MATHBOX_SKIP': g.bool(0.2), 'VERBOSE': g.bool(0.2),
         'TOP_DATE_SKIP': g.bool(0.1), 'FILE_SKIP': g.bool(0.1)}
    if q['TOP_DATE_CHECK']:
        q['TOP_DATE_SKIP'] = False
    width = g.choice([79, 79, 120, 300])
    W = []
    sel = lambda l: pa.matches_list(l, pat)
    latest = []
    malformed = False
    badl = set()
    for it in lines:
        if it[0] not in 'feap':
            continue
        l = it[1]
        if not sel(l):
            continue
        if '_' in l and not q['UNDERSCORE_SKIP']:
            W.append(('underscore', l, str(lineof[l])))
        if it[0] not in 'ap':
            continue
        if l.lower() in [r.lower() for r in RESERVED] + [f'{a}{i}' for a in ('com', 'lpt') for i in range(1, 10)] or l[:2].lower() == 'mm':
            W.append(('reserved', l, str(lineof[l])))
        x = db.labels[l]
        if it[0] == 'a' and it[2][0] == '|-' and l[:3] not in ('ax-', 'df-'):
            W.append(('axname', l, str(lineof[l])))
        y = db.labels.get('ax' + l[3:]) if l[:3] == 'ax-' and it[0] == 'a' else None
        if y is not None and not isinstance(y, mmref.Hyp):
            if x.toks != y.toks:
                W.append(('assertions', l, y.label))
            elif len(x.mand) != len(y.mand):
                W.append(('count', l, str(len(x.mand)), y.label, str(len(y.mand))))
            elif set(x.dvs) != set(y.dvs):
                W.append(('pairs', l, y.label))
            elif [h.toks for h in x.mand] != [h.toks for h in y.mand]:
                W.append(('hyps', l, y.label))
        elif y is not None:
            raise Discard('hypothesis')
        cw, c, r, late, bad = contrib(desc[l], l)
        if c == '?who?':
            W.append(('contributor', l))
        if r == '?who?':
            W.append(('reviser', l))
        if not q['DATE_SKIP']:
            if not (it[0] == 'a' and l[:3] not in ('ax-', 'df-')):
                W += cw
            malformed |= bad
            if bad:
                badl.add(l)
            if late:
                latest.append((key(late), -num[l], late, l))
        for e in exp0[l]:
            # (once for each of its occurrences)
            W.append(('label', e[1], l))
        t = norm(desc[l])
        pm = '(Proof modification is discouraged.)' in t
        nu = '(New usage is discouraged.)' in t
        if it[0] == 'a' and pm:
            W.append(('a modification', l))
        if l[-3:] in ('OLD', 'ALT'):
            if it[0] == 'p' and not pm:
                W.append(('old modification', l, l[-3:]))
            if not nu:
                W.append(('old usage', l, l[-3:]))
        h = headers[l]
        if h and h[0] == 'hdr':
            if h[1]:
                W.append(('decoration', h[1], l))
            if h[2]:
                W.append(('label', h[2], l))
        b = bibs.get(l)
        if b in ('nokey', 'nopage') and 'OLD' not in l and 'NEW' not in l:
            W.append(('keyword' if b == 'nokey' else 'page', l))
    for t, ln in tokline.items():
        if '@' in t:
            W.append(('at', t, str(ln)))
        if '?' in t:
            W.append(('question', t, str(ln)))
    for i, l in enumerate(text.split('\n')[:-1]):
        if l.endswith(' '):
            W.append(('space', str(i + 1)))
        if len(l) > width:
            W.append(('long', str(i + 1), str(len(l)), str(width)))
        W += [('tab', str(i + 1))] * l.count('\t')
    W += undefined
    skipv = False
    if q['TOP_DATE_CHECK']:
        first = text.find('$(', 2)
        if version is None:
            W.append(('no version',))
        elif not valid(version):
            W.append(('bad version', version))
        elif malformed:
            skipv = True
        elif latest and not q['DATE_SKIP']:
            k, _, dt, l = max(latest)
            if k > key(version):
                W.append(('old version', version, dt, l))
    if not q['MATHBOX_SKIP'] and boxes:
        # the last heading before a statement counts
        st = {}
        for i, n in boxes:
            st[i] = n
        starts = sorted(st)
        mbn = num['mathbox'] - 1
        for j, s in enumerate(starts):
            if j == 0:
                continue
            e = starts[j + 1] if j + 1 < len(starts) else len(lines)
            for i in range(s, e):
                if lines[i][0] != 'p':
                    continue
                for l in sorted(refs(lines[i][3], db.labels[lines[i][1]].mand)):
                    n = num.get(l, 0) - 1
                    if n > mbn and n < s and n >= starts[0]:
                        o = max(x for x in starts if x <= n)
                        W.append(('mathbox', lines[i][1], st[s], l, st[o]))
                        ctx.count('between mathboxes')
    cmd = f'verify markup {pat}' + ''.join(' / ' + k.lower() for k, v in g.shuffle(sorted(q.items())) if v)
    ctx.show(f'set width {width}\n{cmd}\n-----\n{text}')
    ctx.key(text, cmd)
    outs, _ = mm.session(ctx.env['plain' if g.bool(0.9) else 'asan'], ['read t.mm', cmd], ctx.dir, width=width)
    if '?Error' in outs[0]:
        raise Violation('model', outs[0][:1500])
    o = outs[1]
    got = parse(o)
    want = Counter(W)
    if skipv:
        got = Counter({k: v for k, v in got.items() if k[0] != 'old version'})
    # (the order of the pairs may make a difference too)
    for k in list(got):
        if k[0] == 'pairs' and k not in want and k[1] in db.labels and len(db.labels[k[1]].dvs) > 1 and set(db.labels[k[1]].dvs) == set(db.labels[k[2]].dvs) and db.labels[k[1]].toks == db.labels[k[2]].toks:
            want[k] = 1
            want.pop(('hyps',) + k[1:], None)
    # (how malformed dates compare is not prescribed)
    got = Counter({k: v for k, v in got.items() if not (k[0] in ('not earlier', 'wrong order') and k[1] in badl)})
    for kind in ('label', 'undefined'):
        # how often is not prescribed
        for c in (got, want):
            for k in c:
                if k[0] == kind:
                    c[k] = 1
    for k in want:
        ctx.count(k[0])
    if got != want:
        raise Violation('warnings', f'{cmd}:\nmissing {sorted(want - got)}\nunexpected {sorted(got - want)}\n{o[:4000]}')
    if ('No errors were found.' in o) != (not want) and not skipv:
        raise Violation('verdict', f'{cmd}: {len(W)} departures, but\n{o[:3000]}')
    if not want:
        ctx.count('clean')
    ctx.nontrivial(len(desc) > 2)


CHECK = Check('C28', prop, quick=3000, thorough=80000, builds=('plain', 'asan'),
              rule='random databases whose labels, symbols, descriptions, headers, lines and mathboxes keep to or depart from the conventions; random label patterns, qualifiers and widths; '
                   'non-trivial = at least three assertions; distinct by text and command')

"""C23  SHOW STATEMENT displays exactly the frame the language gives a statement."""
import re
from lib import bulk, mm, mmgen, mmref, pa
from lib.core import Check, Violation, Discard

CW = mmgen.COMMENT_WORDS + ['Implication.', '(Contributed', 'by', '1-Jan-2000.)', '$x', 'so"me', 'Some']


def body(db, x):
    return ' '.join(x.toks)


def expect(db, x, mode, desc, text, html, name):
    """(list of lines in order, with sets marked)"""
    ass = not isinstance(x, mmref.Hyp)
    L = []
    end = ' $= ... $.' if x.kind == 'p' else ' $.'
    if mode == 'full':
        ln = text[:name[x.label]].count('\n') + 1
        s = f'Statement {x.index} is located on line {ln} of the file "t.mm".'
        if ass:
            s += f' Its statement number for HTML pages is {html[x.label]}.'
        L.append(s)
    if mode in ('full', 'comment'):
        d = desc.get(x.label)
        L.append(f'"{d}"' if d else f'?Warning: Statement "{x.label}" has no comment')
    if mode in ('brief', 'comment') and ass:
        if x.dvs:
            L.append(('d', x.dvs))
        for h in x.mand:
            if h.kind == 'e':
                L.append(f'{h.index} {h.label} $e {body(db, h)} $.')
    L.append(f'{x.index} {x.label} ${x.kind} {body(db, x)}'.rstrip() + end)
    if mode == 'full' and ass:
        L.append('Its mandatory hypotheses in RPN order are:')
        L += [f'{h.label} ${h.kind} {body(db, h)} $.' for h in x.mand] or ['(None)']
        if x.dvs:
            L.append(('pairs', 'Its mandatory disjoint variable pairs are:', x.dvs))
        fvars = {h.toks[1] for h in x.mand if h.kind == 'f'}
        if x.kind == 'p':
            if x.optf:
                L.append(('set', 'Its optional hypotheses are:', {h.label for h in x.optf}))
            o = set(x.alldvs) - set(x.dvs)
            if o:
                L.append(('pairs', 'Its optional disjoint variable pairs are:', o))
        L.append(('set', 'The statement and its hypotheses require the variables:', fvars or {'(None)'}))
        extra = {h.toks[1] for h in x.optf} - fvars
        if x.kind == 'p' and extra:
            L.append(('set', 'These additional variables are allowed in its proof:', extra))
        L.append(('vars', 'The variables it contains are:', fvars or {'(None)'}))
    return L


def same(want, got, text):
    if isinstance(want, str):
        return ' '.join(re.sub(r'"$', ' "', want).split()) == ' '.join(re.sub(r'"$', ' "', got).split())
    if want[0] == 'd':
        ps = set()
        for grp in re.findall(r'(?<!\S)\$d((?: \S+)+?) \$\.(?!\S)', ' '.join(got.split())):
            vs = grp.split()
            if len(set(vs)) != len(vs) or len(vs) < 2:
                return False
            ps |= {tuple(sorted((a, b))) for i, a in enumerate(vs) for b in vs[:i]}
        return ps == {tuple(sorted(p)) for p in want[1]}
    if not got.startswith(want[1]):
        return False
    rest = got[len(want[1]):].split()
    if want[0] == 'pairs':
        r = ' '.join(rest)
        if r[:1] != '<' or r[-1:] != '>':
            return False
        ps = r[1:-1].split('>, <')
        # (a variable may itself contain a comma: compare as texts)
        w = want[2]
        sps = set(ps)
        return len(ps) == len(w) == len(sps) and all(a + ',' + b in sps or b + ',' + a in sps for a, b in w)
    if want[0] == 'vars':
        return set(rest) == want[2]
    return len(rest) == len(set(rest)) and set(rest) == want[2]


def small(g):
    d = mmgen.Gendb(g, mmgen.Opts(compressed=0.5, nctor=(1, 4), nax=(1, 5), nthm=(1, 5), depth=2, types=(1, 3), locals=0.6, dvprob=0.6, extra_dv=0.7, ax_optdv=0.5, nvars=(2, 5)))
    out = []
    desc = {}
    last = None
    at = {}
    pos = 0

    def put(s):
        nonlocal pos
        out.append(s)
        pos += len(s)
    for it in d.items:
        put(g.choice(['\n', '\n', ' ', '\n\n  ']))
        if it[0] in 'feap':
            dsc = ''
            for _ in range(g.small(0, 2, 0.6)):
                c = mmgen.rand_comment(g, CW, (0, 10))
                dsc = ' '.join(c.split())
                put('$( ' + c + ' $)' + g.choice(['\n', ' ', '\n  ']))
            desc[it[1]] = dsc
            put(it[1] + g.choice([' ', ' ', '\n']))
            at[it[1]] = pos
            rest = mmgen.emit([it]).strip()
            put(rest[len(it[1]):].lstrip())
        else:
            if g.bool(0.15):
                put('$( ' + mmgen.rand_comment(g, CW, (1, 5)) + ' $) ')
            put(mmgen.emit([it]).strip())
    put('\n')
    return ''.join(out), at, desc


def prop(g, ctx):
    if g.bool(0.008):
        text, dim = bulk.text(g, 0)
        at = {m.group(1): m.start(2) for m in re.finditer(r'(?m)^(\S+) (\$[feap])', text)}
        desc = {l: '' for l in at}
        ctx.count('large')
    else:
        text, at, desc = small(g)
    big = 'big' in at
    ctx.write('t.mm', text)
    db = mmref.parse(text)
    html = {b.label: i + 1 for i, b in enumerate(db.order)}
    labs = list(db.labels)
    cmds = []
    jobs = []
    width = 200000 if big else g.choice([9999, 9999, 79, 120])
    for _ in range(g.int(3, 8)):
        mode = g.choice(['brief', 'full', 'full', 'comment'])
        pat = g.choice(['big', 'th']) if big and g.bool() else g.choice(labs)
        k = g.draw(6)
        if k == 0:
            pat = pat[:g.int(0, len(pat))] + '*'
        elif k == 1:
            i = g.draw(len(pat))
            pat = pat[:i] + '?' + pat[i + 1:]
        elif k == 2:
            pat = g.choice(labs) + ',' + pat
        sel = [x for l, x in db.labels.items() if pa.matches_list(l, pat)]
        sel.sort(key=lambda x: x.index)
        if mode != 'full' and ('*' in pat or '?' in pat):
            sel = [x for x in sel if not isinstance(x, mmref.Hyp)]
        cmds.append(f'show statement {pat}' + ('' if mode == 'brief' else ' / ' + mode))
        jobs.append((mode, sel, pat))
    ctx.show('\n'.join(cmds) + '\n-----\n' + text[:5000])
    ctx.key(text, cmds)
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm'] + cmds, ctx.dir, width=width)
    if '?Error' in outs[0]:
        raise Violation('model', f'legal database rejected: {outs[0][:2000]}')
    for c, (mode, sel, pat), o in zip(cmds, jobs, outs[1:]):
        parts = re.split(r'(?:^|\n)-{%d}\n' % width, o.strip('\n'))
        if not sel:
            if 'no statement whose label matches' not in ' '.join(o.split()):
                raise Violation('nothing', f'{c}: nothing matches, shown {o}')
            ctx.count('nothing')
            continue
        if len(parts) != len(sel):
            raise Violation('selection', f'{c}: {[x.label for x in sel]} match, {len(parts)} statements shown:\n{o[:3000]}')
        for x, p in zip(sel, parts):
            want = expect(db, x, mode, desc, text, html, at)
            ctx.count('shown')
            if isinstance(x, mmref.Assertion):
                ctx.count('pairs', len(x.dvs))
                ctx.count('optional pairs', len(set(x.alldvs) - set(x.dvs)))
            if width >= 9999:
                # a comment may take several lines
                p = re.sub(r'^".*?"(?=\n\d+ |\n\$d |\Z)', lambda m: ' '.join(m.group().split()), p, count=1, flags=re.S | re.M)
                lines = [y for y in p.split('\n') if y.strip()]
                if len(lines) != len(want):
                    raise Violation('lines', f'{c}: for {x.label} expected\n{show(want)}\nshown\n{p}')
                for w, y in zip(want, lines):
                    if not same(w, ' '.join(y.split()), text):
                        raise Violation('line', f'{c}: for {x.label} expected\n{show([w])}\nshown\n{y}\nin\n{p}')
            else:
                # the fixed parts, in order, whatever the line breaks
                q = ' '.join(p.split())
                i = 0
                for w in want:
                    w = w if isinstance(w, str) else w[1] if w[0] != 'd' else '$d'
                    w = ' '.join(w.split()).rstrip('"').rstrip()
                    j = q.find(w, i)
                    if j < 0:
                        raise Violation('narrow', f'{c}: for {x.label} expected {w!r} in\n{p}')
                    i = j + len(w)
    ctx.nontrivial(any(b.dvs or len(b.mand) > 1 for b in db.order))


def show(want):
    return '\n'.join(w if isinstance(w, str) else ' '.join([w[1] if w[0] != 'd' else '$d pairs'] + [str(y) for y in sorted(w[-1])]) for w in want)


CHECK = Check('C23', prop, quick=6000, thorough=150000,
              rule='random databases with nested scopes, local variables, many $d statements, comments; random SHOW STATEMENT commands (wildcards, lists, /FULL, /COMMENT, widths); '
                   'non-trivial = a frame with a $d pair or two hypotheses; distinct by text and commands')

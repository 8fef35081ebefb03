"""C22  SHOW PROOF displays the proof that is stored, whatever the layout asked for."""
import re
from lib import mm, mmgen, mmref, notation
from lib.core import Check, Violation, Discard


def hole(g, t, p):
    if g.bool(p):
        return ('?', ())
    return (t[0], tuple(hole(g, c, p) for c in t[1]))


class S:
    """one step of the stored proof"""
    __slots__ = ('n', 'lab', 'kids', 'tgt', 'ref', 'tagged', 'depth', 'form', 'ess', 'node', 'parent')


def steps_of(dag, root, st, db, th):
    """the list of steps, from the walk"""
    out = []
    tags = {}
    forms = {}
    a = db.asserts[th]

    def form(i):
        if i in forms:
            return forms[i]
        lab, kids = dag.nodes[i]
        ks = [form(k) for k in kids]
        if lab == '?':
            r = None
        elif lab in db.hyps:
            r = list(db.hyps[lab].toks)
        elif any(k is None for h, k in zip(db.asserts[lab].mand, ks) if h.kind == 'f'):
            r = None
        else:
            b = db.asserts[lab]
            r = mmref.subst({h.toks[1]: k[1:] for h, k in zip(b.mand, ks) if h.kind == 'f'}, b.toks)
        forms[i] = r
        return r
    # the walk's steps are in reverse Polish order: rebuild the tree
    stack = []
    for x in st:
        s = S()
        s.n = len(out) + 1
        s.ref = None
        s.tagged = False
        s.tgt = th
        s.parent = None
        if x[0] == 'ref':
            s.ref = tags[x[1]]
            s.lab = None
            s.kids = []
            s.node = s.ref.node
            s.ref.tagged = True
        else:
            s.lab = x[1]
            nk = 0 if s.lab == '?' or s.lab in db.hyps else len(db.asserts[s.lab].mand)
            s.kids = stack[len(stack) - nk:] if nk else []
            if nk:
                del stack[len(stack) - nk:]
            s.node = dag.mk(s.lab, [k.node for k in s.kids])
            for k, h in zip(s.kids, db.asserts[s.lab].mand if nk else []):
                k.tgt = h.label
                k.parent = s
            if x[2] is not None:
                tags[x[2]] = s
        s.form = form(s.node)
        stack.append(s)
        out.append(s)
    for s in reversed(out):
        s.depth = 0 if s.parent is None else s.parent.depth + 1
        s.ess = s.parent is None or (s.parent.ess and db.hyps[s.tgt].kind == 'e')
    return out


def typ(s, db):
    if s.ref:
        return typ(s.ref, db)
    if s.lab == '?':
        return '?'
    return db.hyps[s.lab].kind if s.lab in db.hyps else db.asserts[s.lab].kind


LINE = re.compile(r'^( *)(\d+) ( *)(\S+)(?: (\S+))? +\$(.) ?(.*)$')


def expect(steps, db, q):
    """[(number, indentation or None, left words, type, formula)]"""
    allf = 'all' in q
    ren = 'renumber' in q and not allf
    norep = 'no_repeated_steps' in q
    lem = 'lemmon' in q
    first = {}
    same = {}
    if norep:
        for s in steps:
            if s.ref:
                same[s] = s.ref
            elif s.lab != '?' and not s.kids:
                if s.lab in first:
                    same[s] = first[s.lab]
                else:
                    first[s.lab] = s
    num = {}
    n = 0
    for s in steps:
        ok = True
        if ren and not s.ess:
            ok = False
        if norep and (s in same or s.lab == '?'):
            ok = False
        if ok:
            n += 1
            num[s] = n
    def no(s):
        while s in same:
            s = same[s]
        return s
    refd = {no(s.ref) for s in steps if s.ref} | {no(s) for s in same}
    rows = []
    for s in (reversed(steps) if 'reverse' in q else steps):
        if not allf and not s.ess:
            continue
        if s not in num:
            continue
        if q.get('from_step', 0) and s.n < q['from_step'] or q.get('to_step', 0) and s.n > q['to_step'] or q.get('depth', 0) and s.depth >= q['depth']:
            continue
        if 'unknown' in q and s.lab != '?':
            continue
        if lem:
            if s.ref:
                left = ['@%d' % num[s.ref]]
            elif s.lab == '?':
                left = ['?']
            else:
                hs = [k for k in s.kids if allf or db.hyps[k.tgt].kind == 'e']
                left = ([','.join('?' if no(k).lab == '?' and norep else str(num[no(k)]) for k in hs)] if hs else []) + [s.lab]
                if s in refd and not norep:
                    left.append('@%d:' % num[s])
        else:
            decl = '%d:' % num[s] if s in refd and not s.ref else ''
            left = [decl + s.tgt + '=' + (str(num[s.ref]) if s.ref else s.lab)]
            # the step starts at twice its depth, after the declaration of its local label
            lead = max(0, 2 * s.depth - len(decl))
        rows.append((num[s], None if lem else lead, left, typ(s, db), s.form))
    return rows


def rows_of(text, lem):
    out = []
    for ln in text.split('\n'):
        if not ln.strip():
            continue
        m = re.match(r'^( *\d+) (.*?) \$([a-z?])(?: (.*))?$', ln) if not lem else re.match(r'^( *\d+) (.*?) +\$([a-z?])(?: (.*))?$', ln)
        if not m:
            raise Violation('display', f'unexpected line {ln!r} in:\n{text[:3000]}')
        rest = m.group(2)
        dep = None
        if not lem:
            dep = len(rest) - len(rest.lstrip(' '))
        out.append((int(m.group(1)), dep, rest.split(), m.group(3), (m.group(4) or '').split()))
    return out


def prop(g, ctx):
    o = mmgen.Opts(compressed=0, nctor=(1, 4), nax=(2, 4), nthm=(1, 4), depth=g.choice([2, 3, 4]), types=(1, 3), dvprob=0.3)
    d = mmgen.Gendb(g, o)
    db = mmref.parse(mmgen.emit(d.items))
    db.hyps = {l: x for l, x in db.labels.items() if isinstance(x, mmref.Hyp)}
    db.asserts = {l: x for l, x in db.labels.items() if not isinstance(x, mmref.Hyp)}
    items = list(d.items)
    proofs = {}
    for i, it in enumerate(items):
        if it[0] != 'p':
            continue
        tree = d.proofs.get(it[1])
        if not tree:
            raise Discard('no tree')
        if g.bool(0.15):
            tree = hole(g, tree, 0.15)
        dag = notation.Dag()
        root = dag.tree(tree)
        if dag.size[root] > 150:
            raise Discard('large')
        form = g.choice(['normal', 'compressed', 'compressed', 'packed', 'explicit', 'explicitpacked'])
        mand = [h.label for h in db.asserts[it[1]].mand]
        p = g.choice([0.3, 0.7, 1])
        tag = (lambda j: False) if form in ('normal', 'explicit') else (lambda j: bool(dag.nodes[j][1]) and (p == 1 or g.bool(p)))
        st = notation.walk(dag, root, tag, lambda j: p == 1 or g.bool(p))
        # only useful tags, as written by the program, or any
        if g.bool(0.7):
            used = {x[1] for x in st if x[0] == 'ref'}
            rn = {}
            for x in st:
                if x[0] == 'lab' and x[2] in used:
                    rn[x[2]] = len(rn)
            st = [('ref', rn[x[1]], x[2]) if x[0] == 'ref' else ('lab', x[1], rn.get(x[2]), x[3]) for x in st]
        if form == 'compressed':
            labs, letters = notation.enc_compressed(st, mand)
            toks = ['('] + labs + [')'] + d.chop(letters)
        else:
            toks = notation.enc_text(st, form.startswith('explicit'), {k: [h.label for h in b.mand] for k, b in db.asserts.items()}, it[1])
        items[i] = ('p', it[1], it[2], toks)
        proofs[it[1]] = steps_of(dag, root, st, db, it[1])
    if not proofs:
        raise Discard('no theorem')
    style = g.choice(['plain', 'plain', 'wild'])
    text = mmgen.emit(items, g, style)
    ctx.write('t.mm', text)
    ths = list(proofs)
    cmds = []
    jobs = []
    for _ in range(g.int(2, 5)):
        th = g.choice(ths)
        ss = proofs[th]
        N = len(ss)
        q = {}
        if g.bool(0.45):
            q['all'] = 1
        if g.bool(0.4):
            q['lemmon'] = 1
            if g.bool(0.4):
                q['no_repeated_steps'] = 1
            if g.bool(0.2):
                q['start_column'] = g.int(1, 60)
        if g.bool(0.4):
            q['renumber'] = 1
        if g.bool(0.2):
            q['reverse'] = 1
        if g.bool(0.2):
            q['from_step'] = g.int(1, N + 1)
        if g.bool(0.2):
            q['to_step'] = g.int(1, N + 1)
        if g.bool(0.2):
            q['depth'] = g.int(1, 6)
        if g.bool(0.05):
            q['essential'] = 1
            q.pop('all', None)
        names = g.shuffle(list(q))
        c = f'show proof {th}'
        for k in names:
            c += f' / {k}' + (f' {q[k]}' if k in ('from_step', 'to_step', 'depth', 'start_column') else '')
        cmds.append(c)
        jobs.append(('steps', th, q))
    th = g.choice(ths)
    k = g.int(1, len(proofs[th])) if g.bool(0.95) else g.int(0, len(proofs[th]) + 3)
    cmds.append(f'show proof {th} / detailed_step {k}')
    jobs.append(('detail', th, k))
    th = g.choice(ths)
    cmds.append(f'show proof {th} / size')
    jobs.append(('size', th, None))
    th = g.choice(ths)
    q = {'all': 1} if g.bool() else {}
    cmds.append(f'show proof {th} / statement_summary' + (' / all' if q else ''))
    jobs.append(('summary', th, q))
    cmds.append('show proof * / all')
    jobs.append(('star', None, {'all': 1}))
    # the first display again, on a normal screen
    cmds += [f'set width {g.int(50, 130)}', cmds[0]]
    jobs += [('', None, None), ('narrow', jobs[0][1], jobs[0][2])]
    ctx.show('\n'.join(cmds) + '\n-----\n' + text)
    ctx.key(text, cmds)
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm'] + cmds, ctx.dir, width=9999)
    if '?Error' in outs[0]:
        raise Violation('model', f'legal database rejected: {outs[0][:2000]}')
    for c, job, out in zip(cmds, jobs, outs[1:]):
        if job[0] == 'steps':
            steps(ctx, c, out, proofs[job[1]], db, job[2])
        elif job[0] == 'narrow':
            want = []
            for n, _, l, t, f in expect(proofs[job[1]], db, job[2]):
                want += [str(n)] + l + ['$' + t] + (f or ['...'])
            if '...' not in want and want != out.split():
                raise Violation('wrapped', f'{c}: expected {" ".join(want)}\nshown\n{out}')
        elif job[0] == 'detail':
            detail(ctx, c, out, proofs[job[1]], db, job[2], job[1])
        elif job[0] == 'size':
            m = re.search(r'(?<!\S)' + re.escape(job[1]) + r'\s+\$p(?!\S)', blank(text))
            b = text[m.end():]
            b = b[re.search(r'(?<!\S)\$=(?!\S)', blank(b)).end():]
            n = re.search(r'(?<!\S)\$\.(?!\S)', blank(b)).start()
            if out.strip() != f'The proof source for "{job[1]}" has {n} characters.':
                raise Violation('size', f'{c}: the proof takes {n} characters, shown {out}')
        elif job[0] == 'summary':
            summary(ctx, c, out, proofs[job[1]], db, job[2], text, job[1])
        elif job[0] == 'star':
            parts = re.split(r'(?:^|\n)Proof of "([^"]*)":\n', out)
            if len(ths) == 1 and len(parts) == 1:
                parts = ['', ths[0], out]
            if parts[1::2] != ths:
                raise Violation('star', f'the theorems are {ths}, shown are {parts[1::2]}:\n{out[:2000]}')
            for t, x in zip(parts[1::2], parts[2::2]):
                steps(ctx, c, x, proofs[t], db, job[2])
    ctx.nontrivial(max(len(s) for s in proofs.values()) > 3)
    ctx.count('steps', sum(len(s) for s in proofs.values()))


def steps(ctx, c, out, ss, db, q):
    lem = 'lemmon' in q
    rows = rows_of(out, lem)
    exp = expect(ss, db, q)
    known = [(a, b, l, t) for a, b, l, t, f in exp]
    got = [(a, b, l, t) for a, b, l, t, f in rows]
    if known != got:
        for x, y in zip(known + [None] * len(got), got + [None] * len(known)):
            if x != y:
                break
        raise Violation('rows', f'{c}: expected {x}, shown {y} (number, indentation, step, type) in\n{out[:3000]}')
    for r, e in zip(rows, exp):
        # (a formula that depends on unknown steps may be shown when it can be found by unification)
        if r[4] != (e[4] or []) and (e[4] is not None or e[3] == '?'):
            raise Violation('formula', f'{c}: step {r[0]} proves {" ".join(e[4] or ["(unknown)"])}, shown {" ".join(r[4])} in\n{out[:3000]}')
        if e[4] is None:
            ctx.count('unknown-rows')
    ctx.count('rows', len(rows))
    if lem and rows:
        col = q.get('start_column', 16) + 1
        for ln in out.split('\n'):
            x = re.match(r'^( *\d+ .*?)( +)(@\d+:)? \$[a-z?]( |$)', ln)
            if not x:
                continue
            at = x.end() - len(x.group(4)) - 2
            if at != col and not (at > col and len(x.group(2)) == 1):
                raise Violation('column', f'{c}: the formula starts in column {at} rather than {col}: {ln!r}')


def words(kind, xs):
    if not xs:
        return f'The following substitutions were made to the {kind}:\n(None)'
    t = f'The following substitution{"" if len(xs) == 1 else "s"} {"was" if len(xs) == 1 else "were"} made to the {kind}:\nVariable Substituted with'
    return t + ''.join('\n' + v + ' ' + ' '.join(x) for v, x in xs)


def seq(xs):
    return xs[0] if len(xs) == 1 else ' and '.join(xs) if len(xs) == 2 else ', '.join(xs[:-1]) + ', and ' + xs[-1]


def detail(ctx, c, out, ss, db, k, th):
    got = '\n'.join(' '.join(x.split()) for x in out.strip().split('\n'))
    if any(s.lab == '?' for s in ss):
        want = '?The proof is incomplete or has an error'
    elif not 1 <= k <= len(ss):
        want = f'?The step number should be from 1 to {len(ss)}'
    else:
        s = ss[k - 1]
        names = {}
        n = 0
        for x in ss:
            if x.tagged:
                n += 1
                while str(n) in db.labels:
                    n += 1
                names[x] = n

        def sub(s, hyp):
            """substitution made to the source assertion of s"""
            b = db.asserts[s.lab]
            env = {h.toks[1]: x.form[1:] for h, x in zip(b.mand, s.kids) if h.kind == 'f'}
            vs = [v for v in hyp if v in env]
            return [(v, env[v]) for v in dict.fromkeys(vs)]
        t = typ(s, db)
        decl = f'{names[s]}:' if s.tagged else ''
        L = [f'Proof step {k}: {decl}{s.tgt}={names[s.ref] if s.ref else s.lab} ${t} ' + ' '.join(s.form)]
        if s.ref:
            x = f'This step assigns step {s.ref.n} (via local label reference "{names[s.ref]}") to '
        else:
            x = f'This step assigns source "{s.lab}" (${t}) to '
        if s.parent is None:
            x += 'the final assertion being proved.'
        else:
            x += f'target "{s.tgt}" (${db.hyps[s.tgt].kind}).'
        if s.tagged:
            x += f' This step also declares the local label {names[s]}, which is used later on.'
        ass = not s.ref and s.lab in db.asserts
        if ass:
            hs = [f'"{y.tgt}" (${db.hyps[y.tgt].kind}, step {y.n})' for y in s.kids]
            x += ' The source assertion requires no hypotheses.' if not hs else f' The source assertion requires the hypothes{"is" if len(hs) == 1 else "es"} {seq(hs)}.'
        if s.parent is None:
            x += ' The target has no parent because it is the assertion being proved.'
        else:
            x += f' The parent assertion of the target hypothesis is "{s.parent.lab}" (${typ(s.parent, db)}, step {s.parent.n}).'
        L.append(x)
        if ass:
            b = db.asserts[s.lab]
            L += ['The source assertion before substitution was:', f'{s.lab} ${t} ' + ' '.join(b.toks), words('source assertion', sub(s, b.toks))]
        if s.parent is not None:
            h = db.hyps[s.tgt]
            L += ['The target hypothesis before substitution was:', f'{s.tgt} ${h.kind} ' + ' '.join(h.toks), words('target hypothesis', sub(s.parent, h.toks))]
        want = '\n'.join(L)
        ctx.count('details')

    def lists(t):
        # the order of the variables in a list of substitutions doesn't matter
        return sorted(' '.join(x.split()) for x in t.split('\n'))
    if lists(got) != lists(want):
        raise Violation('detail', f'{c}: expected\n{want}\nshown\n{got}')


def summary(ctx, c, out, ss, db, q, text, th):
    used = {s.lab for s in ss if s.lab in db.asserts and ('all' in q or s.ess)}
    L = [f'Summary of statements used in the proof of "{th}":']
    for b in db.order:
        if b.label not in used:
            continue
        ln = text[:place(text, b.label, b.kind)].count('\n') + 1
        L += ['', f'Statement {b.label} is located on line {ln} of the file "t.mm".']
        L += [f'  {h.label} ${h.kind} {" ".join(h.toks)} $.' for h in b.mand if h.kind == 'e' or 'all' in q]
        L += [f'  {b.label} ${b.kind} {" ".join(b.toks)} $' + ('.' if b.kind == 'a' else '= ... $.')]
    # a comment before the statement is quoted
    out = re.sub(r'(is located on line \d+ of the file "t.mm"\.\n)".*?"\n(?=  )', r'\1', out, flags=re.S)
    if out.rstrip('\n') != '\n'.join(L):
        raise Violation('summary', f'{c}: expected\n' + '\n'.join(L) + f'\nshown\n{out}')
    ctx.count('summarized', len(used))


def blank(text):
    return re.sub(r'\$\(.*?\$\)', lambda m: re.sub(r'\S', ' ', m.group()), text, flags=re.S)


def place(text, lab, kind):
    """where the statement's keyword is in the text (comments skipped)"""
    m = re.search(r'(?<!\S)' + re.escape(lab) + r'\s+\$' + kind + r'(?!\S)', blank(text))
    return m.end()


CHECK = Check('C22', prop, quick=6000, thorough=150000,
              rule='random databases with proofs in every notation (shared subproofs, unknown steps), random display qualifiers; '
                   'non-trivial = a proof of more than three steps; distinct by database and commands')

"""C30  Statements whose use or whose proof's modification is discouraged are protected, and only those."""
import re
from lib import mm, mmgen, mmref, notation, pa
from lib.core import Check, Violation, Discard
from lib.live import Live
from checks.c11 import setup

USE = '(New usage is discouraged.)'
MOD = '(Proof modification is discouraged.)'
NEAR = ['(new usage is discouraged.)', '(New usage is discouraged)', 'New usage is discouraged.', '(New usage is encouraged.)', '( New usage is discouraged.)', '(New  usage of it is discouraged.)', '(Proof modification is encouraged.)',
        '(Proof modification is discouraged. )', '(Proof Modification is discouraged.)', '(proof modification is discouraged.)', '(Modification is discouraged.)', '(Usage is discouraged.)']
WORDS = ['alpha', 'Beta', 'the', 'of', 'x', 'proof.', 'New', '(Proof', 'usage', 'discouraged.)', '(See']
ERRS = re.compile(r'>>> \?Error: [^\n]*discouraged')


def describe(g, tags, other):
    """a description with the tags, and the same without"""
    a, b = [], []

    def put(t, u):
        for k, (x, y) in enumerate(zip(t.split(), u.split())):
            sep = g.weighted([(' ', 6), ('\n', 1), ('\n      ', 1), ('  ', 1)])
            a.append(sep + x)
            b.append(sep + y)
    parts = [(t, t.replace('discouraged', 'encouraged')) for t in tags] + [(n, n) for n in other]
    for t in g.shuffle(parts):
        if g.bool(0.6):
            w = ' '.join(g.choice(WORDS) for _ in range(g.int(1, 4)))
            put(w, w)
        if g.bool(0.1) and a:
            a.append(' x')
            b.append(' x')
        # directly after the word before
        put(*t)
    if g.bool(0.5) or not a:
        w = ' '.join(g.choice(WORDS) for _ in range(g.int(1, 4)))
        put(w, w)
    return ''.join(a).strip(), ''.join(b).strip()


def has(text, tag):
    return tag in ' '.join(text.split())


def steps(toks):
    """number of proof steps as stored"""
    if toks[:1] == ['(']:
        s = ''.join(toks[toks.index(')') + 1:])
        return len(re.findall(r'[A-T?]', s))
    return len(toks)


def labels(toks):
    return set(toks[1:toks.index(')')]) if toks[:1] == ['('] else set(toks)


def prop(g, ctx):
    mode = g.weighted([('mixed', 4), ('over', 3), ('hide', 3)])
    d, items, th, tree = setup(g, 40, nax=g.choice([(2, 5), (4, 8)]), nthm=(1, 5))
    db = d.db
    a = db.labels[th]
    forms = pa.node_formulas(db, a, tree)
    before = [b.label for b in db.order if b.index < a.index]
    use, mod = set(), set()
    prob = g.choice([0.1, 0.3, 0.6])
    dens = g.choice([0.0, 0.3, 0.8])
    logic = {b.label for b in db.order if b.toks[0] == '|-'}
    out, out0 = [], []
    for it in items:
        if it[0] in 'ap':
            l = it[1]
            tags = []
            # (which syntax exists guides unification)
            if g.bool(prob if l in logic else 0 if mode == 'hide' else prob / 4):
                tags.append(USE)
            if g.bool(0.6 if l == th else prob):
                tags.append(MOD)
            near = [g.choice(NEAR) for _ in range(g.weighted([(0, 4), (1, 2), (2, 1)]))]
            if g.bool(0.15):
                # an earlier comment does not count
                c = ('com', g.choice([USE, MOD, USE + ' ' + MOD]))
                out.append(c)
                out0.append(('com', c[1].replace('discouraged', 'encouraged')))
                if not tags and not near:
                    near = ['x']
            if tags or near or g.bool(dens):
                x, y = describe(g, tags, near)
                if (has(x, USE), has(x, MOD)) != (USE in tags, MOD in tags) or has(y, USE) or has(y, MOD):
                    raise Discard('tags out of words')
                if USE in tags:
                    use.add(l)
                if MOD in tags:
                    mod.add(l)
                out.append(('com', x))
                out0.append(('com', y))
        elif it[0] in 'efcv' and g.bool(0.1):
            c = g.choice([USE, MOD])
            out.append(('com', c))
            out0.append(('com', c.replace('discouraged', 'encouraged')))
        out.append(it)
        out0.append(it)
    proofs = {}
    if mode == 'hide':
        # no proof uses a discouraged statement

        def cut(t):
            if t[0] in use:
                return ('?', ())
            return (t[0], tuple(cut(k) for k in t[1]))
        start = tree if g.bool(0.5) else ('?', ())
        start = cut(start)
        for o in (out, out0):
            for i, it in enumerate(o):
                if it[0] == 'p':
                    o[i] = ('p', it[1], it[2], mmref.rpn(start) if it[1] == th else ['?'])
        out0 = [it for it in out0 if not (it[0] in 'ap' and it[1] in use and it[1] != th)]
    for it in out:
        if it[0] == 'p':
            proofs[it[1]] = it[3]
    text, text0 = mmgen.emit(out), mmgen.emit(out0)
    ctx.write('t.mm', text)
    log = []
    on = True
    blocked = overridden = 0
    empties = pa.has_empty(forms) or any(len(b.toks) == 1 and b.toks[0] in d.types for b in db.order)
    s2 = None
    if mode != 'mixed':
        ctx.write('t0.mm', text0)
    with Live(ctx.env['plain'], ctx.dir, width=20000) as s:
        try:
            if mode != 'mixed':
                s2 = Live(ctx.env['plain'], ctx.dir, width=20000)
                s2.__enter__()

            def do(c, sess=None):
                sess = sess or s
                if sess is s:
                    log.append(c)
                    ctx.show(f'({mode}; usage discouraged: {sorted(use)}; modification: {sorted(mod)})\n' + text + '\n' + '\n'.join(log))
                o = sess(c)
                n = 0
                while sess.prompt not in ('MM', 'MM-PA'):
                    n += 1
                    if n > 60:
                        raise Violation('hang', f'{log}: questions without end: {o[-1000:]}')
                    o += sess('a' if 'Accept' in sess.prompt else 'n')
                if 'timed out' in o or 'timeout occurred' in o:
                    raise Discard('unification timeout')
                return o

            def both(c, compare=True):
                """the same command on the other database"""
                o = do(c)
                if s2 is None:
                    return o
                o2 = do(c, s2)
                x = '\n'.join(y for y in o.split('\n') if not y.startswith('>>> ?Warning'))
                x = re.sub(r'of source file|\b\d+ bytes?\b', '', x)
                o2 = re.sub(r'of source file|\b\d+ bytes?\b', '', o2)
                if compare and x.split() != o2.split():
                    raise Violation('different', f'{log}: {o}\nbut on the database {"without those statements" if mode == "hide" else "without tags"}:\n{o2}')
                return o

            def discouraged():
                o = do('show discouraged')
                want = []
                for b in db.order:
                    l = b.label
                    if l in mod and b.kind == 'p':
                        want.append(f'SHOW DISCOURAGED:  Proof modification of "{l}" is discouraged ({steps(proofs[l])} steps).')
                    if l in use:
                        us = [x.label for x in db.order if x.kind == 'p' and x.label != l and l in labels(proofs[x.label])]
                        want.append(f'SHOW DISCOURAGED:  New usage of "{l}" is discouraged ({len(us)} uses).')
                        want += [f'SHOW DISCOURAGED:  "{l}" is used by "{x}".' for x in us]
                got = [y for y in o.split('\n') if y.strip()]
                if got != want:
                    raise Violation('show discouraged', f'{log}: {o}\nexpected:\n' + '\n'.join(want))

            for ses, f in [(s, 't.mm')] + ([(s2, 't0.mm')] if s2 else []):
                o = do(f'read {f}', ses)
                if '?Error' in o:
                    raise Violation('read', o)
                if empties:
                    do('set empty_substitution on', ses)
            discouraged()

            def switch():
                nonlocal on
                on = not on
                both(f'set discouragement {"on" if on else "off"}', False)
            if mode != 'hide' and g.bool(0.2):
                switch()
            # entering
            if mode == 'mixed' and g.bool(0.5):
                o = do(f'prove {th}')
                if (s.prompt == 'MM') != (th in mod and on) or bool(ERRS.search(o)) != (th in mod and on):
                    raise Violation('prove', f'{log}: {o}')
                blocked += th in mod and on
            if s.prompt == 'MM':
                o = both(f'prove {th} / override', mode == 'over')
                if s.prompt != 'MM-PA':
                    raise Violation('prove', f'{log}: {o}')
                if ('Warning: Modification of this statement\'s proof is discouraged' in o) != (th in mod):
                    raise Violation('prove', f'{log}: expected {"a" if th in mod else "no"} warning: {o}')
            st = pa.show(s)
            saved = proofs[th]
            for _ in range(g.int(3, 12)):
                unk = st.unknown()
                al = pa.align(st, tree, forms)
                good = [n for n in unk if n in al]
                op = g.weighted([('assign', 10 if good else 0), ('wrong', 3 if unk else 0), ('replace', 3), ('improve', 4), ('minimize', 3), ('save', 3), ('undo', 1), ('switch', 1 if mode != 'hide' else 0), ('discouraged', 1), ('delete', 1)])
                prev = st
                ov = mode == 'over' and on or mode == 'mixed' and g.bool(0.35)
                if mode == 'over' and not on:
                    ov = g.bool(0.3)
                q = ' / override' if ov else ''
                free = ov or not on
                lab = None
                if op == 'assign':
                    n = g.choice(good)
                    lab = al[n][0][0]
                    c = f'assign {n} {lab}' + g.choice([' / no_unify', ''])
                elif op in ('wrong', 'replace'):
                    n = g.choice(unk) if op == 'wrong' else g.int(1, st.root)
                    lab = g.choice(sorted(use & set(before))) if use & set(before) and g.bool(0.5) else g.choice(before) if before else th
                    c = ('assign' if op == 'wrong' else 'replace') + f' {n} {lab}'
                elif op == 'improve':
                    c = f'improve {g.choice(["all", "all", "first", str(g.int(1, st.root))])}' + g.choice(['', ' / depth 1', ' / 2', ' / 3', ' / subproofs'])
                elif op == 'minimize':
                    p = g.choice(['*', '*', g.choice(before) if before else '*'])
                    c = f'minimize_with {p} / allow_new_axioms *' + g.choice(['', '', ' / may_grow' if p != '*' else ''])
                elif op == 'save':
                    c = 'save new_proof' + g.choice([' / normal', ' / compressed'])
                elif op == 'undo' or op == 'delete':
                    o = both(c := 'undo' if op == 'undo' else f'delete step {g.int(1, st.root)}')
                    st = pa.show(s)
                    continue
                elif op == 'switch':
                    switch()
                    continue
                else:
                    discouraged()
                    if pa.show(s).rpn() != st.rpn():
                        raise Violation('changed', f'{log}')
                    continue
                if mode == 'hide' and lab in use:
                    o = do(c + q)
                    st = pa.show(s)
                    if st.rpn() != prev.rpn() or not ERRS.search(o) and 'is not' not in o and '?' not in o:
                        raise Violation('not-blocked', f'{log}: {o}')
                    blocked += 1
                    continue
                if op == 'save':
                    stop = th in mod and not free
                    o = do(c + q) if stop else both(c + q)
                    if bool(ERRS.search(o)) != stop or ('?Warning: You are overwriting' in o) != (th in mod and free):
                        raise Violation('save', f'{log}: {o}')
                    if stop and s2:
                        do(c + ' / override', s2) if False else None
                    o = do(f'show proof {th} / ' + c.split()[-1])
                    try:
                        toks = notation.clip(o)
                    except notation.Bad as e:
                        raise Violation('save', f'{log}: {o}')
                    if stop:
                        blocked += 1
                        o = do(f'show proof {th} / normal')
                        # as before
                        if saved is proofs[th] and set(notation.clip(o)) - {'$='} != (labels(saved) | set() if saved[:1] != ['('] else set(notation.clip(o)) - {'$='}):
                            raise Violation('save', f'{log}: refused, but the proof is now {o}')
                    else:
                        overridden += th in mod
                        if 'normal' in c and toks != st.rpn():
                            raise Violation('save', f'{log}: saved {toks}\n{st.text}')
                        proofs[th] = saved = toks
                    continue
                o = both(c + q)
                st = pa.show(s)
                new = (set(st.rpn()) - set(prev.rpn())) & use
                same = st.rpn() == prev.rpn()
                what = f'{log}: {o}\nbefore:\n{prev.text}\nafter:\n{st.text}'
                if not free and new:
                    raise Violation('not-blocked', f'new discouraged labels {sorted(new)}: {what}')
                if lab is not None:
                    if lab in use and not free:
                        if not same:
                            raise Violation('not-blocked', what)
                        if ERRS.search(o):
                            blocked += 1
                    if ERRS.search(o) and (lab not in use or free):
                        raise Violation('blocked', what)
                    if lab in use and free and not same:
                        overridden += 1
                        if '?Warning: You are assigning a statement whose usage is discouraged' not in o:
                            raise Violation('no-warning', what)
                    if lab not in use and 'You are assigning' in o:
                        raise Violation('warning', what)
                elif free:
                    named = set(re.findall(r'>>> \?Warning: Overriding discouraged usage of (?:statement )?"([^"]*)"', o))
                    if named - use:
                        raise Violation('warning', what)
                    for l in new - named:
                        if op == 'improve' or l in logic:
                            raise Violation('no-warning', f'{l}: {what}')
                    overridden += bool(new)
            o = do('exit / force')
            if s.prompt != 'MM':
                raise Violation('exit', f'{log}: {o}')
            discouraged()
        finally:
            if s2 is not None:
                s2.__exit__(None, None, None)
    ctx.key(text, log)
    ctx.count('blocked', blocked)
    ctx.count('overridden', overridden)
    ctx.nontrivial(blocked + overridden > 0 or mode == 'hide' and bool(use) and len(log) > 5)


CHECK = Check('C30', prop, quick=2500, thorough=60000,
              rule='random databases with discouragement tags (and texts that are nearly tags) in random layouts, random Proof Assistant sessions with and without overriding; '
                   'non-trivial = a command was refused or overridden a tag, or ran beside a database without the discouraged statements; distinct by source and commands')

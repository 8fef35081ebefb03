"""C11  The Proof Assistant only ever holds sound partial proofs and loses no solution."""
import re
from lib import mm, mmgen, mmref, notation, pa
from lib.core import Check, Violation, Discard
from lib.live import Live
from checks.c34 import offers


def hole(g, t, p):
    if g.bool(p):
        return ('?', ())
    return (t[0], tuple(hole(g, c, p) for c in t[1]))


def size(t):
    return 1 + sum(size(c) for c in t[1])


def steps_of(t):
    return size(t)


def setup(g, maxsize=60, full=False, **kw):
    """a database, a theorem with a known proof, and a starting proof"""
    kw = dict(dict(compressed=0.3, nctor=(1, 4), nax=(2, 5), nthm=(1, 4), types=(1, 3), dvprob=0.3), **kw)
    o = mmgen.Opts(depth=g.choice([2, 3, 4]), **kw)
    d = mmgen.Gendb(g, o)
    ths = [it[1] for it in d.items if it[0] == 'p' and d.proofs.get(it[1])]
    if not ths:
        raise Discard('no tree')
    big = [t for t in ths if size(d.proofs[t]) > 4]
    th = g.choice(big or ths)
    tree = d.proofs[th]
    if size(tree) > maxsize:
        raise Discard('large proof')
    k = g.draw(4)
    if full:
        start = hole(g, tree, 0.2) if k == 3 else tree
    elif k == 3:
        start = hole(g, tree, 0.25)
    elif k == 2 and g.bool(0.5):
        start = tree
    else:
        start = ('?', ())
    items = list(d.items)
    for i, it in enumerate(items):
        if it[0] == 'p' and it[1] == th:
            items[i] = ('p', th, it[2], mmref.rpn(start))
    return d, items, th, tree


def answer(g, s, out, quick=False):
    """answer the program's questions until it is back at its own prompt"""
    n = 0
    rej = g.bool(0.5)
    while s.prompt not in ('MM', 'MM-PA'):
        n += 1
        out += s('q' if quick or n > (60 if rej else 6) else 'r' if rej and g.bool(0.95) else g.choice(['a', '', 'r', 'q', 'A', 'R', 'x']))
        if n > 200:
            raise Violation('hang', f'questions without end: {out[-1000:]}')
    offers(out)
    return out


def prop(g, ctx):
    d, items, th, tree = setup(g)
    db = d.db
    a = db.labels[th]
    forms = pa.node_formulas(db, a, tree)
    text = mmgen.emit(items)
    chaos = g.bool(0.35)
    ctx.write('t.mm', text)
    exe = ctx.env['asan'] if g.bool(0.06) else ctx.env['plain']
    before = [b.label for b in db.order if b.index < a.index]
    hl = [h.label for h in a.mand + a.optf]
    log = []
    lost = False         # the hidden proof may no longer be a solution
    empties = pa.has_empty(forms) or any(len(b.toks) == 1 and b.toks[0] in d.types for b in db.order)
    with Live(exe, ctx.dir, width=20000) as s:
        def do(c, quick=False):
            nonlocal lost
            log.append(c)
            ctx.show(text + '\n' + '\n'.join(log))
            out = answer(g, s, s(c), quick)
            if 'timed out' in out or 'timeout occurred' in out:
                raise Discard('unification timeout')
            if 'THERE IS AN ERROR' in out and not lost:
                raise Violation('error-claimed', f'{log}: {out[:800]}')
            return out
        out = do('read t.mm')
        if '?Error' in out:
            raise Violation('read', out)
        if empties:
            do('set empty_substitution on')
        if g.bool(0.2):
            do('set jeremy_henty_filter on')
        do(f'prove {th}')
        st = pa.show(s)
        pa.judge(st, db, th)
        nops = g.int(1, 14)
        applied = 0
        for _ in range(nops):
            unk = st.unknown()
            al = pa.align(st, tree, forms)
            good = [n for n in unk if n in al]
            ops = [('unify', 1), ('improve', 3), ('init', 1), ('delete', 1), ('undo', 2), ('redo', 1)]
            if good:
                ops.append(('assign', 12))
                ops.append(('let', 2))
            if chaos:
                ops += [('wrong', 3), ('letvar', 2), ('replace', 2), ('unifystep', 5 if any(x.source is not None for x in st.steps.values()) else 1), ('unifyint', 3 if any(x.source is not None for x in st.steps.values()) else 1), ('letwrong', 1)]
            op = g.weighted(ops)
            prev = st
            cmd = None
            if op in ('wrong', 'letwrong', 'letvar', 'replace', 'unifystep', 'unifyint'):
                lost = True
            if op == 'assign':
                n = g.choice(good)
                lab = al[n][0][0]
                eu = [x for x in unk if x in st.essential(db)]
                how = g.choice([str(n), str(n)] + (['last' if n == eu[-1] else str(n), 'first' if n == eu[0] else str(n), f'-{len(eu) - 1 - eu.index(n)}', f'+{eu.index(n)}'] if n in eu else []))
                cmd = f'assign {how} {lab} / no_unify'
                out = do(cmd)
                st = pa.show(s)
                if not lost:
                    if 'cannot be unified' in out:
                        raise Violation('assign-refused', f'{log}: {lab} proves step {n} in a known proof, but: {out[:600]}\n{prev.text}')
                    if [x for x in st.rpn() if x != '?'] == [x for x in prev.rpn() if x != '?']:
                        raise Violation('assign-ignored', f'{log}: {out[:600]}\n{prev.text}\n{st.text}')
                applied += 1
            elif op == 'wrong':
                if not unk:
                    continue
                n = g.choice(unk)
                cmd = f'assign {n} {g.choice(before + hl if before + hl else [th])}' + g.choice(['', ' / no_unify'])
                out = do(cmd)
            elif op == 'let':
                cand = [n for n in al if st.steps[n].label == '?' or g.bool(0.1)]
                if not cand:
                    continue
                n = g.choice(cand)
                f = ' '.join(al[n][1])
                if '"' in f and "'" in f:
                    continue
                q = "'" if '"' in f else '"'
                cmd = f'let step {n} = {q}{f}{q}'
                out = do(cmd)
                if 'cannot be unified' in out and not lost:
                    raise Violation('let-refused', f'{log}: {out[:600]}\n{prev.text}')
            elif op == 'letwrong':
                n = g.int(1, st.root)
                f = ' '.join(st.steps[g.int(1, st.root)].target)
                if "'" in f or '"' in f:
                    continue
                cmd = f"let step {n} = '{f}'"
                out = do(cmd)
            elif op == 'letvar':
                dm = sorted(set(t for x in st.steps.values() for t in x.target if t[0] == '$'))
                if not dm:
                    continue
                f = ' '.join(g.choice([t for x in st.steps.values() for t in [x.target[1:]]]))
                if "'" in f or '"' in f or not f:
                    continue
                cmd = f"let variable {g.choice(dm)} = '{f}'"
                out = do(cmd)
            elif op == 'replace':
                if not before:
                    continue
                cmd = f'replace {g.int(1, st.root)} {g.choice(before)}'
                out = do(cmd)
            elif op == 'unify':
                cmd = 'unify all'
                out = do(cmd)
            elif op == 'unifystep':
                amb = [n for n, x in st.steps.items() if x.source is not None]
                cmd = f'unify step {g.choice(amb) if amb and g.bool(0.8) else g.int(1, st.root)}'
                out = do(cmd)
            elif op == 'unifyint':
                cmd = 'unify all / interactive'
                out = do(cmd)
            elif op == 'improve':
                w = g.choice(['all', 'all', 'last', 'first', str(g.int(1, st.root))])
                cmd = f'improve {w}' + g.choice(['', '', ' / depth 1', ' / 2', ' / 3', ' / no_distinct', ' / 2 / depth 1', ' / 3 / subproofs' if w == 'all' else ''])
                if '/ 2' in cmd or '/ 3' in cmd:
                    lost = True     # these guess working variables
                out = do(cmd)
            elif op == 'init':
                cmd = g.choice(['initialize all', 'initialize user', f'initialize step {g.int(1, st.root)}'])
                out = do(cmd)
            elif op == 'delete':
                cmd = g.choice([f'delete step {g.int(1, st.root)}', f'delete step {g.int(1, st.root)}', 'delete floating_hypotheses', 'delete all'])
                out = do(cmd)
            else:
                cmd = op
                out = do(cmd)
            st = pa.show(s)
            if 'Could not simultaneously unify the hypotheses' in out:
                # the program reports an invalid subproof and gives up on it: the user must have entered it
                if not lost or (op == 'improve' or op == 'replace' and all(x.source is None for x in prev.steps.values())) and not pa.bad_subtree(db, a, prev.tree()):
                    raise Violation('invalid-subproof', f'{log}: {out[:800]}\nbefore:\n{prev.text}')
                ctx.count('given_up')
                s.close()
                return
            if op == 'improve' and not lost:
                # improving an ambiguous step may choose another reading than the hidden proof
                al = pa.align(st, tree, forms)
                lost = any(st.steps[n].target != list(al[n][1]) and not any(t[0] == '$' for t in st.steps[n].target) for n in al)
            try:
                pa.judge(st, db, th)
            except Violation as v:
                raise Violation(v.kind, f'{log}: {v.msg}\nbefore:\n{prev.text}')
            said = 'CONGRATULATIONS' in out
            if said and not st.complete():
                raise Violation('not-complete', f'{log}: said to be complete:\n{st.text}')
            if not said and cmd.startswith(('assign', 'unify', 'let', 'improve')) and st.complete() and not prev.complete():
                raise Violation('complete-unsaid', f'{log}: {out}\n{st.text}')
            ctx.count(op)
        if not lost and g.bool(0.8):
            # finish the known proof: assign what is missing, then state every formula
            for _ in range(400):
                unk = st.unknown()
                al = pa.align(st, tree, forms)
                good = [n for n in unk if n in al]
                if not unk:
                    break
                if not good:
                    # an improvement took another way and was undone in part: take it back
                    bad = [n for n in al if st.steps[n].label != al[n][0][0]]
                    if not bad:
                        raise Violation('alignment', f'{log}: unknown steps outside the known proof:\n{st.text}')
                    do(f'delete step {bad[-1]}')
                    st = pa.show(s)
                    pa.judge(st, db, th)
                    ctx.count('took_back')
                    continue
                n = good[-1]
                out = do(f'assign {n} {al[n][0][0]} / no_unify')
                if 'cannot be unified' in out:
                    raise Violation('assign-refused', f'{log}: {out[:600]}\n{st.text}')
                st = pa.show(s)
                pa.judge(st, db, th)
            if not st.complete():
                do('unify all')
                st = pa.show(s)
            if not st.complete():
                al = pa.align(st, tree, forms)
                for n in sorted(al, reverse=True):
                    f = ' '.join(al[n][1])
                    if '"' in f and "'" in f:
                        raise Discard('both quotes')
                    q = "'" if '"' in f else '"'
                    out = do(f'let step {n} = {q}{f}{q}')
                    if 'cannot be unified' in out:
                        raise Violation('let-refused', f'{log}: {out[:600]}\n{st.text}')
                do('unify all')
                st = pa.show(s)
                pa.judge(st, db, th)
                ctx.count('needed_let')
            if not st.complete() and not all(ambiguous(x, empties) for x in st.steps.values()):
                raise Violation('stuck', f'{log}: the known proof was entered completely, but:\n{st.text}')
            ctx.count('finished')
        # save, leave, verify
        f = g.choice(['', ' / normal', ' / compressed', ' / packed', ' / explicit', ' / compressed / old_compression'])
        do('save new_proof' + f)
        do('exit')
        if s.prompt != 'MM':
            raise Violation('exit', f'{log}: {s.all[-600:]}')
        out = do('verify proof *')
        do('write source o.mm')
    bad = mm.verify_errors(out)
    m = out.find('were not proved:')
    listed = set(out[m + 16:].replace(',', ' ').split()) if m >= 0 else set()
    saved = st.rpn()
    new = ctx.read('o.mm')
    src = re.sub(r'(?s)^.*\$=', '', '')
    db2 = mmref.parse(new)
    a2 = db2.labels[th]
    try:
        dec = mmref.decode(db2, a2, a2.proof) if f in ('', ' / normal') else None
    except mmref.MMError as e:
        raise Violation('saved', f'{log}: the saved proof of {th} is malformed ({e}):\n{new}')
    arity = {x.label: len(x.mand) for x in db.order}
    hy = {x.label: [h.label for h in x.mand] for x in db.order}
    try:
        if 'compressed' in f:
            r = notation.dec_compressed(a2.proof, hy[th], arity)[0]
        else:
            r = notation.dec_text(a2.proof, arity, 'explicit' in f, hy, th)
    except notation.Bad as e:
        raise Violation('saved', f'{log}: the saved proof of {th} is malformed ({e}):\n{new}')
    if r != saved:
        raise Violation('saved-differs', f'{log}: shown {saved}\nsaved {r}')
    for x in db.order:
        if x.kind == 'p' and x.label != th and db2.labels[x.label].proof != x.proof:
            raise Violation('other-proof', f'{log}: the proof of {x.label} changed:\n{new}')
    if '?' in r:
        verdict = 'unknown'
    else:
        try:
            verdict = run(db, a, r)
        except mmref.MMError as e:
            verdict = 'bad: ' + str(e)
    if st.complete() and verdict.startswith('bad') and 'disjoint' not in verdict and '$d' not in verdict:
        raise Violation('complete-invalid', f'{log}: {verdict}:\n{st.text}')
    if verdict == 'ok' and (bad or th in listed) or verdict == 'unknown' and th not in listed or verdict.startswith('bad') and th not in bad:
        raise Violation('verdict', f'{log}: reference: {verdict}; the program: {out[:1500]}')
    ctx.key(text, log)
    ctx.count('complete', st.complete())
    ctx.nontrivial(applied > 0 or st.root > 3)


def matches(pat, text, empty, limit=2):
    """number of ways (up to limit) to bind the working variables of pat to give text"""
    lo = 0 if empty else 1
    n = 0
    budget = [20000]

    def go(i, j, sub):
        nonlocal n
        budget[0] -= 1
        if n >= limit or budget[0] < 0:
            return
        if i == len(pat):
            n += j == len(text)
            return
        t = pat[i]
        if t[0] != '$':
            if j < len(text) and text[j] == t:
                go(i + 1, j + 1, sub)
            return
        if t in sub:
            v = sub[t]
            if text[j:j + len(v)] == v:
                go(i + 1, j + len(v), sub)
            return
        for e in range(j + lo, len(text) + 1):
            sub[t] = text[j:e]
            go(i + 1, e, sub)
            del sub[t]
    go(0, 0, {})
    return limit if budget[0] < 0 else n


def ambiguous(x, empty):
    """nothing in this step determines a unique unification"""
    for o in (x.source, x.user):
        if o is None or o == x.target:
            continue
        if any(t[0] == '$' for t in o):
            continue
        if matches(x.target, o, empty) < 2:
            return False
    return True


def run(db, a, labels):
    return mmref.run_steps(db, a, [mmref.lookup(db, a, l) for l in labels])


CHECK = Check('C11', prop, quick=3000, thorough=100000, builds=('plain', 'asan'),
              rule='random databases and theorems with a hidden proof; random interactive Proof Assistant sessions; after every command the displayed partial proof is judged; '
                   'non-trivial = a statement was assigned or the proof has over 3 steps; distinct by source and commands')

"""C13  MINIMIZE_WITH keeps proofs correct, obeys its restrictions and never makes them longer."""
import re
from lib import mm, mmgen, mmref, notation, pa
from lib.core import Check, Violation, Discard
from lib.live import Live
from checks.c11 import setup, run, matches


def pattern(g, labels):
    k = g.draw(8)
    if k in (0, 6, 7) or not labels:
        return '*'
    l = g.choice(labels)
    if k == 1:
        return l
    if k == 2:
        return ','.join(dict.fromkeys(g.choice(labels) for _ in range(g.int(2, 4))))
    if k == 3:
        return l[:g.int(1, len(l))] + '*'
    if k == 4:
        i = g.draw(len(l))
        return l[:i] + '?' + l[i + 1:]
    return '*' + l[g.draw(len(l)):]


def prop(g, ctx):
    d, items, th, tree = setup(g, 60, dvprob=g.choice([0.3, 0.7]), nax=g.choice([(2, 5), (5, 9)]), nthm=g.choice([(1, 4), (4, 8)]))
    db = d.db
    a = db.labels[th]
    # a longer proof: expand some of the theorems used
    t = tree
    thms = [b.label for b in db.order if b.kind == 'p' and b.index < a.index]
    for l in reversed(thms):
        if g.bool(0.7):
            try:
                t2 = pa.expand_uses(db, t, l, 1000)
            except Discard:
                break
            if '?' not in pa.labels_of(t2):
                t = t2
    unknown = g.bool(0.1)
    if unknown:
        k = g.int(0, pa.tree_size(t) - 1)
        cnt = [0]

        def cut(x):
            cnt[0] += 1
            if cnt[0] - 1 == k:
                return ('?', ())
            return (x[0], tuple(cut(y) for y in x[1]))
        t = cut(t)
    if pa.tree_size(t) > 400:
        raise Discard('large')
    for i, it in enumerate(items):
        if it[0] == 'p' and it[1] == th:
            items[i] = ('p', th, it[2], mmref.rpn(t))
    text = mmgen.emit(items)
    ctx.write('t.mm', text)
    exe = ctx.env['asan'] if g.bool(0.06) else ctx.env['plain']
    before = [b.label for b in db.order if b.index < a.index]
    log = []
    empt = pa.has_empty(pa.node_formulas(db, a, tree)) or any(len(b.toks) == 1 and b.toks[0] in d.types for b in db.order)
    changed = 0

    def verdict(labels):
        if '?' in labels:
            return 'unknown'
        try:
            return run(db, a, labels)
        except mmref.MMError as e:
            return 'bad: ' + str(e)

    with Live(exe, ctx.dir, width=20000) as s:
        def do(c):
            log.append(c)
            out = s(c)
            ctx.show(text + '\n' + '\n'.join(log))
            if 'timed out' in out or 'timeout occurred' in out:
                raise Discard('unification timeout')
            if s.prompt not in ('MM', 'MM-PA'):
                raise Violation('prompt', f'{log}: {out}')
            return out

        out = do('read t.mm')
        if '?Error' in out:
            raise Violation('read', out)
        if empt:
            do('set empty_substitution on')
        do(f'prove {th}')
        st = pa.show(s)
        for _ in range(g.int(1, 4)):
            old = st
            olab = old.rpn()
            otree = old.tree()
            v0 = verdict(olab)
            p = pattern(g, before)
            q = ''
            exc = forb = allow = nonew = None
            if g.bool(0.2):
                exc = pattern(g, before)
                q += f' / except {exc}'
            if g.bool(0.2):
                forb = pattern(g, before)
                q += f' / forbid {forb}'
            if g.bool(0.7):
                allow = pattern(g, before) if g.bool(0.3) else '*'
                q += f' / allow_new_axioms {allow}'
            if g.bool(0.3):
                nonew = pattern(g, before)
                q += f' / no_new_axioms_from {nonew}'
            # with MAY_GROW every statement can double the proof
            grow = g.bool(0.3) and len(olab) < 200 and sum(pa.matches_list(l, p) for l in before) <= 3
            if grow:
                q += ' / may_grow'
            if g.bool(0.3):
                q += ' / verbose'
            if g.bool(0.2):
                q += ' / override'
            if g.bool(0.2):
                q += ' / include_mathboxes'
            w = g.choice([20000, 20000, 79, 30, 45])
            size0 = psize(do, s, th)
            if w != 20000:
                do(f'set width {w}')
            out = do(f'minimize_with {p}{q}')
            if w != 20000:
                do('set width 20000')
            st = pa.show(s)
            pa.judge(st, db, th)
            nlab = st.rpn()
            same = nlab == olab
            ctx.count('same', same)
            v1 = verdict(nlab)
            what = f'{log}: {out[:1500]}\nbefore:\n{old.text}\nafter:\n{st.text}'
            if v1 != v0 and not (v0 == 'unknown' and not v1.startswith('bad')) and not v0.startswith('bad'):
                raise Violation('broken-proof', f'{v0} -> {v1}: {what}')
            if not grow:
                if not same and len(nlab) >= len(olab):
                    raise Violation('longer', f'{len(olab)} -> {len(nlab)} steps: {what}')
                size1 = psize(do, s, th)
                if size1 is not None and size0 is not None and size1 > size0:
                    raise Violation('longer', f'{size0} -> {size1} bytes: {what}')
            sel = [l for l in before if pa.matches_list(l, p) and not (exc and pa.matches_list(l, exc))
                   and not (forb and pa.matches_list(l, forb))]
            flat = ' '.join(out.split())
            if not sel and not same:
                raise Violation('changed', f'nothing matches, but the proof changed: {what}')
            if w > 70 and not same and re.search(r'No shorter proof was found|The proof was not changed|No earlier', flat):
                raise Violation('said-unchanged', what)
            if w > 70 and same and ('decreased' in flat or 'increased' in flat) and not grow:
                raise Violation('said-changed', what)
            new = set(nlab) - set(olab)
            ax0 = set(l for l in pa.essential_closure(db, pa.essential_labels(db, otree)) if db.labels[l].kind == 'a')
            for l in new:
                if l == '?' or isinstance(db.labels[l], mmref.Hyp):
                    continue
                if l not in sel and l not in syntax_labels(db, st.tree()):
                    raise Violation('not-selected', f'{l} is used but was not selected by {p}{q}: {what}')
                if l in sel and l not in syntax_labels(db, st.tree()):
                    cl = pa.essential_closure(db, [l])
                    for x in cl:
                        if db.labels[x].kind != 'a' or x in ax0:
                            continue
                        if not (allow and pa.matches_list(x, allow)) or nonew and pa.matches_list(x, nonew):
                            raise Violation('new-axiom', f'{l} depends on {x}, which was not used before and is not allowed: {what}')
                    if forb and db.labels[l].kind == 'p':
                        for x in pa.closure(db, [l]):
                            if pa.matches_list(x, forb):
                                raise Violation('forbidden', f'{l} depends on {x}: {what}')
            changed += not same
            # a statement which gives the whole theorem at once must be found
            if same and allow == '*' and not nonew and not forb and '?' not in olab and not old.dummies():
                for l in sel:
                    b = db.labels[l]
                    if b.dvs or any(h.kind == 'e' for h in b.mand):
                        continue
                    names = {h.toks[1]: '$' + h.toks[1] for h in b.mand}
                    pat = [names.get(x, x) for x in b.toks]
                    types = {h.toks[1]: h.toks[0] for h in b.mand}
                    if matches(pat, a.toks, empt) != 1 or olab[-1] == l:
                        continue
                    # its syntax is already proved in the proof
                    sub = bind(pat, a.toks, empt)
                    kids = []
                    for h in b.mand:
                        f = [h.toks[0]] + sub['$' + h.toks[1]]
                        n = [x for x in old.steps.values() if x.target == f and x.n < old.root]
                        if not n:
                            break
                        kids.append(old.tree(n[0].n))
                    else:
                        total = 1 + sum(pa.tree_size(k) for k in kids)
                        if grow and p == l or not grow and total < len(olab) and psize(do, s, th) > 6 + len(th) + sum(len(x) + 3 for x in set().union(*[pa.labels_of(k) for k in kids], {l})) + total * 3:
                            raise Violation('missed', f'{l} gives the theorem at once ({total} steps): {what}')
            ctx.count('changed', not same)
    ctx.key(text, log)
    ctx.nontrivial(changed > 0)


def bind(pat, text, empty):
    """the unique solution found by matches()"""
    lo = 0 if empty else 1
    res = []

    def go(i, j, sub):
        if res:
            return
        if i == len(pat):
            if j == len(text):
                res.append(dict(sub))
            return
        t = pat[i]
        if t[0] != '$':
            if j < len(text) and text[j] == t:
                go(i + 1, j + 1, sub)
            return
        if t in sub:
            v = sub[t]
            if text[j:j + len(v)] == v:
                go(i + 1, j + len(v), sub)
            return
        for e in range(j + lo, len(text) + 1):
            sub[t] = text[j:e]
            go(i + 1, e, sub)
            del sub[t]
    go(0, 0, {})
    return res[0]


def syntax_labels(db, tree):
    """labels used only inside floating subproofs"""
    return pa.labels_of(tree) - pa.essential_labels(db, tree)


def psize(do, s, th):
    """size of the compressed proof"""
    out = do('show new_proof / compressed')
    m = re.search(r'\(.*\) *[A-Z?\s]+', out)
    return len(' '.join(m.group(0).split())) if m else None


CHECK = Check('C13', prop, quick=2500, thorough=100000, builds=('plain', 'asan'),
              rule='random theorems whose proofs were lengthened by expanding earlier theorems; random MINIMIZE_WITH commands with all qualifiers; '
                   'non-trivial = a proof was changed; distinct by source and commands')

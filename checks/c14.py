"""C14  EXPAND inlines exactly the proofs of the chosen theorems."""
import re
from lib import mm, mmgen, mmref, pa
from lib.core import Check, Violation, Discard
from lib.live import Live
from checks.c11 import setup, run
from checks.c13 import pattern


def prop(g, ctx):
    d, items, th, tree = setup(g, 60, full=g.bool(0.9), chain=0.6, nthm=g.choice([(2, 5), (4, 9)]), unknown=g.choice([0, 0.1, 0.3]))
    db = d.db
    a = db.labels[th]
    text = mmgen.emit(items)
    db = mmref.parse(text)
    a = db.labels[th]
    ctx.write('t.mm', text)
    exe = ctx.env['asan'] if g.bool(0.06) else ctx.env['plain']
    thms = [b.label for b in db.order if b.kind == 'p' and b.index < a.index]
    before = [b.label for b in db.order if b.index < a.index]
    log = []
    n = 0
    with Live(exe, ctx.dir, width=20000) as s:
        def do(c):
            log.append(c)
            out = s(c)
            ctx.show(text + '\n' + '\n'.join(log))
            if 'timed out' in out or 'timeout occurred' in out:
                raise Discard('unification timeout')
            return out

        out = do('read t.mm')
        if '?Error' in out:
            raise Violation('read', out)
        do('set empty_substitution on')
        do(f'prove {th}')
        st = pa.show(s)
        judged = True
        for _ in range(g.int(1, 4)):
            old = st
            p = pattern(g, thms if thms and g.bool(0.8) else before)
            sel = [l for l in reversed(thms) if pa.matches_list(l, p)]
            want = old.tree()
            expanded = []
            for l in sel:
                t2 = pa.expand_uses(db, want, l, 3000)
                if t2 != want:
                    expanded.append(l)
                want = t2
            out = do(f'expand {p}')
            st = pa.show(s)
            what = f'{log}: {out[:1500]}\nbefore:\n{old.text}\nafter:\n{st.text}'
            if st.tree() != want:
                raise Violation('expansion', f'expected {mmref.rpn(want)}\n{what}')
            if 'unify the hypotheses' in out:
                if not pa.bad_subtree(db, a, want):
                    raise Violation('error', what)
                raise Discard('wrong proof in the database')
            pa.judge(st, db, th)
            said = re.findall(r'after expanding "([^"]*)"', out)
            if said != expanded:
                raise Violation('report', f'expanded {expanded}: {what}')
            if not expanded and st.text != old.text:
                raise Violation('changed', what)
            if ('No expansion occurred' in out) != (not expanded):
                raise Violation('report', what)
            n += len(expanded)
            if st.complete() != ('?' not in st.rpn()) and not st.dummies():
                raise Violation('incomplete', what)
        do('save new_proof')
        do('exit')
        out = do(f'verify proof {th}')
    labels = st.rpn()
    bad = mm.verify_errors(out)
    if '?' not in labels:
        try:
            v = run(db, a, labels)
        except mmref.MMError as e:
            v = 'bad ' + str(e)
        if (v == 'ok') != (th not in bad):
            raise Violation('verdict', f'{log}: {v}: {out[:600]}')
    ctx.key(text, log)
    ctx.count('expanded', n)
    ctx.nontrivial(n > 0)


CHECK = Check('C14', prop, quick=3000, thorough=100000, builds=('plain', 'asan'),
              rule='random theorems; random EXPAND commands against tree substitution; non-trivial = something was expanded; distinct by source and commands')

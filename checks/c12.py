"""C12  UNDO and REDO restore exactly the displayed proof; unsaved work is never dropped silently."""
import re
from lib import mm, mmgen, mmref, pa
from lib.core import Check, Violation, Discard
from lib.live import Live
from checks.c11 import setup


def norm(c):
    return ' '.join(c.replace("'", ' ').replace('"', ' ').split()).upper()


class Ent:
    __slots__ = ('cmd', 'before', 'after')


def prop(g, ctx):
    d, items, th, tree = setup(g)
    db = d.db
    a = db.labels[th]
    forms = pa.node_formulas(db, a, tree)
    text = mmgen.emit(items)
    ctx.write('t.mm', text)
    exe = ctx.env['asan'] if g.bool(0.06) else ctx.env['plain']
    before = [b.label for b in db.order if b.index < a.index]
    hl = [h.label for h in a.mand + a.optf]
    log = []
    undone = 0
    with Live(exe, ctx.dir, width=20000) as s:
        def do(c):
            log.append(c)
            out = s(c)
            n = 0
            while s.prompt not in ('MM', 'MM-PA'):
                n += 1
                if n > 60:
                    raise Violation('hang', f'{log}: questions without end: {out[-1000:]}')
                q = s.prompt
                if 'What statement' in q or 'to bypass' in q:
                    m = out.rfind('matches statements:')
                    labs = out[m:].split('\n')[0].split(':')[1].split()
                    r = g.choice(['', g.choice(labs), g.choice(labs), 'nonsense', labs[0] + ' ' + labs[-1]]) if n < 20 else ''
                elif 'Accept' in q:
                    r = g.choice(['a', '', 'r', 'q', 'A', 'R', 'x']) if n < 20 else 'q'
                else:
                    r = 'n'
                if g.bool(0.01):
                    # the input ends at a question
                    s.close()
                    ctx.count('eof')
                    return None
                log.append('    ' + r)
                out += s(r)
            ctx.show(text + '\n' + '\n'.join(log))
            if 'timed out' in out or 'timeout occurred' in out:
                raise Discard('unification timeout')
            return out

        out = do('read t.mm')
        if '?Error' in out:
            raise Violation('read', out)
        limit = g.choice([20, 1, 0, 2, 3, 5, 20])
        do(f'set undo {limit}')
        if pa.has_empty(forms):
            do('set empty_substitution on')
        if do(f'prove {th}') is None:
            return
        st = pa.show(s)
        saved = st.rpn()
        ents = []       # possible undo entries, oldest first
        pos = 0         # entries below pos can be undone, those from pos on redone
        floor = 0       # entries below this may have been dropped
        full = False
        for _ in range(g.int(3, 25)):
            unk = st.unknown()
            al = pa.align(st, tree, forms)
            good = [n for n in unk if n in al]
            op = g.weighted([('undo', 8 if pos else 2), ('redo', 10 if pos < len(ents) else 1), ('assign', 8 if good else 0), ('wrong', 1), ('let', 2), ('unify', 2), ('improve', 3), ('init', 2), ('delete', 3),
                             ('replace', 1), ('match', 3), ('minimize', 2), ('expand', 2), ('save', 1), ('saveproof', 1), ('setundo', 1), ('exit', 2), ('unifyint', 1), ('letvar', 1)])
            prev = st
            w = str(g.int(1, st.root + (g.draw(8) == 0)))
            if op == 'undo' or op == 'redo':
                c = op
            elif op == 'assign':
                n = g.choice(good)
                c = f'assign {n} {al[n][0][0]}' + g.choice([' / no_unify', ''])
            elif op == 'wrong':
                c = f'assign {w} {g.choice(before + hl if before + hl else [th])}'
            elif op == 'let':
                n = g.choice(sorted(al))
                f = ' '.join(al[n][1])
                if '"' in f and "'" in f:
                    continue
                q = "'" if '"' in f else '"'
                c = f'let step {n} = {q}{f}{q}'
            elif op == 'letvar':
                dm = sorted(set(t for x in st.steps.values() for t in x.target if t[0] == '$'))
                f = ' '.join(g.choice([x.target[1:] for x in st.steps.values()]))
                if not dm or "'" in f or '"' in f or not f:
                    continue
                c = f"let variable {g.choice(dm)} = '{f}'"
            elif op == 'unify':
                c = g.choice(['unify all', f'unify step {w}'])
            elif op == 'unifyint':
                c = 'unify all / interactive'
            elif op == 'improve':
                c = f'improve {g.choice(["all", "all", w])}' + g.choice(['', '', ' / depth 1', ' / 2', ' / 3'])
            elif op == 'init':
                c = g.choice(['initialize all', 'initialize user', f'initialize step {w}'])
            elif op == 'delete':
                c = g.choice([f'delete step {w}', f'delete step {w}', 'delete floating_hypotheses', 'delete all'])
            elif op == 'replace':
                if not before:
                    continue
                c = f'replace {w} {g.choice(before)}'
            elif op == 'match':
                c = g.choice([f'match step {w}', 'match all', 'match all / essential', f'match step {g.choice(unk) if unk else w}', 'match all / max_essential_hyp 0'])
            elif op == 'minimize':
                c = f'minimize_with {g.choice(before + ["*"])}' + g.choice(['', '', ' / may_grow', ' / verbose'])
            elif op == 'expand':
                c = f'expand {g.choice([x.label for x in db.order if x.kind == "p" and x.index < a.index] + ["*"])}'
            elif op == 'save':
                c = 'save new_proof' + g.choice(['', ' / compressed'])
            elif op == 'saveproof':
                c = f'save proof {g.choice([x.label for x in db.order if x.kind == "p"] + ["*"])}' + g.choice(['', ' / compressed', ' / packed'])
            elif op == 'setundo':
                c = f'set undo {g.choice([1, 2, 4, 20, limit])}'
            else:
                c = 'exit'
            out = do(c)
            if out is None:
                return
            if op == 'exit':
                warned = 'have not saved changes' in out
                if not warned:
                    if s.prompt != 'MM':
                        raise Violation('exit', f'{log}: EXIT did not leave: {out}')
                    if st.rpn() != saved:
                        raise Violation('lost-work', f'{log}: EXIT left without asking although the proof\n{prev.text}\nwas not saved')
                    ctx.count('left')
                    break
                if s.prompt != 'MM-PA':
                    raise Violation('exit', f'{log}: EXIT answered with N left the Proof Assistant: {out}')
            st = pa.show(s)
            same = st.text == prev.text
            ctx.count(op)
            if op == 'exit':
                if not same:
                    raise Violation('exit', f'{log}: EXIT answered with N changed the proof:\n{prev.text}\n{st.text}')
            elif op == 'save':
                saved = st.rpn()
                if not same:
                    raise Violation('save', f'{log}: SAVE NEW_PROOF changed the proof:\n{prev.text}\n{st.text}')
            elif op == 'saveproof':
                # (the stored proofs only)
                if not same:
                    raise Violation('save', f'{log}: SAVE PROOF changed the new proof:\n{prev.text}\n{st.text}')
            elif op == 'setundo':
                n = int(c.split()[2])
                if n != limit:
                    limit = n
                    ents, pos, floor, full = [], 0, 0, False
                if not same:
                    raise Violation('setundo', f'{log}: SET UNDO changed the proof')
            elif op == 'undo':
                if out.startswith('Undid:'):
                    what = norm(out.split('\n')[0][6:])
                    i = pos
                    found = None
                    while i > 0:
                        e = ents[i - 1]
                        if norm(e.cmd) == what and e.before == st.text:
                            found = i - 1
                            break
                        if e.before != e.after:
                            break
                        i -= 1
                    if found is None:
                        raise Violation('undo', f'{log}: {out.splitlines()[0]}\nbefore:\n{prev.text}\nafter:\n{st.text}\nexpected to undo {ents[pos - 1].cmd if pos else "nothing"}'
                                        + (f' giving\n{ents[i - 1].before}' if i else ''))
                    del ents[found + 1:pos]
                    pos = found
                    floor = min(floor, len(ents))
                    undone += 1
                else:
                    over = out.startswith('Exceeded maximum')
                    if not over and not out.startswith('There is nothing to undo'):
                        raise Violation('undo', f'{log}: {out}')
                    if not same:
                        raise Violation('undo', f'{log}: refused, but the proof changed:\n{prev.text}\n{st.text}')
                    lo = floor if over else 0
                    if any(e.before != e.after for e in ents[lo:pos]) or over and not full:
                        raise Violation('undo-refused', f'{log}: {out} (limit {limit})\n{prev.text}')
            elif op == 'redo':
                if out.startswith('Redid:'):
                    what = norm(out.split('\n')[0][6:])
                    i = pos
                    found = None
                    while i < len(ents):
                        e = ents[i]
                        if norm(e.cmd) == what and e.after == st.text:
                            found = i
                            break
                        if e.before != e.after:
                            break
                        i += 1
                    if found is None:
                        raise Violation('redo', f'{log}: {out.splitlines()[0]}\nbefore:\n{prev.text}\nafter:\n{st.text}\nexpected to redo {ents[pos].cmd if pos < len(ents) else "nothing"}'
                                        + (f' giving\n{ents[i].after}' if i < len(ents) else ''))
                    pos = found + 1
                    ctx.count('redone')
                else:
                    if not out.startswith('There is nothing more to redo'):
                        raise Violation('redo', f'{log}: {out}')
                    if not same or any(e.before != e.after for e in ents[pos:]):
                        raise Violation('redo-refused', f'{log}: {out}\n{prev.text}')
            else:
                e = Ent()
                e.cmd, e.before, e.after = c, prev.text, st.text
                if same:
                    # it may or may not count as a change; if it does, nothing can be redone any more
                    tail = ents[pos:]
                    if tail:
                        r = do('redo')
                        x = pa.show(s)
                        if r.startswith('Redid:'):
                            if norm(r.split('\n')[0][6:]) != norm(tail[0].cmd) and any(t.before != t.after for t in tail):
                                i = 0
                                while tail[i].before == tail[i].after and norm(r.split('\n')[0][6:]) != norm(tail[i].cmd):
                                    i += 1
                                if norm(r.split('\n')[0][6:]) != norm(tail[i].cmd):
                                    raise Violation('redo', f'{log}: {r}')
                            r = do('undo')
                            x = pa.show(s)
                            if x.text != st.text:
                                raise Violation('undo', f'{log}: REDO and UNDO do not cancel:\n{st.text}\n{x.text}')
                            continue
                        if x.text != st.text:
                            raise Violation('redo', f'{log}: {r}\n{st.text}\n{x.text}')
                del ents[pos:]
                ents.append(e)
                pos = len(ents)
                floor = min(floor, pos)
                if pos - floor > limit:
                    floor = pos - limit
                    full = True
            ctx.show(text + '\n' + '\n'.join(log))
    ctx.key(text, log)
    ctx.nontrivial(undone > 0)


CHECK = Check('C12', prop, quick=2000, thorough=60000, builds=('plain', 'asan'),
              rule='random Proof Assistant histories of all proof-changing commands with UNDO, REDO, SET UNDO, SAVE and EXIT against a history model; '
                   'non-trivial = something was undone; distinct by source and commands')

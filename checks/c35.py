"""C35  A command of the Proof Assistant changes the part of the proof it names, nothing else, and reports it truthfully."""
import re
from lib import mm, mmgen, pa
from lib.core import Check, Violation, Discard
from lib.live import Live
from checks.c11 import setup, answer, matches

UNK = ('?', ())


def paths(st):
    """step number -> path from the root, and the reverse"""
    out = {}

    def go(n, p):
        out[n] = p
        for i, k in enumerate(st.steps[n].kids):
            go(k, p + (i,))
    go(st.root, ())
    return out


def at(t, p):
    for i in p:
        t = t[1][i]
    return t


def put(t, p, x):
    if not p:
        return x
    return (t[0], t[1][:p[0]] + (put(t[1][p[0]], p[1:], x),) + t[1][p[0] + 1:])


def whole(t):
    return t[0] != '?' and all(whole(k) for k in t[1])


def count(t):
    return 1 + sum(count(k) for k in t[1])


def floats(st, db):
    """the tree with every part that proves a floating hypothesis deleted"""
    def go(n):
        s = st.steps[n]
        ks = []
        for i, k in enumerate(s.kids):
            ks.append(UNK if db.labels[s.label].mand[i].kind == 'f' else go(k))
        return (s.label, tuple(ks))
    return go(st.root)


def blocks(text):
    """the lines of a display, by step"""
    out = {}
    cur = None
    for ln in text.split('\n'):
        if not ln.strip():
            continue
        m = re.match(r' *(\d+) ', ln)
        if m and pa.LINE.match(ln):
            cur = int(m.group(1))
            out[cur] = []
        if cur is None:
            raise Violation('display', f'unexpected line {ln!r} in\n{text}')
        out[cur].append(' '.join(ln.split()))
    return out


def prop(g, ctx):
    d, items, th, tree = setup(g, maxsize=45)
    db = d.db
    a = db.labels[th]
    forms = pa.node_formulas(db, a, tree)
    text = mmgen.emit(items)
    ctx.write('t.mm', text)
    before = [b.label for b in db.order if b.index < a.index]
    hl = [h.label for h in a.mand + a.optf]
    hyps = [h.toks for h in a.mand + a.optf]
    empties = pa.has_empty(forms) or any(len(b.toks) == 1 and b.toks[0] in d.types for b in db.order)
    log = []
    done = 0
    with Live(ctx.env['plain'], ctx.dir, width=20000) as s:
        def choose(out):
            """answer the questions of MATCH"""
            while True:
                if s.prompt.startswith('What statement to select'):
                    m = re.findall(r'matches statements: +(.*)', out) + re.findall(r'which may or may not match: +(.*)', out.split('matches statements')[-1])
                    x = g.choice(m[-1].split() + [''])
                elif 'View them' in s.prompt:
                    x = g.choice(['y', 'n'])
                else:
                    return out
                log.append(x)
                out += f'<{s.prompt}> {x}\n' + s(x)

        def do(c):
            log.append(c)
            ctx.show(text + '\n' + '\n'.join(log))
            out = s(c)
            if c.startswith('match'):
                out = choose(out)
            out = answer(g, s, out)
            if 'timed out' in out or 'timeout occurred' in out:
                raise Discard('unification timeout')
            return out
        out = do('read t.mm')
        if '?Error' in out:
            raise Violation('read', out)
        if empties:
            do('set empty_substitution on')
        do(f'set search_limit {g.choice([50, 300])}')
        do(f'prove {th}')
        st = pa.show(s)
        for _ in range(g.int(2, 14)):
            prev = st
            P = paths(prev)
            old = prev.tree()
            ess = prev.essential(db)
            unk = prev.unknown()
            eu = [n for n in unk if n in ess]
            al = pa.align(prev, tree, forms)
            op = g.weighted([('assign', 12), ('let', 3), ('letvar', 2), ('replace', 4), ('unify', 2), ('improve', 5), ('delete', 3), ('float', 1), ('all', 1), ('init', 2), ('match', 2), ('show', 3)])

            stated = any(t[0] == '$' for x in prev.steps.values() for t in x.user or ())
            if stated and g.bool(0.3):
                op = 'init'

            def address(n):
                """a way to name step n"""
                hows = [str(n), str(n)]
                if n in eu:
                    i = eu.index(n)
                    hows += [f'+{i}', f'-{len(eu) - 1 - i}']
                    if i == 0:
                        hows += ['first', 'f']
                    if i == len(eu) - 1:
                        hows += ['last', 'l']
                return g.choice(hows)

            def pick():
                """a step and a name for it; sometimes there is no such step"""
                if g.bool(0.07):
                    return None, g.choice(['0', str(prev.root + 1), f'+{len(eu)}', f'-{len(eu)}', '999999'] + (['first', 'last'] if not eu else []))
                n = g.choice(eu) if eu and g.bool(0.5) else g.int(1, prev.root)
                return n, address(n)
            n = None
            if op == 'assign':
                good = [x for x in unk if x in al]
                if good and g.bool(0.75):
                    n = g.choice(good)
                    how, lab = address(n), al[n][0][0]
                else:
                    n, how = pick()
                    lab = g.choice(before + hl + [th])
                cmd = f'assign {how} {lab}' + g.choice([' / no_unify', ' / no_unify', ''])
            elif op == 'let':
                n, how = pick()
                f = al[n][1] if n in al and g.bool(0.7) else prev.steps[g.int(1, prev.root)].target
                if len(f) > 1 and g.bool(0.3):
                    # leave a part open
                    dm = sorted(set(t for x in prev.steps.values() for t in x.target if t[0] == '$'))
                    if dm:
                        f = list(f)
                        f[g.int(1, len(f) - 1)] = g.choice(dm)
                f = ' '.join(f)
                if '"' in f and "'" in f or not f:
                    continue
                q = "'" if '"' in f else '"'
                cmd = f'let step {how} = {q}{f}{q}'
            elif op == 'letvar':
                dm = sorted(set(t for x in prev.steps.values() for t in x.target if t[0] == '$'))
                if not dm:
                    continue
                v = g.choice(dm)
                f = g.choice([x.target[1:] for x in prev.steps.values()] + [x[1:] for _, x in al.values()] + [[g.choice(dm)]])
                if v in f or "'" in ' '.join(f) or not f:
                    continue
                cmd = f"let variable {v} = '{' '.join(f)}'"
            elif op == 'replace':
                if not before:
                    continue
                n, how = pick()
                lab = al[n][0][0] if n in al and al[n][0][0] in before and g.bool(0.8) else g.choice(before)
                cmd = f'replace {how} {lab}'
            elif op == 'unify':
                cmd = g.choice(['unify all', 'unify all / interactive', f'unify step {g.int(1, prev.root)}'])
            elif op == 'improve':
                n, how = pick()
                if g.bool(0.4):
                    n, how = 'all', 'all'
                sub = g.bool(0.3)
                alg = g.choice(['', '', '', ' / 2', ' / 3'])
                cmd = f'improve {how}{alg}' + g.choice(['', '', ' / depth 1', ' / no_distinct']) + (' / subproofs' if sub else '')
            elif op == 'delete':
                n = g.int(1, prev.root) if g.bool(0.93) else g.choice([0, prev.root + 1])
                cmd = f'delete step {n}'
            elif op == 'float':
                cmd = 'delete floating_hypotheses'
            elif op == 'all':
                cmd = 'delete all'
                if g.bool(0.8):
                    continue
            elif op == 'match':
                cmd = g.choice(['match all', 'match all / essential', f'match step {(n := g.int(1, prev.root))}'])
                if 'all' in cmd:
                    n = None
                lim = g.choice([None, None, 0, 1, 2])
                if lim is not None:
                    cmd += f' / max_essential_hyp {lim}'
            elif op == 'init':
                cmd = g.choice(['initialize all'] * (4 if stated else 1) + ['initialize user', f'initialize step {g.int(1, prev.root)}'])
            else:
                cmd = ''
            if op == 'show':
                full = blocks(prev.text)
                for q, keep in [('/ all / unknown', set(unk)), ('/ unknown', set(eu)), ('', ess), ('/ all / not_unified', {k for k, x in prev.steps.items() if x.label != '?' and (x.source is not None or x.user is not None)}),
                                ('/ not_unified', {k for k, x in prev.steps.items() if k in ess and x.label != '?' and (x.source is not None or x.user is not None)})]:
                    t = s(f'show new_proof / lemmon {q}')
                    b = blocks(t)
                    if 'not_unified' in q:
                        nu = {k for k in keep if prev.steps[k].source is not None}
                        ok = nu <= set(b) <= keep | {k for k, x in prev.steps.items() if x.user is not None}
                    else:
                        ok = set(b) == keep
                    if not ok:
                        raise Violation('show', f'{log}: / {q} shows steps {sorted(b)}, not {sorted(keep)}:\n{t}\n{prev.text}')
                    for k in b:
                        x = [re.sub(r'^(\d+) [\d,]+ (?=\S+ \$)', r'\1 ', y) for y in b[k]]
                        y = [re.sub(r'^(\d+) [\d,]+ (?=\S+ \$)', r'\1 ', y) for y in full[k]]
                        if x != y:
                            raise Violation('show', f'{log}: {q}: step {k} is shown as {x} and as {y}')
                if pa.show(s).text != prev.text:
                    raise Violation('show', f'{log}: a display changed the proof:\n{prev.text}')
                ctx.count('displays')
                continue
            try:
                out = do(cmd)
            except Violation as v:
                if v.kind == 'hang' and op in ('improve', 'replace'):
                    raise Discard('slow search')
                raise
            flat = ' '.join(out.split())
            st = pa.show(s)
            new = st.tree()
            Q = {p: k for k, p in paths(st).items()}

            def bad(kind, why):
                raise Violation(kind, f'{log}: {why}\n{out}\nbefore:\n{prev.text}\nafter:\n{st.text}')
            if 'Could not simultaneously unify the hypotheses' in out or 'THERE IS AN ERROR IN THE PROOF' in flat:
                raise Discard('invalid subproof')
            refused = bool(re.search(r'(?m)^\s*\?(?!Warning)', out)) and op != 'unify'
            if refused:
                ctx.count('refused')
                if st.text != prev.text:
                    bad('refused', f'{cmd} was refused but changed the proof')
                continue
            done += 1
            ctx.count(op)
            want = None
            changed = []              # paths of the parts that were replaced
            if op in ('let', 'letvar', 'unify', 'init'):
                want = old
            elif op == 'float':
                want = floats(prev, db)
            elif op == 'all':
                want = UNK
            elif op == 'delete':
                if n is None or not 1 <= n <= prev.root:
                    bad('range', 'a step out of range was accepted')
                want = put(old, P[n], UNK)
                changed = [P[n]]
            elif op == 'assign':
                if n is None:
                    bad('range', 'a step out of range was accepted')
                if at(old, P[n]) != UNK:
                    bad('assigned', f'step {n} was assigned already')
                k = 0 if lab in hl else len(db.labels[lab].mand)
                want = put(old, P[n], (lab, (UNK,) * k))
                changed = [P[n]]
            elif op == 'match':
                asked = [int(k) for k in re.findall(r'(?m)^Step (\d+): ', out)]
                todo = [int(cmd.split()[2])] if 'step' in cmd else [k for k in reversed(unk) if k in ess or 'essential ' not in cmd + ' ' or ' / essential' not in cmd]
                if asked != todo:
                    bad('asked', f'the steps to be matched are {todo}, not {asked}')
                want = old
                moved = []
                for k, l in re.findall(r'Step (\d+) was assigned statement (\S+?)(?:\.(?:\s|$)| since)', flat):
                    k = int(k)
                    m = 0 if l in hl else len(db.labels[l].mand)
                    want = put(want, P[k], (l, (UNK,) * m))
                    changed.append(P[k])
                    if m:
                        moved.append(k)
                    ctx.count('matched')
                m = re.search(r'Steps (\d+) and above have been renumbered', flat)
                if 'all' in cmd and (int(m.group(1)) if m else None) != min(moved, default=None):
                    bad('renumbered', f'the first renumbered step is {min(moved, default=None)}')
                if 'step' in cmd and bool(moved) != bool(re.search('are now|is now', flat)):
                    bad('renumbered', 'not reported, or wrongly')
            elif op == 'replace':
                if n is None:
                    bad('range', 'a step out of range was accepted')
                want = put(old, P[n], at(new, P[n]))
                changed = [P[n]]
                if at(new, P[n])[0] != lab:
                    bad('replace', f'step {n} is not proved by {lab}')
            elif op == 'improve' and n != 'all':
                if n is None:
                    bad('range', 'a step out of range was accepted')
                if 'was not found' in flat:
                    want = old
                    if prev.steps[n].target in hyps:
                        bad('not-found', f'step {n} is a hypothesis of the theorem')
                else:
                    if not re.search(r'A \d+-step proof was found', flat):
                        bad('silent', 'no report')
                    want = put(old, P[n], at(new, P[n]))
                    changed = [P[n]]
                    if whole(at(old, P[n])) or not whole(at(new, P[n])):
                        bad('improve', f'the proof of step {n} was complete before or is incomplete now')
            elif op == 'improve':
                N = {v: k for k, v in P.items()}

                def walk(x, y, p):
                    """the replaced parts, or None"""
                    if x == y:
                        return []
                    if not whole(x) and whole(y) and sub:
                        return [p]
                    if x[0] == y[0] and len(x[1]) == len(y[1]):
                        r = [walk(c, e, p + (i,)) for i, (c, e) in enumerate(zip(x[1], y[1]))]
                        if all(z is not None for z in r):
                            return sum(r, [])
                    if not whole(x) and whole(y) and (x[0] == '?' or sub or prev.steps[N[p]].source is not None):
                        return [p]
                    return None
                got = re.findall(r'A proof of length (\d+) was found for step (\d+)', flat)
                if alg == '':
                    # one pass from the end: the reported numbers are those of the old proof
                    want = old
                    for ln, k in got:
                        k = int(k)
                        if k not in P:
                            bad('report', f'there was no step {k}')
                        x, y = at(old, P[k]), at(new, P[k])
                        if whole(x) or not whole(y) or count(y) != int(ln) or x[0] != '?' and not sub and prev.steps[k].source is None:
                            bad('improve', f'at step {k}: {x} became {y}')
                        changed.append(P[k])
                        want = put(want, P[k], y)
                    if ('No new subproofs were found' in flat or 'already complete' in flat) != (not changed):
                        bad('report', 'wrong claim')
                else:
                    changed = walk(old, new, ())
                    if changed is None:
                        bad('improve', 'complete or known parts of the proof were replaced, or the new parts are not complete')
                    want = new
                # a formula that is a hypothesis of the theorem is always found
                for k, x in prev.steps.items():
                    if x.label == '?' and x.target in hyps and (P[k] in Q and not whole(st.tree(Q[P[k]]))):
                        bad('not-found', f'step {k} is a hypothesis of the theorem')
                    ctx.count('hypotheses found', x.label == '?' and x.target in hyps)
                m = re.search(r'Steps (\d+) and above have been renumbered', flat)
                lo = min((k for k, p in P.items() if Q.get(p, k) != k), default=None)
                if m and (alg == '' and all(count(at(t, p)) == 1 for t in (old, new) for p in changed) or lo and int(m.group(1)) > lo):
                    bad('renumbered', f'the first step that has another number is {lo}')
                if not m and st.root != prev.root:
                    bad('renumbered', 'not reported')
            if new != want:
                bad('tree', f'the proof should now be {want}')
            if op == 'float':
                # the first step that begins a longer deleted part
                first = []

                def gone(x, y, n):
                    """n = number of the first step of x"""
                    if y == UNK:
                        if count(x) > 1:
                            first.append(n)
                    else:
                        for c, e in zip(x[1], y[1]):
                            gone(c, e, n)
                            n += count(c)
                gone(old, new, 1)
                m = re.search(r'Steps (\d+) and above have been renumbered', flat)
                if [int(m.group(1))] != first[:1] if m else first:
                    bad('renumbered', f'the first renumbered step is {first[:1]}')
            # the numbers in the report
            for x in re.finditer(r'Steps (\d+):(\d+) are now (\d+):(\d+)\.', flat):
                lo, hi, lo2, hi2 = map(int, x.groups())
                for k in range(lo, hi + 1):
                    if Q.get(P.get(k)) != k - lo + lo2:
                        bad('numbers', f'step {k} is now step {Q.get(P.get(k))}')
                if hi != prev.root or hi2 != st.root or n is None or lo != n:
                    bad('numbers', 'wrong range')
                ctx.count('renumbered')
            for x in re.finditer(r'Step (\d+) is now step (\d+)\.', flat):
                k, k2 = map(int, x.groups())
                if Q.get(P.get(k)) != k2:
                    bad('numbers', f'step {k} is now step {Q.get(P.get(k))}')
            x = re.search(r'A (\d+)-step (?:subproof at|proof was found for) step (\d+)', flat)
            if x and n not in (None, 'all') and (int(x.group(2)) != n or int(x.group(1)) != (count(at(old, P[n])) if op == 'delete' else count(at(new, P[n])))):
                bad('numbers', 'wrong number of steps')
            if prev.root != st.root and (op == 'delete' or op == 'replace' and not whole(new)) and not re.search(r'are now|is now step|entire proof|CONGRATULATIONS', flat):
                bad('numbers', 'renumbering not reported')
            # a new part of the proof has no stated formulas
            for p, k in Q.items():
                if any(p[:len(c)] == c and len(p) > len(c) for c in changed) and op in ('assign', 'replace', 'improve') and st.steps[k].user is not None and (op != 'improve' or n != 'all'):
                    bad('user', f'step {k} is new but has a formula stated')
            if cmd.startswith('initialize') and cmd != 'initialize user':
                one = None if cmd == 'initialize all' else int(cmd.split()[2])
                seen = set()
                kids = set(prev.steps[one].kids) if one else ()
                for k, y in st.steps.items():
                    x = prev.steps[k]
                    if one and k != one:
                        if k not in kids and x.target != y.target or (x.source or x.target if x.label != '?' else None) != (y.source or y.target if y.label != '?' else None) or x.user != y.user:
                            bad('initialize', f'step {k} changed')
                        continue
                    if y.label == '?' or y.label in hl or not one and whole(at(new, P[k])):
                        continue
                    if k == one and (y.user is not None or x.target != y.target):
                        bad('initialize', f'step {k} keeps a stated formula, or has another one')
                    # the assertion and its hypotheses, with fresh variables
                    b = db.labels[y.label]
                    ren = {}
                    vs = {h.toks[1] for h in b.mand if h.kind == 'f'}
                    for f, h in [(b.toks, y.source or y.target)] + [(h.toks, st.steps[q].target) for h, q in zip(b.mand, y.kids)]:
                        if len(f) != len(h) or any((ren.setdefault(t, u) != u or u[0] != '$') if t in vs else t != u for t, u in zip(f, h)):
                            bad('initialize', f'step {k} is not initialized')
                    if len(set(ren.values())) < len(ren) or seen & set(ren.values()):
                        bad('initialize', f'the variables of step {k} are not new')
                    seen |= set(ren.values())
            if cmd == 'initialize all':
                fresh = {t for x in st.steps.values() for f in (x.target, x.source) for t in f or () if t[0] == '$'}
                if fresh & {t for x in st.steps.values() for t in x.user or () if t[0] == '$'}:
                    bad('initialize', 'a work variable of a stated formula is used again')
            # the formulas outside the changed parts
            for k, p in P.items():
                if any(p[:len(c)] == c and (len(p) > len(c) or op == 'replace') for c in changed) or p not in Q:
                    continue
                x, y = prev.steps[k], st.steps[Q[p]]
                if op in ('delete', 'float', 'all'):
                    if x.target != y.target or x.user != y.user or y.label != '?' and x.source != y.source:
                        bad('formula', f'step {k} changed')
                elif op == 'init':
                    if cmd == 'initialize user' and (x.target != y.target or y.user is not None or (x.source != y.source)):
                        bad('initialize', f'step {k}')
                elif not matches(x.target, y.target, empties, 1):
                    bad('formula', f'step {k} was {" ".join(x.target)}, now step {Q[p]} is {" ".join(y.target)}')
                elif x.user is not None and y.user is None and not matches(x.user, y.target, empties, 1):
                    bad('formula', f'the formula stated for step {k} was {" ".join(x.user)}, now step {Q[p]} is {" ".join(y.target)}')
            if op == 'letvar' and any(v in x.target for x in st.steps.values()):
                bad('letvar', f'{v} is still there')
            if op == 'let' and n:
                y = st.steps[Q[P[n]]]
                if not (y.user or not y.source and y.target) or not matches(f.split(), y.user or y.target, empties, 1):
                    bad('let', f'step {n} is not {f}')
    ctx.key(text, log)
    ctx.nontrivial(done > 1)


CHECK = Check('C35', prop, quick=3000, thorough=60000, builds=('plain',),
              rule='random Proof Assistant sessions (right and wrong statements, every way to name a step); after every command the whole displayed proof is compared with the one before; '
                   'non-trivial = more than one command carried out; distinct by source and commands')

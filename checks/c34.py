"""C34  Unification finds every choice, offers each once, and decides when there is one."""
import re
from lib import pa
from lib.core import Check, Violation
from lib.live import Live


def shape(sub, fs):
    """the substitution with the temporary variables numbered in the order of their first use"""
    vs = sorted({t for f in fs for t in f if t[0] == '$'})
    num = {}
    return [[num.setdefault(t, len(num)) if t[0] == '$' else t for t in sub.get(v, v).split()] for v in vs]


def offers(out, filt=True):
    """the unifications offered are unifications, each is offered once, by weight"""
    for part in out.split('There are ')[1:]:
        m = re.match(r'(\d+) possible\s+unifications\.', part)
        if not m:
            continue
        u = re.search(r'^Unify: +(.*)\n +with: +(.*)\n', part, re.M)
        if not u:
            raise Violation('offer', f'no formulas: {part[:1000]}')
        seen = []
        last = 0
        for x in re.finditer(r'Unification #(\d+) of (\d+) \(weight = (-?\d+)\):\n((?:  Replace "[^\n]*" with "[^\n]*"\n)*)', part, re.M):
            sub = dict(re.findall(r'  Replace "([^\n]*?)" with "([^\n]*)"\n', x.group(4)))
            sh = shape(sub, [u.group(1).split(), u.group(2).split()]) if filt else sub
            if int(x.group(1)) != len(seen) + 1 or x.group(2) != m.group(1) or filt and sh in seen or seen and int(x.group(3)) < last:
                raise Violation('offer', f'order, number or repetition: {x.group(0)}: {part[:2000]}')
            last = int(x.group(3))
            seen.append(sh)
            f = [' '.join(sub.get(t, t) for t in u.group(k).split()).split() for k in (1, 2)]
            if f[0] != f[1]:
                raise Violation('offer', f'{sub} does not unify: {f}\n{part[:2000]}')


BR = [('(', ')'), ('{', '}'), ('[', ']'), ('<.', '>.'), ('[_', ']_')]


def balanced(ts):
    for l, r in BR:
        n = 0
        for t in ts:
            n += (t == l) - (t == r)
            if n < 0:
                return False
        if n:
            return False
    return True


def unifiers(pat, gr, names, ok):
    """every way to replace the variables of pat so that it becomes gr"""
    res = []

    def rec(i, j, sub):
        if len(res) > 60:
            return
        if i == len(pat):
            if j == len(gr):
                res.append(dict(sub))
            return
        t = pat[i]
        if t not in names:
            if j < len(gr) and gr[j] == t:
                rec(i + 1, j + 1, sub)
        elif t in sub:
            k = len(sub[t])
            if gr[j:j + k] == sub[t]:
                rec(i + 1, j + k, sub)
        else:
            for k in range(j, len(gr) + 1):
                if ok(gr[j:k]):
                    sub[t] = gr[j:k]
                    rec(i + 1, k, sub)
                    del sub[t]
    rec(0, 0, {})
    return res


def prop(g, ctx):
    """statements without a grammar: every unification is found"""
    names = ['p', 'q', 'r', 's']
    cons = g.sample(['->', 'a', '+', '~'], g.int(1, 3))
    br = g.sample(BR, g.weighted([(0, 3), (1, 3), (2, 1)]))
    half = g.bool(0.3)
    brt = [x for b in br for x in b]
    def word(n, vs, flat=False):
        out = []
        while n > 0:
            if br and g.bool(0.25):
                l, r = g.choice(br)
                inner = word(g.int(0, n), vs)
                out += [l] + inner + [r]
                n -= len(inner) + 1
            else:
                out.append(g.choice(vs) if vs and g.bool(0.5) else g.choice(cons))
                n -= 1
        if brt and half and g.bool(0.4):
            out.insert(g.int(0, len(out)), g.choice(brt))
        return out
    empty = g.bool(0.15)
    pats, thms = [], []
    for k in range(g.int(1, 3)):
        p = word(g.int(1, 6), names)
        pats.append(p)
        for _ in range(g.int(1, 3)):
            tv = ['x', 'y'] if g.bool(0.4) else []
            sub = {v: word(g.int(0 if empty else 1, 4), tv) for v in names}
            t = [y for x in p for y in sub.get(x, [x])]
            if g.bool(0.15) and t:
                t[g.int(0, len(t) - 1)] = g.choice(cons)
            thms.append((k, t, g.choice([t, word(g.int(1, 4), names)]) if g.bool(0.25) else None))
    text = '$c |- wff ' + ' '.join(cons + brt) + ' $.\n$v p q r s x y $.\n' + ''.join(f'w{v} $f wff {v} $.\n' for v in names + ['x', 'y'])
    # the grammar tells how a formula may begin and end
    syn = [[c] for c in cons if g.bool(0.75)] + [word(g.int(1, 3), names) for _ in range(g.weighted([(0, 1), (2, 2), (5, 3)]))]
    syn += [[l] + word(1, names) + [r] for l, r in br if g.bool(0.8)]
    text += ''.join(f'k{k} $a wff {" ".join(p)} $.\n' for k, p in enumerate(syn))
    text += ''.join(f'ax{k} $a |- {" ".join(p)} $.\n' for k, p in enumerate(pats)) + ''.join(f'th{k} $p |- {" ".join(t)} $= ? $.\n' if e is None else f'${{ e{k} $e |- {" ".join(e)} $. th{k} $p |- {" ".join(t)} $= ? $. $}}\n' for k, (_, t, e) in enumerate(thms))
    two = []
    z = g.choice(cons)
    for k in range(g.weighted([(0, 2), (1, 2), (2, 1)])):
        two.append(pair(g, word(g.int(1, 6), ['x', 'y'] if g.bool(0.3) else [])))
        text += f'${{ h{k} $e |- {" ".join(two[-1][1])} $. bx{k} $a |- {z} $. $}}\nby{k} $a |- {" ".join(two[-1][2])} $.\n'
    if two:
        text += f'tw $p |- {z} $= ? $.\n'
    # statements with several hypotheses
    many_h = [(word(g.int(1, 4), names), g.int(0, 3)) for _ in range(g.weighted([(0, 2), (1, 2), (2, 1)]))]
    text = text.replace('th0 $p', ''.join('${ ' + ''.join(f'y{k}{i} $e |- {cons[0]} $. ' for i in range(n)) + f'dy{k} $a |- {" ".join(p)} $. $}}\n' for k, (p, n) in enumerate(many_h)) + 'th0 $p', 1) if thms[0][2] is None else text
    if thms[0][2] is not None:
        many_h = []
    asserts = syn + pats + [x[0] for x in many_h] + [x[2] for x in two] + [[z]] * bool(two)
    on = all(balanced(p) for p in asserts)
    con = set(cons + brt)
    first, last, one = {p[0] for p in asserts if p}, {p[-1] for p in asserts if p}, {p[0] for p in asserts if len(p) == 1}

    def ok(ts):
        if not ts or empty:
            return empty and (not on or balanced(ts))
        return (ts[0] not in con or ts[0] in first and (len(ts) > 1 or ts[0] in one)) and (ts[-1] not in con or ts[-1] in last) and (not on or balanced(ts))
    log = []
    many = 0
    ctx.write('t.mm', text)
    with Live(ctx.env['plain'], ctx.dir, width=20000) as s:
        def do(c):
            log.append(c)
            ctx.show(text + '\n' + '\n'.join(log))
            return s(c)
        out = do('read t.mm')
        if '?Error' in out:
            raise Violation('read', out)
        if empty:
            do('set empty_substitution on')
        fs = names + ['x', 'y']

        def cands(n):
            """label, typecode, formula and number of essential hypotheses of what can be used for th<n>"""
            res = [(f'w{v}', 'wff', [v], 0) for v in fs] + [(f'k{k}', 'wff', p, 0) for k, p in enumerate(syn)] + [(f'ax{k}', '|-', p, 0) for k, p in enumerate(pats)]
            res += [(f'dy{k}', '|-', p, n) for k, (p, n) in enumerate(many_h)]
            res += [(f'th{k}', '|-', t, int(e is not None)) for k, (_, t, e) in enumerate(thms[:n])]
            if thms[n][2] is not None:
                res.append((f'e{n}', '|-', thms[n][2], 0))
            return res

        def ways(l, p, t):
            return unifiers(p, t, fs if l[0] not in 'we' else [], ok)

        def match(n, i, t):
            """MATCH STEP lists what can be unified with the step and assigns what the user chooses"""
            mx = g.choice([None, None, 0, 1, 2])
            good = [l for l, ty, p, ne in cands(n) if ty == t[0] and (mx is None or ne <= mx) and ways(l, p, t[1:])]
            out = do(f'match step {i}' + (f' / max_essential_hyp {mx}' if mx is not None else ''))
            m = re.search(r'matches statements: (.*)', out)
            if (m.group(1).split() if m else []) != good or (not m) != ('No statements match' in out):
                raise Violation('matches', f'{log}: step {i} can be unified with {good}: {out}')
            ctx.count('match', len(good))
            if not good:
                return None
            if len(good) == 1 and mx is None:
                if f'was assigned statement {good[0]} since' not in out:
                    raise Violation('only match', f'{log}: {good}: {out}')
                return good[0]
            if 'was assigned' in out or 'What statement' not in s.prompt:
                raise Violation('only match', f'{log}: {good}: {out} {s.prompt}')
            while g.bool(0.2):
                out = do(g.choice([x for x in ['th', 'wp', 'tw', 'x', f'{good[0]} {good[-1]}'] if x not in good]))
                if 'not one of the choices' not in out:
                    raise Violation('choice', f'{log}: {out}')
            x = g.choice([None] + good * 3)
            out = do(x or '')
            if ('was assigned' in out) != bool(x) or s.prompt != 'MM-PA':
                raise Violation('choice', f'{log}: {out}')
            return x

        if g.bool(0.15):
            # not enough trials: what is not decided is said to be so, and can be chosen
            do(f'set unification_timeout {g.int(1, 12)}')
            for n, (k, t, e) in enumerate(thms):
                do(f'prove th{n}')
                good = [l for l, ty, p, ne in cands(n) if ty == '|-' and ways(l, p, t)]
                out = do('match step 1')
                m = re.search(r'matches statements: (.*)', out)
                u = re.search(r'which may or may not match: (.*)', out)
                yes = m.group(1).split() if m else []
                maybe = u.group(1).split() if u else []
                ctx.count('undecided', len(maybe))
                bad = [l for l in yes if l not in good] + [l for l in good if l not in yes + maybe]
                if bad:
                    raise Violation('matches', f'{log}: {bad}: {out}')
                x = None
                if s.prompt != 'MM-PA':
                    x = g.choice(yes + maybe + maybe)
                    out = do(x)
                elif yes + maybe:
                    if maybe or len(yes) > 1:
                        raise Violation('only match', f'{log}: {out}')
                    x = yes[0]
                if x is not None and f'was assigned statement {x}' not in out or s.prompt != 'MM-PA':
                    raise Violation('choice', f'{log}: {out} {s.prompt}')
                st = pa.show(s)
                if st.steps[st.root].label != (x or '?') or st.steps[st.root].target != ['|-'] + t:
                    raise Violation('match', f'{log}: {x}: {st.text}')
                do('_exit_pa / force')
            ctx.key(text, log)
            return
        for n, (k, t, e) in enumerate(thms):
            do(f'prove th{n}')
            taken = []

            def ask(c):
                """reject the offers, or accept one"""
                out = do(c)
                pick = g.int(0, len(want)) if want else None
                i = 0
                while s.prompt not in ('MM', 'MM-PA'):
                    out += s('a' if i == pick else 'r')
                    taken.append(i == pick)
                    i += 1
                    if i > 60:
                        raise Violation('hang', out[:3000])
                offers(out)
                m = re.search(r'There are (\d+) possible', out)
                if m and int(m.group(1)) != len(want) or bool(m) != bool(taken):
                    raise Violation('unifications', f'{log}: expected {len(want)}: {want}: {out}')
                return out
            p = pats[k]
            lab = f'ax{k}'
            nou = g.bool(0.6)
            matched = g.bool(0.4)
            if matched:
                lab = match(n, 1, ['|-'] + t)
                p = dict((c[0], c[2]) for c in cands(n)).get(lab)
                nou = True
            if lab is None or lab[0] == 'e':
                st = pa.show(s)
                if st.root != 1 or st.steps[1].label != (lab or '?') or st.steps[1].target != ['|-'] + t:
                    raise Violation('match', f'{log}: {lab}: {st.text}')
                do('_exit_pa / force')
                continue
            vs = [v for v in fs if v in p]
            want = ways(lab, p, t)
            if len(want) > 25:
                do('_exit_pa / force')
                continue
            if not matched:
                out = ask(f'assign last {lab}' + (' / no_unify' if nou else ''))
                if ('cannot be unified' in out) != (not want):
                    raise Violation('unifiable', f'{log}: {len(want)} unifications: {out}')
            if want:
                root = len(vs) + 1 + (thms[int(lab[2:])][2] is not None if lab[0] == 't' else many_h[int(lab[2:])][1] if lab[0] == 'd' else 0)
                if lab[0] == 't' and thms[int(lab[2:])][2] is not None:
                    # more variables in its hypothesis
                    root += len([v for v in fs if v in thms[int(lab[2:])][2] and v not in p])
                    vs = [v for v in fs if v in p or v in thms[int(lab[2:])][2]]
                st = pa.show(s)
                if st.root != root or st.steps[root].label != lab:
                    raise Violation('assign', f'{log}: {st.text}')
                if nou and taken or len(want) == 1 and taken or len(want) > 1 and not nou and not taken:
                    raise Violation('asked', f'{log}: {len(want)} unifications: {out}')
                if (st.steps[root].source is None) != (True in taken or len(want) == 1):
                    raise Violation('guess', f'{log}: {len(want)} unifications: {st.text}')
                if st.steps[root].source is not None and g.bool(0.8):
                    del taken[:]
                    out = ask(f'unify step {root}')
                    if len(want) == 1 and 'successfully unified' not in out:
                        raise Violation('unique', f'{log}: {out}')
                    if len(want) > 1 and not taken:
                        raise Violation('asked', f'{log}: {len(want)} unifications: {out}')
                    st = pa.show(s)
                    if (st.steps[root].source is None) != (True in taken or len(want) == 1):
                        raise Violation('guess', f'{log}: {len(want)} unifications: {st.text}')
                many += len(want) > 1
                ctx.count('unifications', len(want))
                if st.steps[root].target != ['|-'] + t:
                    raise Violation('target', st.text)
                if st.steps[root].source is None:
                    # the hypotheses hold one of the substitutions
                    got = {v: st.steps[j + 1].target[1:] for j, v in enumerate(vs) if v in p}
                    if got not in want:
                        raise Violation('substitution', f'{log}: {got} is not among {want}: {st.text}')
                    for i in st.unknown():
                        x = st.steps[i]
                        if not any(y[0] == '$' for y in x.target) and g.bool(0.3):
                            y = match(n, i, x.target)
                            if y is not None:
                                break
            do('_exit_pa / force')
        for k, (w, h, p, vals) in enumerate(two):
            if not all(ok(x) for x in vals):
                continue
            do('prove tw')
            filt = g.bool(0.6)
            do('set jeremy_henty_filter ' + ('on' if filt else 'off'))
            do(f'assign last bx{k} / no_unify')
            st = pa.show(s)
            n = st.root - 1
            out = do(f'assign {n} by{k}' + g.choice(['', ' / no_unify']))
            if 'cannot be unified' in out:
                raise Violation('unifiable', f'{log}: both formulas can become {w}: {out}')
            for again in (0, 1):
                while s.prompt not in ('MM', 'MM-PA'):
                    out += s('r' if len(out) < 100000 else 'q')
                offers(out, filt)
                m = re.search(r'There are (\d+) possible', out)
                if m and len(out) >= 100000:
                    got = None
                    break
                if m:
                    u = re.search(r'^Unify: +(.*)\n', out, re.M).group(1)
                    got = []
                    for x in re.finditer(r'Unification #(\d+) of (\d+) \(weight = (-?\d+)\):\n((?:  Replace "[^\n]*" with "[^\n]*"\n)*)', out, re.M):
                        sub = dict(re.findall(r'  Replace "([^\n]*?)" with "([^\n]*)"\n', x.group(4)))
                        got.append(' '.join(sub.get(t, t) for t in u.split()).split())
                    if len(got) != int(m.group(1)):
                        raise Violation('offer', f'{log}: {m.group(1)} announced, {len(got)} shown: {out[:3000]}')
                    ctx.count('offered', len(got))
                    many += 1
                    break
                st = pa.show(s)
                q = max(i for i, x in st.steps.items() if x.label == f'by{k}')
                if st.steps[q].source is None:
                    got = [st.steps[q].target]
                    break
                if again:
                    raise Violation('unique', f'{log}: {out}')
                out = do(f'unify step {q}')
                if 'timed out' in out:
                    got = None
                    break
            if got is not None and not any(unifiers(x[1:], w, [t for t in x if t[0] == '$'], lambda ts: ts or empty) for x in got):
                raise Violation('lost unification', f'{log}: both formulas can become {w}, but only {got} are offered: {out[:3000]}')
            do('_exit_pa / force')
    ctx.nontrivial(many > 0)
    ctx.key(text, log)


def pair(g, w):
    """two schemes with the common instance w whose variables do not cross"""
    res = [w]
    vals = []
    taken = []
    for names in (['p', 'q', 'r'], ['r', 's', 'p', 'q']):
        mine = []
        for _ in range(g.int(1, 3)):
            a = g.int(0, len(w) - 1)
            b = g.int(a + 1, min(len(w), a + 4))
            if all(b <= c or e <= a for c, e in mine) and all(b <= c or e <= a or c <= a and b <= e or a <= c and e <= b for c, e in taken):
                mine.append((a, b))
        taken += mine
        vals += [w[a:b] for a, b in mine]
        f = []
        i = 0
        names = list(names)
        for a, b in sorted(mine):
            f += w[i:a] + [names.pop(0)]
            i = b
        res.append(f + w[i:])
    return res + [vals]



CHECK = Check('C34', prop, quick=2500, thorough=100000, builds=('plain', 'asan'),
              rule='random databases of plain strings with brackets (no grammar needed); the unifications of a statement with a known formula are enumerated by brute force, two schemes get a common instance by construction; '
                   'non-trivial = a choice between several unifications; distinct by source and commands')

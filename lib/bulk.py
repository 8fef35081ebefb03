"""Databases that are large in one dimension: many hypotheses, many $d pairs,
many labels in a proof, long formulas, deep stacks."""
from . import notation


def text(g, mutations=None):
    """source text with a theorem th (and sometimes th2, which uses th)"""
    dim = g.choice(['hyps', 'ehyps', 'labels', 'size', 'dv', 'mixed', 'depth'])
    nv = {'hyps': g.int(20, 140), 'dv': g.int(15, 110), 'mixed': g.int(10, 60)}.get(dim, g.int(2, 8))
    ne = {'ehyps': g.int(20, 130), 'mixed': g.int(5, 40)}.get(dim, g.int(0, 4))
    nc = {'labels': g.choice([g.int(15, 25), g.int(100, 170), g.int(600, 680)]), 'mixed': g.int(5, 60)}.get(dim, g.int(1, 6))
    dv = dim == 'dv' or g.bool(0.3)
    xs = [f'x{i}' for i in range(nv)]
    typ = {x: g.choice(['wff', 'class']) if dim != 'labels' else 'wff' for x in xs}
    out = ['$c ( ) , |- wff class { } ' + ' '.join(f'C{i}' for i in range(nc)) + ' $.', '$v ' + ' '.join(xs) + ' a b A B $.',
           'wa $f wff a $.', 'wb $f wff b $.', 'cA $f class A $.', 'cB $f class B $.']
    out += [f'v{i} $f {typ[x]} {x} $.' for i, x in enumerate(xs)]
    out += [f'c{i} $a wff C{i} $.' for i in range(nc)]
    out += ['pr $a wff ( a , b ) $.', 'cp $a class { A a } $.', 'any $a |- a $.', 'anyc $a |- A $.']
    # the big assertion: mentions all variables in its hypotheses and conclusion
    es = []
    for i in range(ne):
        k = g.int(1, 3)
        es.append(' '.join(g.choice(xs) for _ in range(k)))
    order = xs if g.bool() else g.shuffle(xs)
    concl = ' '.join(order)
    out.append('${')
    pairs = [(p, q) for i, p in enumerate(xs) for q in xs[:i]]
    if dv:
        if g.bool(0.5):
            out.append('$d ' + ' '.join(g.shuffle(xs)) + ' $.')
        else:
            for p in g.sample(pairs, g.int(1, len(pairs))):
                out.append('$d ' + ' '.join(g.shuffle(p)) + ' $.')
    for i, e in enumerate(es):
        out.append(f'big.{i} $e |- {e} $.')
    out.append(f'big $a |- {concl} $.')
    out.append('$}')
    D = notation.Dag()
    memo = {}
    toks = {}

    def mk(label, kids, t):
        i = D.mk(label, kids)
        toks[i] = t
        return i

    def hyp(x):
        return mk('wa' if x == 'a' else 'wb' if x == 'b' else 'cA' if x == 'A' else 'cB' if x == 'B' else 'v' + x[1:], (), [x])

    ci = g.draw(nc)

    def const():
        nonlocal ci
        ci += 1
        return mk(f'c{ci % nc}', (), [f'C{ci % nc}'])

    def pr(i, j):
        return mk('pr', (i, j), ['('] + toks[i] + [','] + toks[j] + [')'])

    def wff(depth):
        r = g.draw(6)
        if depth <= 0 or r < 2:
            return const()
        if r == 2:
            w = [x for x in xs if typ[x] == 'wff'] + ['a', 'b']
            return hyp(g.choice(w))
        if r == 3 and depth > 1:
            i = wff(depth - 1)
            return pr(i, i)
        return pr(wff(depth - 1), wff(depth - 1))
    sub = {}
    fresh = {}
    for t in ('wff', 'class'):
        ys = [x for x in xs if typ[x] == t]
        fresh.update(zip(ys, g.shuffle(ys)))
    for x in xs:
        r = g.draw(10)
        if r < 5 and dim != 'labels':
            sub[x] = hyp(fresh[x])
        elif typ[x] == 'wff':
            sub[x] = const() if r < 8 or dv and g.bool(0.97) else wff(2)
        else:
            w = const() if r < 8 or dv and g.bool(0.97) else wff(2)
            c = fresh[x] if dv and g.bool(0.97) else g.choice([y for y in xs if typ[y] == 'class'] + ['A'])
            sub[x] = mk('cp', (w, hyp(c)), ['{', c] + toks[w] + ['}'])
    if dim == 'size':
        i = wff(1)
        for _ in range(g.int(3, 11)):
            i = pr(i, i) if g.bool(0.8) else pr(const(), i)
        ws = [x for x in xs if typ[x] == 'wff']
        if ws:
            sub[g.choice(ws)] = i
    if dim == 'depth':
        i = const()
        for _ in range(g.int(50, 400)):
            i = pr(const() if g.bool(0.8) else hyp('a'), i)
        ws = [x for x in xs if typ[x] == 'wff']
        if ws:
            sub[g.choice(ws)] = i
    if dim == 'labels':
        i = const()
        for _ in range(nc + 3):
            i = pr(i, const())
        sub[g.choice(xs)] = i
    th_e = []
    ekids = []
    for i, e in enumerate(es):
        t = [y for x in e.split() for y in toks[sub[x]]]
        if len(e.split()) == 1 and g.bool(0.7):
            x = e
            ekids.append(mk('any' if typ[x] == 'wff' else 'anyc', (sub[x],), ['|-'] + t))
        else:
            if t not in [q for q, _ in th_e]:
                th_e.append((t, f'th.{len(th_e)}'))
            l = [n for q, n in th_e if q == t][0]
            ekids.append(mk(l, (), ['|-'] + t))
    root = mk('big', tuple(sub[x] for x in xs) + tuple(ekids), [y for x in order for y in toks[sub[x]]])
    used = set(toks[root]).union(*[set(q) for q, _ in th_e]) if th_e else set(toks[root])
    mand = [l for l, x in [('wa', 'a'), ('wb', 'b'), ('cA', 'A'), ('cB', 'B')] + [(f'v{i}', x) for i, x in enumerate(xs)] if x in used] + [n for _, n in th_e]
    body = ['${']
    if dv or g.bool(0.1):
        allv = xs + ['a', 'b', 'A', 'B']
        r = g.draw(4)
        if r == 0:
            body.append('$d ' + ' '.join(allv) + ' $.')
        elif r == 1:
            # all pairs but one, through two overlapping lists
            x = g.choice(allv)
            y = g.choice([z for z in allv if z != x])
            body.append('$d ' + ' '.join(g.shuffle([z for z in allv if z != x])) + ' $.')
            body.append('$d ' + ' '.join(g.shuffle([z for z in allv if z != y])) + ' $.')
        else:
            need = set()
            for p, q in pairs:
                for s in toks[sub[p]]:
                    for t in toks[sub[q]]:
                        if s != t and s in allv and t in allv and len(need) < 8000:
                            need.add(tuple(sorted((s, t))))
            need = sorted(need)
            if r == 2 and need:
                need.pop(g.draw(len(need)))
            for p in g.shuffle(need):
                body.append('$d ' + ' '.join(p) + ' $.')
    body += [f'{n} $e |- {" ".join(q)} $.' for q, n in th_e]
    comp = D.size[root] > 3000 or g.bool(0.7)
    tagmode = g.draw(3)
    st = notation.walk(D, root, (lambda i: bool(D.nodes[i][1]) and (tagmode == 0 or tagmode == 1 and g.bool(0.5) or D.size[i] > 60)) if comp else (lambda i: False), lambda i: True)
    if comp:
        labs, letters = notation.enc_compressed(st, mand, (lambda l: g.shuffle(l)) if g.bool(0.3) else None)
        for _ in range(g.weighted([(0, 5), (1, 5), (2, 1)]) if mutations is None else mutations):
            r = g.draw(5)
            j = g.draw(len(letters))
            if r == 0:
                letters = letters[:j] + letters[j + 1:]
            elif r == 1:
                letters = letters[:j] + g.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') + letters[j + 1:]
            elif r == 2:
                letters = letters[:j] + g.choice('ABCSTUVYZ?') + letters[j:]
            elif r == 3 and labs:
                k = g.draw(len(labs))
                m = g.draw(len(labs))
                labs[k], labs[m] = labs[m], labs[k]
            elif labs:
                labs.pop(g.draw(len(labs)))
        letters = letters or 'A'
        body.append('th $p |- ' + ' '.join(toks[root][0:]) + ' $=\n ( ' + ' '.join(labs) + ' )\n ' + '\n '.join(letters[i:i + 70] for i in range(0, len(letters), 70)) + ' $.')
    else:
        pr_ = [t for t in notation.enc_text(st, False, None, 'th', str)]
        for _ in range(g.weighted([(0, 5), (1, 5), (2, 1)]) if mutations is None else mutations):
            r = g.draw(3)
            j = g.draw(len(pr_))
            if r == 0 and len(pr_) > 1:
                pr_.pop(j)
            elif r == 1:
                pr_[j] = g.choice(pr_)
            else:
                k = g.draw(len(pr_))
                pr_[j], pr_[k] = pr_[k], pr_[j]
        body.append('th $p |- ' + ' '.join(toks[root]) + ' $=\n ' + ' '.join(pr_) + ' $.')
    body.append('$}')
    out += body
    return '\n'.join(out) + '\n', dim

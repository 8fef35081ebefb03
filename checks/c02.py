"""C02  Every proof notation denotes the same proof."""
from lib import mm, notation
from lib.core import Check, Violation


def prop(g, ctx):
    ncon = g.weighted([(g.int(1, 6), 5), (g.int(5, 40), 5), (g.int(60, 150), 4), (g.int(600, 700), 1)])
    nvar = g.weighted([(g.int(0, 3), 5), (g.int(0, 30), 2), (g.int(100, 130), 1)])
    style = g.choice(['', 'UV', 'x-', 'Z.'])
    cl = [f'c{i}{style}' if not (style and i % 7 == 0) else f'{style}c{i}' for i in range(ncon)]
    vl = [f'v{i}' for i in range(nvar)]
    src = ['$c ( ) , [ ] # |- wff ' + ' '.join(f'C{i}' for i in range(ncon)) + ' $.']
    allv = [f'x{i}' for i in range(max(nvar, 3))]
    src.append('$v ' + ' '.join(allv) + ' $.')
    vl = [f'v{i}' for i in range(len(allv))]
    for i, v in enumerate(allv):
        src.append(f'v{i} $f wff {v} $.')
    for i in range(ncon):
        src.append(f'{cl[i]} $a wff C{i} $.')
    # pair: wff ( x0 , x1 );  tri: wff [ x2 x0 x1 ]; drop: from |- # x1, wff x0 (drops its second argument)
    src.append('pr $a wff ( x1 , x0 ) $.')
    src.append('tri $a wff [ x2 x0 # x1 ] $.')
    src.append('any $a |- x0 $.')
    src.append('${ dr.1 $e |- x1 $. dr $a wff x0 $. $}')
    hyps = {'pr': ['v0', 'v1'], 'tri': ['v0', 'v1', 'v2'], 'any': ['v0'], 'dr': ['v0', 'v1', 'dr.1']}
    arity = {k: len(v) for k, v in hyps.items()}
    D = notation.Dag()
    expr = {}
    # leaves
    nl = g.int(1, min(ncon + 8, 40)) if ncon < 50 else g.int(ncon // 2, ncon + 20)
    sparse = ncon > 100 and g.bool(0.3)     # long label list, few of them used
    if sparse:
        nl = g.int(1, 12)
    pool = []
    cs = g.shuffle(cl) if ncon < 50 else cl[g.draw(ncon):] + cl[:g.draw(ncon)]
    for j in range(nl):
        w = g.draw(10)
        if w < 3 and nvar:
            v = g.draw(nvar)
            i = D.mk(vl[v])
            expr[i] = [allv[v]]
        else:
            l = cs[j % len(cs)]
            i = D.mk(l)
            expr[i] = [f'C{cl.index(l)}'] if ncon < 50 else ['C' + ''.join(x for x in l if x.isdigit())]
        pool.append(i)
    made = []
    total = sum(D.size[i] for i in pool)
    while len(pool) > 1:
        w = g.draw(12)
        if w < 8 or len(pool) < 3:
            a = pool.pop(g.draw(min(len(pool), 4)))
            b = pool.pop(g.draw(min(len(pool), 4)))
            i = D.mk('pr', (a, b))
            expr[i] = ['('] + expr[b] + [','] + expr[a] + [')']
        elif w < 10:
            a, b, c = pool.pop(0), pool.pop(0), pool.pop(0)
            i = D.mk('tri', (a, b, c))
            expr[i] = ['['] + expr[c] + expr[a] + ['#'] + expr[b] + [']']
        else:
            a = pool.pop(0)
            b = pool[g.draw(len(pool))]
            if D.size[b] < 60:
                i = D.mk('dr', (a, b, D.mk('any', (b,))))
                expr[i] = expr[a]
            else:
                i = a
        # reuse
        made.append(i)
        if D.size[i] < 200 and g.bool(0.25) and total < 1500:
            pool.append(i)
            total += D.size[i]
        if g.bool(0.15) and total < 1500:
            j = g.choice(made)
            if D.size[j] < 300:
                pool.append(j)
                total += D.size[j]
        pool.append(i)
    root = pool[0]
    if D.size[root] > 20000:
        return
    # optional hypothesis labels (not in the statement) may be used by 'dr'
    toks = expr[root]
    used = set(toks)
    mand = [vl[i] for i in range(len(allv)) if allv[i] in used]
    steps_rpn = notation.rpn(D, root)
    kind = g.weighted([('compressed', 8), ('packed', 2), ('normal', 1), ('explicit', 2), ('explicit-packed', 2)])
    tagmode = g.draw(4)
    memo = {}

    def tag(i):
        if not D.nodes[i][1] and not D.nodes[i][0].startswith(('c', 'U', 'x', 'Z')):
            return False
        if tagmode == 0:
            return False
        if tagmode == 1:
            return bool(D.nodes[i][1])
        return g.bool(0.6 if tagmode == 2 else 0.2)

    def reuse(i):
        return tagmode != 3 or g.bool(0.7)
    thm = 'th' + style
    notags = kind in ('normal', 'explicit')
    ko = (lambda i, n: g.shuffle(range(n))) if kind.startswith('explicit') and g.bool(0.7) else None
    st = notation.walk(D, root, (lambda i: False) if notags else tag, reuse, ko)
    sep = lambda: g.weighted([(' ', 6), ('\n', 2), ('   ', 1), (' $( x $) ', 1)])
    if kind == 'compressed':
        order = (lambda l: g.shuffle(l)) if g.bool(0.5) and (ncon < 200 or sparse) else None
        labs, letters = notation.enc_compressed(st, mand, order, extra=cl if sparse else g.sample(cl, g.small(0, 4)) if g.bool(0.3) else ())
        pieces = []
        if g.bool(0.5):
            pieces = [letters]
        else:
            mx = g.choice([3, 10, 60])
            p = 0
            while p < len(letters):
                n = g.int(1, mx)
                pieces.append(letters[p:p + n])
                p += n
        body = '( ' + ' '.join(labs) + ' )' + g.choice([' ', '\n', ' ', '']) + (sep() if len(pieces) > 1 else ' ').join(pieces)
        raw = body[body.index(')'):]
        obsolete = 'UV' in raw and 'UU' not in raw
        if len(letters) > 0 and any(len(x) >= 3 for x in __import__('re').findall('[U-Y]+[A-T]', letters)):
            ctx.count('three_letter')
    else:
        obsolete = False
        names = g.choice([lambda t: str(t + 1), lambda t: f'L{t}', lambda t: f'{t}.a-'])
        tk = notation.enc_text(st, kind.startswith('explicit'), hyps, thm, names)
        if g.bool(0.3):
            tk = [x.replace(':', ' : ').replace('=', ' = ') for x in tk]
        body = ' '.join(tk)
    src.append(f'{thm} $p wff {" ".join(toks)} $=\n {body} $.')
    text = '\n'.join(src) + '\n'
    ctx.write('t.mm', text)
    ctx.key(text)
    ctx.show(text if len(text) < 3000 else f'{kind}: {src[-1]}')
    fm = g.sample(['compressed', 'packed', 'explicit', 'explicit / packed', 'compressed / fast', 'normal / reverse'], g.int(1, 3))
    cmds = ['read t.mm', 'verify proof *', f'show proof {thm} / normal'] + [f'show proof {thm} / {f}' for f in fm]
    width = g.choice([79, 79, 60, 300])
    outs, _ = mm.session(ctx.env['plain'], cmds, ctx.dir, width=width)

    def v(kind_, msg):
        raise Violation('obsolete-heuristic' if obsolete else kind_, msg)
    if '?' in outs[0].replace('/?', ''):
        v('read', outs[0])
    if mm.verify_errors(outs[1]) or 'All proofs in the database were verified' not in outs[1]:
        v('verify', f'{kind}: valid proof reported: {outs[1][:1500]}')
    if '?Warning' in outs[1]:
        v('warning', outs[1][:1000])
    for f, o in zip(['normal'] + fm, outs[2:]):
        try:
            t = notation.clip(o)
            if f.startswith('compressed'):
                r, labs, saved = notation.dec_compressed(t, mand, arity)
                if f == 'compressed / fast' and kind != 'compressed' and False:
                    pass
            else:
                r = notation.dec_text(t, arity, 'explicit' in f, hyps, thm)
        except notation.Bad as e:
            v('show-bad', f'SHOW PROOF / {f} of a proof written in {kind} notation printed something that is not a proof ({e}): {o[:1500]}')
        if r != steps_rpn:
            v('show-differs', f'SHOW PROOF / {f} of a proof written in {kind} notation shows other steps:\nshown {r}\nmeant {steps_rpn}'[:4000])
    ctx.count(kind)
    ctx.count('labels', len(set(steps_rpn)))
    ctx.nontrivial(len(steps_rpn) >= 3)


CHECK = Check('C02', prop, quick=5000, thorough=150000,
              rule='random proof DAGs (1-700 labels, up to 20000 steps) written in one of five notations by an independent encoder, '
                   'shown in several notations and decoded by an independent decoder; non-trivial = at least 3 steps; distinct by source text',
              known={'obsolete-heuristic': lambda v, ctx: v.kind == 'obsolete-heuristic'})

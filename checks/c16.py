"""C16  SHOW LABELS and SEARCH list exactly the matching statements."""
import re
from lib import mm, mmgen, mmref
from lib.labels import Labels
from lib.core import Check, Violation, Discard


def symbol_pattern(g, texts):
    """-> (string to type, strict regex, lax regex)"""
    base = g.choice(texts)
    i = g.draw(len(base))
    toks = list(base[i:i + g.int(1, 6)])
    if g.bool(0.3):
        toks[g.draw(len(toks))] = g.choice(g.choice(texts))
    if g.bool(0.1):
        toks = [g.choice(g.choice(texts)) for _ in range(g.int(1, 3))]
    toks = [t for t in toks if t not in ('$e', '$a', '$p')] or ['|-']
    star = g.choice(['$*', '$'])
    one = g.choice(['$?', '?'])
    typed, strict, lax = [], '', ''
    wild = 0
    k = 0
    while k < len(toks):
        t = toks[k]
        w = g.draw(10)
        if '?' in t or w > 3 or wild > 2:
            # (a literal ? is a wildcard too)
            typed.append(t)
            strict += ''.join(r'\S' if c == '?' else re.escape(c) for c in t) + ' '
            lax += ''.join(r'\S?' if c == '?' else re.escape(c) for c in t) + ' '
        elif w == 0:                        # any tokens, instead of this one or more
            wild += 1
            typed.append(star)
            strict += r'(?:\S+ )*'
            lax += r'(?:\S+ )*'
            k += g.draw(2)
            if g.bool(0.3):
                k -= 1
        elif w == 1:                        # inside a token
            wild += 1
            j = g.int(0, len(t))
            e = g.int(j, len(t))
            if j == 0 and e == len(t):
                e = len(t) - 1
                if not t[e:]:
                    continue
            typed.append(t[:j] + '$*' + t[e:])
            s = re.escape(t[:j]) + '.*' + re.escape(t[e:]) + ' '
            strict += s
            lax += s
        else:
            if len(t) <= 2 and g.bool(0.4):
                typed.append(one * len(t))
                strict += r'\S' * len(t) + ' '
                lax += r'\S?' * len(t) + ' '
            else:
                j = g.draw(len(t))
                typed.append(t[:j] + one + t[j + 1:])
                strict += re.escape(t[:j]) + r'\S' + re.escape(t[j + 1:]) + ' '
                lax += re.escape(t[:j]) + r'\S?' + re.escape(t[j + 1:]) + ' '
        k += 1
    if not strict:
        raise Discard('empty')
    s = ' '.join(typed)
    sep = g.choice([' ', ' ', '  '])
    s = s.replace(' ', sep)
    q = [c for c in '\'"' if c not in s]
    if not q:
        raise Discard('quotes')
    q = g.choice(q)
    return f'{q}{s}{q}', ' ' + strict, ' ' + lax


CW = ['the', 'proof', 'of', 'is', 'x', '_under_', '[Ref]', '$x', '(', ')', '<b>', 'e.g.', 'Contributed', 'by', 'THEOREM', 'Theorem', 'a', '100%', '$ c', '~ ax-1', '` ph `']


def prop(g, ctx):
    d = mmgen.Gendb(g, mmgen.Opts(compressed=0.5, nctor=(1, 4), nax=(1, 6), nthm=(2, 8), depth=2, types=(1, 3), locals=0.4))
    # source text, with descriptions
    out = []
    desc = {}
    last = ''
    pre = g.draw(4)
    for it in d.items:
        if it[0] in 'feap':
            n = g.small(0, 2, 0.5)
            saved = pre == 2 and it[0] == 'p'
            for _ in range(max(n, saved)):
                c = mmgen.rand_comment(g, CW, (0, 8))
                if saved:       # (or SAVE PROOF would add it)
                    c += ' (Contributed by N, 1-Jan-2020.) '
                last = ' '.join(c.split())
                out.append('$( ' + c + ' $)')
            desc[it[1]] = last
        elif g.bool(0.1):
            out.append('$( nobody reads this $)')
        out.append(mmgen.emit([it]).strip())
        last = ''
    text = '\n'.join(out) + '\n'
    db = mmref.parse(text)
    ctx.write('t.mm', text)
    L = Labels(db)
    kind = {l: x.kind for l, x in db.labels.items()}
    num = {l: x.index for l, x in db.labels.items()}
    texts = [x.toks for x in db.labels.values()]
    cmds = ['read t.mm']
    thms = [b.label for b in db.order if b.kind == 'p']
    if pre == 1 and thms:
        L.proving = g.choice(thms)
        cmds += [f'prove {L.proving}', 'exit']
    elif pre == 2 and thms:
        for _ in range(g.int(1, 2)):
            l = g.choice(thms)
            cmds.append(f'save proof {l} / ' + g.choice(['normal', 'compressed']))
            L.changed.add(l)
    npre = len(cmds)
    asks = []
    width = g.choice([30000, 30000, 79, 40])
    for _ in range(g.int(2, 6)):
        k = g.draw(4)
        pat = L.gen(g)
        al = g.bool(0.4)
        if k == 0:
            asks.append((f'show labels {pat}' + (' / all' if al else '') + (' / linear' if g.bool(0.3) else ''), 'labels', pat, al))
        elif k == 1:
            if not desc:
                continue
            t = g.choice(list(desc.values()))
            i = g.draw(len(t) + 1)
            t = t[i:i + g.int(1, 20)].strip() if t else ''
            t = t or g.choice(CW)
            if g.bool(0.3):
                t = t.swapcase()
            if g.bool(0.3):
                t = t.replace(' ', '  ')
            q = [c for c in '\'"' if c not in t]
            if not q:
                continue
            asks.append((f'search {pat} {q[0]}{t}{q[0]} / comments' + (' / all' if al else ''), 'comments', pat, al, ' '.join(t.split()).upper()))
        else:
            join = g.bool(0.4)
            tx = [full(db, l, join) for l in L.all] if join else texts
            s, strict, lax = symbol_pattern(g, tx)
            if g.bool(0.6):
                pat = '*'
            asks.append((f'search {pat} {s}' + (' / all' if al else '') + (' / join' if join else ''), 'symbols', pat, al, strict, lax, join))
    cmds += [a[0] for a in asks]
    ctx.show(text + '\n' + '\n'.join(cmds))
    ctx.key(text, cmds)
    pre = [f'set width {width}'] if width != 30000 else []
    full_cmds = []
    pos = []
    for i, c in enumerate(cmds):
        if i >= npre and width != 30000:
            if asks[i - npre][1] == 'labels':
                full_cmds.append(f'set width {width}')
                pos.append(len(full_cmds))
                full_cmds += [c, 'set width 30000']
                continue
        pos.append(len(full_cmds))
        full_cmds.append(c)
    outs, _ = mm.session(ctx.env['plain'], full_cmds, ctx.dir, width=30000)
    if '?Error' in outs[0]:
        raise Violation('read', outs[0][:2000])
    outs = [outs[i] for i in pos[npre:]]
    nt = False
    for a, o in zip(asks, outs):
        what = f'{a[0]}: {o[:3000]}'
        if o.startswith('?') or '\n?' in o:
            raise Violation('refused', what)
        sel = [l for l in L.all if (a[3] or kind[l] in 'ap') and L.match(l, a[2])]
        if a[1] == 'labels':
            w = o.split('label, and type.')[1].split()
            got = list(zip(w[::3], w[1::3], w[2::3]))
            want = [(str(num[l]), l, '$' + kind[l]) for l in sel]
            if got != want or len(w) % 3:
                raise Violation('labels', f'expected {want}: {what}')
            nt |= 0 < len(want) < len(L.all)
            if width < 100 and any(len(x) > width for x in o.split('\n')):
                raise Violation('width', what)
        elif a[1] == 'comments':
            want = [f'{num[l]} {l} ${kind[l]} "{desc[l]}"' for l in sel if a[4] in desc[l].upper()]
            if [x for x in o.split('\n') if x] != want:
                raise Violation('comments', f'expected {want}: {what}')
            nt |= bool(want)
        else:
            got = [' '.join(x.split()) for x in o.split('\n') if x]
            i = 0
            for l in sel:
                toks = full(db, l, a[6])
                line = f'{num[l]} {l} ' + ('' if toks[0] == '$e' else f'${kind[l]} ') + ' '.join(toks)
                t = ' ' + ' '.join(toks) + ' '
                must = re.search(a[4], t) is not None
                may = re.search(a[5], t) is not None
                if i < len(got) and got[i] == line:
                    i += 1
                    if not may:
                        raise Violation('search-extra', f'{line} does not match: {what}')
                    nt = True
                elif must:
                    raise Violation('search-missed', f'{line} matches: {what}')
            if i < len(got):
                raise Violation('search-output', f'unexpected {got[i]}: {what}')
    ctx.nontrivial(nt)


def full(db, l, join):
    x = db.labels[l]
    if not join or isinstance(x, mmref.Hyp) or not x.ehyps:
        return x.toks
    out = []
    for h in x.ehyps:
        out += ['$e'] + h.toks
    return out + ['$' + x.kind] + x.toks


CHECK = Check('C16', prop, quick=10000, thorough=200000,
              rule='random databases with descriptions; random SHOW LABELS and SEARCH commands with all label-match forms, symbol patterns with wildcards, comment texts; '
                   'non-trivial = something but not everything was listed; distinct by source and commands')

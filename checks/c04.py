"""C04  READ accepts exactly the legal sources."""
import re

from lib import mm, mmgen, mmref
from lib.core import Check, Violation

KW = ['$c', '$v', '$f', '$e', '$d', '$a', '$p', '$.', '$=', '${', '$}', '$(', '$)']


def mutate(g, toks):
    toks = list(toks)
    labels = [toks[i - 1] for i, t in enumerate(toks) if t in ('$f', '$e', '$a', '$p') and i]
    plain = [t for t in toks if not t.startswith('$')]
    n = len(toks)
    if n == 0:
        return ['$c']
    op = g.draw(14)
    i = g.draw(n)
    if op == 0:
        del toks[i]
    elif op == 1:
        toks.insert(i, toks[i])
    elif op == 2:
        j = g.draw(n)
        toks[i], toks[j] = toks[j], toks[i]
    elif op == 3:
        toks[i] = g.choice(KW)
    elif op == 4:
        toks.insert(i, g.choice(KW))
    elif op == 5:
        toks[i] = g.choice(plain or ['x'])
    elif op == 6:
        toks.insert(i, g.choice(plain or ['x']))
    elif op == 7:
        # move a whole statement
        j = i
        while j < n and toks[j] not in ('$.', '${', '$}'):
            j += 1
        k = i
        while k > 0 and toks[k - 1] not in ('$.', '${', '$}'):
            k -= 1
        seg = toks[k:j + 1]
        del toks[k:j + 1]
        p = g.draw(len(toks) + 1)
        while 0 < p < len(toks) and toks[p - 1] not in ('$.', '${', '$}'):
            p -= 1
        toks[p:p] = seg
    elif op == 8:
        # delete a whole statement
        j = i
        while j < n and toks[j] not in ('$.', '${', '$}'):
            j += 1
        k = i
        while k > 0 and toks[k - 1] not in ('$.', '${', '$}'):
            k -= 1
        del toks[k:j + 1]
    elif op == 9 and len(labels) >= 2:
        # duplicate / clash a label
        js = [q for q, t in enumerate(toks) if t in labels]
        toks[g.choice(js)] = g.choice(labels)
    elif op == 10 and labels:
        js = [q - 1 for q, t in enumerate(toks) if t in ('$f', '$e', '$a', '$p') and q]
        q = g.choice(js)
        toks[q] = g.choice(['a+b', 'a:b', "it's", 'x/y', 'A_b', 'q.1', '0-', 'a"', '*', '?', 'ok'] + plain)
    elif op == 11:
        js = [q for q, t in enumerate(toks) if t in ('${', '$}')]
        if js:
            del toks[g.choice(js)]
        else:
            toks.insert(i, g.choice(['${', '$}']))
    elif op == 12:
        toks = toks[:i]
    else:
        toks.insert(i, g.choice(['$( c $)', '$( $( $)', '$( a $) $)', '$(x $)', '$( $)x', '$', '$x', '$$', 'a$b', '$.x', '$c$', '$0', '$;']))
    return toks


def semantic(g, toks):
    """insert one well-formed statement at a statement boundary, with names
    that may or may not be legal there"""
    toks = list(toks)
    ends = [0] + [i + 1 for i, t in enumerate(toks) if t in ('$.', '${', '$}')]
    p = g.choice(ends)
    sts = []
    k = 0
    for i, t in enumerate(toks):
        if t in ('$.', '${', '$}'):
            sts.append(toks[k:i + 1])
            k = i + 1
    vs = [x for s in sts if s[0] == '$v' for x in s[1:-1]] or ['x']
    cs = [x for s in sts if s[0] == '$c' for x in s[1:-1]] or ['c']
    labs = [s[0] for s in sts if len(s) > 1 and s[1] in ('$f', '$e', '$a', '$p')] or ['l']
    new = f'n{g.draw(3)}'
    op = g.draw(9)
    if op == 0:
        st = ['$v', g.choice(vs + cs[:2] + [new] + labs[:1]), '$.']
    elif op == 1:
        st = ['$c', g.choice(cs + vs[:2] + [new] + labs[:1]), '$.']
    elif op == 2:
        st = ['$d'] + [g.choice(vs + cs[:1]) for _ in range(g.int(1, 3))] + ['$.']
    elif op == 3:
        st = [new + 'f', '$f', g.choice(cs), g.choice(vs + cs[:1]), '$.']
    elif op == 4:
        st = [g.choice([new + 'e'] + labs[:2]), '$e', g.choice(cs)] + [g.choice(vs) for _ in range(g.int(0, 2))] + ['$.']
    elif op == 5:
        st = [g.choice([new + 'a'] * 3 + labs), '$a', g.choice(cs)] + [g.choice(vs) for _ in range(g.int(0, 2))] + ['$.']
    elif op == 6:
        st = ['${', '$v', g.choice(vs + [new]), '$.', new + 'f', '$f', g.choice(cs), g.choice(vs + [new]), '$.', '$}']
    elif op == 7:
        st = g.choice(sts) if sts else []
    else:
        st = ['${', '$c', new, '$.', '$}'] if g.bool(0.3) else ['${'] + (g.choice(sts) if sts else []) + ['$}']
    toks[p:p] = st
    return toks


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.3, nctor=(1, 3), nax=(1, 3), nthm=(1, 3), depth=2, locals=0.6, types=(1, 2))
    d = mmgen.Gendb(g, o)
    text = mmgen.emit(d.items, g, 'plain')
    toks = text.split()
    if len(toks) > 20 and g.bool(0.3):
        # a slice on statement boundaries
        ends = [i for i, t in enumerate(toks) if t in ('$.', '${', '$}')]
        toks = toks[:ends[g.draw(len(ends))] + 1]
    for _ in range(g.weighted([(1, 8), (0, 1), (2, 3), (3, 1)])):
        toks = mutate(g, toks) if g.bool(0.5) else semantic(g, toks)
    text = ''
    ln = 0
    for t in toks:
        text += t + g.weighted([(' ', 20), ('\n', 4), ('  ', 1), ('\t', 1), ('\f' if g.bool(0.1) else ' ', 1)])
    text += '\n'
    try:
        db = mmref.parse(text, mmref.Db(deferred=True))
        legal, why = True, ''
    except mmref.MMError as e:
        legal, why = False, str(e)
    ctx.write('t.mm', text)
    ctx.key(text)
    ctx.show(('legal\n' if legal else f'illegal: {why}\n') + text)
    outs, o = mm.session(ctx.env['plain'], ['read t.mm'], ctx.dir, width=2000, check=False)
    if o.rc == 1 and '(too many errors)' in o.err and '?Error' in o.out:
        # documented limit: the program gives up after 100 undeclared symbols
        ctx.count('too_many_errors')
        if legal:
            raise Violation('rejected-legal', o.out)
        return
    mm.health(o, 'read t.mm')
    err = '?Error' in outs[0]
    if legal and err:
        raise Violation('rejected-legal', f'source is legal but READ says:\n{outs[0]}')
    if not legal and not err:
        raise Violation('accepted-illegal', f'source is illegal ({why}) but READ found no error:\n{outs[0]}')
    if legal:
        m = re.search(r'The source has (\d+) statements; (\d+) are \$a and (\d+) are \$p\.', outs[0])
        t2 = mmref.tokenize(text)
        na = t2.count('$a')
        np = t2.count('$p')
        ns = sum(1 for t in t2 if t in ('$c', '$v', '$f', '$e', '$d', '$a', '$p', '${', '$}'))
        if not m:
            raise Violation('no-count', outs[0])
        got = tuple(int(x) for x in m.groups())
        if got != (ns, na, np):
            raise Violation('count', f'statement counts {got}, should be {(ns, na, np)}')
    elif 'No errors were found' in outs[0]:
        raise Violation('no-errors-line', outs[0])
    ctx.count('legal' if legal else 'illegal')
    if not legal:
        w = why.split(' ')
        ctx.count('why_' + w[0] + ('_' + w[1] if len(w) > 1 and w[0] not in ('redeclared', 'unexpected') else ''))
    ctx.nontrivial(len(toks) > 10)


CHECK = Check('C04', prop, quick=20000, thorough=600000,
              rule='legal random sources with 0-3 random token or statement edits; accepted or rejected compared with an independent parser; '
                   'non-trivial = more than 10 tokens; distinct by source text')

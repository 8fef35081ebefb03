"""C25  OPEN TEX, SHOW STATEMENT / TEX and SHOW PROOF / TEX: the LaTeX source shows the assertions and proofs of the database."""
import os, re
from lib import mm, mmgen
from lib.core import Check, Violation, Discard
from checks.c22 import expect
from checks.c24 import database, sq, lit, lit1, sp, page, WORDS


def defs(g, toks):
    d = {}
    for i, t in enumerate(toks):
        d[t] = g.choice([f'\\sym{chr(97 + i % 26) * (1 + i // 26)}', f'x_{{{i}}}', f'\\mathrm{{t{i}}}', f'{{\\rm t{i} u}}', f'Z{i}', f'({i}', f'\\{{{i}\\}}', f'"{i}\'', f'\\mbox{{a long name {i}}}'])
    return d


def formula(d, toks):
    """the squashed text: a thin space may stand between two symbols that are letters"""
    return ''.join(sq(d[t]) for t in toks)


def thin(x):
    return x.replace('\\,', '')


# words with characters that are special in LaTeX (or in the comment markup), and what is shown
SPECIAL = ['$5', 'a$b', '100%', '%x', '#1', 'no.#', '{x}', '{', '}', 'x&y', '&', '2^n', '^', 'a^b^c', 'a|b', '|', '<', 'x<y', 'a>b', '>', 'a_b', '_', '_emph_', 'back\\slash', '~~', '``', '``x``',
           '"quoted"', '"', 'a"b', "'s", '*', '[', ']', '[A1]', '^^', '%%', '{}', '&&', '<>', '$$', '##', '^%#', 'x^', 'a{b}c^{d}']
CONV = {'$': '\\$', '%': '\\%', '#': '\\#', '{': '\\{', '}': '\\}', '&': '\\&', '^': '\\^{ }', '|': '/', '<': '\\{', '>': '\\}', '_': '-'}


def shown(words):
    r, left = '', True
    for kind, x in words:
        if kind == 't':
            for c in x.replace('~~', '~').replace('``', '`'):
                if c == '"':
                    r += '``' if left else '"'
                    left = not left
                else:
                    r += CONV.get(c, c)
        elif kind == 'l':
            r += '{\\tt ' + x.replace('_', '\\char`\\_') + '}'
        elif kind == 'u':
            r += '\\url{' + x.replace('~~', '~') + '}'
        else:
            r += '$' + x + '$'
    return r


def describe(g, order, syms, tex):
    ws = []
    for _ in range(g.weighted([(3, 3), (8, 3), (25, 2)])):
        k = g.weighted([('w', 8), ('s', 4), ('l', 1), ('m', 1), ('u', 1)])
        if k == 'w':
            ws.append(('t', g.choice(WORDS)))
        elif k == 's':
            ws.append(('t', g.choice(SPECIAL)))
        elif k == 'l' and order:
            ws.append(('l', g.choice(order)))
        elif k == 'u':
            ws.append(('u', g.choice(['http://x.y/z', 'https://x.y/a_b?c=d&e%20', 'http://x.y/~~me/', 'mmset.html#th_1', 'http://x.y/{a}|^'])))
        elif k == 'm' and syms:
            ws.append(('m', [g.choice(syms) for _ in range(g.int(1, 4))]))
    t = ''
    for kind, x in ws:
        t += x if kind == 't' else '~ ' + x if kind in 'lu' else '` ' + ' '.join(y.replace('`', '``') for y in x) + ' `'
        t += g.weighted([(' ', 12), ('\n  ', 2), ('\n', 1)])
    return t.strip(), shown([(k, formula(tex, x) if k == 'm' else x) for k, x in ws])


def prop(g, ctx):
    d, items, db, proofs, incomplete = database(g)
    holes = any(s.lab == '?' for ss in proofs.values() for s in ss)
    toks = list(dict.fromkeys(t for it in items if it[0] in 'cv' for t in it[1]))
    tex = defs(g, toks)
    desc = {}
    out = []
    for it in items:
        if it[0] in 'ap' and g.bool(0.7):
            t, desc[it[1]] = describe(g, [x[1] for x in items if x[0] in 'ap'], toks, tex)
            out.append(('com', t))
        out.append(it)
    T = []
    for t in toks:
        T.append(f'latexdef{sp(g)}{lit1(g, t)}{sp(g)}as{sp(g)}{lit(g, tex[t])}{sp(g)};')
        if g.bool(0.2):
            T.append(f'htmldef {lit1(g, t)} as {lit(g, "y")};')
    T = g.shuffle(T)
    out.insert(g.choice([i for i, it in enumerate(out) if it[0] in 'cv{'] + [len(out)]), ('com', '$t' + sp(g) + '\n'.join(T) + '\n'))
    text = mmgen.emit(out, g, g.choice(['plain', 'ws']))
    if text.count('$t') != 1:
        raise Discard('typesetting keyword twice')
    ctx.write('t.mm', text)
    order = [b.label for b in db.order]
    cmds = []
    files = []                      # (name, header, [jobs])
    for k in range(g.weighted([(1, 4), (2, 1)])):
        head = g.bool(0.6)
        name = f'o{k}.tex'
        if g.bool(0.2):
            ctx.write(name, 'old\n')
        cmds.append(f'open tex {name}' + ('' if head else ' / no_header'))
        jobs = []
        for _ in range(g.int(1, 4)):
            if g.bool(0.5):
                l = g.choice(order + ['*']) if g.bool(0.9) else g.choice(order)[:1] + '*'
                cmds.append(f'show statement {l} / tex')
                ls = [x for x in order if x == l or l.endswith('*') and x.startswith(l[:-1])]
                jobs.append(('s', ls, None))
            elif proofs:
                l = g.choice(list(proofs))
                q = {}
                if g.bool(0.3):
                    q['all'] = 1
                if g.bool(0.2):
                    q['no_repeated_steps'] = 1
                    q['lemmon'] = 1
                if g.bool(0.15):
                    q['from_step'] = g.int(1, len(proofs[l]))
                if g.bool(0.15):
                    q['to_step'] = g.int(1, len(proofs[l]))
                if g.bool(0.15):
                    q['depth'] = g.int(1, 5)
                cmds.append(f'show proof {l} / tex' + ''.join(f' / {k}' + (f' {v}' if k in ('from_step', 'to_step', 'depth') else '') for k, v in q.items()))
                q['lemmon'] = q['renumber'] = 1
                jobs.append(('p', l, q))
        files.append((name, head, jobs))
        if k == 0 or g.bool():
            cmds.append('close tex')
    ctx.show('\n'.join(cmds) + '\n-----\n' + text)
    ctx.key(text, cmds)
    w = g.choice([79, 79, 60, 120, 300])
    outs, rest = mm.session(ctx.env['plain'], ['read t.mm'] + cmds, ctx.dir, width=w)
    if '?Error' in outs[0]:
        raise Violation('model', f'legal database rejected: {outs[0][:2000]}')
    for c, o in zip(cmds, outs[1:]):
        # (the substitutions guessed for unknown steps may violate $d conditions)
        if not (holes and 'disjoint variable ($d) violation' in ' '.join(o.split())) and re.search(r'\?(Error|BUG|You|Warning: (?!Statement "[^"]*"\s+has\s+no\s+comment))', o):
            raise Violation('message', f'{c}: {o}')
    for name, head, jobs in files:
        raw = page(os.path.join(ctx.dir, name))
        if raw is None:
            raise Violation('no file', f'{name} was not written: {outs}')

        def bad(kind, what):
            i = raw.find('\\begin{document}')
            raise Violation(kind, f'{name}: {what}\n{raw[max(i, 0):max(i, 0) + 8000]}')
        m = re.match(r'% This LaTeX file was created by Metamath on [^\n]*\n', raw)
        if not m:
            bad('head', 'no first line')
        body = raw[m.end():]
        if head:
            i = body.find('\\begin{document}\n')
            if i < 0 or not body.startswith('\\documentclass') or not body.endswith('\\end{document}\n') and not body.rstrip().endswith('\\end{document}'):
                bad('head', 'header or trailer missing')
            body = body[i + len('\\begin{document}'):body.rindex('\\end{document}')]
        elif '\\begin{document}' in body or '\\end{document}' in body:
            bad('head', 'header or trailer although there was to be none')
        b = thin(sq(body))
        want = ''
        for kind, l, q in jobs:
            if kind == 's':
                for x in l:
                    a = db.asserts[x]
                    env = 'theorem' if a.kind == 'p' else 'axiom' if x.startswith('ax-') else 'definition'
                    want += f'\\begin{{{env}}}\\label{{{env[:3]}:{x}}}' + thin(sq(desc.get(x, 'TO DO: PUT DESCRIPTION HERE'))) + '\\begin{align}'
                    hs = [formula(tex, h.toks) for h in a.mand if h.kind == 'e']
                    want += thin('\\quad\\&\\quad'.join(hs) + ('\\quad\\Rightarrow\\quad' if hs else '') + formula(tex, a.toks))
                    want += f'\\label{{eq:{x}}}\\tag{{{x}}}\\end{{align}}\\end{{{env}}}'
                    ctx.count('statements')
            else:
                rows = expect(proofs[l], db, q)
                want += '\\begin{proof}\\begin{align}'
                for n, _, left, t, f in rows:
                    if f is None:
                        raise Discard('unknown formula')
                    # (the first shown step has no line break only if it is step 1)
                    want += ('' if n == 1 else '\\\\') + f'{n}&&'
                    ref = [x for x in left if not x.endswith(':')]
                    loc = [x for x in left if x.endswith(':')]
                    hyp, lab = (ref[0], ref[1]) if len(ref) == 2 else ('', ref[0])
                    fm = thin(formula(tex, f))
                    if t in 'ef' and not lab.startswith('@') or lab in db.hyps:
                        want += f'&{fm}&\\text{{Hyp~{lab[lab.find(".") + 1:]}}}\\notag%{lab}'
                    elif t in 'ef':
                        want += f'&{fm}&\\text{{Hyp~{lab}}}\\notag%{lab}'
                    else:
                        want += (loc[0] + '\\' if loc else '') + f'&{fm}&(' + (lab if lab.startswith('@') else f'\\mbox{{\\ref{{eq:{lab}}}}}') + (',' + hyp if hyp else '') + ')\\notag'
                    ctx.count('rows')
                want += '\\end{align}\\end{proof}'
        # a long line may be broken with \notag \\ && & \qquad
        b2 = b.replace(sq('\\notag \\\\ && & \\qquad '), '')
        if b2 != want:
            i = next((i for i, (x, y) in enumerate(zip(b2, want)) if x != y), min(len(b2), len(want)))
            bad('text', f'shown ...{b2[max(0, i - 60):i + 120]}, expected ...{want[max(0, i - 60):i + 120]}')
    ctx.nontrivial(sum(len(j) for _, _, j in files) > 1)


CHECK = Check('C25', prop, quick=4000, thorough=100000,
              rule='random databases, LaTeX definitions and qualifiers; the whole file is predicted; non-trivial = more than one part written; '
                   'distinct by database and commands')

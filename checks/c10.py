"""C10  SAVE PROOF changes the notation of proofs and nothing else."""
import re
from lib import mm, mmgen, mmref, notation
from lib.core import Check, Violation, Discard

FMTS = ['compressed', 'compressed', 'normal', 'packed', 'explicit', 'explicit / packed', 'compressed / fast', 'packed / fast', 'compressed / old_compression', '',
        'explicit / packed / fast', 'compressed / time']


def hole(g, t, p):
    """replace random subproofs by unknown steps"""
    if g.bool(p):
        return ('?', ())
    return (t[0], tuple(hole(g, c, p) for c in t[1]))


def sections(text):
    """split at proofs: [outside, proof, outside, proof ...]; comments never contain $= or $."""
    return re.split(r'(?<=\$=)(.*?)(?=\$\.)', text, flags=re.S)


def subtrees(labels, letters, mand, arity):
    """assertion subproofs (longer than one step) that a compressed proof spells out more than once"""
    r, labs, saved = notation.dec_compressed(['('] + labels + [')'] + [letters], mand, arity)
    return r


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.5, nctor=(1, 5), nax=(1, 4), nthm=(1, 5), depth=g.choice([2, 3, 5]), types=(1, 3), dvprob=0.3, longlabels=g.choice([0.0, 0.0, 0.3]))
    d = mmgen.Gendb(g, o)
    items = list(d.items)
    db = d.db
    arity = {a.label: len(a.mand) for a in db.order}
    hyps = {a.label: [h.label for h in a.mand] for a in db.order}
    rpn = {}
    com = {}
    partial = set()
    oneline = g.bool(0.05)
    for i, it in enumerate(items):
        if it[0] != 'p':
            continue
        l = it[1]
        t = d.proofs[l]
        if t is None:
            raise Discard('no tree')
        if g.bool(0.15):
            t = hole(g, t, g.choice([0.1, 0.3]))
            a = db.labels[l]
            rp = mmref.rpn(t)
            if '?' in rp:
                partial.add(l)
                if g.bool(0.5):
                    D = notation.Dag()
                    # tagging of assertion nodes that are not unknown and occur again
                    st = notation.walk(D, D.tree(t), lambda n: bool(D.nodes[n][1]) and g.bool(0.5), lambda n: True)
                    labs, letters = notation.enc_compressed(st, hyps[l])
                    pt = ['('] + labs + [')', letters]
                else:
                    pt = rp
                items[i] = ('p', l, it[2], pt)
        rpn[l] = mmref.rpn(t)
        k = g.draw(4)
        com[l] = [None, 'A theorem. (Contributed by NM, 5-Aug-1993.)', 'A theorem.', '(Contributed by ?who?, 1-Jan-2020.) (Revised by X, 2-Feb-2021.)'][k]
    out = []
    depth = 0
    for it in items:
        if it[0] == '}':
            depth -= 1
        c = com.get(it[1]) if it[0] == 'p' else None
        if c:
            out.append('  ' * depth + '$( ' + c + ' $)')
        s = mmgen.emit([it]).strip()
        if it[0] == 'p' and g.bool(0.3):
            s = s.replace(' $=', '\n' + '  ' * depth + ' $=', 1)
        out.append('  ' * depth + s)
        if it[0] == '{':
            depth += 1
    text = ((' ' if oneline else '\n').join(out)) + '\n'
    ths = [it[1] for it in items if it[0] == 'p']
    width = g.weighted([(79, 5), (50, 1), (100, 1), (240, 1), (30, 1)])
    seq = []
    last = {}
    for _ in range(g.int(1, 4)):
        pat = g.choice(['*', '*', g.choice(ths), ','.join(g.sample(ths, 2)), 't*', '*1*'])
        f = g.choice(FMTS)
        ms = [t for t in ths if any(re.fullmatch(q.replace('.', r'\.').replace('*', '.*'), t) for q in pat.split(','))]
        if not ms:
            continue
        for t in ms:
            last[t] = (f, t in last and last[t] or None)
        seq.append((f'save proof {pat}' + (f' / {f}' if f else ''), ms, f))
    if not seq:
        raise Discard('nothing saved')
    ctx.write('t.mm', text)
    ctx.key(text, [c for c, _, _ in seq], width)
    ctx.show(f'width {width}: ' + '; '.join(c for c, _, _ in seq) + '\n' + text)
    sh = [f'show proof {t} / {f}' for t, (f, _) in sorted(last.items()) if f]
    cmds = ['read t.mm', 'verify proof *'] + [c for c, _, _ in seq] + ['verify proof *'] + ['write source o.mm'] + [seq[-1][0], 'write source o2.mm', 'erase', 'read o.mm', 'verify proof *']
    exe = ctx.env['asan'] if g.bool(0.08) else ctx.env['plain']
    outs, _ = mm.session(exe, cmds, ctx.dir, width=width)
    n = len(seq)
    if '?Error' in outs[0]:
        raise Violation('read', outs[0])
    # (formulas inferred for unknown steps may break $d conditions)
    errs0 = mm.verify_errors(outs[1])
    if errs0 - partial:
        raise Violation('verdict', f'valid proofs are rejected: {outs[1][:1000]}')
    del outs[1], cmds[1]
    for (c, ms, f), s in zip(seq, outs[1:]):
        if not ('fast' in f and ' * ' in c + ' '):
            flat = ' '.join(s.split())
            for t in ms:
                if f'The proof of "{t}" has been reformatted and saved internally.' not in flat:
                    raise Violation('message', f'{c}: {s[:1000]}')
    for s in (outs[n + 1], outs[len(cmds) - 1]):
        if mm.verify_errors(s) != errs0:
            raise Violation('verdict', f'{[c for c, _, _ in seq]}: {s[:1500]}')
        s = ' '.join(s.split())
        m = s.find('were not proved:')
        nots = set(s[m + 16:].replace(',', ' ').split()) if m >= 0 else set()
        if m >= 0 and not nots:
            raise Violation('unknown-steps', s)
        if nots != partial:
            raise Violation('unknown-steps', f'incomplete proofs are {sorted(partial)}, reported {sorted(nots)}: {s[:1000]}')
    got = ctx.read('o.mm')
    a, b = sections(text), sections(got)
    if len(a) != len(b):
        raise Violation('structure', f'{len(b)} parts instead of {len(a)}:\n{got}')
    date = r'\n *\(Contributed by \?who\?, \d{1,2}-[A-Z][a-z][a-z]-\d{4}\.\) '
    touched = set(t for _, ms, _ in seq for t in ms)
    for i in range(0, len(a), 2):
        x = b[i]
        th = ths[i // 2] if i // 2 < len(ths) else None
        if th in touched and com[th] and 'Contributed' not in com[th] and th not in partial:
            x2 = re.sub(date, '', x, count=1)
            if x2 == x:
                raise Violation('contributor', f'no contributor date was added to the description of {th}: {x!r}')
            # (the date is put just before the closing $)
            if x2.replace(' ', '').replace('\n', '') != a[i].replace(' ', '').replace('\n', ''):
                raise Violation('outside', f'text outside the proof of {th} changed: {a[i]!r} became {x!r}')
        elif x != a[i]:
            raise Violation('outside', f'text outside proofs changed: {a[i]!r} became {x!r}')
    for i, th in enumerate(ths):
        p = b[2 * i + 1]
        if th not in touched:
            if p != a[2 * i + 1]:
                raise Violation('other-proof', f'the proof of {th} was not saved but changed to {p!r}')
            continue
        f = last[th][0]
        toks = p.split()
        try:
            if 'compressed' in f:
                r, labs, saved = notation.dec_compressed(toks, hyps[th], arity)
            else:
                r = notation.dec_text(toks, arity, 'explicit' in f, hyps, th)
        except notation.Bad as e:
            raise Violation('not-a-proof', f'{th} saved as {f or "normal"}: {e}: {p}')
        if r != rpn[th]:
            raise Violation('other-steps', f'{th} saved as {f or "normal"}:\nsteps  {r}\nbefore {rpn[th]}\nproof {p}')
        # layout: indented, no line wider than the screen unless a single word is
        lines = p.split('\n')
        if lines[0].strip() or not p.startswith('\n'):
            raise Violation('layout', f'{th}: proof does not start on a new line: {p!r}')
        longest = max(len(w) for w in toks) + max(len(ln) - len(ln.lstrip()) for ln in lines)
        for ln in lines[1:]:
            if longest <= width and len(ln) > width and len(ln.split()) > 1:
                raise Violation('too-wide', f'{th}: line of {len(ln)} characters at width {width}: {ln!r}')
        if 'compressed' in f and 'fast' not in f:
            twice(th, toks, hyps[th], arity)
            ctx.count('compressed')
        if f in ('', 'normal', 'explicit') and re.search(r'\d:', ' '.join(toks).replace('=', '')):
            raise Violation('not-normal', f'{th}: local labels in a normal proof: {p}')
    if ctx.read('o2.mm') != got and not oneline:   # (a date put before a label on the same line changes its indentation)
        raise Violation('not-idempotent', f'saving again changes the source: {seq[-1][0]}: {diff(got, ctx.read("o2.mm"))}')
    ctx.count('saved', len(touched))
    ctx.count('partial', len(partial))
    ctx.nontrivial(any(len(rpn[t]) > 2 for t in touched))


def diff(a, b):
    import difflib
    return '\n'.join(difflib.unified_diff(a.split('\n'), b.split('\n'), lineterm='', n=1))[:2500]


def twice(th, toks, mand, arity):
    """a recompressed proof spells out no complete assertion subproof twice"""
    k = toks.index(')')
    objs = list(mand) + toks[1:k]
    stack, saved, seen = [], [], set()
    n = 0
    for ch in ''.join(toks[k + 1:]):
        if 'A' <= ch <= 'T':
            n = n * 20 + ord(ch) - 65
            if n < len(objs):
                l = objs[n]
                a = arity.get(l, 0)
                kids = tuple(stack[len(stack) - a:]) if a else ()
                if a:
                    del stack[len(stack) - a:]
                node = (l, kids)
                if a:
                    if '?' not in repr(node):
                        if node in seen:
                            raise Violation('repeated-subproof', f'{th}: the subproof ending with {l} is written twice: {toks}')
                        seen.add(node)
                stack.append(node)
            else:
                stack.append(saved[n - len(objs)])
            n = 0
        elif ch == 'Z':
            saved.append(stack[-1])
        elif ch == '?':
            stack.append(('?', ()))
        else:
            n = n * 5 + ord(ch) - 84


CHECK = Check('C10', prop, quick=5000, thorough=150000, builds=('plain', 'asan'),
              rule='random databases with complete and incomplete proofs in normal and compressed notation, random sequences of SAVE PROOF with label patterns, formats and widths; '
                   'the written source is compared with the original section by section and saved proofs are decoded independently; non-trivial = a saved proof of over 2 steps; distinct by source and commands')

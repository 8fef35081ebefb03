"""C09  WRITE SOURCE / EXTRACT: the closure of the chosen statements, nothing more."""
import fnmatch, re
from lib import mm, mmgen, mmref
from lib.core import Check, Violation, Discard

W = ['the', 'a', 'proof', 'of', 'x', '_em_', '[Ref]', '(', ')', 'e.g.', '"q"', 'Contributed', 'Theorem', '100%', '~ http://a.b/c', '` x `', '.', 'End.',
     '(New usage is discouraged.)', '~~', "it's", 'page', '12].']
HDR = ['####', '#*#*', '=-=-', '-.-.']


def stmt_text(g, it, dens):
    sp = lambda: g.weighted([(' ', 30), ('\n  ', 2), ('  ', 1), (' $( in $) ', 1 if dens else 0)])
    k = it[0]
    if k in '{}':
        return '$' + k
    if k in 'cvd':
        return '$' + k + sp() + ''.join(x + sp() for x in it[1]) + '$.'
    mid = g.weighted([(' ', 20), ('\n', 1), (' $( after label $) ', 1 if dens else 0)])
    s = it[1] + mid + '$' + k + sp() + ''.join(x + sp() for x in it[2])
    if k == 'p':
        s += '$=' + g.choice([' ', '\n   ']) + ''.join(x + g.weighted([(' ', 20), ('\n  ', 1)]) for x in it[3])
    return s + '$.'


def newdv(items, act, vs):
    """the $d statements that contribute a pair (of variables in vs) not in an earlier one"""
    seen = set()
    out = []
    for j in act:
        if items[j][0] == 'd':
            x = items[j][1]
            pairs = set(frozenset((p, q)) for p in x for q in x if p != q and (vs is None or p in vs and q in vs))
            if pairs - seen:
                out.append(j)
                seen |= pairs
    return out


def strip(t):
    return mmref.tokenize(t)


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.5, nctor=(1, 5), nax=(1, 4), nthm=(2, 6), depth=3, types=(1, 3), dvprob=0.5, extra_dv=0.5, locals=0.4, unknown=0.05, ax_optdv=0.4)
    d = mmgen.Gendb(g, o)
    items = d.items
    n = len(items)
    dens = g.choice([0, 0.2, 0.5])
    labels = [it[1] for it in items if it[0] in 'feap']
    aplab = [it[1] for it in items if it[0] in 'ap']
    out = []
    hdrs = {}          # item index -> [(level, unique title)]
    desc = {}          # item index -> (comment words or None, refs)
    tpos = g.int(0, n) if g.bool(0.3) else None
    first = g.weighted([('$( test.mm version 1 $)\n', 6), ('', 1), ('$( two\n   lines $)\n', 1), ('\n', 1), ('  ', 1)])
    out.append(first)
    for i, it in enumerate(items):
        sec = ''
        if g.bool(dens / 3):
            for lv in sorted(g.sample(range(4), g.small(1, 3, 0.3))):
                u = f'Title{i}lv{lv}'
                hdrs.setdefault(i, []).append((lv, u))
                tail = g.choice(['', '', f'\n  Text of the {u}x section.\n'])
                sec += '\n$(\n' + HDR[lv] * 5 + '\n  ' + u + '\n' + HDR[lv] * 5 + '\n' + tail + '$)\n'
        if tpos == i:
            sec += '\n$( $t\nhtmldef "x" as "X"; /* uniquedollart */\n$)\n'
        if it[0] in 'ap' and g.bool(dens) or it[0] not in 'ap' and g.bool(dens / 4):
            words = [g.choice(W) for _ in range(g.int(1, 8))]
            ref = None
            if g.bool(0.3):
                ref = g.choice(labels)
            words = [f'Desc{i}d'] + words
            if sum(w.count('`') for w in words) % 2:
                words = words[:1]
            txt = '$( ' + ''.join(w + g.weighted([(' ', 8), ('\n  ', 1)]) for w in words)
            if ref:
                txt += f'See ~ {ref} here. '
            txt += '$)\n'
            desc[i] = (txt, words, ref)
            sec += g.choice(['', ' ', '\n', '   ']) + txt
            if g.bool(0.2):
                sec = '\n$( Another comment. $)\n' + sec
        out.append(sec + g.choice(['', '  ']) + stmt_text(g, it, dens) + g.weighted([('\n', 8), (' ', 1), ('\n\n', 1)]))
    if tpos == n:
        out.append('\n$( $t\nhtmldef "x" as "X"; /* uniquedollart */\n$)\n')
    text = ''.join(out)
    if not text.endswith('\n'):
        text += '\n'
    # selection
    sel = g.choice(['one', 'one', 'some', 'wild', 'all', 'hyp'])
    if sel == 'one':
        pats = [g.choice(aplab)]
    elif sel == 'some':
        pats = g.sample(aplab, g.int(1, 4))
    elif sel == 'wild':
        pats = [g.choice(['th*', 'ax*', '*1', 'k?', '*.*', 'sy*', '?h?', '*h*']) for _ in range(g.int(1, 2))]
    elif sel == 'all':
        pats = ['*']
    else:
        pats = [g.choice(labels), g.choice(aplab)]
    arg = ','.join(pats)
    match = lambda l: any(re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in p), l) for p in pats)
    # ---- model of the closure
    db = d.db
    used = set()

    def trace(l):
        if l in used:
            return
        used.add(l)
        a = db.labels[l]
        if a.kind == 'p' and a.proof:
            for st in mmref.decode(db, a, a.proof):
                if st[0] == 'ass':
                    trace(st[1].label)
    for l in aplab:
        if match(l):
            trace(l)
    if not used:
        raise Discard('nothing selected')
    keep = [False] * n
    # scopes and active declarations
    stack = []          # open ${ indices
    active = [[]]       # per scope: indices of $v/$d/$f/$e
    decl = {}           # const -> index
    ends = {}
    st = []
    for i, it in enumerate(items):
        if it[0] == '{':
            st.append(i)
        elif it[0] == '}':
            ends[st.pop()] = i
    for i, it in enumerate(items):
        k = it[0]
        if k == '{':
            stack.append(i)
            active.append([])
        elif k == '}':
            stack.pop()
            active.pop()
        elif k == 'c':
            for s in it[1]:
                decl[s] = i
        elif k in 'vdfe':
            active[-1].append(i)
        if k in 'ap' and it[1] in used:
            keep[i] = True
            for b in stack:
                keep[b] = keep[ends[b]] = True
            act = [j for sc in active for j in sc]
            toks = list(it[2])
            if k == 'a':
                a = db.labels[it[1]]
                mand = set(h.label for h in a.mand)
                # an axiom needs its mandatory hypotheses, the $d statements
                # about two of its variables, and the declarations of all variables in these
                use = [j for j in act if items[j][0] in 'fe' and items[j][1] in mand] + newdv(items, act, a.allvars)
                vs = set(a.allvars)
                for j in use:
                    if items[j][0] == 'd':
                        vs.update(items[j][1])
                use += [j for j in act if items[j][0] == 'v' and vs & set(items[j][1])]
            else:
                use = [j for j in act if items[j][0] != 'd'] + newdv(items, act, None)
            for j in use:
                keep[j] = True
                if items[j][0] in 'fe':
                    toks += items[j][2]
            for s in toks:
                if s in decl:
                    keep[decl[s]] = True
    exp = []
    for i, it in enumerate(items):
        if keep[i]:
            exp += mmgen.emit([it]).split()
    have_c = set(s for i, it in enumerate(items) if keep[i] and it[0] == 'c' for s in it[1])
    have_v = set(s for i, it in enumerate(items) if keep[i] and it[0] == 'v' for s in it[1])
    un_c = [s for it in items if it[0] == 'c' for s in it[1] if s not in have_c]
    un_v = []
    for it in items:
        if it[0] == 'v':
            un_v += [s for s in it[1] if s not in have_v and s not in un_v]
    if un_c:
        exp += ['$c'] + un_c + ['$.']
    if un_v:
        exp += ['$v'] + un_v + ['$.']
    ctx.write('t.mm', text)
    ctx.key(text, arg)
    ctx.show(f'extract {arg}\n{text}')
    exe = ctx.env['plain']
    ths = [l for l in aplab if db.labels[l].kind == 'p' and l in used]
    cmds = ['read t.mm', 'verify proof *', f'write source o.mm / extract {arg}', 'erase', 'read o.mm', 'verify proof *'] + \
           [f'show statement {l} / full' for l in sorted(used)] + [f'write source o2.mm / extract {arg}', 'erase', 'read t.mm'] + \
           [f'show statement {l} / full' for l in sorted(used)]
    width = g.choice([79, 9999])
    outs, _ = mm.session(exe, cmds, ctx.dir, width=width)
    if '?' in outs[0].replace('?Warning', '') and '?Error' in outs[0]:
        raise Violation('read', outs[0][:2000])
    if not ctx.exists('o.mm'):
        raise Violation('no-output', outs[2])
    got = ctx.read('o.mm')
    try:
        gt = strip(got)
    except mmref.MMError as e:
        raise Violation('not-legal', f'{e}: {got}')
    if gt != exp:
        k = next((i for i in range(min(len(gt), len(exp))) if gt[i] != exp[i]), min(len(gt), len(exp)))
        raise Violation('closure', f'extract {arg}: tokens differ from the expected closure at {k}: wrote ...{gt[max(0,k-6):k+10]}, expected ...{exp[max(0,k-6):k+10]}\n--- output\n{got}')
    if '?Error' in outs[4]:
        raise Violation('result-unreadable', outs[4][:1500] + got)
    if mm.verify_errors(outs[5]):
        raise Violation('verdict', outs[5][:1500])
    m = re.search(r'Extracted (\d+) statements incl\. (\d+) \$a \((\d+) "ax-", (\d+) "df-"\), (\d+) \$p\.', outs[2])
    na = sum(1 for l in used if db.labels[l].kind == 'a')
    if not m or (int(m.group(1)), int(m.group(2)), int(m.group(5))) != (sum(keep), na, len(used) - na):
        raise Violation('summary', f'{outs[2][-300:]!r}; expected {sum(keep)} statements, {na} $a, {len(used)-na} $p')
    k = len(used)
    for l, a, b in zip(sorted(used), outs[6:6 + k], outs[9 + k:]):
        fa, fb = frame(a), frame(b)
        if fa != fb:
            raise Violation('frame', f'{l}: SHOW STATEMENT / FULL differs after the extraction: {fb!r} became {fa!r}')
    # again: nothing changes any more
    g2 = ctx.read('o2.mm')
    if strip(g2) != gt:
        raise Violation('not-stable', f'the extraction of the extraction differs: {strip(g2)}')
    # descriptions and headers
    flat = ' ' + ' '.join(got.split()) + ' '
    for i, (txt, words, ref) in desc.items():
        s = ' '.join(txt.split())
        it = items[i]
        if not keep[i]:
            if i and f'Desc{i}d' in got:       # (the first line of the file is quoted in the new header)
                raise Violation('comment-kept', f'the comment of the dropped statement {it} was written:\n{got}')
            continue
        if ref in aplab and not kept_label(items, keep, ref):
            s = s.replace(f'~ {ref} here', f'{ref} ~ http://us.metamath.org/mpeuni/{ref}.html here')
        if s not in flat:
            raise Violation('comment-lost', f'the comment {s!r} of the kept statement {it} was lost or changed:\n{got}')
        if it[0] in 'ap' and f'{s} {it[1]} ' not in flat:
            raise Violation('comment-moved', f'the comment {s!r} no longer precedes {it[1]}:\n{got}')
    flath = [(i, lv, u) for i in sorted(hdrs) for lv, u in hdrs[i]]
    maxs = max(i for i in range(n) if keep[i])
    for i, lv, u in flath:
        nxt = [j for j, l2, _ in flath if j > i and l2 <= lv]
        end = nxt[0] if nxt else n
        need = any(keep[i:end])
        if need != (f' {u} ' in flat):
            raise Violation('header', f'section header {u} is {"missing" if need else "not needed but written"}:\n{got}')
    if tpos is not None and got.count('uniquedollart') != 1:
        raise Violation('typesetting', f'the typesetting comment occurs {got.count("uniquedollart")} times:\n{got}')
    ctx.count('kept', sum(keep))
    ctx.count('dropped', n - sum(keep))
    ctx.nontrivial(not all(keep))


def kept_label(items, keep, l):
    return any(keep[i] and it[0] in 'feap' and it[1] == l for i, it in enumerate(items))


def frame(s):
    s = re.sub(r'Statement \d+ is located on line \d+ of the file "[^"]*"\.', '', ' '.join(s.split()))
    s = re.sub(r'"[^"]*Desc\d+d.*?"(?= \S+ \$[apfe])', '', s)
    s = re.sub(r'^.*?(?=\S+ \$[apfe] )', '', s)
    return s


CHECK = Check('C09', prop, quick=6000, thorough=200000,
              rule='random databases with scopes, $d, local variables, section headers, descriptions, label references and typesetting comments; the extracted file is compared '
                   'with a model of the closure of the selected statements, read, verified and extracted again; non-trivial = something is dropped; distinct by source and selection')

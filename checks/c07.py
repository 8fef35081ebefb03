"""C07  File inclusion: reading a tree of files equals reading the spliced text."""
import os, re
from lib import mm, mmgen, mmref, inc
from lib.core import Check, Violation


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.3, nctor=(1, 3), nax=(1, 3), nthm=(1, 4), depth=2, types=(1, 2))
    d = mmgen.Gendb(g, o)
    items = list(d.items)
    # damage some proofs so that error locations can be compared
    bad = []
    for i, it in enumerate(items):
        if it[0] == 'p' and g.bool(0.4):
            tree = d.proofs[it[1]]
            k = g.draw(3)
            pr = list(it[3])
            if k == 0:
                pr = ['nosuchlabel'] + pr if pr[0] != '(' else ['(', 'nosuchlabel'] + pr[1:]
            elif k == 1 and pr[0] != '(':
                pr = pr + pr[:1]
            else:
                pr = ['nosuchlabel']
            items[i] = ('p', it[1], it[2], pr)
            bad.append(it[1])
    t = inc.Tree(g, items, ['\n', '\n', ' ', '\n\n', '\n   ', ' $( c\n c $)\n', '\t'], allow_markup=g.bool(0.5), subdir=g.bool(0.3))
    os.makedirs(os.path.join(ctx.dir, 'sub'))
    missing = None
    if len(t.files) > 1 and g.bool(0.04):
        missing = g.choice(sorted(f for f in t.files if f != t.main))
    for f, x in t.files.items():
        if f != missing:
            ctx.write(f, x)
    ctx.key(sorted(t.files.items()), missing)
    ctx.show('\n'.join(f'===== {f}\n{x}' for f, x in t.files.items()))
    flat, loc = t.expand()
    ctx.write('flat.mm_', re.sub(r'\$\( (Begin|Skip|End) \$\[ (\S+) \$\] \$\)', r'$( \1 \2 $)', flat))
    labs = sorted(loc)
    ask = g.sample(labs, 3)
    cmds = [f'read {t.main}' if '/' not in t.main else f"read '{t.main}'"]
    q = ['verify proof *', 'show labels * / all / linear', 'show statement * / all'] + [f'show statement {l} / full' for l in ask]
    outs, _ = mm.session(ctx.env['plain'], cmds + q, ctx.dir, width=9999)
    ctx.count('files', len(t.files))
    ctx.count('inclusions', flat.count('Begin $['))
    ctx.count('repeats', flat.count('Skip $['))
    if missing:
        # reported, and nothing is read
        if 'was not found' not in outs[0] or missing not in outs[0]:
            raise Violation('missing-not-reported', f'{missing} does not exist: {outs[0]}')
        if 'No source file has been read' not in outs[1]:
            raise Violation('missing-read', f'{missing} does not exist, yet something was read: {outs[1][:500]}')
        ctx.count('missing')
        ctx.nontrivial()
        return
    if '?Error' in outs[0]:
        raise Violation('read', f'legal files rejected: {outs[0][:3000]}')
    ref, _ = mm.session(ctx.env['plain'], ['read flat.mm_'] + q, ctx.dir, width=9999)
    if '?Error' in ref[0]:
        raise Violation('model', f'spliced text rejected: {ref[0][:2000]}')

    def strip(s):
        # the echoed source line and the marker under it
        s = re.sub(r'(\?Error on line [^\n]*\n)[^\n]*\n[ \t]*\^+\n', r'\1', s)
        s = re.sub(r'(on line|at line) \d+( of | in )(the )?file "?[^\s"]+"?', '<place>', s)
        return re.sub(r'(Begin|End|Skip) \$\[ (\S+) \$\]', r'\1 \2', s)
    for i in range(1, len(outs)):
        if strip(outs[i]) != strip(ref[i]):
            raise Violation('differs', f'{q[i-1]}: read from the files gives\n{outs[i][:2500]}\nread from the spliced text gives\n{ref[i][:2500]}')
    for l, s in zip(ask, outs[4:]):
        s1 = re.sub(r'\s+', ' ', s)
        m = re.search(r'is located on line (\d+) of the file "([^"]*)"', s1)
        if not m:
            raise Violation('no-location', s1[:500])
        if (m.group(2), int(m.group(1))) != loc[l]:
            raise Violation('location', f'{l} is at {loc[l]} but is said to be on line {m.group(1)} of {m.group(2)}')
    # error places: the error of a one-token proof is on a known line
    v = re.sub(r'\s+', ' ', outs[1])
    n = 0
    for m in mm.ERR_RE.finditer(v):
        line, fn, lab = int(m.group(1)), m.group(2), m.group(4)
        n += 1
        if lab not in bad:
            raise Violation('verdict', f'{lab} is reported wrong')
        lf, ll = loc[lab]
        if fn != lf:
            raise Violation('error-file', f'the error in {lab} is in {lf} and is reported in {fn}')
        # within the statement: from its keyword line to its last line
        span = [x for p in d.items for x in [p] if p[0] == 'p' and p[1] == lab]
        last = ll + t_lines(t, lab)
        if not ll <= line <= last:
            raise Violation('error-line', f'the error in {lab} is on lines {ll}-{last} of {lf} and is reported on line {line}')
    if len(mm.verify_errors(outs[1])) != len(bad):
        raise Violation('missed', f'{bad} are wrong, reported {mm.verify_errors(outs[1])}')
    ctx.nontrivial(len(t.files) > 1)


def t_lines(t, lab):
    for it, txt in t.chunks:
        if it[0] == 'p' and it[1] == lab:
            k = inc.find_kw(txt, lab)
            return txt[k:].rstrip('\n \t').count('\n')
    return 0


CHECK = Check('C07', prop, quick=6000, thorough=150000,
              rule='random databases cut into random trees of files (nested, repeated, recursive and self references, split-source comments, several to a line, '
                   'missing final newlines, missing files); compared with the spliced text; places of statements and errors computed by the model; '
                   'non-trivial = at least one included file; distinct by file contents')

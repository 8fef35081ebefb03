"""C15  SHOW TRACE_BACK and SHOW USAGE report exactly the dependencies of proofs."""
import re
from lib import mm, mmgen, mmref, pa
from lib.labels import Labels
from lib.core import Check, Violation, Discard


class Dep:
    """what the stored proofs refer to"""
    def __init__(self, db, bad):
        self.db = db
        self.seq = {}       # label -> list of (label|None for a reference|'?', essential)
        self.memo = {}
        self.degenerate = False
        for b in db.order:
            if b.kind != 'p':
                continue
            if b.label in bad:
                self.seq[b.label] = [('?', True)]
                continue
            self.seq[b.label] = self.steps(b)

    def steps(self, b):
        db = self.db
        st, saved, seq = [], [], []
        for x in mmref.decode(db, b, b.proof):
            if x[0] == 'save':
                saved.append(st[-1][1])
                continue
            if x[0] == 'ref':
                lab = None
                kids = ()
                what = saved[x[1]]
            elif x[0] == '?':
                lab, kids, what = '?', (), None
            elif x[0] == 'hyp':
                lab, kids, what = x[1].label, (), x[1]
            else:
                lab = x[1].label
                n = len(x[1].mand)
                kids = tuple(k for k, _ in st[len(st) - n:]) if n else ()
                if n:
                    del st[-n:]
                what = x[1]
            seq.append([lab, False, kids, what])
            st.append((len(seq) - 1, what))

        def mark(i):
            seq[i][1] = True
            for h, k in zip(getattr(seq[i][3], 'mand', []) if seq[i][0] is not None else [], seq[i][2]):
                if h.kind == 'e':
                    mark(k)
        mark(st[0][0])
        return [(l, e) for l, e, _, _ in seq]

    def direct(self, l, ess=False):
        return [x for x, e in self.seq.get(l, []) if x is not None and x != '?' and (e or not ess)]

    def closure(self, l, ess=False):
        if (l, ess) in self.memo:
            return self.memo[l, ess]
        seen = self.memo[l, ess] = set()
        todo = [x for x in self.direct(l, ess)]
        while todo:
            x = todo.pop()
            if x in seen or isinstance(self.db.labels[x], mmref.Hyp):
                continue
            seen.add(x)
            todo += self.direct(x, ess)
        return seen

    def count(self, l, ess, memo):
        if l in memo:
            return memo[l]
        b = self.db.labels[l]
        if isinstance(b, mmref.Hyp) or b.kind == 'a':
            r = 1
        else:
            r = 0
            for x, e in self.seq[l]:
                if x is None or ess and not e:
                    continue
                if x == '?':
                    raise Discard('incomplete')
                r += self.count(x, ess, memo)
                c = self.db.labels[x]
                if not isinstance(c, mmref.Hyp) and c.kind == 'p':
                    r -= len(c.ehyps if ess else c.mand)
                if r < 0:
                    self.degenerate = True
            if r <= 0:
                self.degenerate = True
        memo[l] = r
        return r


def words(text):
    return text.split()


def doubling(g):
    """theorems whose expanded proofs have astronomically many steps"""
    n = g.int(5, 70)
    k = g.int(2, 3)
    out = ['$c wff |- $. $v p q $. wp $f wff p $. wq $f wff q $. ax $a |- p $.']
    es = ' '.join(f'j.{i} $e |- p $.' for i in range(k))
    out.append('${ ' + es + ' j $a |- p $. $}')
    prev = 'ax'
    hyp = False
    for i in range(n):
        one = f'wp {prev}' if not hyp else f'wp wp ax {prev}'
        h2 = g.bool(0.3)
        uses = [one if g.bool(0.8) else (f'h{i}' if h2 else 'wp ax') for _ in range(k)]
        pr = 'wp ' + ' '.join(uses) + ' j'
        if g.bool(0.1):
            pr = one
        out.append('${ ' + (f'h{i} $e |- p $. ' if h2 else '') + f't{i} $p |- p $= {pr} $. $}}')
        prev, hyp = f't{i}', h2
    return '\n'.join(out) + '\n'


def prop(g, ctx):
    bad = set()
    if g.bool(0.08):
        text = doubling(g)
    else:
        text, bad = database(g)
    explore(g, ctx, text, bad)


def database(g):
    big = g.bool(0.15)
    d = mmgen.Gendb(g, mmgen.Opts(compressed=g.choice([0.0, 0.5, 1.0]), chain=g.choice([0.3, 0.8]), nctor=(1, 3), nax=(1, 4), nthm=(3, 14) if big else (2, 6),
                                  depth=g.choice([2, 3, 4]), types=(1, 2), unknown=g.choice([0, 0, 0.2]), comments=False))
    items = list(d.items)
    bad = set()
    for i, it in enumerate(items):
        if it[0] == 'p' and g.bool(0.08):
            pr = list(it[3])
            k = g.draw(3)
            if k == 0:
                pr = ['?']
            elif k == 1:
                pr = ['nosuchlabel'] + pr if pr[0] != '(' else ['(', 'nosuchlabel'] + pr[1:]
                bad.add(it[1])
            else:
                pr = pr + pr[:1] if pr[0] != '(' else ['(', ')', '!']
                bad.add(it[1])
            items[i] = ('p', it[1], it[2], pr)
    return mmgen.emit(items), bad


def explore(g, ctx, text, bad):
    db = mmref.parse(text)
    dep = Dep(db, bad)
    ctx.write('t.mm', text)
    L = Labels(db)
    thms = [b.label for b in db.order if b.kind == 'p']
    cmds = []
    for _ in range(g.int(2, 6)):
        k = g.draw(5)
        pat = g.choice(thms) if g.bool(0.6) else L.gen(g)
        ess = g.bool(0.4)
        q = ' / essential' if ess else ''
        m = to = depth = None
        if k == 0:
            if g.bool(0.4):
                m = L.gen(g)
                q += f' / match {m}'
            if g.bool(0.5):
                to = L.gen(g)
                q += f' / to {to}'
            ax = g.bool(0.4)
            if ax:
                q += ' / axioms'
            cmds.append((f'show trace_back {pat}{q}', 'trace', pat, ess, ax, m, to))
        elif k == 1:
            if g.bool(0.5):
                depth = g.int(1, 5)
                q += f' / depth {depth}'
            cmds.append((f'show trace_back {pat} / tree{q}', 'tree', pat, ess, depth))
        elif k == 2:
            cmds.append((f'show trace_back {pat} / count_steps{q}', 'count', pat, ess))
        else:
            p2 = L.gen(g)
            al = g.bool(0.5)
            rec = g.bool(0.5)
            cmds.append((f'show usage {p2}' + (' / all' if al else '') + (' / recursive' if rec else ''), 'usage', p2, al, rec))
    ctx.show(text + '\n' + '\n'.join(c[0] for c in cmds))
    ctx.key(text, [c[0] for c in cmds])
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm'] + [c[0] for c in cmds], ctx.dir, width=30000)
    if '?Error' in outs[0] and not bad:
        raise Violation('read', outs[0][:2000])
    nt = False
    for c, out in zip(cmds, outs[1:]):
        # messages about the damaged proofs
        out = re.sub(r'(?m)^\n?\?Error on line [^\n]*\n[^\n]*\n *\^+\n(?:[^\n]*\n)', '', out)
        what = f'{c[0]}: {out[:3000]}'
        if c[1] == 'usage':
            nt |= usage(c, out, what, L, dep, thms)
            continue
        sel = [l for l in thms if L.match(l, c[2])]
        if not sel:
            if 'There are no $p labels matching' not in out:
                raise Violation('no-match', what)
            continue
        if c[1] == 'trace':
            nt |= trace(c, out, what, L, dep, sel, db)
        elif c[1] == 'tree':
            nt |= treeout(c, out, what, dep, sel, db)
        else:
            nt |= count(c, out, what, dep, sel, db, ctx)
    ctx.nontrivial(nt)


def trace(c, out, what, L, dep, sel, db):
    _, _, _, ess, ax, m, to = c
    parts = re.split(r'(?m)^(?:The proof of statement|Statement) "([^"]*)" (?:uses the following earlier statements:|assumes the following axioms \(\$a statements\):|traces back to ".*" via:)\n', out)
    if parts[1::2] != sel:
        raise Violation('statements', f'{sel} expected: {what}')
    nt = False
    for l, txt in zip(sel, parts[2::2]):
        txt, _, warn = txt.partition('Warning: The following traced statement(s) were not proved:\n')
        got = words(txt)
        if got == ['(None)']:
            got = []
        cl = dep.closure(l, ess)
        if to:
            cl = set(x for x in cl if L.match(x, to) or any(L.match(y, to) for y in dep.closure(x)))
        un = set(x for x in cl | {l} if x in dep.seq and any(s == '?' and (e or not ess) for s, e in dep.seq[x]))
        want = [b.label + ('($a)' if b.kind == 'a' and not ax else '') for b in db.order if b.label in cl
                and (not ax or b.kind == 'a') and (not m or L.match(b.label, m))]
        if got != want:
            raise Violation('trace', f'{l}: expected {want}: {what}')
        if set(words(warn)) != un or len(words(warn)) != len(un):
            raise Violation('unproved', f'{l}: expected {sorted(un)}: {what}')
        nt |= len(cl) > 1
    return nt


def treeout(c, out, what, dep, sel, db):
    _, _, _, ess, depth = c
    want = []

    def rec(l, n):
        b = db.labels[l]
        if isinstance(b, mmref.Hyp):
            return
        want.append(' ' * (3 * n) + f'{l} ${b.kind}  ""')
        if b.kind != 'p' or depth and depth < n + 2:
            return
        shown = []
        for x, e in dep.seq[l]:
            if x in (None, '?') or ess and not e or isinstance(db.labels[x], mmref.Hyp):
                continue
            if x not in found:
                rec(x, n + 1)
                found.add(x)
                shown.append(x)
            elif x not in shown and x not in old.setdefault(id(shown), []):
                old[id(shown)].append(x)
        o = old.pop(id(shown), [])
        if o:
            want.append(' ' * (3 * n + 3) + ' '.join(o) + ' (shown above)')
        if any(x == '?' and (e or not ess) for x, e in dep.seq[l]):
            want.append(' ' * (3 * n + 3) + f'*** Statement {l} has not been proved.')
    nt = False
    for l in sel:
        found = set()
        old = {}
        want.append(f'The proof tree traceback for statement "{l}" follows.  The statements used by each proof are indented one level in, '
                    'below the statement being proved.  Hypotheses are not included.')
        want.append('')
        rec(l, 0)
        nt |= len(found) > 2
    got = [x.rstrip() for x in out.split('\n')]
    while got and not got[-1]:
        got.pop()
    # the damaged proofs' messages leave empty lines
    if [x for x in got if x] != [x for x in want if x]:
        raise Violation('tree', 'expected\n' + '\n'.join(want) + '\n' + what)
    return nt


def count(c, out, what, dep, sel, db, ctx):
    ess = c[3]
    parts = [x for x in out.split("The statement's actual proof has ")][1:]
    if len(parts) != len(sel):
        raise Violation('statements', f'{len(sel)} expected: {what}')
    nt = False
    for l, txt in zip(sel, parts):
        txt = ' '.join(txt.split())
        dep.degenerate = False
        try:
            n = dep.count(l, ess, {})
        except Discard as x:
            ctx.count('count-' + str(x))
            continue
        m = re.match(r'(\d+) steps. Backtracking, a total of (\d+) different subtheorems are used. The statement and subtheorems have a total of (\d+) '
                     r'actual steps. If subtheorems used only once were eliminated, there would be a total of (\d+) subtheorems, and the statement and '
                     r'subtheorems would have a total of (-?\d+) steps. The proof would have ?(\d*)( =~ \S+ x 10\^\d+)? steps if fully expanded back to axiom '
                     r'references. The maximum path length is (\d+). A longest path is: (.*) \.$', txt)
        if not m:
            raise Violation('count-format', what)
        plen = lambda x: sum(1 for s, e in dep.seq[x] if e or not ess)
        cl = dep.closure(l, ess)
        sub = [x for x in cl if x in dep.seq]
        use = {}
        for x in sub + [l]:
            for s, e in dep.seq[x]:
                if s is not None and (e or not ess):
                    use[s] = use.get(s, 0) + 1
        e2 = plen(l)
        for x in sub:
            b = db.labels[x]
            e2 += plen(x)
            if use[x] < 2:
                e2 -= 1 + len(b.ehyps if ess else b.mand)
        dist = {}

        def dst(x):
            if x not in dist:
                dist[x] = 1 + max(dst(y) for y in dep.direct(x, ess)) if x in dep.seq else 0
            return dist[x]
        want = (plen(l), len(sub), plen(l) + sum(plen(x) for x in sub), sum(1 for x in sub if use[x] > 1), e2, n)
        got = tuple(int(m.group(i) or 0) for i in range(1, 7))
        if dep.degenerate:
            ctx.count('count-degenerate')
        if got != want:
            raise Violation('count-degenerate' if dep.degenerate else 'count', f'{l}: expected {want}: {what}')
        if n >= 100000:
            a = f' =~ {((5 + int(str(n)[:3])) / 100):.10f}'[:7] + f' x 10^{len(str(n)) - 1}'
            if (m.group(7) or '').rstrip() != a and int(str(n)[:3]) % 100 not in (5, 95):
                if not close(m.group(7), n):
                    raise Violation('approximation', f'{l}: {n}: {what}')
        elif m.group(7):
            raise Violation('approximation', f'{l}: {n}: {what}')
        path = m.group(9).split(' <- ')
        if int(m.group(8)) != dst(l) or len(path) != dst(l) + 1 or path[0] != l or any(y not in dep.direct(x, ess) for x, y in zip(path, path[1:])):
            raise Violation('path', f'{l}: longest path {dst(l)}: {what}')
        nt |= n > plen(l)
    return nt


def close(txt, n):
    m = re.match(r' =~ (\S+) x 10\^(\d+)', txt or '')
    return bool(m) and abs(float(m.group(1)) * 10 ** int(m.group(2)) - n) <= n * 0.06


def usage(c, out, what, L, dep, thms):
    _, _, pat, al, rec = c
    db = dep.db
    wild = '*' in pat or '?' in pat
    sel = [l for l in L.all if L.match(l, pat) and (al or not wild or not isinstance(db.labels[l], mmref.Hyp))]
    if not sel:
        if 'There are no labels matching' not in out:
            raise Violation('no-match', what)
        return False
    parts = re.split(r'(?m)^Statement "([^"]*)" is not referenced in the proof of any statement\.\n|'
                     r'^Statement "([^"]*)"( directly or indirectly affects| is directly referenced in) the proofs? of (\d+) statements?:\n', out)
    got = []
    for i in range(1, len(parts), 5):
        got.append((parts[i] or parts[i + 1], parts[i + 2], int(parts[i + 3] or 0), words(parts[i + 4])))
    if [x[0] for x in got] != sel:
        raise Violation('statements', f'expected {sel}: {what}')
    nt = False
    for l, how, n, ws in got:
        if ws == ['(None)']:
            ws = []
        users = [t for t in thms if l in dep.direct(t) or rec and any(l in dep.direct(x) for x in dep.closure(t))]
        if ws != users or n != len(users):
            raise Violation('usage', f'{l}: expected {users}: {what}')
        if how and ('indirectly' in how) != rec:
            raise Violation('usage', what)
        nt |= len(users) > 1
    return nt


CHECK = Check('C15', prop, quick=8000, thorough=200000,
              known={'count-degenerate': lambda v, ctx: v.kind == 'count-degenerate'},
              rule='random databases with normal, compressed, partial and damaged proofs; random TRACE_BACK and USAGE commands with all qualifiers and label patterns '
                   'against reachability in the graph of references; non-trivial = a list with two statements or more, or a proof longer when expanded; '
                   'distinct by source and commands')

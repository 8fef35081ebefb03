"""Generates random well-formed Metamath databases whose theorems have valid
proofs by construction.  Formulas are kept as syntax trees so that unification
is first-order; proofs are trees (label, (children...))."""
from . import mmref
from .core import Discard

SYMS = ['->', '/\\', '-.', 'A.', 'E.', '=', 'e.', '+', '<', '0', '1', '[', ']', '|', '~', 'u.', ',', ':', '"', "'",
        '&', '>', '<->', '_|_', '{', '}', '#', '@', '!', '%', '*', ';', '^', '`', 'sum_', 'F/', '\\/', 'x.', '(x)', '?', '=?', 'wff=',
        '.', '..', '$f'[1:] + 'oo', 'C_']
VARS = ['p', 'q', 'r', 's', 't', 'u', 'x', 'y', 'z', 'w', 'A', 'B', 'C', 'ph', 'ps', 'ch', 'th', "x'", 'y"', '<a', 'B_']
LOCALV = ['k', 'm', 'n', 'i', 'j', 'K', 'M', 'l*', 'a.b']


class Ctor:
    def __init__(self, label, typ, vs, pat, order):
        self.label = label
        self.typ = typ
        self.vs = vs          # schematic variable names, by argument position
        self.pat = pat        # list of str tokens or int argument positions
        self.order = order    # argument positions in mandatory-hypothesis order
        self.argtypes = None


class Ass:
    """assertion in tree form"""
    def __init__(self, label, a, hyps, concl, code, extra_e=()):
        self.label = label
        self.a = a            # mmref.Assertion
        self.hyps = hyps      # [(label, code, tree)] in order
        self.concl = concl
        self.code = code      # typecode of conclusion


class Opts:
    def __init__(self, **k):
        self.nctor = (1, 5)
        self.nax = (1, 4)
        self.nthm = (1, 5)
        self.depth = 3
        self.types = (1, 3)
        self.dvprob = 0.4
        self.unknown = 0.0
        self.compressed = 0.4
        self.comments = False
        self.empty_ctor = 0.05
        self.locals = 0.3
        self.chain = 0.0
        self.shared_block = 0.3
        self.syntax_thm = 0.15
        self.nvars = (2, 4)
        self.termdepth = 2
        self.contrib = False
        self.simple_labels = False
        self.label_prefix = ''
        self.allow_missing_dv = 0.0
        self.extra_dv = 0.3
        self.reshare = 0.5
        self.longlabels = 0.0
        self.ax_optdv = 0.0
        self.__dict__.update(k)


class Gendb:
    """items: list of
        ('c', toks) ('v', toks) ('d', toks) ('{',) ('}',)
        ('f'|'e'|'a', label, toks)  ('p', label, toks, prooftoks)
        ('com', text)    ... see emit()"""

    def __init__(self, g, o):
        self.g = g
        self.o = o
        self.work = 0
        self.db = mmref.Db()
        self.items = []
        self.ctors = []
        self.assertions = []
        self.fl = {}              # variable -> $f label (currently active or ever)
        self.vtype = {}
        self.gvars = {}           # type -> [variables] (global)
        self.proofs = {}          # label -> proof tree
        self.trees = {}
        self.usedlabels = set()
        self.nlab = 0
        self.stats = {'shared': 0, 'dv': 0, 'local': 0, 'apps': 0, 'maxsteps': 0}
        self.build()

    # ---------------------------------------------------------------- basics
    def label(self, base):
        g = self.g
        self.nlab += 1
        if self.o.longlabels and g.bool(self.o.longlabels):
            l = base + 'long-label.' * g.int(4, 9) + str(self.nlab)
            self.usedlabels.add(l)
            return l
        if self.o.simple_labels or g.bool(0.7):
            l = f'{self.o.label_prefix}{base}{self.nlab}'
        else:
            l = g.choice(['', 'a-', '0', 'UUV', 'X.', 'x_']) + base + g.choice(['.', '-', '_', 'UV', '']) + str(self.nlab)
        self.usedlabels.add(l)
        return l

    def add(self, *it):
        self.items.append(tuple(it))
        k = it[0]
        db = self.db
        if k == 'c':
            db.c(it[1])
        elif k == 'v':
            db.v(it[1])
        elif k == 'd':
            db.d(it[1])
        elif k == '{':
            db.push()
        elif k == '}':
            db.pop()
        elif k in 'fe':
            getattr(db, k)(it[1], it[2])
        elif k == 'a':
            return db.a(it[1], it[2])
        elif k == 'p':
            return db.p(it[1], it[2], it[3])

    def build(self):
        g, o = self.g, self.o
        ntypes = g.int(*o.types)
        self.logic = g.choice(['|-', '|-', '|-', '=>', '!-'])
        self.types = ['wff', 'class', 'setvar', 'nat'][:ntypes]
        pool = g.shuffle(SYMS) if g.bool(0.8) else list(SYMS)
        self.pool = pool
        consts = [self.logic] + self.types + ['(', ')']
        ncons = g.int(3, 9)
        self.lits = pool[:ncons]
        consts += self.lits
        # kinds of brackets (the unification heuristics know these)
        self.br = []
        if g.bool(0.2):
            self.br = g.sample([('(', ')'), ('{', '}'), ('[', ']'), ('<.', '>.'), ('[_', ']_')], g.int(1, 2))
            self.half = g.choice([0, 0, 0.2])
            consts += [x for b in self.br for x in b if x not in consts]
        order = g.shuffle(consts) if g.bool(0.3) else consts
        if g.bool(0.2):
            k = g.int(1, len(order) - 1)
            self.add('c', order[:k])
            self.add('c', order[k:])
        else:
            self.add('c', order)
        # global variables
        vnames = g.shuffle(VARS) if g.bool(0.5) else list(VARS)
        allv = []
        for t in self.types:
            n = g.int(*o.nvars)
            vs = [vnames.pop(0) for _ in range(n)]
            self.gvars[t] = vs
            for v in vs:
                self.vtype[v] = t
            allv += vs
        if g.bool(0.5):
            self.add('v', allv)
        else:
            for t in self.types:
                self.add('v', self.gvars[t])
        fo = [(v, self.vtype[v]) for v in allv]
        if g.bool(0.4):
            fo = g.shuffle(fo)
        for v, t in fo:
            self.newf(v, t)
        nc = max(g.int(*o.nctor), ntypes)
        for i in range(nc):
            t = self.types[i] if i < ntypes else g.choice(self.types)
            self.newctor(t)
        for _ in range(g.int(*o.nax)):
            self.newaxiom()
        for _ in range(g.int(*o.nthm)):
            if g.bool(o.shared_block):
                self.block()
            elif g.bool(o.syntax_thm):
                self.syntax_theorem()
            else:
                self.theorem()
            if g.bool(0.15):
                self.newaxiom()
        if not any(it[0] == 'p' for it in self.items):
            raise Discard('no theorem')

    def newf(self, v, t):
        l = self.label({'wff': 'w', 'class': 'c', 'setvar': 'v', 'nat': 'n'}[t])
        self.fl[v] = l
        self.vtype[v] = t
        self.add('f', l, [t, v])

    def newctor(self, t):
        g = self.g
        nargs = g.weighted([(2, 4), (1, 3), (0, 2), (3, 1)])
        argtypes = []
        vs = []
        for _ in range(nargs):
            at = g.choice(self.types)
            c = [v for v in self.gvars[at] if v not in vs]
            if not c:
                continue
            vs.append(g.choice(c))
            argtypes.append(at)
        nargs = len(vs)
        pat = []
        lits = self.lits
        if nargs == 0:
            pat = [g.choice(lits)] if not g.bool(self.o.empty_ctor) else []
        else:
            perm = list(range(nargs))
            if g.bool(0.3):
                perm = g.shuffle(perm)
            style = g.draw(3)
            if style == 0:
                lb, rb = g.choice(self.br) if self.br else ('(', ')')
                pat = [lb]
                for j, a in enumerate(perm):
                    if j:
                        pat.append(g.choice(lits))
                    pat.append(a)
                pat.append(rb)
                if self.br and g.bool(self.half):
                    del pat[g.choice([0, -1])]
            elif style == 1:
                pat = [g.choice(lits)] + perm
            else:
                for j, a in enumerate(perm):
                    pat.append(a)
                    if j == 0:
                        pat.append(g.choice(lits))
        l = self.label('k')
        toks = [t] + [vs[x] if isinstance(x, int) else x for x in pat]
        a = self.add('a', l, toks)
        order = [vs.index(h.toks[1]) for h in a.fhyps]
        c = Ctor(l, t, vs, pat, order)
        c.argtypes = argtypes
        self.ctors.append(c)

    # ---------------------------------------------------------------- terms
    # ('v', name) | ('m', id, type) | (ctor index, child, child...)
    def term(self, t, depth, vars_=None):
        g = self.g
        vs = (vars_ or self.gvars).get(t, self.gvars[t])
        cs = [i for i, c in enumerate(self.ctors) if c.typ == t]
        if depth <= 0 or not cs or g.bool(0.35):
            return ('v', g.choice(vs))
        i = g.choice(cs)
        return (i,) + tuple(self.term(at, depth - 1, vars_) for at in self.ctors[i].argtypes)

    def toks(self, t):
        if t[0] == 'v':
            return [t[1]]
        c = self.ctors[t[0]]
        out = []
        for x in c.pat:
            if isinstance(x, int):
                out += self.toks(t[1 + x])
            else:
                out.append(x)
        return out

    def termproof(self, t):
        if t[0] == 'v':
            return (self.fl[t[1]], ())
        c = self.ctors[t[0]]
        return (c.label, tuple(self.termproof(t[1 + j]) for j in c.order))

    def tvars(self, t, acc=None):
        if acc is None:
            acc = []
        if t[0] == 'v':
            if t[1] not in acc:
                acc.append(t[1])
        elif t[0] != 'm':
            for x in t[1:]:
                self.tvars(x, acc)
        return acc

    def size(self, t):
        if t[0] in ('v', 'm'):
            return 1
        return 1 + sum(self.size(x) for x in t[1:])

    # ---------------------------------------------------------------- axioms
    def newaxiom(self):
        g, o = self.g, self.o
        kind = g.weighted([('plain', 3), ('mp', 3), ('gen', 3)])
        T = g.choice(self.types) if g.bool(0.2) else self.types[0]
        code = self.logic
        blk = False
        hyps = []
        bins = [i for i, c in enumerate(self.ctors) if c.typ == self.types[0] and c.argtypes == [self.types[0]] * 2]
        wv = self.gvars[self.types[0]]
        if kind == 'mp' and bins and len(wv) >= 2:
            i = g.choice(bins)
            p, q = ('v', wv[0]), ('v', wv[1])
            hyps = [p, (i, p, q)]
            if g.bool(0.3):
                hyps.reverse()
            concl = q
        elif kind == 'plain':
            concl = self.term(T, o.termdepth + 1)
        else:
            concl = self.term(T, o.termdepth)
            for _ in range(g.weighted([(1, 4), (2, 2), (0, 1), (3, 1)])):
                hyps.append(self.term(self.types[0], g.int(0, o.termdepth)))
        vs = self.tvars(concl)
        for h in hyps:
            self.tvars(h, vs)
        dvs = []
        if len(vs) >= 2 and g.bool(o.dvprob):
            k = g.int(2, min(3, len(vs)))
            dvs.append(g.sample(vs, k))
            if g.bool(0.2):
                dvs.append(g.sample(vs, 2))
        if dvs and o.ax_optdv and g.bool(o.ax_optdv):
            # a $d that also mentions a variable the axiom doesn't use
            extra = [v for t in self.types for v in self.gvars[t] if v not in vs]
            if extra:
                j = g.draw(len(dvs))
                dvs[j] = g.shuffle(dvs[j] + [g.choice(extra)])
        lab = self.label('ax')
        blk = bool(hyps or dvs)
        if blk:
            self.add('{')
        for d in dvs:
            self.add('d', d)
        hl = []
        for j, h in enumerate(hyps):
            l = f'{lab}.{j+1}'
            self.usedlabels.add(l)
            self.add('e', l, [code] + self.toks(h))
            hl.append((l, code, h))
        a = self.add('a', lab, [code] + self.toks(concl))
        if blk:
            self.add('}')
        self.assertions.append(Ass(lab, a, hl, concl, code))
        return True

    # ------------------------------------------------------------ unification
    def walk(self, t, b):
        while t[0] == 'm' and t[1] in b:
            t = b[t[1]]
        return t

    def occurs(self, m, t, b):
        t = self.walk(t, b)
        if t[0] == 'm':
            return t[1] == m
        if t[0] == 'v':
            return False
        return any(self.occurs(m, x, b) for x in t[1:])

    def mtype(self, t):
        if t[0] == 'm':
            return t[2]
        if t[0] == 'v':
            return self.vtype[t[1]]
        return self.ctors[t[0]].typ

    def unify(self, s, t, b):
        st = [(s, t)]
        b = dict(b)
        while st:
            s, t = st.pop()
            s = self.walk(s, b)
            t = self.walk(t, b)
            if s == t:
                continue
            if s[0] != 'm' and t[0] == 'm':
                s, t = t, s
            if s[0] == 'm':
                if self.mtype(s) != self.mtype(t):
                    return None
                if self.occurs(s[1], t, b):
                    return None
                b[s[1]] = t
                continue
            if s[0] == 'v' or t[0] == 'v' or s[0] != t[0]:
                return None
            st.extend(zip(s[1:], t[1:]))
        return b

    def resolve(self, t, b):
        t = self.walk(t, b)
        if t[0] in ('m', 'v'):
            return t
        self.work += 1
        if self.work > 300000:
            raise Discard('formulas too large')
        return (t[0],) + tuple(self.resolve(x, b) for x in t[1:])

    def inst(self, t, m, vt):
        if t[0] == 'v':
            if t[1] not in m:
                self.nm += 1
                m[t[1]] = ('m', self.nm, vt[t[1]])
            return m[t[1]]
        if t[0] == 'm':
            return t
        return (t[0],) + tuple(self.inst(x, m, vt) for x in t[1:])

    # ---------------------------------------------------------------- theorem
    def derive(self, depth, given):
        """-> (node, conclusion, bindings); node = ('app', Ass, metamap, [kids]) |
        ('hyp', tree, label or None)"""
        g = self.g
        cands = [x for x in self.assertions if x.code == self.logic]
        if not cands:
            raise Discard('no logical assertions')
        if self.o.chain and g.bool(self.o.chain):
            A = cands[-1]
        else:
            A = cands[len(cands) - 1 - g.draw(len(cands))]
        m = {}
        vt = {h.toks[1]: h.toks[0] for h in A.a.fhyps}
        concl = self.inst(A.concl, m, vt)
        hs = [self.inst(h[2], m, vt) for h in A.hyps]
        # every mandatory variable must be in m
        for h in A.a.fhyps:
            self.inst(('v', h.toks[1]), m, vt)
        kids = []
        for h in hs:
            done = False
            if depth > 0 and g.bool(0.65):
                for _ in range(2):
                    kid, c, b2 = self.derive(depth - 1, given)
                    b3 = self.unify(h, c, self.b)
                    if b3 is not None:
                        rs = self.size_limit(c, b3)
                        if rs:
                            self.b = b3
                            kids.append(kid)
                            done = True
                            break
            if not done:
                # existing hypothesis, if it unifies
                pick = None
                if given and g.bool(0.8):
                    for (l, tr) in g.shuffle(given):
                        b3 = self.unify(h, tr, self.b)
                        if b3 is not None and self.size_limit(tr, b3):
                            self.b = b3
                            pick = ('hyp', tr, l)
                            break
                kids.append(pick or ('hyp', h, None))
        return ('app', A, m, kids), concl, self.b

    def size_limit(self, t, b, lim=60):
        n = [0]

        def go(t):
            t = self.walk(t, b)
            n[0] += 1
            if n[0] > lim:
                return
            if t[0] in ('m', 'v'):
                return
            for x in t[1:]:
                go(x)
        go(t)
        return n[0] <= lim

    def collect_metas(self, node, acc):
        if node[0] == 'app':
            for v, mt in node[2].items():
                self.metas_of(mt, acc)
            for k in node[3]:
                self.collect_metas(k, acc)
        else:
            self.metas_of(node[1], acc)

    def metas_of(self, t, acc):
        t = self.walk(t, self.b)
        if t[0] == 'm':
            if t not in acc:
                acc.append(t)
        elif t[0] != 'v':
            for x in t[1:]:
                self.metas_of(x, acc)

    def proof_tree(self, node, hyplab, need):
        if node[0] == 'hyp':
            t = self.resolve(node[1], self.b)
            return (hyplab[t], ())
        A, m = node[1], node[2]
        self.stats['apps'] += 1
        sub = {v: self.resolve(mt, self.b) for v, mt in m.items()}
        for x, y in A.a.dvs:
            for u in self.tvars(sub[x]):
                for w in self.tvars(sub[y]):
                    if u == w:
                        raise DvFail()
                    need.add(tuple(sorted((u, w))))
        kids = {}
        for h, k in zip(A.hyps, node[3]):
            kids[h[0]] = self.proof_tree(k, hyplab, need)
        ch = []
        for h in A.a.mand:
            if h.kind == 'f':
                ch.append(self.termproof(sub[h.toks[1]]))
            else:
                ch.append(kids[h.label])
        return (A.label, tuple(ch))

    def finish(self, given, avail, extra_hyps_ok=True):
        """derive and ground one theorem; -> (concl, hyps trees, node, avail) or None"""
        g, o = self.g, self.o
        self.nm = 0
        self.b = {}
        node, concl, _ = self.derive(g.int(0, o.depth), given)
        metas = []
        self.metas_of(concl, metas)
        self.collect_metas(node, metas)
        fresh = {t: list(vs) for t, vs in avail.items()}
        for t in fresh:
            fresh[t] = g.shuffle(fresh[t]) if g.bool(0.5) else fresh[t]
        for m in metas:
            t = m[2]
            w = self.walk(m, self.b)
            if w[0] != 'm':
                continue
            if fresh.get(t) and g.bool(0.75):
                v = ('v', fresh[t].pop(0))
            elif g.bool(0.6):
                v = ('v', g.choice(avail[t]))
            else:
                v = self.term(t, 1, avail)
            self.b[m[1]] = v
        return node, self.resolve(concl, self.b)

    def leaf_hyps(self, node, acc):
        if node[0] == 'hyp':
            t = self.resolve(node[1], self.b)
            if t not in acc:
                acc.append(t)
        else:
            for k in node[3]:
                self.leaf_hyps(k, acc)

    def declare_locals(self):
        g = self.g
        avail = {t: list(v) for t, v in self.gvars.items()}
        if g.bool(self.o.locals):
            n = g.int(1, 2)
            names = [v for v in LOCALV if v not in self.db.consts]
            names = g.sample(names, n)
            self.add('v', names)
            for v in names:
                t = g.choice(self.types)
                self.newf(v, t)
                avail[t] = [v] + avail[t]
            self.stats['local'] += 1
        return avail

    def emit_dv(self, need):
        g = self.g
        need = sorted(need)
        self.stats['dv'] += len(need)
        while need:
            x, y = need.pop(0)
            grp = [x, y]
            # try to extend to a group
            if g.bool(0.3):
                for z in sorted(set(a for p in need for a in p)):
                    if z in grp:
                        continue
                    grp.append(z)
                    if len(grp) >= 4:
                        break
                grp2 = []
                # superfluous pairs are harmless
                for z in grp:
                    if z not in grp2:
                        grp2.append(z)
                grp = grp2
            need = [p for p in need if not (p[0] in grp and p[1] in grp)]
            self.add('d', grp)

    def proof_tokens(self, a, tree):
        g, o = self.g, self.o
        steps = mmref.rpn(tree)
        self.stats['maxsteps'] = max(self.stats['maxsteps'], len(steps))
        if g.bool(o.compressed):
            mode = g.draw(3)
            memo = {}

            def share(k):
                if mode == 0:
                    return True
                if mode == 1:
                    return False
                if k not in memo:
                    memo[k] = g.bool(0.5)
                return memo[k]

            lo = (lambda l: g.shuffle(l)) if g.bool(0.4) else None
            labs, letters = mmref.compress(a, tree, share, lo)
            # only useful tags: drop Z tags never referenced is optional; keep
            if 'Z' in letters:
                self.stats['shared'] += 1
            return ['('] + labs + [')'] + self.chop(letters)
        return steps

    def chop(self, letters):
        g = self.g
        if g.bool(0.6) or len(letters) < 3:
            return [letters]
        out = []
        while letters:
            k = g.int(1, max(1, min(len(letters), 40)))
            out.append(letters[:k])
            letters = letters[k:]
        return out

    def theorem(self, given=None, avail=None, inblock=False, baselab=None):
        g, o = self.g, self.o
        for attempt in range(4):
            save_items = list(self.items)
            lab = baselab or self.label('th')
            opened = False
            mark = len(self.items)
            if not inblock:
                self.add('{')
                avail = self.declare_locals()
                given = []
            try:
                node, concl = self.finish(given, avail)
                leaves = []
                self.leaf_hyps(node, leaves)
                hyplab = {}
                for l, t in given:
                    hyplab.setdefault(t, l)
                new = [t for t in leaves if t not in hyplab]
                if inblock and new:
                    raise DvFail()
                if len(new) > 6 or self.size(concl) > 80 or any(self.size(t) > 80 for t in new):
                    raise DvFail()
                if new and g.bool(0.3):
                    new = g.shuffle(new)
                if not inblock and g.bool(0.1):
                    new = new + [self.term(self.types[0], 1, avail)]
                    new = list(dict.fromkeys(new))
                hl = []
                for j, t in enumerate(new):
                    l = f'{lab}.{j+1}' if g.bool(0.8) else self.label('hyp')
                    hyplab[t] = l
                    hl.append((l, self.logic, t))
                need = set()
                tree = self.proof_tree(node, hyplab, need)
                if len(mmref.rpn(tree)) > 1500:
                    raise DvFail()
            except DvFail:
                if not inblock:
                    # undo: close the empty block (harmless)
                    self.add('}')
                baselab = None
                continue
            miss = None
            if need and g.bool(o.allow_missing_dv):
                miss = g.choice(sorted(need))
                need.discard(miss)
            if not inblock:
                pre = g.bool(0.7)
                if pre:
                    self.emit_dv(need)
                for l, c, t in hl:
                    self.usedlabels.add(l)
                    self.add('e', l, [c] + self.toks(t))
                if not pre:
                    self.emit_dv(need)
                if g.bool(o.extra_dv):
                    allv = [v for vs in avail.values() for v in vs]
                    if len(allv) >= 2:
                        self.add('d', g.sample(allv, 2))
            else:
                self.emit_dv(need)
                hl = [(l, self.logic, t) for l, t in given]
            # frame, then proof
            toks = [self.logic] + self.toks(concl)
            a = self.add('p', lab, toks, ['?'])
            pt = self.proof_tokens(a, tree)
            if o.unknown and g.bool(o.unknown):
                pt = ['?']
                tree = None
            a.proof = pt
            self.items[-1] = ('p', lab, toks, pt)
            self.proofs[lab] = tree
            if not inblock:
                self.add('}')
            self.assertions.append(Ass(lab, a, hl, concl, self.logic))
            return True
        return False

    def block(self):
        """several theorems under shared $e hypotheses and locals"""
        g = self.g
        self.add('{')
        avail = self.declare_locals()
        given = []
        for _ in range(g.int(0, 3)):
            t = self.term(self.types[0], g.int(0, 2), avail)
            l = self.label('h')
            self.add('e', l, [self.logic] + self.toks(t))
            given.append((l, t))
        for _ in range(g.int(1, 2)):
            self.theorem(given, avail, inblock=True)
        if g.bool(0.2):
            self.add('{')
            self.theorem(given, avail, inblock=True)
            self.add('}')
        self.add('}')

    def syntax_theorem(self):
        g = self.g
        t = g.choice(self.types)
        tr = self.term(t, 3)
        lab = self.label('sy')
        toks = [t] + self.toks(tr)
        tree = self.termproof(tr)
        a = self.add('p', lab, toks, ['?'])
        a.proof = self.proof_tokens(a, tree)
        self.items[-1] = ('p', lab, toks, a.proof)
        self.proofs[lab] = tree


class DvFail(Exception):
    pass


# ------------------------------------------------------------------ rendering

def emit(items, g=None, style='plain', comment=None):
    """items -> source text.  With g, random white space and comments are
    inserted (comment: function g -> comment text or None)."""
    out = []
    ind = 0

    def sp():
        if g is None or style == 'plain':
            return ' '
        return g.weighted([(' ', 20), ('\n  ', 2), ('  ', 2), ('\n', 1), (' $( c $) ', 1 if style == 'wild' else 0), ('\t', 1)])
    for it in items:
        k = it[0]
        pad = '  ' * ind
        if k == '{':
            out.append(pad + '${')
            ind += 1
        elif k == '}':
            ind -= 1
            out.append('  ' * ind + '$}')
        elif k == 'raw':
            out.append(it[1])
        elif k in 'cvd':
            out.append(pad + '$' + k + sp() + sp().join(it[1]) + sp() + '$.')
        elif k in 'fea':
            out.append(pad + it[1] + sp() + '$' + k + sp() + ''.join(x + sp() for x in it[2]) + '$.')
        elif k == 'p':
            pr = sp().join(it[3]) if style != 'wild' else ' '.join(it[3])
            if comment:
                c = comment(it)
                if c:
                    out.append(pad + '$( ' + c + ' $)')
            out.append(pad + it[1] + sp() + '$p' + sp() + ''.join(x + sp() for x in it[2]) + '$=' + sp() + pr + ' $.')
        elif k == 'com':
            out.append(pad + '$( ' + it[1] + ' $)')
        if comment and k == 'a' and False:
            pass
    return '\n'.join(out) + '\n'


COMMENT_WORDS = ['the', 'a', 'proof', 'of', '~', 'is', '`', 'x', '_under_', '[Ref]', '$', '$x', '(', ')', '<b>', '&amp;', 'e.g.',
                 '"quoted"', 'Contributed', '(New', 'usage', 'is', 'discouraged.)', 'http://a.b/~c', '~~', '``', '[[', '#', "it's", 'page 12]',
                 'p.', '100%', '$ c', '\\', '{', '}', '=====', '#*#*', '=-=-', '-.-.']


def rand_comment(g, words=COMMENT_WORDS, n=(0, 12)):
    k = g.int(*n)
    t = ''
    for _ in range(k):
        t += g.choice(words) + g.weighted([(' ', 10), ('\n', 2), ('  ', 1), ('\n\n', 1), ('\n   ', 1)])
    return t


def wild_text(g, items, comments=0.1, final_nl=True, words=COMMENT_WORDS, ws=None):
    """token stream with random white space and comments between any two tokens"""
    toks = emit(items, None).split()
    out = []
    ws = ws or [(' ', 30), ('\n', 6), ('  ', 2), ('\n\n', 1), ('\n  ', 3), (' \n', 1)]
    for t in toks:
        out.append(t)
        out.append(g.weighted(ws))
        if comments and g.bool(comments):
            out.append('$( ' + rand_comment(g, words) + '$)')
            out.append(g.weighted(ws))
    s = ''.join(out)
    if final_nl:
        s = s.rstrip(' ') if s.endswith('\n') else s.rstrip() + '\n'
        if not s.endswith('\n'):
            s += '\n'
    return s

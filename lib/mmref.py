"""Independent reference implementation of the Metamath language (written from
the language specification: appendix E of the Metamath book / HELP LANGUAGE),
used as the oracle.  It shares no code with the program under test.

Incremental API used by the generators, plus a parser from text."""
import re


class MMError(Exception):
    pass


LABEL_RE = re.compile(r'^[A-Za-z0-9._-]+$')
MATH_RE = re.compile(r'^[\x21-\x23\x25-\x7e]+$')


class Assertion:
    __slots__ = ('label', 'kind', 'toks', 'fhyps', 'ehyps', 'dvs', 'mand', 'optf', 'alldvs', 'index', 'proof',
                 'allvars')

    def hyps(self):
        return self.mand


class Hyp:
    __slots__ = ('label', 'kind', 'toks', 'index')

    def __init__(self, label, kind, toks, index):
        self.label = label
        self.kind = kind
        self.toks = toks
        self.index = index


class Db:
    def __init__(self, deferred=False):
        # deferred: variable typing rules ($f before use, no second $f) are
        # judged only at the assertions whose mandatory frame they concern
        self.deferred = deferred
        self.consts = set()
        self.everv = set()          # variables declared anywhere so far
        self.frames = [self._frame()]
        self.labels = {}            # label -> Hyp | Assertion (all ever declared)
        self.order = []             # assertions in order
        self.nstmt = 0

    @staticmethod
    def _frame():
        return {'v': [], 'f': [], 'e': [], 'd': [], 'fv': {}, 'h': []}

    # -- scopes
    def push(self):
        self.frames.append(self._frame())
        self.nstmt += 1

    def pop(self):
        if len(self.frames) == 1:
            raise MMError('unmatched $}')
        self.frames.pop()
        self.nstmt += 1

    def active_var(self, s):
        return any(s in f['v'] for f in self.frames)

    def ftype(self, v):
        for f in self.frames:
            if v in f['fv']:
                return f['fv'][v]
        return None

    def _newlabel(self, label):
        if not LABEL_RE.match(label):
            raise MMError('bad label ' + label)
        if label in self.labels:
            raise MMError('duplicate label ' + label)
        if label in self.consts or label in self.everv:
            raise MMError('label is a math symbol ' + label)

    def c(self, syms):
        if len(self.frames) != 1:
            raise MMError('$c not in outermost block')
        if not syms:
            raise MMError('empty $c')
        for s in syms:
            if not MATH_RE.match(s):
                raise MMError('bad math symbol')
            if s in self.consts or s in self.everv:
                raise MMError('redeclared ' + s)
            if s in self.labels:
                raise MMError('math symbol is a label ' + s)
            self.consts.add(s)
        self.nstmt += 1

    def v(self, syms):
        if not syms:
            raise MMError('empty $v')
        for s in syms:
            if not MATH_RE.match(s):
                raise MMError('bad math symbol')
            if s in self.consts or self.active_var(s):
                raise MMError('redeclared ' + s)
            if s in self.labels:
                raise MMError('math symbol is a label ' + s)
            self.everv.add(s)
            self.frames[-1]['v'].append(s)
        self.nstmt += 1

    def d(self, syms):
        if len(syms) < 2:
            raise MMError('$d needs two variables')
        for s in syms:
            if not self.active_var(s):
                raise MMError('inactive in $d ' + s)
        if len(set(syms)) != len(syms):
            raise MMError('repeated in $d')
        for i in range(len(syms)):
            for j in range(i):
                self.frames[-1]['d'].append(tuple(sorted((syms[i], syms[j]))))
        self.nstmt += 1

    def f(self, label, toks):
        self._newlabel(label)
        if len(toks) != 2:
            raise MMError('$f must have two symbols')
        t, v = toks
        if t not in self.consts:
            raise MMError('$f typecode not a constant')
        if not self.active_var(v):
            raise MMError('$f variable not active')
        if self.ftype(v) is not None and not self.deferred:
            raise MMError('variable already has $f')
        self.nstmt += 1
        h = Hyp(label, 'f', list(toks), self.nstmt)
        self.labels[label] = h
        fr = self.frames[-1]
        fr['f'].append(h)
        fr['h'].append(h)
        fr['fv'][v] = h

    def _math(self, toks):
        if not toks:
            raise MMError('empty statement')
        if toks[0] not in self.consts:
            raise MMError('first symbol not a constant')
        for s in toks:
            if s in self.consts:
                continue
            if not self.active_var(s):
                raise MMError('inactive symbol ' + s)
            if self.ftype(s) is None and not self.deferred:
                raise MMError('variable without $f ' + s)

    def e(self, label, toks):
        self._newlabel(label)
        self._math(toks)
        self.nstmt += 1
        h = Hyp(label, 'e', list(toks), self.nstmt)
        self.labels[label] = h
        self.frames[-1]['e'].append(h)
        self.frames[-1]['h'].append(h)

    def _assert(self, label, kind, toks):
        self._newlabel(label)
        self._math(toks)
        self.nstmt += 1
        a = Assertion()
        a.label = label
        a.kind = kind
        a.toks = list(toks)
        a.index = self.nstmt
        a.proof = None
        ehyps = [h for fr in self.frames for h in fr['e']]
        used = set()
        for h in ehyps:
            used.update(x for x in h.toks if x not in self.consts)
        used.update(x for x in toks if x not in self.consts)
        allh = [h for fr in self.frames for h in fr['h']]
        a.mand = []
        a.optf = []
        for h in allh:
            if h.kind == 'e' or h.toks[1] in used:
                a.mand.append(h)
            else:
                a.optf.append(h)
        a.fhyps = [h for h in a.mand if h.kind == 'f']
        if self.deferred:
            typed = set()
            for h in a.mand:
                if h.kind == 'f':
                    if h.toks[1] in typed:
                        raise MMError('variable already has $f')
                    typed.add(h.toks[1])
                elif any(x not in self.consts and x not in typed for x in h.toks):
                    raise MMError('variable without $f')
            if used - typed:
                raise MMError('variable without $f')
        a.ehyps = ehyps
        a.allvars = used
        dv = set()
        for fr in self.frames:
            dv.update(fr['d'])
        a.alldvs = dv
        a.dvs = set(p for p in dv if p[0] in used and p[1] in used)
        self.labels[label] = a
        self.order.append(a)
        return a

    def a(self, label, toks):
        return self._assert(label, 'a', toks)

    def p(self, label, toks, proof):
        x = self._assert(label, 'p', toks)
        x.proof = list(proof)
        return x

    # -- proofs
    def stack_of(self, a):
        return Proof(self, a)

    def verify(self, a):
        """-> 'ok' | 'unknown' ; raises MMError"""
        steps = decode(self, a, a.proof)
        return run_steps(self, a, steps)


def decode(db, a, proof):
    """-> list of steps: ('hyp'|'ass', obj) | ('save',) | ('ref', n) | ('?',)"""
    if not proof:
        raise MMError('empty proof')
    if proof[0] == '(':
        if ')' not in proof:
            raise MMError('no ) in compressed proof')
        k = proof.index(')')
        lab = proof[1:k]
        letters = ''.join(proof[k + 1:])
        mand = [h.label for h in a.mand]
        # (a label listed twice is harmless: both numbers denote the same
        # statement, so the proof it encodes is still well defined)
        for l in lab:
            if l in mand:
                raise MMError('mandatory hypothesis in label list')
        objs = [lookup(db, a, l) for l in mand + lab]
        steps = []
        nsave = 0
        n = 0
        inhigh = False
        if letters == '':
            raise MMError('empty compressed proof')
        # A tag Z is legal directly after an assertion step (and, harmlessly,
        # after another tag of the same step); not after a hypothesis, a
        # reference to a tagged step or an unknown step.
        prev_z_ok = False
        for ch in letters:
            if 'A' <= ch <= 'T':
                n = n * 20 + (ord(ch) - 65)
                inhigh = False
                if n < len(objs):
                    steps.append(objs[n])
                elif n < len(objs) + nsave:
                    steps.append(('ref', n - len(objs)))
                else:
                    raise MMError('compressed reference out of range')
                n = 0
                prev_z_ok = steps[-1][0] == 'ass'
            elif 'U' <= ch <= 'Y':
                n = n * 5 + (ord(ch) - 84)
                inhigh = True
                prev_z_ok = False
            elif ch == 'Z':
                if inhigh or not prev_z_ok:
                    raise MMError('bad Z')
                steps.append(('save',))
                nsave += 1
            elif ch == '?':
                if inhigh:
                    raise MMError('bad ?')
                steps.append(('?',))
                prev_z_ok = False
            else:
                raise MMError('bad character in compressed proof')
        if inhigh:
            raise MMError('truncated number')
        return steps
    steps = []
    for l in proof:
        if l == '?':
            steps.append(('?',))
        else:
            steps.append(lookup(db, a, l))
    return steps


def lookup(db, a, l):
    o = db.labels.get(l)
    if o is None:
        raise MMError('unknown label ' + l)
    if isinstance(o, Assertion):
        if o is a or o.index >= a.index:
            raise MMError('label not earlier ' + l)
        return ('ass', o)
    if o not in a.mand and o not in a.optf:
        raise MMError('hypothesis not active ' + l)
    return ('hyp', o)


def run_steps(db, a, steps, trace=None, dvlog=None):
    stack = []
    saved = []
    unknown = False
    for st in steps:
        if st[0] == 'hyp':
            stack.append(list(st[1].toks))
        elif st[0] == '?':
            unknown = True
            stack.append(None)
        elif st[0] == 'save':
            if not stack:
                raise MMError('Z on empty stack')
            saved.append(stack[-1])
            continue
        elif st[0] == 'ref':
            stack.append(saved[st[1]])
        else:
            b = st[1]
            n = len(b.mand)
            if len(stack) < n:
                raise MMError('stack underflow')
            args = stack[len(stack) - n:] if n else []
            del stack[len(stack) - n:]
            if any(x is None for x in args):
                unknown = True
                stack.append(None)
                if trace is not None:
                    trace.append((st, None))
                continue
            stack.append(apply_assertion(db, a, b, args, dvlog))
        if trace is not None:
            trace.append((st, stack[-1]))
    if len(stack) != 1:
        raise MMError(f'{len(stack)} entries left on stack')
    if unknown or stack[0] is None:
        return 'unknown'
    if stack[0] != a.toks:
        raise MMError('result differs from statement')
    return 'ok'


def apply_assertion(db, a, b, args, dvlog=None):
    sub = {}
    for h, x in zip(b.mand, args):
        if h.kind == 'f':
            if x[0] != h.toks[0]:
                raise MMError('typecode mismatch')
            sub[h.toks[1]] = x[1:]
    for h, x in zip(b.mand, args):
        if h.kind == 'e':
            if subst(sub, h.toks) != x:
                raise MMError('$e mismatch')
    for x, y in b.dvs:
        for u in sub.get(x, ()):
            if u in db.consts:
                continue
            for w in sub.get(y, ()):
                if w in db.consts:
                    continue
                if u == w:
                    if dvlog is None:
                        raise MMError('$d violation: common variable')
                    dvlog.append((u, u))
                elif tuple(sorted((u, w))) not in a.alldvs:
                    if dvlog is None:
                        raise MMError('$d violation: missing $d')
                    dvlog.append(tuple(sorted((u, w))))
    return subst(sub, b.toks)


def subst(sub, toks):
    out = []
    for t in toks:
        s = sub.get(t)
        if s is None:
            out.append(t)
        else:
            out.extend(s)
    return out


# ---------------------------------------------------------------- compression

def cnum(n):
    """0-based index -> letters"""
    s = chr(65 + n % 20)
    n //= 20
    while n > 0:
        n -= 1
        s = chr(85 + n % 5) + s
        n //= 5
    return s


def compress(a, node, share, label_order=None, limit_ok=None):
    """node: proof tree ('L', label, [children]); share: set of ids/keys of
    subtree keys to tag; returns tokens list (label list) and letters."""
    mand = [h.label for h in a.mand]
    labels = []

    def key(n):
        return n

    # collect labels in first-use order
    seen = set(mand)

    def coll(n):
        for c in n[1]:
            coll(c)
        if n[0] not in seen and n[0] != '?':
            seen.add(n[0])
            labels.append(n[0])
    coll(node)
    if label_order is not None:
        labels = label_order(labels)
    idx = {l: i for i, l in enumerate(mand + labels)}
    base = len(mand) + len(labels)
    out = []
    saved = {}

    def emit(n):
        k = n
        if n[1] and k in saved:
            out.append(cnum(base + saved[k]))
            return
        for c in n[1]:
            emit(c)
        out.append('?' if n[0] == '?' else cnum(idx[n[0]]))
        if n[1] and share(k) and k not in saved:
            saved[k] = len(saved)
            out.append('Z')
    emit(node)
    return labels, ''.join(out)


def rpn(node):
    out = []

    def go(n):
        for c in n[1]:
            go(c)
        out.append(n[0])
    go(node)
    return out


# ---------------------------------------------------------------- parsing text

def tokenize(text):
    """strip comments; -> tokens.  Comments are $( ... $) with the keywords as
    whole tokens."""
    toks = []
    incom = False
    for t in text.split():
        if incom:
            if t == '$)':
                incom = False
            elif '$(' in t or '$)' in t:
                raise MMError('comment delimiter inside comment')
            continue
        if t == '$(':
            incom = True
            continue
        toks.append(t)
    if incom:
        raise MMError('unclosed comment')
    return toks


def parse(text, db=None):
    db = db or Db()
    toks = tokenize(text)
    i = 0
    label = None

    def until(end):
        nonlocal i
        out = []
        while True:
            if i >= len(toks):
                raise MMError('end of file in statement')
            t = toks[i]
            i += 1
            if t == end:
                return out
            if '$' in t:
                raise MMError('keyword in statement')
            out.append(t)
    while i < len(toks):
        t = toks[i]
        i += 1
        if t in ('$c', '$v', '$d', '${', '$}'):
            if label is not None:
                raise MMError('label on ' + t)
            if t == '${':
                db.push()
            elif t == '$}':
                db.pop()
            else:
                {'$c': db.c, '$v': db.v, '$d': db.d}[t](until('$.'))
        elif t in ('$f', '$e', '$a', '$p'):
            if label is None:
                raise MMError('missing label')
            if t == '$p':
                m = until('$=')
                pr = until('$.')
                db.p(label, m, pr)
            else:
                {'$f': db.f, '$e': db.e, '$a': db.a}[t](label, until('$.'))
            label = None
        elif t.startswith('$'):
            raise MMError('unexpected ' + t)
        else:
            if label is not None:
                raise MMError('two labels')
            label = t
    if label is not None:
        raise MMError('trailing label')
    if len(db.frames) != 1:
        raise MMError('unclosed ${')
    return db

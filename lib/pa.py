"""Driving the Proof Assistant and judging its displayed state."""
import re
from . import mm, mmref, notation
from .core import Violation, Discard

LINE = re.compile(r'^ *(\d+) (?:(\?)|(?:([\d,]+) )?(\S+)) +\$(.) (.*)$')
CONT = re.compile(r'^ *(\(User\))? +  = (.*)$')


class Step:
    __slots__ = ('n', 'label', 'kids', 'target', 'source', 'user', 'typ')


class State:
    def __init__(self, text):
        self.text = text
        self.steps = {}
        cur = None
        lines = text.split('\n')
        for ln in lines:
            if not ln.strip():
                continue
            m = LINE.match(ln)
            if m:
                s = Step()
                s.n = int(m.group(1))
                s.label = '?' if m.group(2) else m.group(4)
                s.kids = [int(x) for x in m.group(3).split(',')] if m.group(3) else []
                s.typ = m.group(5)
                s.target = m.group(6).split()
                s.source = None
                s.user = None
                if s.n != len(self.steps) + 1:
                    raise Violation('display', f'step {s.n} after {len(self.steps)} steps:\n{text}')
                self.steps[s.n] = s
                cur = s
                continue
            m = CONT.match(ln)
            if m and cur:
                if m.group(1):
                    cur.user = m.group(2).split()
                else:
                    cur.source = m.group(2).split()
                continue
            raise Violation('display', f'unexpected line {ln!r} in the proof display:\n{text}')
        if not self.steps:
            raise Violation('display', f'no steps shown: {text!r}')
        self.root = len(self.steps)

    def unknown(self):
        return [s.n for s in self.steps.values() if s.label == '?']

    def essential(self, db):
        out = set()

        def go(n):
            out.add(n)
            s = self.steps[n]
            if s.kids:
                for h, k in zip(db.labels[s.label].mand, s.kids):
                    if h.kind == 'e':
                        go(k)
        go(self.root)
        return out

    def rpn(self):
        return [self.steps[i].label for i in range(1, self.root + 1)]

    def tree(self, n=None):
        s = self.steps[n or self.root]
        return (s.label, tuple(self.tree(k) for k in s.kids))

    def complete(self):
        """every step assigned, everything unified"""
        return not any(s.label == '?' or s.source is not None or s.user is not None and s.user != s.target
                       for s in self.steps.values())

    def dummies(self):
        return any(t[0] == '$' for s in self.steps.values() for t in s.target)


def show(sess):
    return State(sess('show new_proof / lemmon / all'))


def judge(st, db, th):
    """the displayed proof is a sound partial proof of th"""
    a = db.labels[th]
    used = {}
    for s in st.steps.values():
        for k in s.kids:
            if k >= s.n or k in used:
                raise Violation('tree', f'step {k} is used by step {s.n} and {used.get(k)}:\n{st.text}')
            used[k] = s.n
    for n in st.steps:
        if n != st.root and n not in used:
            raise Violation('tree', f'step {n} is not used:\n{st.text}')
    r = st.steps[st.root]
    if r.target != a.toks:
        raise Violation('goal', f'the last step is {" ".join(r.target)} instead of {" ".join(a.toks)}:\n{st.text}')
    for s in st.steps.values():
        if s.label == '?':
            if s.source is not None or s.typ != '?':
                raise Violation('display', f'unknown step {s.n} has a source:\n{st.text}')
            continue
        b = db.labels.get(s.label)
        if b is None:
            raise Violation('label', f'step {s.n} uses {s.label}:\n{st.text}')
        src = s.source if s.source is not None else s.target
        if isinstance(b, mmref.Hyp):
            if s.kids:
                raise Violation('arity', f'step {s.n}: hypothesis {s.label} has hypotheses:\n{st.text}')
            if b not in a.mand and b not in a.optf:
                raise Violation('not-active', f'step {s.n} uses {s.label}, which is not in the scope of {th}:\n{st.text}')
            if src != b.toks:
                raise Violation('formula', f'step {s.n}: {s.label} is {" ".join(b.toks)}:\n{st.text}')
            if s.typ != b.kind:
                raise Violation('display', f'step {s.n}: type ${s.typ}')
            continue
        if db.order.index(b) >= db.order.index(a):
            raise Violation('circular', f'step {s.n} uses {s.label}, which is not before {th}:\n{st.text}')
        if len(s.kids) != len(b.mand):
            raise Violation('arity', f'step {s.n}: {s.label} has {len(b.mand)} hypotheses:\n{st.text}')
        sub = {}
        for h, k in zip(b.mand, s.kids):
            if h.kind == 'f':
                t = st.steps[k].target
                if t[0] != h.toks[0]:
                    raise Violation('typecode', f'step {k} for {h.label} of {s.label}:\n{st.text}')
                sub[h.toks[1]] = t[1:]
        for h, k in zip(b.mand, s.kids):
            want = mmref.subst(sub, h.toks)
            if st.steps[k].target != want:
                raise Violation('hypothesis', f'step {k} is {" ".join(st.steps[k].target)} but {h.label} of {s.label} at step {s.n} is {" ".join(want)}:\n{st.text}')
        want = mmref.subst(sub, b.toks)
        if src != want:
            raise Violation('formula', f'step {s.n} is {" ".join(src)} but {s.label} gives {" ".join(want)}:\n{st.text}')


def node_formulas(db, a, tree):
    """formula of every node of a complete proof tree, as a parallel tree"""
    def go(t):
        l, kids = t
        b = db.labels[l]
        if isinstance(b, mmref.Hyp):
            return (b.toks, ())
        ks = tuple(go(k) for k in kids)
        sub = {h.toks[1]: k[0][1:] for h, k in zip(b.mand, ks) if h.kind == 'f'}
        return (mmref.subst(sub, b.toks), ks)
    return go(tree)


def bad_subtree(db, a, t):
    """does the proof tree contain a fully known subproof which is not a proof?"""
    bad = [False]

    def go(t):
        l, kids = t
        if l == '?':
            return None
        b = db.labels[l]
        if isinstance(b, mmref.Hyp):
            return b.toks
        ks = [go(k) for k in kids]
        if any(k is None for k in ks):
            return None
        sub = {h.toks[1]: k[1:] for h, k in zip(b.mand, ks) if h.kind == 'f'}
        for h, k in zip(b.mand, ks):
            if h.kind == 'f' and k[0] != h.toks[0] or h.kind == 'e' and mmref.subst(sub, h.toks) != k:
                bad[0] = True
                return None
        return mmref.subst(sub, b.toks)
    go(t)
    return bad[0]


def align(st, tree, forms):
    """{step number: (hidden tree node, hidden formula)} for the steps whose
    ancestors all carry the hidden labels"""
    out = {}

    def go(n, t, f):
        out[n] = (t, f[0])
        s = st.steps[n]
        if s.label == t[0]:
            for k, tk, fk in zip(s.kids, t[1], f[1]):
                go(k, tk, fk)
    go(st.root, tree, forms)
    return out


def has_empty(tree_forms):
    f, ks = tree_forms
    return len(f) < 2 or any(has_empty(k) for k in ks)


def from_rpn(db, labels):
    """proof tree from labels in RPN ('?' allowed)"""
    st = []
    for l in labels:
        if l == '?':
            st.append(('?', ()))
            continue
        b = db.labels[l]
        n = 0 if isinstance(b, mmref.Hyp) else len(b.mand)
        k = tuple(st[len(st) - n:]) if n else ()
        if len(k) != n:
            raise ValueError('stack')
        if n:
            del st[-n:]
        st.append((l, k))
    if len(st) != 1:
        raise ValueError('stack')
    return st[0]


def expand_uses(db, tree, label, limit=4000):
    """replace every use of a theorem by its proof; optional variables become unknown"""
    b = db.labels[label]
    src = proof_tree(db, b)
    cnt = [0]

    def inst(t, env):
        cnt[0] += 1
        if cnt[0] > limit:
            raise Discard('expansion too large')
        l, ks = t
        if l in env:
            return env[l]
        if l != '?' and isinstance(db.labels[l], mmref.Hyp):
            return ('?', ())
        return (l, tuple(inst(k, env) for k in ks))

    def go(t):
        l, ks = t
        cnt[0] += 1
        if cnt[0] > limit:
            raise Discard('expansion too large')
        ks = tuple(go(k) for k in ks)
        if l != label:
            return (l, ks)
        return inst(src, {h.label: k for h, k in zip(b.mand, ks)})
    return go(tree)


def proof_tree(db, b):
    """tree of the stored proof of an assertion"""
    st, saved = [], []
    for x in mmref.decode(db, b, b.proof):
        if x[0] == 'hyp':
            st.append((x[1].label, ()))
        elif x[0] == 'ass':
            n = len(x[1].mand)
            k = tuple(st[len(st) - n:]) if n else ()
            if n:
                del st[-n:]
            st.append((x[1].label, k))
        elif x[0] == 'save':
            saved.append(st[-1])
        elif x[0] == 'ref':
            st.append(saved[x[1]])
        else:
            st.append(('?', ()))
    if len(st) != 1:
        raise ValueError('stack')
    return st[0]


def labels_of(t):
    out = set()
    seen = set()
    stack = [t]
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        out.add(t[0])
        stack.extend(t[1])
    return out


def tree_size(t):
    n = 0
    stack = [t]
    while stack:
        t = stack.pop()
        n += 1
        stack.extend(t[1])
    return n


def matches_list(label, pats):
    """label list with wildcards (no ranges)"""
    for p in pats.split(','):
        r = ''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in p)
        if re.fullmatch(r, label):
            return True
    return False


def closure(db, labels):
    """all statements (labels of $a and $p) the given labels depend on, themselves included, through essential steps only if the flag is set"""
    seen = set()
    todo = list(labels)
    while todo:
        l = todo.pop()
        if l in seen or l == '?':
            continue
        b = db.labels[l]
        if isinstance(b, mmref.Hyp):
            continue
        seen.add(l)
        if b.kind == 'p':
            todo += labels_of(proof_tree(db, b))
    return seen


def essential_labels(db, tree):
    """labels of the $a and $p steps outside floating subproofs"""
    out = set()

    def go(t):
        l, ks = t
        if l == '?':
            return
        b = db.labels[l]
        if isinstance(b, mmref.Hyp):
            return
        out.add(l)
        for h, k in zip(b.mand, ks):
            if h.kind == 'e':
                go(k)
    go(tree)
    return out


def essential_closure(db, labels):
    seen = set()
    todo = list(labels)
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        b = db.labels[l]
        if b.kind == 'p':
            todo += essential_labels(db, proof_tree(db, b))
    return seen

"""Proof notations, written independently of the program: encoders from a
hash-consed proof DAG to the normal, packed, explicit and compressed notations,
and decoders back to the sequence of labels (reverse Polish)."""
import re

from .mmref import cnum


class Dag:
    def __init__(self):
        self.nodes = []
        self.ids = {}
        self.size = []

    def mk(self, label, kids=()):
        k = (label, tuple(kids))
        i = self.ids.get(k)
        if i is None:
            i = len(self.nodes)
            self.ids[k] = i
            self.nodes.append(k)
            self.size.append(1 + sum(self.size[c] for c in kids))
        return i

    def tree(self, t):
        """nested (label, (kids)) tuples -> id"""
        return self.mk(t[0], [self.tree(c) for c in t[1]])


def rpn(dag, root):
    out = []
    memo = {}

    def go(i):
        if i in memo:
            a, b = memo[i]
            out.extend(out[a:b])
            return
        st = len(out)
        lab, kids = dag.nodes[i]
        for c in kids:
            go(c)
        out.append(lab)
        memo[i] = (st, len(out))
    go(root)
    return out


def walk(dag, root, tag, reuse, kidorder=None, leaf_ok=None):
    """-> list of steps: ('lab', label, tagno or None, target index list) / ('ref', tagno).
    tag(i): give this (assertion) node a tag; reuse(i): refer to the tag
    instead of repeating."""
    steps = []
    tags = {}
    nt = [0]

    def go(i, pos):
        lab, kids = dag.nodes[i]
        if i in tags and reuse(i):
            steps.append(('ref', tags[i], pos))
            return
        order = range(len(kids)) if kidorder is None else kidorder(i, len(kids))
        for j in order:
            go(kids[j], (lab, j))
        t = None
        if tag(i):
            t = nt[0]
            nt[0] += 1
            tags[i] = t
        steps.append(('lab', lab, t, pos))
    go(root, None)
    return steps


def enc_compressed(steps, mand, order=None, extra=()):
    """-> (label list, letters)"""
    labs = []
    seen = set(mand)
    for s in steps:
        if s[0] == 'lab' and s[1] not in seen and s[1] != '?':
            seen.add(s[1])
            labs.append(s[1])
    for x in extra:
        if x not in seen:
            seen.add(x)
            labs.append(x)
    if order:
        labs = order(labs)
    idx = {l: i for i, l in enumerate(list(mand) + labs)}
    base = len(mand) + len(labs)
    out = []
    for s in steps:
        if s[0] == 'ref':
            out.append(cnum(base + s[1]))
        else:
            out.append('?' if s[1] == '?' else cnum(idx[s[1]]))
            if s[2] is not None:
                out.append('Z')
    return labs, ''.join(out)


def enc_text(steps, explicit=False, hyps=None, thm=None, names=None):
    """normal/packed (explicit=False) or explicit notation.  hyps: assertion label ->
    list of mandatory hypothesis labels."""
    names = names or (lambda t: str(t + 1))
    out = []
    for s in steps:
        pre = ''
        if explicit:
            pos = s[2] if s[0] == 'ref' else s[3]
            tgt = thm if pos is None else hyps[pos[0]][pos[1]]
            pre = tgt + '='
        if s[0] == 'ref':
            out.append(pre + names(s[1]))
        else:
            t = names(s[2]) + ':' if s[2] is not None else ''
            out.append(t + pre + s[1])
    return out


class Bad(Exception):
    pass


def dec_compressed(tokens, mand, arity):
    """tokens: after the '(' form.  -> rpn labels (expanded)"""
    if tokens[0] != '(':
        raise Bad('no (')
    if ')' not in tokens:
        raise Bad('no )')
    k = tokens.index(')')
    labs = tokens[1:k]
    if len(set(labs)) != len(labs) or set(labs) & set(mand):
        raise Bad('label list repeats a label or lists a mandatory hypothesis')
    objs = list(mand) + labs
    letters = ''.join(tokens[k + 1:])
    stack = []
    saved = []
    n = 0
    for ch in letters:
        if 'A' <= ch <= 'T':
            n = n * 20 + ord(ch) - 65
            if n < len(objs):
                push(stack, objs[n], arity)
            elif n - len(objs) < len(saved):
                stack.append(saved[n - len(objs)])
            else:
                raise Bad('reference out of range')
            n = 0
        elif 'U' <= ch <= 'Y':
            n = n * 5 + ord(ch) - 84
        elif ch == 'Z':
            saved.append(stack[-1])
        elif ch == '?':
            stack.append(['?'])
        else:
            raise Bad('letter ' + repr(ch))
    if len(stack) != 1 or n:
        raise Bad('stack')
    return stack[0], labs, saved


def push(stack, lab, arity):
    a = arity.get(lab, 0)
    if len(stack) < a:
        raise Bad('stack underflow at ' + lab)
    kids = stack[len(stack) - a:] if a else []
    if a:
        del stack[len(stack) - a:]
    out = []
    for k in kids:
        out += k
    out.append(lab)
    stack.append(out)


def dec_text(tokens, arity, explicit=False, hyps=None, thm=None):
    """normal / packed / explicit tokens -> rpn labels.  For the explicit form the
    hypotheses are put back into their proper order by their targets."""
    stack = []          # (rpn, target)
    local = {}
    # re-tokenize: 'a:b=c' may come with or without spaces
    toks = []
    for t in tokens:
        toks += [x for x in re.split(r'([:=])', t) if x]
    i = 0
    while i < len(toks):
        tag = None
        tgt = None
        if i + 1 < len(toks) and toks[i + 1] == ':':
            tag = toks[i]
            i += 2
        if explicit:
            if i + 1 >= len(toks) or toks[i + 1] != '=':
                raise Bad('missing target')
            tgt = toks[i]
            i += 2
        lab = toks[i]
        i += 1
        if lab in local:
            stack.append((local[lab], tgt))
        else:
            a = arity.get(lab, 0)
            if len(stack) < a:
                raise Bad('stack underflow')
            kids = stack[len(stack) - a:] if a else []
            if a:
                del stack[len(stack) - a:]
            if explicit and a:
                m = {t: r for r, t in kids}
                if set(m) != set(hyps[lab]):
                    raise Bad(f'targets {sorted(m)} are not the hypotheses of {lab}')
                kids = [(m[h], h) for h in hyps[lab]]
            r = []
            for kk, _ in kids:
                r += kk
            r.append(lab)
            stack.append((r, tgt))
        if tag is not None:
            if tag in local:
                raise Bad('local label reused')
            local[tag] = stack[-1][0]
    if len(stack) != 1:
        raise Bad('stack')
    if explicit and stack[0][1] != thm:
        raise Bad('last target is not the theorem')
    return stack[0][0]


def clip(text):
    """tokens of the proof between the clip lines of SHOW PROOF"""
    m = re.search(r'---------Clip\s+out\s+the\s+proof\s+below\s+this\s+line\s+to\s+put\s+it\s+in\s+the\s+source\s+file:\n(.*?)\n---------The\s+proof\s+of', text, re.S)
    if not m:
        raise Bad('no proof shown: ' + text[:500])
    t = m.group(1).split()
    if t[-1] != '$.':
        raise Bad('no $. at the end')
    return t[:-1]

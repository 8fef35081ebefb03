"""Model of <label-match> arguments."""
import re
from . import mmref


class Labels:
    def __init__(self, db, changed=(), proving=None):
        self.db = db
        self.changed = set(changed)
        self.proving = proving
        self.stm = {x.index: l for l, x in db.labels.items()}       # labelled statements
        self.asserts = [b.label for b in db.order]
        self.pos = {l: i for i, l in enumerate(self.asserts)}
        self.all = [l for _, l in sorted((x.index, l) for l, x in db.labels.items())]

    def match1(self, l, p):
        if '~' in p:
            a, b = p.split('~', 1)
            lo = 0 if not a else self.pos.get(a)
            hi = len(self.asserts) if not b else self.pos.get(b)
            return lo is not None and hi is not None and l in self.pos and lo <= self.pos[l] <= hi
        if p[0] == '#':
            return self.stm.get(int(p[1:])) == l
        if p[0] == '@':
            return l in self.pos and self.pos[l] + 1 == int(p[1:])
        if p == '=':
            return l == self.proving
        if p == '%':
            return l in self.changed
        return re.fullmatch(''.join('.*' if c == '*' else '.' if c == '?' else re.escape(c) for c in p), l) is not None

    def match(self, l, pats):
        return any(self.match1(l, p) for p in pats.split(',') if p)

    def gen1(self, g):
        ls = self.all if g.bool(0.25) else self.asserts
        k = g.draw(10)
        if k == 0:
            return '*'
        l = g.choice(ls)
        if k in (1, 2):
            return l
        if k == 3:
            return g.choice(['', l]) + '~' + g.choice(['', g.choice(ls)])
        if k == 4:
            return f'#{g.int(1, self.db.nstmt + 2)}'
        if k == 5:
            return f'@{g.int(1, len(self.asserts) + 1)}'
        if k == 6 and (self.changed or self.proving):
            return g.choice(['=', '%'])
        # several wildcards
        out = ''
        i = 0
        for _ in range(g.int(1, 3)):
            j = g.int(i, len(l))
            out += l[i:j]
            w = g.draw(3)
            if w == 0:
                out += '*'
                i = g.int(j, len(l))
            elif w == 1 and j < len(l):
                out += '?'
                i = j + 1
            else:
                out += '*' + '?' * g.int(0, 2)
                i = g.int(j, len(l))
        if g.bool(0.4):
            out += '*'
        else:
            out += l[i:]
        return out or '*'

    def gen(self, g):
        ps = [self.gen1(g) for _ in range(g.small(1, 4, 0.3))]
        if len(ps) > 1 and '=' in ps:       # would need quotes
            ps = [p for p in ps if p != '='] or ['*']
        return ','.join(ps)

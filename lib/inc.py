"""Random trees of source files with $[ ... $] inclusions, and an independent
model of what READ makes of them and what WRITE SOURCE writes back."""
from . import mmgen
from .core import Discard


def norm(t):
    return t if t.endswith('\n') else t + '\n'


class Tree:
    """files: name -> text as written to disk.  main: name of the main file.
    Parsed form of a file: list of ('t', text) | ('I', fn, text) | ('S', fn, text) |
    ('B', fn, prefix, [parts], suffix)."""

    def __init__(self, g, items, seps, allow_markup=True, subdir=False, locate=True):
        self.g = g
        self.parts = {}
        self.n = 0
        self.names = []
        self.allow_markup = allow_markup
        self.subdir = subdir
        self.started = []          # names whose first inclusion has begun, in reading order
        self.main = g.choice(['t.mm', 'main.mm', 'big.db'])
        self.started.append(self.main)
        self.chunks = []
        self.openb = []            # sections whose end mark is still to come
        for it in items:
            self.chunks.append((it, mmgen.emit([it], g, g.choice(['plain', 'wild'])).rstrip('\n') + g.choice(seps)))
        self.parts[self.main] = self.file(self.chunks, 0)
        self.files = {}
        for n, p in self.parts.items():
            t = self.text(p)
            if g.bool(0.15) or not t.endswith('\n'):
                t = t.rstrip('\n \t')
            self.files[n] = t

    def newname(self):
        self.n += 1
        b = self.g.choice(['a', 'inc', 'x-', 'part.'])
        n = f'{b}{self.n}.mm'
        if self.subdir and self.g.bool(0.3):
            n = 'sub/' + n
        return n

    def icmd(self, fn):
        g = self.g
        s1 = g.weighted([(' ', 8), ('\n', 1), ('  ', 1), (' $( c $) ', 1)])
        s2 = g.weighted([(' ', 8), ('\n', 1), (' $( d $)\n', 1)])
        return '$[' + s1 + fn + s2 + '$]'

    def after(self):
        return self.g.weighted([('\n', 6), (' ', 3), ('\n\n', 1), (' $( x $)\n', 1), ('', 0)])

    def again(self, out):
        """another reference to a file that is already (being) included"""
        g = self.g
        fn = g.choice(self.started)
        k = g.draw(3) if self.allow_markup else 0
        if k == 2:
            out.append(('S', fn, f'$( Skip $[ {fn} $] $)'))
        elif k == 1 and fn != self.main and fn not in self.openb:
            out.append(('B', fn, f'$( Begin $[ {fn} $] $)\n', [('t', g.choice(['', '$( ignored $)\n', '  $c whatever $.\n']))], f'$( End $[ {fn} $] $)'))
        else:
            out.append(('I', fn, self.icmd(fn)))
        out.append(('t', self.after()))

    def file(self, chunks, depth):
        g = self.g
        out = []
        if g.bool(0.2):
            out.append(('t', g.choice(['\n', '  ', '$( top $)\n', '\n\n\n', '$( $[ nowhere.mm $] $) '])))
        i = 0
        while i < len(chunks):
            if depth < 4 and g.bool(0.3 if depth else 0.25):
                k = min(len(chunks) - i, g.int(0, 6))
                fn = self.newname()
                self.started.append(fn)
                kind = g.draw(4) if self.allow_markup else 0
                if kind == 1:
                    self.openb.append(fn)
                sub = self.file(chunks[i:i + k], depth + 1)
                if kind == 1:
                    self.openb.pop()
                i += k
                if kind == 1:
                    out.append(('B', fn, f'$( Begin $[ {fn} $] $)' + g.choice(['\n', '\n', ' ']), sub, f'$( End $[ {fn} $] $)'))
                    if sub and not self.text(sub).endswith(('\n', ' ')):
                        sub.append(('t', '\n'))
                else:
                    self.parts[fn] = sub
                    if kind == 2:
                        out.append(('S', fn, f'$( Skip $[ {fn} $] $)'))
                    else:
                        out.append(('I', fn, self.icmd(fn)))
                out.append(('t', self.after()))
            else:
                out.append(('t', chunks[i][1], chunks[i][0]))
                i += 1
            while g.bool(0.08):
                self.again(out)
        return out

    def text(self, parts):
        s = ''
        for p in parts:
            if p[0] == 't':
                s += p[1]
            elif p[0] in 'IS':
                s += p[2]
            else:
                s += p[2] + self.text(p[3]) + p[4]
        return s

    # ------------------------------------------------------------- model
    def expand(self):
        """the text READ works on, and keyword positions {label: (file, line)}"""
        seen = {self.main}
        loc = {}
        warn = []

        def go(parts, fn, line):
            out = ''
            for p in parts:
                if p[0] == 't':
                    if len(p) > 2 and p[2][0] in 'feap':
                        # position of the $ keyword
                        txt = p[1]
                        lab = p[2][1]
                        kw = find_kw(txt, lab)
                        loc[lab] = (fn, line + txt[:kw].count('\n'))
                    out += p[1]
                    line += p[1].count('\n')
                elif p[0] in 'IS':
                    f = p[1]
                    if f in seen:
                        out += f'$( Skip $[ {f} $] $)'
                    else:
                        seen.add(f)
                        sub = go(self.parts[f], f, 1)
                        out += f'$( Begin $[ {f} $] $)\n' + norm_sub(sub, self.files[f]) + f'$( End $[ {f} $] $)'
                    line += p[2].count('\n')
                else:
                    f = p[1]
                    if f in seen:
                        out += f'$( Skip $[ {f} $] $)'
                    else:
                        seen.add(f)
                        out += p[2] + go(p[3], fn, line + p[2].count('\n')) + p[4]
                    line += (p[2] + self.text(p[3]) + p[4]).count('\n')
            return out

        def norm_sub(sub, filetext):
            # the file on disk may have lost trailing white space
            if not filetext.endswith('\n'):
                full = sub
                cut = len(sub) - len(sub.rstrip('\n \t'))
                full = sub[:len(sub) - cut] if cut else sub
                return full + '\n'
            return sub
        t = go(self.parts[self.main], self.main, 1)
        t = norm_sub(t, self.files[self.main])
        return t, loc

    def split(self):
        """files WRITE SOURCE / SPLIT must produce (included files only)"""
        seen = {self.main}
        out = {}

        def go(parts):
            s = ''
            for p in parts:
                if p[0] == 't':
                    s += p[1]
                elif p[0] in 'IS':
                    f = p[1]
                    if f not in seen:
                        seen.add(f)
                        sub = go(self.parts[f])
                        if not self.files[f].endswith('\n'):
                            sub = sub.rstrip('\n \t') + '\n'
                        out[f] = sub
                    s += f'$[ {f} $]'
                else:
                    f = p[1]
                    if f not in seen:
                        seen.add(f)
                        out[f] = go(p[3])
                        tail = p[2][-1]
                    s += f'$[ {f} $]'
            return s
        m = go(self.parts[self.main])
        if not self.files[self.main].endswith('\n'):
            m = m.rstrip('\n \t') + '\n'
        return m, out


def find_kw(txt, lab):
    """offset of the $ of the keyword that follows the label"""
    i = 0
    n = len(txt)
    seen = False
    while i < n:
        if txt[i] in ' \n\t':
            i += 1
            continue
        if txt.startswith('$(', i):
            i = txt.index('$)', i) + 2
            continue
        if not seen:
            assert txt.startswith(lab, i), (txt, lab)
            i += len(lab)
            seen = True
            continue
        assert txt[i] == '$'
        return i
    raise AssertionError

"""C17  Every text tool transforms its file exactly as documented."""
import re
from lib import mm
from lib.core import Check, Violation, Discard

PLAIN = re.compile(r'^[A-Za-z0-9.~]+$')
BODY = 'abcab aA \t("),\'=x012-.~'
HIGH = '\xe9\xf1\xc4\xb3\xea\xf8\x80\x01\r\x0c\x1b\x08'


def quote(g, s):
    if PLAIN.match(s) and g.bool(0.5):
        return s
    q = g.choice('"\'')
    if q in s:
        q = '"' if q == "'" else "'"
    if q in s:
        raise Discard('both quotes')
    return q + s + q


def gen_line(g, pool):
    k = g.draw(12)
    if k < 2:
        return ''
    if pool and k < 5:
        return g.choice(pool)
    if k == 5:
        return str(g.int(0, 300))
    if k == 6:
        return ''.join(g.choice(BODY + HIGH) for _ in range(g.int(1, 12)))
    if k == 7:
        return ''.join(g.choice(['\t', ' ', '  ', '        ', 'a', 'b"', '12345']) for _ in range(g.int(1, 10)))
    if k == 8 and g.bool(0.1):
        return g.choice(BODY) * g.choice([79, 80, 100, 500, 1998, 2500, 9999, 10000, 10001, 20001])
    return ''.join(g.choice(BODY) for _ in range(g.small(1, 60, 0.9)))


def gen_file(g):
    pool = []
    n = g.draw(8) if g.bool(0.8) else g.draw(60)
    ls = []
    for _ in range(n):
        l = gen_line(g, pool)
        pool.append(l)
        ls.append(l)
    t = ''.join(l + '\n' for l in ls)
    if ls and ls[-1] and g.bool(0.15):
        t = t[:-1]
    return t


def lines_of(t):
    if not t:
        return []
    ls = t.split('\n')
    if ls[-1] == '':
        ls.pop()
    return ls


def gen_arg(g, ls, empty=0.15, maxlen=4):
    """a string likely to occur"""
    if g.bool(empty):
        return ''
    cand = [l for l in ls if l]
    if cand and g.bool(0.85):
        l = g.choice(cand)[:200]
        i = g.draw(len(l))
        s = l[i:i + g.int(1, maxlen)]
    else:
        s = ''.join(g.choice('ab x(=,1') for _ in range(g.int(1, maxlen)))
    s = ''.join(c for c in s if ' ' <= c < '\x7f')
    if '"' in s and "'" in s:
        s = s.replace('"', 'a')
    return s or 'a'


def find(s, p, start=0):
    return s.find(p, start)


# ---- models -------------------------------------------------------------

def untab(s):
    out = ''
    for c in s:
        if c == '\t':
            out += ' ' * (8 - len(out) % 8)
        else:
            out += c
    return out


def quoted_mask(s):
    """True where a character is inside quotes (quotes themselves do not matter)"""
    m = []
    inq = False
    for c in s:
        if c in '"\'':
            inq = not inq
            m.append(True)
        else:
            m.append(inq)
    return m, inq


def clean(s, sub):
    """-> set of acceptable results, or a predicate"""
    q = 'Q' in sub
    if 'B' in sub:
        s = s.lstrip(' \t')
    m, unclosed = quoted_mask(s) if q else ([False] * len(s), False)
    out, om = [], []
    for c, keep in zip(s, m):
        if keep:
            out.append(c)
            om.append(True)
            continue
        if 'P' in sub:
            c = chr(ord(c) & 127)
            if c == '\0':
                continue
        if 'D' in sub and c in ' \t':
            continue
        if 'G' in sub and c in '\r\x0c\x1b\x08':
            continue
        if 'C' in sub and 'a' <= c <= 'z':
            c = c.upper()
        if 'L' in sub and 'A' <= c <= 'Z':
            c = c.lower()
        if 'V' in sub:
            o = ord(c)
            if o in (234, 235, 236, 237, 218, 217, 191, 192):
                c = '+'
            elif o in (241, 196):
                c = '-'
            elif o in (248, 166, 179):
                c = '|'
        out.append(c)
        om.append(False)
    res = []
    for trail in ([True, False] if unclosed else [True]):
        o, k = list(out), list(om)
        if 'E' in sub:
            while o and o[-1] in ' \t' and (trail or not k[-1]):
                o.pop()
                k.pop()
        if 'R' in sub:
            o2 = []
            prev = False
            for c, keep in zip(o, k):
                if c in ' \t' and not keep:
                    if not prev:
                        o2.append(' ')
                    prev = True
                else:
                    o2.append(c)
                    prev = False
            o = o2
        r = ''.join(o)
        if 'U' in sub:
            r = untab(r)
        res.append(r)
    return res


def tab_ok(src, res):
    """res is src (without tabs) with runs of spaces replaced by tabs"""
    if untab(res) != src:
        return False
    # no tab may be missing: a run of two or more spaces that ends at a tab stop
    col = 0
    run = 0
    for c in res:
        if c == '\t':
            col += 8 - col % 8
            run = 0
        else:
            run = run + 1 if c == ' ' else 0
            col += 1
            if col % 8 == 0:
                if run >= 2 and col < len(src):
                    return False
                run = 0
    return True


def substitute(ls, old, new, occ, must):
    out = []
    changed = 0
    split = new == '\\n'
    new = '\n' if split else new
    i = 0
    join = '\\n' in old
    while i < len(ls):
        l = ls[i]
        i += 1
        s = l
        if must and must not in l:
            out.append(l)
            continue
        if join:
            occ = 1
            if i < len(ls):
                if old in l + '\\n' + ls[i]:
                    s = l + '\\n' + ls[i]
                    i += 1
                else:
                    out.append(l)
                    continue
        if occ == -1:
            s = s.replace(old, new)
        else:
            p = -1
            for _ in range(occ):
                p = s.find(old, p + 1)
                if p < 0:
                    break
            if p >= 0:
                s = s[:p] + new + s[p + len(old):]
        out += s.split('\n')
    return out


def build_ok(ls, out):
    toks = [l for l in ls if l]
    i = 0
    for k, o in enumerate(out):
        if i >= len(toks) or not o.startswith(toks[i]):
            return False
        cur = toks[i]
        i += 1
        while cur != o:
            if i >= len(toks):
                return False
            cur += ' ' + toks[i]
            if not o.startswith(cur):
                return False
            i += 1
            if len(cur) > 79:
                return False
        if i < len(toks) and len(o) + 1 + len(toks[i]) <= 72:
            return False
    return i == len(toks)


def break_(l, spec):
    s = l
    for c in spec:
        if c != ' ':
            s = s.replace(c, ' ' + c + ' ')
    return s.replace('\t', ' ').split(' ')


def num_text(v):
    s = f'{v:f}'.rstrip('0')
    return s[:-1] if s.endswith('.') else s


def val(s):
    """the digits of a line as one number"""
    v, power, neg = 0.0, 1.0, False
    for c in reversed(s):
        if c == '.':
            v, power = v / power, 1.0
        elif c == '-':
            neg = True
        elif c.isdigit() and c in '0123456789':
            v += int(c) * power
            power *= 10.0
    return -v if neg else v


def outname(f):
    return f[:-2] if len(f) > 2 and f[-2] == '~' else f


class T:
    """model of the scratch directory"""

    def __init__(self, g, files):
        self.g = g
        self.files = dict(files)

    def put(self, name, text):
        if name in self.files:
            last = 0
            for v in range(1, 10):
                if f'{name}~{v}' not in self.files:
                    break
                last = v
            if last == 9:
                last = 8
            for v in range(last, 0, -1):
                self.files[f'{name}~{v + 1}'] = self.files[f'{name}~{v}']
            self.files[f'{name}~1'] = self.files.pop(name)
        self.files[name] = text


def text(ls):
    return ''.join(l + '\n' for l in ls)


def gen_cmd(g, t):
    """-> (command word, args, [output file], judge(files text, output) )"""
    names = sorted(t.files)
    f = g.choice(names)
    src = t.files[f]
    ls = lines_of(src)
    cmd = g.choice(['ADD', 'TAG', 'DELETE', 'CLEAN', 'SUBSTITUTE', 'SWAP', 'INSERT', 'BREAK', 'BUILD', 'MATCH', 'SORT',
                    'UNDUPLICATE', 'DUPLICATE', 'UNIQUE', 'REVERSE', 'RIGHT', 'PARALLEL', 'NUMBER', 'COUNT', 'TYPE', 'COPY'])
    out = outname(f)
    exact = None            # list of lines expected
    pred = None             # predicate on the output lines
    msg = None              # predicate on the message text
    nchanged = None
    args = [f]
    if cmd == 'ADD':
        a, b = gen_arg(g, ls, 0.3), gen_arg(g, ls, 0.3)
        args += [a, b]
        exact = [a + l + b for l in ls]
    elif cmd == 'TAG':
        a, b = gen_arg(g, ls, 0.3), gen_arg(g, ls, 0.3)
        sm, sn, em, en = gen_arg(g, ls, 0.3, 2), g.small(0, 4), gen_arg(g, ls, 0.3, 2), g.small(0, 4)
        args += [a, b, sm, str(sn) if g.bool(0.9) else '', em, str(en)]
        if args[4] == '':
            sn = 1
        sn, en = sn or 1, en or 1
        exact = []
        state, c = 0, 0
        for l in ls:
            if state == 0 and sm in l:
                c += 1
                if c == sn:
                    state, c = 1, 0
            if state == 1:
                exact.append(a + l + b)
                if em in l:
                    c += 1
                    if c == en:
                        state = 2
            else:
                exact.append(l)
    elif cmd == 'DELETE':
        a, b = gen_arg(g, ls), gen_arg(g, ls)
        args += [a, b]
        exact = []
        for l in ls:
            p = l.find(a) if a else 0
            q = -1
            if p >= 0:
                q = l.find(b, p) if b else len(l)
            exact.append(l[:p] + l[q + len(b):] if p >= 0 and q >= 0 else l)
        nchanged = False
    elif cmd == 'CLEAN':
        sub = ''.join(g.sample('DBERQTUPGCLV', g.int(0, 4)))
        if ('P' in sub and 'V' in sub) or ('C' in sub and 'L' in sub) or ('P' in sub and ('B' in sub or 'E' in sub or 'D' in sub or 'G' in sub or 'R' in sub)):
            sub = sub.replace('P', '').replace('C', '')
        if 'T' in sub and ('U' in sub or any('\t' in l or re.search('[\x80-\xff]', l) for l in ls)):
            sub = sub.replace('T', '')
        arg = ','.join(sub)
        args.append(arg.lower() if g.bool(0.3) else arg)
        if not sub:
            sub = 'BER'
        if 'T' in sub:
            rest = sub.replace('T', '')

            def pred(o):
                return len(o) == len(ls) and all(any(tab_ok(r, x) for r in clean(l, rest)) for l, x in zip(ls, o))
        else:
            def pred(o):
                return len(o) == len(ls) and all(x in clean(l, sub) for l, x in zip(ls, o))
            if 'Q' not in sub:
                exact = [clean(l, sub)[0] for l in ls]
    elif cmd == 'SUBSTITUTE':
        old = gen_arg(g, ls, 0)
        new = gen_arg(g, ls, 0.2)
        k = g.draw(8)
        if k == 0:
            new = '\\n'
        elif k == 1:
            old = '\\n'
        elif k == 2:
            i = g.draw(max(1, len(ls) - 1))
            if len(ls) >= 2:
                a = ''.join(c for c in ls[i][-2:] if ' ' <= c < '\x7f' and c not in '"\'')
                b = ''.join(c for c in ls[i + 1][:2] if ' ' <= c < '\x7f' and c not in '"\'')
                old = a + '\\n' + b
        occ = g.choice(['1', '', 'A', '2', 'all', 'EACH', '3']) if g.bool(0.8) else '0'
        if occ == 'EACH':
            occ = 'ALL'
        must = gen_arg(g, ls, 0.7)
        args += [old, new, occ, must]
        n = -1 if occ and occ[0] in 'Aa' else (int(occ) if occ else 1) or 1
        exact = substitute(ls, old, new, n, must)
        if '\\n' in (old + new):
            nchanged = False
    elif cmd == 'SWAP':
        a = gen_arg(g, ls, 0)
        args += [a]
        exact = []
        for l in ls:
            p = l.find(a)
            exact.append(l[p + len(a):] + a + l[:p] if p >= 0 else l)
    elif cmd == 'INSERT':
        a = gen_arg(g, ls, 0.1)
        n = g.small(0, 90, 0.85)
        args += [a, str(n) if g.bool(0.8) else '']
        if args[2] == '':
            n = 1
        if n == 0:
            args[2] = '1'
            n = 1
        a = a or '!'
        exact = [l.ljust(n - 1)[:n - 1] + a + l.ljust(n - 1)[n - 1:] for l in ls]
    elif cmd == 'BREAK':
        spec = g.choice(['', ' ', '(', 'ab', '="', ',;', 'a', '..']) if g.bool(0.8) else gen_arg(g, ls)
        spec = ''.join(dict.fromkeys(spec))
        args.append(spec)
        spec = spec or '()[],=:;{}'
        exact = [w for l in ls for w in break_(l, spec) if w]
        nchanged = False
        msg = f'The input had {len(ls)} line{"s" * (len(ls) != 1)}, the output has {len(exact)} line{"s" * (len(exact) != 1)}.'
    elif cmd == 'BUILD':
        def pred(o):
            return build_ok(ls, o)
        nchanged = False
    elif cmd == 'MATCH':
        a = gen_arg(g, ls, 0.2, 2)
        yn = g.choice(['Y', 'N', '', 'y', 'n'])
        args += [a, yn]
        exact = [l for l in ls if ((a in l) if a else l != '') != (yn in 'nN' and yn != '')]
        msg = f'The input had {len(ls)} line{"s" * (len(ls) != 1)}, the output has {len(exact)} line{"s" * (len(exact) != 1)}.'
        nchanged = False
    elif cmd == 'SORT':
        a = gen_arg(g, ls, 0.4, 1)
        args.append(a)

        def key(l):
            p = l.find(a)
            return (l[p:] if p >= 0 else l).encode('latin-1')

        def pred(o):
            ks = [key(l) for l in o]
            return sorted(o) == sorted(ls) and all(x <= y for x, y in zip(ks, ks[1:]))
        msg = f'The output file has {len(ls)} lines.'
        nchanged = False
    elif cmd in ('UNDUPLICATE', 'DUPLICATE', 'UNIQUE', 'REVERSE'):
        if cmd == 'REVERSE':
            exact = ls[::-1]
        else:
            n = {}
            for l in ls:
                n[l] = n.get(l, 0) + 1
            exact = [l for l in sorted(n, key=lambda x: x.encode('latin-1'))
                     if cmd == 'UNDUPLICATE' or (n[l] > 1) == (cmd == 'DUPLICATE')]
        msg = f'The output file has {len(exact)} lines.'
        nchanged = False
    elif cmd == 'RIGHT':
        w = max([len(l) for l in ls] or [0])
        exact = [l.rjust(w) for l in ls]
    elif cmd == 'PARALLEL':
        f2 = g.choice(names)
        l2 = lines_of(t.files[f2])
        out = g.choice(['', f, f2, 'new', 'new2'])
        a = gen_arg(g, ls, 0.4)
        args += [f2, out, a]
        out = out or f
        n = max(len(ls), len(l2))
        exact = [x + a + y for x, y in zip(ls + [''] * (n - len(ls)), l2 + [''] * (n - len(l2)))]
        nchanged = False
        if len(ls) != len(l2):
            msg = f'had {len(ls)} lines while file "{f2}" had {len(l2)} lines'
        else:
            msg = f'each had {n} lines'
    elif cmd == 'NUMBER':
        out = g.choice(names + ['new', ''])
        a, b, c = g.small(0, 2000, 0.95), g.small(0, 2000, 0.98), g.small(0, 30, 0.7)
        args = [out, str(a) if a else '', str(b) if b else '', str(c)]
        if g.bool(0.2):
            args[3] = ''
            c = 1
        out = out or 'n.tmp'
        a, b = a or 1, b or 10
        if c == 0:
            out = None
            msg = '?'
        else:
            exact = [str(i) for i in range(a, b + 1, c)]
        nchanged = False
    elif cmd == 'COUNT':
        a = gen_arg(g, ls, 0.1, 2)
        args.append(a)
        a = a or ';'
        out = None
        lc = sum(a in l for l in ls)
        oc = sum(1 for l in ls for i in range(len(l)) if l.startswith(a, i))
        lg = max([len(l) for l in ls] or [0])
        nl = sum(len(l) == lg for l in ls)
        first = next((i + 1 for i, l in enumerate(ls) if len(l) == lg), 0)
        fo = next((i for i, l in enumerate(ls) if a in l), None)
        s = sum(val(l) for l in ls)

        def msg(o, raw):
            if f'The file has {len(ls)} lines.  The string "{a}" occurs {oc} times on {lc} lines.\n' not in raw:
                return 'count'
            if fo is not None and f'The first occurrence is on line {fo + 1}:\n{ls[fo]}\n' not in raw:
                return 'first occurrence'
            if ls and lg and f'(out of {nl}) is line {first} and has {lg} characters:\n' not in raw:
                return 'longest'
            if all(re.match(r'^\d{0,6}$', l) for l in ls) and f'the sum of lines is {num_text(s)}' not in ' '.join(raw.split()):
                return 'sum'
        nchanged = False
    elif cmd == 'TYPE':
        n = g.choice(['', 'ALL', 'a']) if g.bool(0.5) else str(g.small(0, 20, 0.8))
        args.append(n)
        out = None
        k = 10 if n == '' else len(ls) if n[0] in 'Aa' else int(n)
        want = text(ls[:k])

        def msg(o, raw):
            if not raw.endswith(want) or (len(raw) != len(want) and len(args) > 1 and not raw[:len(raw) - len(want)].strip().endswith('<$>?')):
                return f'expected exactly {want!r}'
        if n == '':
            args.pop()
        nchanged = False
    elif cmd == 'COPY':
        fs = [g.choice(names) for _ in range(g.small(1, 4))]
        bad = g.bool(0.08)
        if bad:
            fs.insert(g.draw(len(fs) + 1), 'nofile')
        out = g.choice(names + ['new', 'new2'])
        args = [','.join(fs), out]
        if bad:
            out = None
            msg = "?Sorry, couldn't open the file \"nofile\"."
        else:
            exact = [l for x in fs for l in lines_of(t.files[x])]
            msg = f'The output file "{out}" has {len(exact)} lines.'
        nchanged = False
    return cmd, args, out, exact, pred, msg, nchanged, ls


def prop(g, ctx):
    names = g.sample(['a', 'b.t', 'file1', 'c~1', 'x.txt~2', 'd~x', '~3'], g.int(1, 3))
    t = T(g, {n: gen_file(g) for n in names})
    start = dict(t.files)
    for n, c in t.files.items():
        ctx.write(n, c)
    exe = ctx.env['asan'] if g.bool(0.15) else ctx.env['plain']
    ncmd = g.small(1, 4, 0.5)
    hist = []
    nt = False
    script = ['tools']
    jobs = []
    total = 0
    # commands are generated one at a time against the model's directory, and
    # the ones whose output is not determined exactly end the session
    for _ in range(ncmd):
        cmd, args, out, exact, pred, msg, nchanged, ls = gen_cmd(g, t)
        word = cmd if g.bool(0.6) else cmd.lower()
        if g.bool(0.2):
            word = {'SUBSTITUTE': 's', 'COPY': 'c', 'TYPE': 't'}.get(cmd, word)
        # some of the arguments may be left to be asked for
        k = len(args)
        if g.bool(0.2):
            k = g.draw(len(args) + 1)
            if cmd == 'TYPE':
                k = len(args)
        line = ' '.join([word] + [quote(g, a) for a in args[:k]])
        asked = list(args[k:])
        hist.append((cmd, args, out, exact, pred, msg, nchanged, ls, len(script)))
        script += [line] + asked
        if any(len(x) > 1900 for x in script):
            raise Discard('long')
        if out is not None and exact is None:
            break
        if out is not None:
            t.put(out, text(exact))
    ctx.show({'files': start, 'script': script})
    ctx.key(start, script)
    o = mm.run(exe, (), '\n'.join(['set scroll continuous', 'set width 100000000'] + script) + '\nexit\nexit\n', ctx.dir)
    mm.health(o, '\n'.join(script))
    # every answer to a question is on a line of its own after the prompt, and so are the commands
    parts = o.out.split('TOOLS> ')
    if len(parts) - 2 != len(hist):
        raise Violation('session', f'{len(parts) - 2} answers to {len(hist)} commands: {script}: {o.out[:3000]}')
    for h, raw in zip(hist, parts[1:]):
        cmd, args, out, exact, pred, msg, nchanged, ls, pos = h
        what = f'{cmd} {args} on {ls}: {raw[:1500]}'
        if callable(msg):
            e = msg(None, raw)
            if e:
                raise Violation('message', f'{e}: {what}')
        elif msg and msg not in ' '.join(raw.split()) and msg not in raw:
            raise Violation('message', f'{msg!r} not reported: {what}')
        if exact is not None and nchanged is None and len(exact) == len(ls):
            ch = [i for i, (x, y) in enumerate(zip(ls, exact)) if x != y]
            m = re.search(r'has (\d+) lines?; (none|\d+) w\w+ changed\.', raw)
            if not ls:
                if 'has no lines' not in raw:
                    raise Violation('message', what)
            elif not m or int(m[1]) != len(ls) or (0 if m[2] == 'none' else int(m[2])) != len(ch):
                raise Violation('message', f'{len(ch)} of {len(ls)} lines should have changed: {what}')
            elif ch and f'First changed line is {ch[0] + 1}:\n' not in raw:
                raise Violation('message', f'first change is line {ch[0] + 1}: {what}')
        if out is not None and (exact != ls):
            nt = True
        if out is None and ls:
            nt = True
    import os
    have = {n: ctx.read(n) for n in os.listdir(ctx.dir)}
    last = hist[-1]
    if last[2] is not None and last[3] is None:
        cmd, args, out, exact, pred, msg, nchanged, ls, pos = last
        got = have.get(out)
        if got is None or (got and not got.endswith('\n')) or not pred(lines_of(got)):
            raise Violation('result', f'{cmd} {args} on {ls} gives {got!r} ({script})')
        t.put(out, got)
    if have != t.files:
        d = {n: (t.files.get(n), have.get(n)) for n in sorted(set(have) | set(t.files)) if have.get(n) != t.files.get(n)}
        raise Violation('files', f'{start} {script}: (expected, found) = {d}')
    ctx.nontrivial(nt)


CHECK = Check('C17', prop, quick=12000, thorough=300000, builds=('plain', 'asan'),
              rule='random files (blank lines, tabs, quotes, control and 8-bit characters, long lines, no final newline) and sessions of text-tool commands with random arguments, some asked for interactively; '
                   'non-trivial = some file changed or a statistic was reported on a non-empty file; distinct by files and commands')

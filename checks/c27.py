"""C27  A command does the same however it is entered, and a wrong one does nothing."""
import os, re
from lib import mm, mmgen
from lib.core import Check, Violation, Discard
from checks.c18 import snap

TOP = 'DBG HELP READ WRITE PROVE SHOW SEARCH SAVE SUBMIT OPEN CLOSE SET FILE BEEP EXIT QUIT ERASE VERIFY MARKUP MORE TOOLS MIDI'.split()
TOPPA = ('DBG HELP WRITE SHOW SEARCH SAVE SUBMIT OPEN CLOSE SET FILE BEEP EXIT _EXIT_PA QUIT VERIFY INITIALIZE ASSIGN REPLACE LET UNIFY IMPROVE MINIMIZE_WITH EXPAND MATCH DELETE UNDO REDO '
         'MARKUP MORE TOOLS MIDI').split()
TOPTOOLS = ('HELP SUBMIT ADD DELETE SUBSTITUTE S SWAP CLEAN INSERT BREAK BUILD MATCH SORT UNDUPLICATE DUPLICATE UNIQUE REVERSE RIGHT PARALLEL NUMBER COUNT COPY C TYPE T TAG UPDATE BEEP B EXIT QUIT').split()
SHOW = 'SETTINGS LABELS STATEMENT SOURCE PROOF MEMORY TRACE_BACK USAGE ELAPSED_TIME DISCOURAGED'.split()
SET = 'WIDTH HEIGHT UNDO ECHO SCROLL DEBUG MEMORY_STATUS SEARCH_LIMIT UNIFICATION_TIMEOUT DISCOURAGEMENT CONTRIBUTOR ROOT_DIRECTORY EMPTY_SUBSTITUTION JEREMY_HENTY_FILTER'.split()
PROOFQ = ('ESSENTIAL ALL UNKNOWN FROM_STEP TO_STEP DEPTH REVERSE VERBOSE NORMAL PACKED COMPRESSED EXPLICIT FAST OLD_COMPRESSION STATEMENT_SUMMARY DETAILED_STEP TEX OLD_TEX HTML LEMMON START_COLUMN '
          'NO_REPEATED_STEPS RENUMBER SIZE').split()
NEWPQ = 'ESSENTIAL ALL UNKNOWN FROM_STEP TO_STEP DEPTH REVERSE VERBOSE NORMAL PACKED COMPRESSED EXPLICIT OLD_COMPRESSION NOT_UNIFIED TEX HTML LEMMON START_COLUMN NO_REPEATED_STEPS RENUMBER'.split()
HELP = ('LANGUAGE PROOF_ASSISTANT MM-PA BEEP EXIT QUIT READ ERASE OPEN CLOSE SHOW SEARCH SET VERIFY SUBMIT SYSTEM PROVE FILE WRITE MARKUP ASSIGN REPLACE MATCH UNIFY LET INITIALIZE DELETE IMPROVE '
        'MINIMIZE_WITH EXPAND UNDO REDO SAVE DEMO INVOKE CLI EXPLORE TEX LATEX HTML COMMENTS BIBLIOGRAPHY MORE TOOLS MIDI $').split()
STEPQ = '* What step number, or FIRST, or LAST <LAST>? '


class K:
    """a keyword, one of a list of alternatives"""
    def __init__(self, word, alts, default=None, ask=None):
        self.word, self.alts, self.default, self.ask = word, alts, default, ask

    def names(self):
        return ['nothing' if a == '$' else a for a in self.alts]

    def prompt(self):
        if self.ask:
            return self.ask
        a = self.names()
        if len(a) == 1:
            return None
        t = ' or '.join(a) if len(a) == 2 else ', '.join(a[:-1]) + ', or ' + a[-1]
        return t + (' <' + self.default + '>' if self.default else '') + '? '

    def expected(self):
        a = self.names()
        return '?Expected ' + (a[0] if len(a) == 1 else ' or '.join(a) if len(a) == 2 else ', '.join(a[:-1]) + ', or ' + a[-1]) + '.'

    def matches(self, p):
        p = p.upper()
        return [p] if p in self.alts else [a for a in self.alts if a.startswith(p)]

    def echo(self):
        return self.word


class S:
    """an arbitrary string; ask: the question, or a pattern for it"""
    def __init__(self, value, ask, default=None, file=False, full=None):
        self.value, self.ask, self.default, self.file, self.full = value, ask, default, file, full

    def prompt(self):
        return self.ask

    def echo(self):
        return self.full or self.value


class N:
    def __init__(self, value, ask, default):
        self.value, self.ask, self.default = str(value), ask, None if default is None else str(default)

    def prompt(self):
        return self.ask

    def echo(self):
        return self.value


class Cmd:
    """parts, then qualifiers [(parts)], of which many, one or none are possible"""
    def __init__(self, parts, ql=None, quals=(), qdef=None, many=True):
        self.parts, self.ql, self.quals, self.qdef, self.many = list(parts), ql, list(quals), qdef or (ql[0] if ql else None), many

    def flat(self):
        """all parts in order, with the separators"""
        out = list(self.parts)
        if self.ql:
            for q in self.quals:
                out.append(K('/', ['/', '$'], 'nothing'))
                out.append(K(q[0], self.ql, self.qdef))
                out += q[1:]
        return out


ASKS = {'UNIFICATION_TIMEOUT': 'What is maximum number of unification trials', 'SEARCH_LIMIT': 'What is search limit for IMPROVE command', 'UNDO': 'What is the maximum number of UNDOs',
        'HEIGHT': 'What is number of lines your screen displays', 'WIDTH': 'What is maximum line length on your screen'}
DASK = re.compile(r'What is the statement label( <\S+>)?\? ')
PASK = re.compile(r'What is the label of the statement you want to try proving( <\S+>)?\? ')


def pick(g, table):
    """a random choice of qualifiers from [(parts)] without repetition"""
    t = list(table)
    out = []
    while t and g.bool(0.45) and len(out) < 3:
        out.append(t.pop(g.draw(len(t))))
    return out


def wild(g, labels):
    l = g.choice(labels)
    return g.weighted([(l, 3), ('*', 2), (l[:g.int(0, len(l))] + '*', 2), (l + ',' + g.choice(labels), 1), (l + '~' + g.choice(labels), 1)])


def command(g, w, mode):
    """a command for the mode"""
    top = {'MM': TOP, 'MM-PA': TOPPA, 'TOOLS': TOPTOOLS}[mode]
    t = lambda x: K(x, top, 'HELP')
    if mode == 'TOOLS':
        f = lambda: S(g.choice(w.texts), 'Input/output file? ', file=True)
        s = lambda ask, d: S(g.choice(['a', 'e', 'one', ' ', 'x y', '/', '=', 'B', '!', '']) if d == '' else g.choice(['a', 'e', 'one', ' ', 'x y', '/', '=', 'B', '!']), ask, d)
        n = lambda ask, d: N(g.choice([1, 2, 3, 10]), ask, d)
        k = g.draw(14)
        if k == 0:
            return Cmd([t('ADD'), f(), s('String to add to beginning of each line <>? ', ''), s('String to add to end of each line <>? ', '')])
        if k == 1:
            return Cmd([t('DELETE'), f(), s('String from which to start deleting (CR = beginning of line) <>? ', ''), s('String at which to stop deleting (CR = end of line) <>? ', '')])
        if k == 2:
            return Cmd([t('CLEAN'), f(), S(g.choice(['B', 'E', 'R', 'B,E,R', 'T', 'C', 'Q', 'l', 'P,V']), 'Subcommand(s) (D,B,E,R,Q,T,U,P,G,C,L,V) <B,E,R>? ', 'B,E,R')])
        if k == 3:
            return Cmd([t('SWAP'), f(), s('Character string to match between the halves to be swapped? ', None)])
        if k == 4:
            return Cmd([t(g.choice(['SUBSTITUTE', 'S'])), f(), s('String to replace? ', None), s('Replace it with <>? ', ''),
                        S(g.choice(['1', '2', 'ALL', 'EACH', 'a', 'e']), 'Which occurrence in the line (1,2,... or ALL or EACH) <1>? ', '1', full='a'), s('Additional match required on line (null = match all) <>? ', '')])
        if k == 5:
            return Cmd([t('INSERT'), f(), S(g.choice(['!', 'x', ' / ']), 'String to insert in each line <!>? ', '!'), n('Column at which to insert the string <1>? ', 1)])
        if k == 6:
            return Cmd([t('BREAK'), f(), S(g.choice(['()[],=:;{}', ' ', 'e', '/']), 'Special characters to use as token delimiters <()[],=:;{}>? ', '()[],=:;{}')])
        if k == 7:
            return Cmd([t('MATCH'), f(), s('String to match on each line (null = any non-blank line) <>? ', ''), S(g.choice(['Y', 'N', 'y']), 'Output those lines containing the string (Y) or those not (N) <Y>? ', 'Y')])
        if k == 8:
            return Cmd([t('SORT'), f(), s('String to start key on each line (null string = column 1) <>? ', '')])
        if k == 9:
            return Cmd([t(g.choice(['UNDUPLICATE', 'DUPLICATE', 'UNIQUE', 'REVERSE', 'BUILD', 'RIGHT'])), f()])
        if k == 10:
            return Cmd([t('COUNT'), S(g.choice(w.texts), 'Input file? ', file=True), S(g.choice([';', 'e', 'one', '/']), 'String to count <;>? ', ';')])
        if k == 11:
            return Cmd([t(g.choice(['COPY', 'C'])), S(','.join(g.choice(w.texts) for _ in range(g.int(1, 3))), 'Comma-separated list of input files? '), S(g.choice(w.texts + ['new.txt']), 'Output file? ')])
        if k == 12:
            return Cmd([t('NUMBER'), S(g.choice(['n.tmp', 'nu.txt']), 'Output file <n.tmp>? ', 'n.tmp'), n('First number <1>? ', 1), n('Last number <10>? ', 10), n('Increment <1>? ', 1)])
        return Cmd([t(g.choice(['TYPE', 'T'])), S(g.choice(w.texts), 'File to display on the screen? ', file=True), S(g.choice(['1', '2', '10', 'ALL']), None)])
    def lab(ls=None):
        v = g.choice(ls or w.proofs + w.labels)
        if not w.shown:
            return S(v, DASK)
        if g.bool(0.4) and w.shown in (ls or w.labels):
            v = w.shown
        return S(v, f'What is the statement label <{w.shown}>? ', w.shown)
    labp = lambda: lab(w.proofs)
    st = lambda: S(g.choice(['FIRST', 'LAST', 'f', 'LaST', 'l', '1', '2', '4', '-1', '+1']), STEPQ[2:], 'LAST')
    if mode == 'MM-PA' and g.bool(0.65):
        k = g.draw(12)
        if k < 3:
            return Cmd([t('SHOW'), K('NEW_PROOF', ['NEW_PROOF'] + SHOW, 'SETTINGS')], NEWPQ,
                       pick(g, [('ESSENTIAL',), ('ALL',), ('UNKNOWN',), ('LEMMON',), ('RENUMBER',), ('DEPTH', N(g.int(1, 4), 'How many indentation levels <999>? ', 999)), ('NORMAL',), ('NOT_UNIFIED',)]))
        if k == 3:
            return Cmd([t('IMPROVE'), S(g.choice(['ALL', 'all', 'a', 'FIRST', 'LAST', 'l', '2']), 'What step number, or FIRST, or LAST, or ALL <ALL>? ', 'ALL')], ['DEPTH', 'NO_DISTINCT', '1', '2', '3', 'SUBPROOFS', 'OVERRIDE', 'INCLUDE_MATHBOXES'],
                       pick(g, [('NO_DISTINCT',), ('1',), ('2',), ('INCLUDE_MATHBOXES',), ('DEPTH', N(g.int(0, 2), 'What is maximum depth for searching statements with $e hypotheses <0>? ', 0))]), 'DEPTH')
        if k == 4:
            return Cmd([t('ASSIGN'), st(), S(g.choice(w.labels), 'With what statement label? ')], ['NO_UNIFY', 'OVERRIDE'], pick(g, [('NO_UNIFY',)]))
        if k == 5:
            return Cmd([t('UNIFY'), K('ALL', ['STEP', 'ALL'], 'ALL')], ['INTERACTIVE'], [], many=False)
        if k == 6:
            return Cmd([t('INITIALIZE'), K('ALL', ['STEP', 'ALL', 'USER'], 'ALL')])
        if k == 7:
            return Cmd([t('DELETE'), K('ALL', ['STEP', 'ALL', 'FLOATING_HYPOTHESES'], 'STEP')])
        if k == 8:
            return Cmd([t('DELETE'), K('STEP', ['STEP', 'ALL', 'FLOATING_HYPOTHESES'], 'STEP'), N(g.int(1, 9), 'What step number? ', None)])
        if k == 9:
            return Cmd([t(g.choice(['UNDO', 'REDO']))])
        if k == 10:
            return Cmd([t('DELETE'), K('FLOATING_HYPOTHESES', ['STEP', 'ALL', 'FLOATING_HYPOTHESES'], 'STEP')])
        return Cmd([t('SAVE'), K('NEW_PROOF', ['NEW_PROOF', 'PROOF'], 'NEW_PROOF')], ['NORMAL', 'PACKED', 'COMPRESSED', 'EXPLICIT', 'OLD_COMPRESSION', 'OVERRIDE'], pick(g, [('COMPRESSED',), ('NORMAL',), ('PACKED',)]))
    sh = lambda x: K(x, (['NEW_PROOF'] if mode == 'MM-PA' else []) + SHOW, 'SETTINGS')
    k = g.draw(22)
    if k < 2:
        return Cmd([t('SHOW'), sh('LABELS'), S(wild(g, w.labels), 'What are the labels to match (* = wildcard) <*>?', '*')], ['ALL', 'LINEAR'], pick(g, [('ALL',), ('LINEAR',)]))
    if k < 4:
        return Cmd([t('SHOW'), sh('STATEMENT'), lab()], 'FULL COMMENT TEX OLD_TEX HTML ALT_HTML TIME BRIEF_HTML BRIEF_ALT_HTML MNEMONICS NO_VERSIONING'.split(), pick(g, [('FULL',), ('COMMENT',)]))
    if k == 4:
        return Cmd([t('SHOW'), sh('SOURCE'), lab()])
    if k < 8:
        return Cmd([t('SHOW'), sh('PROOF'), labp()], PROOFQ,
                   pick(g, [('ALL',), ('LEMMON',), ('RENUMBER',), ('REVERSE',), ('FROM_STEP', N(g.int(1, 9), 'From what step <1>? ', 1)), ('TO_STEP', N(g.choice([1, 5, 9999]), 'To what step <9999>? ', 9999)), ('SIZE',),
                            ('DEPTH', N(g.choice([1, 2, 999]), 'How many indentation levels <999>? ', 999)), ('DETAILED_STEP', N(g.int(1, 3), 'Display details of what step <1>? ', 1)), ('EXPLICIT',), ('NORMAL',), ('COMPRESSED',)]))
    if k == 8:
        return Cmd([t('SHOW'), sh('TRACE_BACK'), labp()], 'ALL ESSENTIAL AXIOMS TREE DEPTH COUNT_STEPS MATCH TO'.split(),
                   pick(g, [('ALL',), ('ESSENTIAL',), ('AXIOMS',), ('COUNT_STEPS',), ('TREE',), ('MATCH', S(wild(g, w.labels), 'What statement label? ')), ('TO', S(g.choice(w.labels), 'What statement label? '))]))
    if k == 9:
        return Cmd([t('SHOW'), sh('USAGE'), lab()], ['DIRECT', 'RECURSIVE', 'ALL'], pick(g, [('ALL',), ('RECURSIVE',), ('DIRECT',)]))
    if k == 10:
        return Cmd([t('SHOW'), sh('DISCOURAGED')])
    if k < 13:
        m = g.choice(w.maths).split()
        i = g.draw(len(m))
        q = ' '.join(m[i:i + g.int(1, 4)])
        if "'" in q and '"' in q:
            q = '$*'
        if q[0] in '\'"' and g.bool(0.7):
            q = '$* ' + q
        return Cmd([t('SEARCH'), S(wild(g, w.labels), 'What are the labels to match (* = wildcard) <*>?', '*'), S(q, 'Search for what math symbol string? ')], ['ALL', 'COMMENTS', 'JOIN'], pick(g, [('ALL',), ('COMMENTS',), ('JOIN',)]))
    if k == 13:
        return Cmd([t('FILE'), K('SEARCH', ['SEARCH']), S(g.choice(w.texts), 'What is the name of the file to search? ', file=True), S(g.choice(['e', 'one', 'five five', '/', '=']), 'What is the string to search for? ')],
                   ['FROM_LINE', 'TO_LINE'], pick(g, [('FROM_LINE', N(g.int(1, 4), 'From what line number <1>? ', 1)), ('TO_LINE', N(g.choice([2, 4, 999999]), 'To what line number <999999>? ', 999999))]), 'TO_LINE')
    if k < 16:
        return Cmd([t('VERIFY'), K('PROOF', ['PROOF', 'MARKUP'], 'PROOF'), S(wild(g, w.labels), 'What are the labels to match (* = wildcard) <*>?', '*')], ['SYNTAX_ONLY'], pick(g, [('SYNTAX_ONLY',)]), many=False)
    if k == 16:
        x = g.choice(list(ASKS))
        v = 9999 if x == 'WIDTH' else w.cur[x] if x in w.cur and g.bool(0.3) else g.choice([20, 50, 100])
        d = w.cur.get(x)
        w.cur[x] = v
        return Cmd([t('SET'), K(x, SET, 'WIDTH'), N(v, ASKS[x] + f' <{d}>? ' if d else re.compile(ASKS[x] + r' <\d+>\? '), d)])
    if k == 17:
        x = g.choice(['EMPTY_SUBSTITUTION', 'JEREMY_HENTY_FILTER', 'DISCOURAGEMENT'])
        return Cmd([t('SET'), K(x, SET, 'WIDTH'), K(g.choice(['ON', 'OFF']), ['ON', 'OFF'], ask=re.compile('ON or OFF <(ON|OFF)>\\? '))])
    if k == 18:
        return Cmd([t('WRITE'), K('SOURCE', ['SOURCE', 'THEOREM_LIST', 'BIBLIOGRAPHY', 'RECENT_ADDITIONS'], 'SOURCE'), S(g.choice(['o.mm', 'd/o.mm']), re.compile(r'What is the name of the source output file <\S+>\? '))],
                   'FORMAT REWRAP SPLIT NO_VERSIONING KEEP_INCLUDES EXTRACT'.split(), pick(g, [('FORMAT',), ('REWRAP',), ('NO_VERSIONING',)]), 'REWRAP')
    if k == 19:
        return Cmd([t('HELP'), K(g.choice(['LANGUAGE', 'READ', 'SUBMIT', 'MORE', 'CLI', 'UNDO']), HELP, 'nothing')])
    if k == 20:
        return Cmd([t('SAVE'), K('PROOF', (['NEW_PROOF'] if mode == 'MM-PA' else []) + ['PROOF'], 'NEW_PROOF' if mode == 'MM-PA' else 'PROOF'), labp()],
                   'NORMAL PACKED COMPRESSED EXPLICIT FAST OLD_COMPRESSION TIME'.split(), pick(g, [('COMPRESSED',), ('NORMAL',), ('FAST',)]))
    return Cmd([t('SHOW'), sh('DISCOURAGED')])


def untimed(t):
    return re.sub(r'(?<= in )\d+\.\d\d(?= s\.)', 'T', t)


class World:
    pass


def session(g, w):
    """[(mode, Cmd)]: a list of commands that keeps to the modes"""
    t = lambda x, m='MM': K(x, {'MM': TOP, 'MM-PA': TOPPA, 'TOOLS': TOPTOOLS}[m], 'HELP')
    out = [('MM', Cmd([t('READ'), S(w.db, 'What is the name of the source input file? ', file=True)], ['VERIFY'], [('VERIFY',)] if g.bool(0.2) else [], many=False))]
    mode = 'MM'
    stack = []
    for _ in range(g.int(2, 9)):
        k = g.draw(10)
        if mode == 'MM' and k == 0 and w.proofs:
            out.append((mode, Cmd([t('PROVE'), S(g.choice(w.proofs), PASK)], ['OVERRIDE'], [], many=False)))
            stack.append(mode)
            mode = 'MM-PA'
        elif mode != 'TOOLS' and k == 1:
            out.append((mode, Cmd([t('TOOLS', mode)])))
            stack.append(mode)
            mode = 'TOOLS'
        elif stack and k == 2:
            out.append((mode, leave(mode)))
            mode = stack.pop()
        else:
            c = command(g, w, mode)
            if c.parts[0].word == 'SHOW' and c.parts[1].word in ('STATEMENT', 'SOURCE'):
                w.shown = c.parts[2].value
            elif c.parts[0].word in ('SHOW', 'SAVE') and c.parts[1].word not in ('LABELS', 'DISCOURAGED', 'NEW_PROOF') and c.parts[2].value != w.shown:
                w.shown = None
            out.append((mode, c))
    while stack:
        out.append((mode, leave(mode)))
        mode = stack.pop()
    return out


def leave(mode):
    if mode == 'TOOLS':
        return Cmd([K('EXIT', TOPTOOLS, 'HELP')])
    return Cmd([K('_EXIT_PA', TOPPA, 'HELP')], ['FORCE'], [('FORCE',)], many=False)


# ---------------------------------------------------------------- rendering

SPECIAL = re.compile(r'[\s/=\'"]')


def quoted(g, v, tools):
    need = not v or re.search(r'[\s\'"]' if tools else r'[\s\'"/=]', v)
    if not need and (g is None or g.bool(0.6)):
        return v
    q = "'" if '"' in v else '"' if "'" in v or g is None else g.choice('"\'')
    return q + v + q


def token(g, p, tools):
    """p as one token of a command line; canonical without g"""
    if isinstance(p, K):
        if g is None or p.word == '/':
            return p.word
        c = [p.word[:i] for i in range(1, len(p.word) + 1)]
        c = [x for x in c if p.matches(x) == [p.word]]
        x = g.choice(c) if g.bool(0.8) else p.word
        return x if g.bool(0.3) else x.lower() if g.bool(0.6) else ''.join(ch.lower() if g.bool() else ch for ch in x)
    if isinstance(p, N):
        return p.value if g is None or g.bool(0.8) else '0' * g.int(1, 2) + p.value
    return quoted(g, p.value, tools)


def line_of(g, toks, tools):
    """joined with white space; returns (line, positions)"""
    out = ''
    pos = []
    if g is not None and g.bool(0.15):
        out = g.choice([' ', '  ', '\t'])
    for i, t in enumerate(toks):
        if i:
            tight = not tools and (t == '/' or toks[i - 1] == '/') or t[:1] in ('"', "'") or toks[i - 1][-1:] in ('"', "'")
            # a closing quote that directly follows an opening one of the same kind is another token; keep blanks elsewhere
            if g is None:
                out += ' '
            elif not (tight and g.bool(0.5)):
                out += g.choice([' ', ' ', '  ', '\t', ' \t '])
        pos.append(len(out))
        out += t
    if g is not None and g.bool(0.15):
        out += g.choice([' ', '\t', '  '])
    return out, pos


def answer(g, p):
    if isinstance(p, K):
        if p.default == p.word and g.bool(0.6):
            return ''
        return token(g, p, False)
    if p.default is not None and p.echo() == p.default and g.bool(0.7):
        return ''
    return p.value if isinstance(p, S) else token(g, p, False)


def entry(g, c, tools):
    """lines to type and questions asked before all but the first line"""
    ps = c.flat()
    n = len(ps)
    if g.bool(0.25):
        # the last arguments are left out; the program asks for them
        cut = g.int(1, n - 1) if n > 1 else 1
        if not all(p.prompt() is not None for p in ps[cut:] if not (isinstance(p, K) and len(p.alts) == 1)):
            cut = n
        if cut < n and isinstance(ps[cut], K) and (ps[cut].word == '/' or '$' in ps[cut].alts):
            cut = n     # nothing is missing
        first, rest = ps[:cut], ps[cut:]
        if rest and (not tools or c.ql is None):
            ln, _ = line_of(g, [token(g, p, tools) for p in first], tools)
            lines, asks = [ln], []
            for p in rest:
                if isinstance(p, K) and len(p.alts) == 1:
                    continue
                asks.append(p.prompt())
                lines.append(answer(g, p))
            if c.ql and not (not c.many and c.quals):
                asks.append(K('/', ['/', '$'], 'nothing').prompt())
                lines.append(g.choice(['', 'nothing']))
            return lines, asks
    ln, _ = line_of(g, [token(g, p, tools) for p in ps], tools)
    return [ln], []


def wrong(g, c, tools, mode):
    """a damaged command line and the message it must give; None if there is none"""
    ps = c.flat()
    toks = [token(g, p, tools) for p in ps]
    at = g.draw(len(ps))
    p = ps[at]
    if isinstance(p, K) and g.bool(0.6):
        if at >= len(c.parts) and p.word == '/':
            return None
        if g.bool():
            c2 = [p.word[:i] for i in range(1, len(p.word))]
            c2 = [x for x in c2 if len(p.matches(x)) > 1]
            if not c2:
                return None
            x = g.choice(c2)
            x = x.lower() if g.bool() else x
            m = p.matches(x)
            msg = '?Ambiguous keyword - please specify ' + (' or '.join(m) if len(m) == 2 else ', '.join(m[:-1]) + ', or ' + m[-1]) + '.'
        else:
            x = p.word + g.choice(['x', '1', '*', '_']) if g.bool() else g.choice(['zz', '?', 'zzz', '~', '.'])
            if p.matches(x):
                return None
            msg = p.expected()
        toks = toks[:at] + [x] + (toks[at + 1:] if g.bool(0.7) else [])
    elif isinstance(p, N) and g.bool(0.7):
        x = g.choice(['x', '1x', '1e5', '+2', '2-'])
        msg = '?A number was expected here.'
        toks = toks[:at] + [x] + (toks[at + 1:] if g.bool(0.7) else [])
    elif isinstance(p, S) and p.file and g.bool(0.7):
        x = g.choice(['nosuch.mm', 'q.txt', 'd2'])
        msg = f'?Sorry, couldn\'t open the file "{x}".'
        toks = toks[:at] + [x] + (toks[at + 1:] if g.bool(0.7) else [])
    else:
        # a superfluous word
        if c.ql:
            if not c.many and c.quals:
                x, msg = 'extra', None
            else:
                x, msg = 'extra', '?Expected / or nothing.'
        else:
            x, msg = 'extra', None
        if msg is None:
            msg = '?Too many arguments.  Use quotes around arguments with special characters and around Unix file names with "/"s.'
        at = len(toks)
        toks = toks + [x]
    if c.parts[0].word == 'HELP' and at:
        return None
    ln, pos = line_of(g, toks, tools)
    full = mode + '> ' + ln[:pos[at]]
    return ln, ''.join('\t' if ch == '\t' else ' ' for ch in full) + '^' * len(toks[at]) + '\n' + msg + '\n'


# ---------------------------------------------------------------- transcript

PRE = ['set scroll continuous', 'set width 9999']


def database(g):
    o = mmgen.Opts(compressed=g.choice([0, 0.5, 1]), nctor=(1, 3), nax=(1, 3), nthm=(1, 4), depth=2, types=(1, 2))
    d = mmgen.Gendb(g, o)
    its = list(d.items)
    for i, it in enumerate(its):
        if it[0] == 'p' and g.bool(0.15):
            its[i] = ('p', it[1], it[2], ['?'])
    d.items = its
    return d


TXT = ['one  two\tthree\n\nfour = a / b\nfive five\n one\n', 'e\na;b\nx y\n one two three\n']


def setup(d, t, w):
    os.makedirs(os.path.join(d, 'd'), exist_ok=True)
    for n, x in [(w.db, t)] + list(zip(w.texts, TXT)):
        with open(os.path.join(d, n), 'wb') as f:
            f.write(x.encode('latin-1'))


def follow(text, chunks, what, extra=''):
    """text must consist of the chunks (strings and patterns) in order"""
    p = 0
    for i, c in enumerate(chunks):
        if isinstance(c, str):
            if not text.startswith(c, p):
                raise Violation('transcript', f'{what}: at offset {p} expected\n{c[:1500]!r}\nfound\n{text[p:p + len(c) + 300][:1800]!r}\nbefore: {text[max(0, p - 300):p]!r}{extra}')
            p += len(c)
        else:
            m = c.match(text, p)
            if not m:
                raise Violation('transcript', f'{what}: at offset {p} expected a match of {c.pattern!r}, found\n{text[p:p + 600]!r}\nbefore: {text[max(0, p - 300):p]!r}{extra}')
            p = m.end()
    if p != len(text):
        raise Violation('transcript', f'{what}: more output: {text[p:p + 1200]!r}{extra}')


def prop(g, ctx):
    db = database(g)
    t = mmgen.emit(db.items, g, g.choice(['plain', 'plain', 'wild']))
    w = World()
    w.labels = [it[1] for it in db.items if it[0] in 'feap']
    w.proofs = [it[1] for it in db.items if it[0] == 'p'] or w.labels
    w.maths = [' '.join(it[2]) for it in db.items if it[0] in 'feap']
    w.cur = {'WIDTH': 9999}
    w.shown = None
    w.db = g.choice(['t.mm', 't.mm', 'd/t.mm'])
    w.texts = ['a.txt', g.choice(['b.txt', 'd/b.txt'])]
    cmds = session(g, w)
    exe = ctx.env['plain']
    d0, d1, d2 = (os.path.join(ctx.dir, x) for x in ('v0', 'v1', 'v2'))
    for d in (d0, d1, d2):
        setup(d, t, w)
    canon = [line_of(None, [token(None, p, m == 'TOOLS') for p in c.flat()], m == 'TOOLS')[0] for m, c in cmds]
    # a TYPE command shows what is in the way of "ALL" etc.; no other entry of it than on one line
    o = mm.run(exe, (), '\n'.join(PRE + canon + ['exit / force']) + '\n', d0)
    mm.health(o, '; '.join(canon)[:1500])
    parts = mm.split(untimed(o.out))
    base = [x for _, x in parts[len(PRE):]]
    modes = [m for m, _ in parts[len(PRE):]]
    if len(base) != len(cmds) + 1 or modes[:-1] != [m for m, _ in cmds] or any(re.search(r'Accept \(A\)|What statement to select|Do you want to EXIT anyway \(Y, N\) <N>\? (?!Y\n)', x) for x in base):
        ctx.show('\n'.join(canon) + '\n-----\n' + o.out[-3000:])
        raise Discard('questions')
    final = snap(d0)
    # ---- the same commands, entered in another way
    steps = []      # [lines, asks, mode, output or None for output of a wrong command, message]
    for i, (m, c) in enumerate(cmds):
        tools = m == 'TOOLS'
        while g.bool(0.12):
            r = wrong(g, g.choice([x for mm_, x in cmds if mm_ == m]) if g.bool(0.3) and i else c, tools, m) if not (i == 0 and False) else None
            if r and not (i == 0 and c is not cmds[0][1]):
                steps.append(([r[0]], [], m, r[1]))
                ctx.count('wrong commands')
        while g.bool(0.08):
            steps.append((['!' + g.choice(['', ' a comment', 'show labels *', " it's", ' exit'])], [], m, ''))
            ctx.count('comment lines')
        ls, asks = entry(g, c, tools)
        if asks:
            ctx.count('asked')
        steps.append((ls, asks, m, base[i]))
    way = g.weighted([('stdin', 3), ('submit', 4), ('args', 2)])
    echo = g.bool(0.3) and way == 'stdin'
    log = g.bool(0.3) and not echo
    lo = hi = 0
    ops = []        # transcript operations
    argv = []
    stdin = []
    scr = []        # on the screen
    lg = []         # in the log
    logging = False

    def put(x, silent=False, lonly=False):
        if x == '':
            return
        if not silent and not lonly:
            scr.append(x)
        if logging:
            lg.append(x)
    n = len(steps)
    if way == 'submit':
        lo = g.int(0, n)
        hi = g.int(lo, n)
        ilo = g.int(lo, hi)
        ihi = g.int(ilo, hi)
        nest = g.bool(0.4)
        silent = g.bool(0.25)
        insil = nest and g.bool(0.3)
        ctx.count('submit')
        if silent or insil:
            ctx.count('silent')
    nargs = g.int(1, n) if way == 'args' else 0
    logat = g.int(0, n) if log else -1
    logend = g.int(logat, n) if log else -1
    if way == 'submit' and log:
        logat = g.int(0, lo)
        logend = g.int(hi, n)
    if way == 'args':
        argv = list(PRE)
        for x in PRE:
            scr.append('MM> ' + x + '\n')
            scr.append(re.compile(r'[^\n]*\n'))
    else:
        stdin = list(PRE)
    files = {}
    level = 0
    sil = [False, False, False]
    kinds = [None, 'x.cmd', 'y.cmd']

    def feed(line, prompt, is_arg=False):
        """one line reaches the program at the prompt"""
        if level:
            files[kinds[level]].append(line)
            put(prompt + line + '\n' if isinstance(prompt, str) else re.compile(prompt.pattern + re.escape(line) + '\n'), sil[level])
        elif is_arg:
            argv.append(line)
            put(prompt + line + '\n')
        else:
            stdin.append(line)
            scr.append(prompt)
            if logging:
                lg.append(prompt + line + '\n' if isinstance(prompt, str) else re.compile(prompt.pattern + re.escape(line) + '\n'))

    def mode_at(i):
        return steps[i][2] if i < n else 'MM'
    used = 0
    for i in range(n + 1):
        m = mode_at(i)
        pr = m + '> '
        if i == logat:
            if m == 'TOOLS':
                log = False
                logat = -1
            else:
                feed(g.choice(['open log l.txt', 'op lo l.txt', 'OPEN LOG "l.txt"']), pr, way == 'args' and used < nargs)
                logging = True
                put(re.compile(r'The log file "l\.txt" was opened [^\n]*\n'))
                ctx.count('log')
        if way == 'submit':
            # ends of files before beginnings
            if level == 2 and i == ihi:
                put(pr + '[End of command file "y.cmd".]\n', sil[2])
                level = 1
            if level == 1 and i == hi and (not nest or i >= ihi) and not (nest and i == ilo and 'y.cmd' not in files):
                put(pr + '[End of command file "x.cmd".]\n', sil[1])
                level = 0
            if i == lo and 'x.cmd' not in files:
                feed('submit x.cmd' + (' / silent' if silent else ''), pr)
                files['x.cmd'] = []
                sil[1] = silent
                level = 1
                put('Taking command lines from file "x.cmd"...\n', silent) if not silent else None
            if level == 1 and nest and i == ilo and 'y.cmd' not in files:
                feed('SUBMIT y.cmd' + (' / SILENT' if insil else ''), pr)
                files['y.cmd'] = []
                sil[2] = insil or silent
                level = 2
                put('Taking command lines from file "y.cmd"...\n', sil[2]) if not sil[2] else None
                if i == ihi:
                    put(pr + '[End of command file "y.cmd".]\n', sil[2])
                    level = 1
            if level == 1 and i == hi and (not nest or 'y.cmd' in files):
                put(pr + '[End of command file "x.cmd".]\n', sil[1])
                level = 0
        if log and i == logend and logging and level == 0:
            if m == 'TOOLS':
                logend += 1
            else:
                feed('close log', pr, way == 'args' and used < nargs)
                put(re.compile(r'The log file "l\.txt" was closed [^\n]*\n'))
                logging = False
        if i == n:
            break
        ls, asks, m, out = steps[i]
        arg = way == 'args' and used < nargs
        used += 1
        feed(ls[0], pr, arg)
        for q, a in zip(asks, ls[1:]):
            if level:
                files[kinds[level]].append(a)
                put(q + a + '\n' if isinstance(q, str) else re.compile(q.pattern + re.escape(a) + '\n'), sil[level])
            else:
                stdin.append(a)
                scr.append(q)
                if logging:
                    lg.append(q + a + '\n' if isinstance(q, str) else re.compile(q.pattern + re.escape(a) + '\n'))
        put(out, sil[level])
    if logging:
        log = False
    if way == 'args' and len(argv) == 1:
        way = 'stdin'
    stdin.append('exit / force')
    scr.append('MM> ')
    scr.append(base[-1])
    for x, ls in files.items():
        crlf = g.bool(0.15)
        body = '\n'.join(ls) + ('\n' if ls and (ls[-1] == '' or g.bool(0.85)) else '')
        with open(os.path.join(d1, x), 'wb') as f:
            f.write((body.replace('\n', '\r\n') if crlf else body).encode('latin-1'))
    if echo:
        stdin.insert(len(PRE), 'set echo on')
    ctx.key(t, canon, argv, stdin, files)
    ctx.show('\n'.join(canon) + '\n----- as: ' + repr(argv) + '\n' + '\n'.join(stdin) + ''.join(f'\n----- {k}\n' + '\n'.join(v) for k, v in files.items()) + '\n----- ' + w.db + '\n' + t)
    o = mm.run(exe, argv, '\n'.join(stdin) + '\n', d1)
    what = 'entered another way'
    mm.health(o, what)
    text = untimed(o.out)
    if way != 'args':
        m = re.match(r'(?s).*?MM> .*?MM> [^\n]*\n', text)
        head = m.end() if m else 0
    else:
        m = re.search(r'MM> set scroll continuous\n', text)
        head = m.start() if m else 0
    if not m:
        raise Violation('transcript', f'no prompts: {text[:600]!r}')
    body = text[head:]
    if echo:
        # every command is shown in full before it is executed
        m = re.match(r'MM> (!SET ECHO ON\n)?[^\n]*\n', body)
        body = body[m.end():]
        full = []
        chunks = []
        k = 0
        for ls, asks, md, out in steps:
            chunks.append(md + '> ')
            chunks += asks
            if not ls[0].strip().startswith('!') and not any(out is x for x in base):
                pass
            chunks.append(('E', out))
        body = check_echo(body, steps, cmds, base, full)
        follow(body, ['MM> ', re.compile(r'!EXIT / FORCE\n'), base[-1]], what)
        ctx.count('echo')
        # the echoed commands, taken as commands, do the same
        o2 = mm.run(exe, (), '\n'.join(PRE + full + ['exit / force']) + '\n', d2)
        mm.health(o2, 'echoed commands')
        p2 = mm.split(untimed(o2.out))[len(PRE):]
        if len(p2) != len(base):
            raise Violation('echo', f'the echoed commands\n{chr(10).join(full)}\nask questions or are not accepted: {o2.out[-1500:]!r}')
        for i, (a, b) in enumerate(zip(base, p2)):
            if b[1] != a:
                raise Violation('echo', f'{canon[i] if i < len(canon) else "exit"!r} is echoed as {full[i] if i < len(full) else ""!r}, which gives\n{b[1][:1500]!r}\ninstead of\n{a[:1500]!r}')
        if snap(d2) != final:
            raise Violation('files', 'the echoed commands give other files: ' + diff(final, snap(d2)))
    else:
        follow(body, scr, what)
    got = snap(d1)
    logtext = got.pop('l.txt', None)
    for x in files:
        got.pop(x, None)
    if got != final:
        raise Violation('files', 'other files: ' + diff(final, got))
    if log:
        if logtext is None:
            raise Violation('log', 'no log file')
        follow(untimed(logtext), lg, 'log file')
    elif logtext is not None and not logging:
        raise Violation('log', 'a log file')
    if g.bool(0.1):
        # a program argument that is a file name
        n = g.choice([w.db, './' + w.db])
        a = mm.run(exe, (n,), '', d2)
        b = mm.run(exe, (), 'read "' + n + '"\n', d2)
        mm.health(a, 'metamath ' + n)
        x, y = mm.split(a.out), mm.split(b.out)
        if [p for _, p in x[1:]] != [p for _, p in y[1:]] or len(x) != len(y) or x[0][1].split('\n', 1)[1] != y[0][1] or not re.match(r'(?i)read ', x[0][1]):
            raise Violation('invocation', f'metamath {n} shows\n{a.out[:1500]}\ninstead of\n{b.out[:1500]}')
        ctx.count('invoked with a file name')
    ctx.count(way)
    ctx.count('commands', len(cmds))
    ctx.nontrivial(len(cmds) > 2)


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f'{k}: {a.get(k)!r:.800} before, {b.get(k)!r:.800} now'
    return ''


def parse_line(s, tools):
    """tokens of a command line as documented"""
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c in ' \t':
            i += 1
        elif c in '\'"':
            j = s.find(c, i + 1)
            j = len(s) if j < 0 else j
            out.append((s[i + 1:j], True))
            i = j + 1
        elif not tools and c in '/=':
            out.append((c, False))
            i += 1
        else:
            j = i
            while j < len(s) and s[j] not in ' \t\'"' and (tools or s[j] not in '/='):
                j += 1
            out.append((s[i:j], False))
            i = j
    return out


def check_echo(body, steps, cmds, base, full):
    p = 0
    k = 0
    for ls, asks, md, out in steps:
        pre = [md + '> '] + asks
        for c in pre:
            if isinstance(c, str):
                if not body.startswith(c, p):
                    raise Violation('transcript', f'with ECHO: at {p} expected {c!r}, found {body[p:p + 300]!r}')
                p += len(c)
            else:
                m = c.match(body, p)
                if not m:
                    raise Violation('transcript', f'with ECHO: at {p} expected {c.pattern!r}, found {body[p:p + 300]!r}')
                p = m.end()
        if k < len(base) and out is base[k] and not ls[0].startswith('!'):
            e = body.find('\n', p)
            ln = body[p:e]
            if not ln.startswith('!'):
                raise Violation('echo', f'{ls!r} is not echoed: {body[p:p + 300]!r}')
            full.append(ln[1:])
            p = e + 1
            want = [x.echo() for x in cmds[k][1].flat()]
            got = [x for x, _ in parse_line(ln[1:], md == 'TOOLS')]
            if len(got) != len(want) or any(isinstance(x, K) and a != b for x, a, b in zip(cmds[k][1].flat(), got, want)):
                raise Violation('echo', f'{ls!r} ({want!r}) is echoed as {ln!r}')
            k += 1
        if not body.startswith(out, p):
            raise Violation('transcript', f'with ECHO: {ls!r}: expected {out[:800]!r}, found {body[p:p + len(out) + 200][:1000]!r}')
        p += len(out)
    return body[p:]


CHECK = Check('C27', prop, quick=2500, thorough=150000, builds=('plain',),
              rule='random sessions (general commands, Proof Assistant, text tools) on random databases, entered in full and again abbreviated, in other case, with other white space and quotes, with arguments asked for, between wrong commands '
                   'and comment lines, from (nested, silent) command files, as program arguments, with a log file, or echoed and entered again; non-trivial = more than two commands; distinct by database and both ways of entry')

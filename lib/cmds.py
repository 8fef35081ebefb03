"""Random command lines for the whole command language."""

NUMS = ['1', '2', '3', '5', '0', '10', '79', '-1', '-2', '1000', '99999', '999999999', '2147483648', '9223372036854775807', '99999999999999999999', '1.5', 'x', "''", '1e3', '00']


class World:
    """what the commands can refer to"""

    def __init__(self, labels, maths, files, html=False):
        self.labels = labels
        self.maths = maths
        self.files = files
        self.html = html


def lab(g, w):
    k = g.draw(20)
    if k < 13 and w.labels:
        return g.choice(w.labels)
    if k == 13:
        return '*'
    if k == 14 and w.labels:
        l = g.choice(w.labels)
        i = g.draw(len(l) + 1)
        return l[:i] + g.choice(['*', '?', '**', '~']) + l[i:]
    if k == 15 and w.labels:
        return g.choice(w.labels) + g.choice(['~', ',', "','"]) + g.choice(w.labels)
    if k == 16:
        return g.choice(['%', "'='", '@1', '#1', '@9999', '#0', '@-1', '@x', '~', ',', '*,*', '~~', '#1~#3', '@1~@2'])
    if k == 17:
        return g.choice(['nosuch', "''", '""', '?', '$t', '$', '(', 'x' * 300, "' '", '"a b"', '-', '%,*'])
    return '*' if g.bool() or not w.labels else g.choice(w.labels)


def num(g, w=None):
    return g.choice(NUMS) if g.bool(0.35) else str(g.int(0, 30))


def step(g, w=None):
    return g.weighted([(str(g.int(0, 20)), 8), ('first', 2), ('last', 3), ('all', 1), ('+1', 1), ('-1', 1), ('-0', 1), (g.choice(NUMS), 1)])


def math(g, w):
    k = g.draw(8)
    m = g.choice(w.maths) if w.maths else 'x'
    if k == 0:
        return "''"
    if k == 1:
        t = m.split()
        m = ' '.join(g.choice(t + ['$1', '$2', '$?', '?', '$*', '*', 'nosuch']) for _ in range(g.int(1, 6))) if t else '$1'
    elif k == 2:
        m = g.choice(['$1', '$2', '$9', '$', '$*', '??', '$$', '$0', '$1x', '$99999999999'])
    m = m.replace("'", '')
    return "'" + m.replace('/', '|') + "'" if '/' in m and g.bool(0.9) else "'" + m + "'"


def fname(g, w):
    return g.choice(w.files)


# (command words, argument kinds, qualifiers with the kinds of their arguments)
NUMQ = [('from_step', 'n'), ('to_step', 'n'), ('depth', 'n'), ('start_column', 'n')]
PROOFQ = [(x, '') for x in ('essential', 'all', 'unknown', 'reverse', 'verbose', 'normal', 'packed', 'compressed', 'explicit', 'fast', 'old_compression',
                            'statement_summary', 'lemmon', 'no_repeated_steps', 'renumber', 'size', 'tex', 'old_tex', 'html')] + NUMQ + [('detailed_step', 'n')]
NEWQ = [(x, '') for x in ('essential', 'all', 'unknown', 'reverse', 'verbose', 'normal', 'packed', 'compressed', 'explicit', 'old_compression', 'not_unified',
                          'lemmon', 'no_repeated_steps', 'renumber', 'tex', 'html')] + NUMQ
SAVEQ = [(x, '') for x in ('normal', 'packed', 'compressed', 'explicit', 'fast', 'old_compression', 'time', 'override')]
BOTH = [
    ('show statement', 'l', [(x, '') for x in ('full', 'comment', 'tex', 'old_tex', 'html', 'alt_html', 'time', 'brief_html', 'brief_alt_html', 'mnemonics', 'no_versioning')], 6),
    ('show proof', 'l', PROOFQ, 8),
    ('show labels', 'l', [('all', ''), ('linear', '')], 2),
    ('show source', 'l', [], 2),
    ('show trace_back', 'l', [('all', ''), ('essential', ''), ('axioms', ''), ('tree', ''), ('depth', 's'), ('count_steps', ''), ('match', 'l'), ('to', 'l')], 4),
    ('show usage', 'l', [('direct', ''), ('recursive', ''), ('all', '')], 3),
    ('show settings', '', [], 1), ('show memory', '', [], 1), ('show elapsed_time', '', [], 1), ('show discouraged', '', [], 1),
    ('search', 'lm', [('all', ''), ('comments', ''), ('join', '')], 4),
    ('save proof', 'l', SAVEQ, 3),
    ('verify proof', 'l', [('syntax_only', '')], 3),
    ('verify markup', 'l', [('date_check', ''), ('top_date_check', ''), ('file_check', ''), ('underscore_check', ''), ('mathbox_check', ''), ('verbose', ''),
                            ('date_skip', ''), ('top_date_skip', ''), ('file_skip', ''), ('underscore_skip', ''), ('mathbox_skip', '')], 4),
    ('markup', 'ff', [('html', ''), ('alt_html', ''), ('symbols', ''), ('labels', ''), ('number_after_label', ''), ('bib_refs', ''), ('underscores', ''), ('css', '')], 2),
    ('write source', 'f', [('format', ''), ('rewrap', ''), ('split', ''), ('no_versioning', ''), ('keep_includes', ''), ('extract', 'l')], 4),
    ('write theorem_list', '', [('theorems_per_page', 's'), ('show_lemmas', ''), ('html', ''), ('alt_html', ''), ('no_versioning', '')], 2),
    ('write bibliography', 'f', [], 1), ('write recent_additions', 'f', [('limit', 's'), ('html', ''), ('alt_html', '')], 1),
    ('open log', 'L', [], 1), ('close log', '', [], 1), ('open tex', 'f', [('no_header', ''), ('old_tex', '')], 2), ('close tex', '', [], 1),
    ('file search', 'fm', [('from_line', 'n'), ('to_line', 'n')], 1),
    ('set width', 'W', [], 2), ('set height', 's', [], 1), ('set undo', 'U', [], 1), ('set echo on', '', [], 1), ('set echo off', '', [], 1), ('set scroll prompted', '', [], 1),
    ('set discouragement off', '', [], 1), ('set discouragement on', '', [], 1), ('set contributor', 'm', [], 1), ('set empty_substitution on', '', [], 1),
    ('set search_limit', 's', [], 1), ('set unification_timeout', 'T', [], 1), ('set jeremy_henty_filter on', '', [], 1), ('set memory_status on', '', [], 1),
    ('help', '', [], 1), ('more', 'f', [], 1), ('submit', 'f', [('silent', '')], 1), ('beep', '', [], 1), ('midi', 'l', [('parameter', 'm')], 1),
    ('tools', '', [], 1),
]
MM = [('read', 'f', [('verify', '')], 1), ('erase', '', [], 1), ('prove', 'l', [('override', '')], 8), ('exit', '', [('force', '')], 1)]
PA = [
    ('show new_proof', '', NEWQ, 8), ('assign', 'sl', [('no_unify', ''), ('override', '')], 10), ('replace', 'sl', [('override', '')], 2), ('let step', 's=m', [], 3),
    ('let variable', 'v=m', [], 2), ('unify step', 's', [], 1), ('unify all', '', [('interactive', '')], 2), ('match step', 's', [('max_essential_hyp', 'n')], 1),
    ('match all', '', [('essential', ''), ('max_essential_hyp', 'n')], 1), ('initialize step', 's', [], 1), ('initialize all', '', [], 1), ('initialize user', '', [], 1),
    ('improve', 's', [('depth', 'D'), ('no_distinct', ''), ('1', ''), ('2', ''), ('3', ''), ('subproofs', ''), ('override', ''), ('include_mathboxes', '')], 5),
    ('minimize_with', 'l', [('verbose', ''), ('except', 'l'), ('allow_new_axioms', 'l'), ('no_new_axioms_from', 'l'), ('forbid', 'l'), ('time', ''), ('override', ''), ('include_mathboxes', '')], 3),
    ('expand', 'l', [], 2), ('delete step', 's', [], 3), ('delete all', '', [], 1), ('delete floating_hypotheses', '', [], 1), ('undo', '', [], 3), ('redo', '', [], 2),
    ('save new_proof', '', SAVEQ, 3), ('exit', '', [('force', '')], 1), ('_exit_pa', '', [('force', '')], 1),
]
TOOLS = [(c, 'f' + 'm' * n, [], 1) for c, n in (('add', 2), ('clean', 1), ('delete', 2), ('swap', 1), ('substitute', 4), ('insert', 2), ('break', 1), ('build', 0), ('match', 2), ('sort', 1),
                                               ('count', 1), ('tag', 6), ('reverse', 0), ('unduplicate', 0), ('type', 1), ('number', 3), ('right', 0), ('duplicate', 0), ('unique', 0))]
HELPS = ['', 'language', 'proof_assistant', 'read', 'write source', 'show proof', 'search', 'tools', 'set scroll', 'verify proof', 'markup', 'cli', 'demo', 'explore', 'html', 'nosuch', 'comments',
         'expand', 'undo', 'minimize_with', 'save proof', 'open log', 'submit', 'more', 'midi', 'system', 'invoke', 'tex', 'latex', 'bibliography', 'beep']


def args(g, w, kinds):
    out = []
    for k in kinds:
        if k == 'l':
            out.append(lab(g, w))
        elif k == 'n':
            out.append(num(g))
        elif k == 's':
            out.append(step(g))
        elif k == 'm':
            out.append(math(g, w))
        elif k == 'f':
            out.append(fname(g, w))
        elif k == 'v':
            out.append(g.choice(['$1', '$2', '$3', '$99', '1', '$0', '$x', '$']))
        elif k == 'W':
            out.append(g.choice(['79', '40', '20', '10', '5', '3', '9999', '2', '0', 'x', '200']))
        elif k == 'U':
            out.append(g.choice(['0', '1', '2', '5', '-1', 'x', '3.5', '1000']))
        elif k == 'L':
            out.append('log.txt')           # (MORE of an open log file would never end)
        elif k == 'T':
            out.append(g.choice(['100', '1000', '1', '0', 'x', '-1']))
        elif k == 'D':
            out.append(g.choice(['0', '1', '2', '-1']))
        else:
            out.append(k)
    return out


def word(g, s):
    """sometimes abbreviated or in capitals"""
    k = g.draw(8)
    if k == 0:
        return ' '.join(x[:max(2, len(x) - g.draw(4))] for x in s.split(' '))
    if k == 1:
        return s.upper()
    if k == 2 and g.bool(0.2):
        return ' '.join(x[:1] for x in s.split(' '))
    return s


def command(g, w, pa, tools=False):
    tab = [(x, x[3]) for x in (TOOLS if tools else BOTH)]
    if tools:
        tab.append((('exit', '', [], 3), 3))
        tab.append((('help', '', [], 1), 1))
    else:
        tab += [(x, 2 * x[3]) for x in (PA if pa else MM)]
        if g.bool(0.05):
            tab += [(x, x[3]) for x in (MM if pa else PA)]
    c, ar, qs, _ = g.weighted(tab)
    line = [word(g, c)]
    a = args(g, w, ar)
    if g.bool(0.06) and a:
        a = a[:g.draw(len(a))]          # the rest is asked for
    line += a
    if c == 'help':
        line.append(g.choice(HELPS))
    n = g.weighted([(0, 3), (1, 4), (2, 2), (3, 1)]) if qs else 0
    for _ in range(n):
        q, qa = g.choice(qs)
        line += ['/', word(g, q)] + args(g, w, qa)
    if g.bool(0.02):
        line.append(g.choice(['/', '//', 'extra', "'", '"', '/ nosuch', "''", ',', '=', '~', '\t', '/ html /', '$']))
    s = ' '.join(line)
    if g.bool(0.01):
        i = g.draw(len(s) + 1)
        s = s[:i] + g.choice(['\x01', '\x7f', '\xe9', '\xff', '\t', "'", '"', '@', '!', '~' * 30, 'x' * 1500]) + s[i:]
    return s


def answer(g, w):
    k = g.draw(10)
    if k < 3:
        return g.choice(['y', 'n', 'a', 'q', 'r', 'Y', 's', ''])
    if k < 6:
        return lab(g, w)
    if k < 8:
        return num(g)
    return fname(g, w)


def script(g, w, n):
    """a list of input lines; keeps a rough idea of the mode"""
    out = []
    mode = 'mm'
    while len(out) < n:
        if g.bool(0.1):
            out.append(answer(g, w))
            continue
        s = command(g, w, mode == 'pa', mode == 'tools')
        out.append(s)
        f = s.split(' ')[0].lower()
        if f.startswith('prove'):
            mode = 'pa'
            if g.bool(0.1):
                mode = 'mm'
        elif f == 'tools':
            mode = 'tools'
        elif f.startswith('ex') and not f.startswith('exp') or f.startswith('_e'):
            mode = 'mm'
    return out

"""C19  Failed or partial writes of the database are reported, keep the included files, and leave the changes marked as unsaved."""
import os, re
from lib import mm, mmgen, inc
from lib.core import Check, Violation, Discard
from checks.c18 import snap

ASK = 'You have not saved changes to the source'


def play(ctx, cdir, ops, limit):
    """run the operations; -> list of outputs, one string per operation"""
    cmds = []
    idx = []
    for c, _, _ in ops:
        idx.append((len(cmds), len(c)))
        cmds += c
    o = mm.run(ctx.env['plain'], (), '\n'.join(['set scroll continuous'] + cmds) + '\n', cdir, fsize=limit or (64 << 20), full=bool(limit))
    mm.health(o, '; '.join(cmds))
    parts = [t for _, t in mm.split(o.out)][1:]
    return parts, o.out


def prop(g, ctx):
    o = mmgen.Opts(compressed=0.4, nctor=(1, 2), nax=(1, 2), nthm=(2, 4), depth=2, types=(1, 1))
    db = mmgen.Gendb(g, o)
    for _ in range(5):
        t = inc.Tree(g, db.items, ['\n', '\n', ' ', '\n\n'], allow_markup=g.bool(0.5))
        flat, _ = t.expand()
        if f'$[ {t.main} $]' not in flat:
            break
    else:
        raise Discard('self reference')
    main, parts = t.split()
    thms = [it[1] for it in db.items if it[0] == 'p']
    ndirs = [os.path.join(ctx.dir, x) for x in ('twin', 'real')]
    for d in ndirs:
        os.makedirs(d)
        for f, x in t.files.items():
            with open(os.path.join(d, f), 'wb') as fp:
                fp.write(x.encode('latin-1'))
    # the plan: what is done, without knowing what succeeds
    plan = []
    n = g.int(2, 8)
    split_done = False
    for i in range(n):
        k = g.weighted([('write', 4), ('save', 5), ('extract', 1), ('nodir', 2), ('refused', 1), ('erase', 2), ('exit', 2)])
        if k == 'write' and g.bool(0.3) and not split_done and i >= n - 2:
            k = 'split'
            split_done = True
        plan.append(k)
    limit = 0
    if g.bool(0.6):
        limit = g.weighted([(len(flat) - g.int(0, 40), 2), (g.int(1, len(flat)), 2), (len(flat) + g.int(-3, 60), 2), (g.int(1, 20), 1)])
        limit = max(1, limit)
    ops = []            # (command lines, kind, info)
    rd = [f'read {t.main}']
    ops.append((rd, 'read', None))
    nf = 0
    save = {}
    for k in plan:
        nv = ' / no_versioning' if g.bool(0.3) else ''
        if k == 'save':
            th = g.choice(thms)
            q = g.choice(['normal', 'compressed', 'packed', 'explicit'])
            if g.bool(0.3):
                ops.append(([f'prove {th}', f'save new_proof / {q}', 'exit'], k, None))
            else:
                pat = g.weighted([(th, 6), ('*', 2), (th[0] + '*', 1)])
                fast = g.bool(0.3)
                ops.append(([f'save proof {pat} / {q}' + (' / fast' if fast and q in ('compressed', 'packed') else '')], k, pat == '*' and fast and q in ('compressed', 'packed')))
        elif k == 'write':
            nf += 1
            keep = ' / keep_includes' if g.bool(0.5) else ''
            fm = g.weighted([('', 4), (' / format', 1), (' / rewrap', 1)])
            ops.append(([f'write source w{nf}.mm{fm}{keep}{nv}'], k, (f'w{nf}.mm', bool(keep))))
        elif k == 'split':
            nf += 1
            ops.append(([f'write source w{nf}.mm / split{nv}'], k, f'w{nf}.mm'))
        elif k == 'extract':
            ops.append(([f'write source x.mm / extract {g.choice(thms)}{nv}'], k, None))
        elif k == 'nodir':
            ops.append(([f"write source 'nodir/x.mm'{g.choice(['', ' / keep_includes', ' / format'])}{nv}"], k, None))
        elif k == 'refused':
            if not parts:
                continue
            ops.append(([f'write source {g.choice(sorted(parts))}{g.choice(["", " / split", " / keep_includes"])}{nv}'], k, None))
        elif k == 'erase':
            ops.append((['erase'], k, g.choice(['n', 'n', '', 'y'])))
        else:
            ops.append((['exit'], k, g.choice(['n', 'n', '', 'y'])))
    ops.append((['exit'], 'exit', g.choice(['n', 'y'])))
    ctx.key(sorted(t.files.items()), ops, limit)
    ctx.show(f'limit {limit}\n' + '\n'.join('; '.join(c) for c, _, _ in ops))
    # the twin never lacks room; nothing is erased there and only the end of input leaves
    tops = [x for x in ops if x[1] not in ('erase', 'exit')]
    for i, x in enumerate(tops):
        if x[1] == 'split':
            tops = tops[:i + 1]
            break
    outs, _ = play(ctx, ndirs[0], tops, 0)
    if '?Error' in outs[0]:
        raise Violation('read', outs[0][:2000])
    twin = snap(ndirs[0])
    ctx.show(ctx.sample + '\n' + _ [-3000:])
    # now decide step by step; the answers depend on what the program must ask
    changed = False
    gone = set()
    lines = []
    expect = []
    stop = False
    for c, k, info in ops:
        if k == 'save':
            changed = True
            expect.append((k, c, info))
            lines += c
        elif k == 'write':
            fn, keep = info
            ok = not limit or len(twin[fn].encode('latin-1')) <= limit
            rem = [] if keep or not ok else [f for f in parts if f in t.files]
            gone |= set(rem)
            expect.append((k, c, (fn, ok, set(gone))))
            if ok:
                changed = False
            lines += c
        elif k == 'split':
            # decided by the message (which files have to be written depends on what is there)
            expect.append((k, c, info))
            lines += c
            stop = True
        elif k in ('extract', 'nodir', 'refused', 'read'):
            expect.append((k, c, None))
            lines += c
        else:
            if changed:
                lines += c + [info]
                expect.append((k, c, ('ask', info)))
                leave = info == 'y'
            else:
                lines += c
                expect.append((k, c, ('go', None)))
                leave = True
            if leave and k == 'exit':
                stop = True
            elif leave:
                # the database is erased; read the main file again if the files are still all there
                stop = True
        if stop:
            break
    o = mm.run(ctx.env['plain'], (), '\n'.join(['set scroll continuous'] + lines) + '\n', ndirs[1], fsize=limit or (64 << 20), full=bool(limit))
    mm.health(o, '; '.join(lines))
    outs = [x for _, x in mm.split(o.out)][1:]
    i = 0
    real = snap(ndirs[1])
    for k, c, info in expect:
        if i + len(c) > len(outs):
            raise Violation('ended', f'the session ended before {c}: {o.out[-1500:]}')
        x = re.sub(r'\s+', ' ', ''.join(outs[i:i + len(c)]))
        i += len(c)
        where = f'{c} (limit {limit}): {x[-700:]!r}'
        if k == 'read':
            pass
        elif k == 'save':
            if re.search(r'\?[A-Z]', x) or not info and 'saved' not in x:
                raise Violation('save', where)
        elif k == 'write':
            fn, ok, dele = info
            said = 'source statement(s) were written' in x
            if ok and (not said or '?Error' in x):
                raise Violation('false-error', f'everything could be written: {where}')
            if not ok and (said or '?Error' not in x):
                raise Violation('silent-failure', f'{fn} has {len(twin[fn])} bytes: {where}')
            if ok and real.get(fn) != twin[fn]:
                raise Violation('incomplete', f'{where}: {real.get(fn)!r}, without limit {twin[fn]!r}')
            ctx.count('write ok' if ok else 'write fails')
        elif k == 'split':
            said = 'source statement(s) were written' in x
            if said == ('?Error' in x):
                raise Violation('split-message', where)
            if not limit and not said:
                raise Violation('false-error', where)
            if said:
                for f in [info] + sorted(parts):
                    if real.get(f) != twin.get(f) and inc.norm(real.get(f, '')) != inc.norm(twin.get(f, '')):
                        raise Violation('silent-failure', f'{f} is {real.get(f)!r}, expected {twin.get(f)!r}: {where}')
            ctx.count('split ok' if said else 'split fails')
        elif k == 'extract':
            if '?Error' not in x and 'Extracted' not in x:
                raise Violation('extract', where)
        elif k == 'nodir':
            if '?Error' not in x or 'were written' in x:
                raise Violation('silent-failure', where)
        elif k == 'refused':
            if 'was not written' not in x or 'were written' in x:
                raise Violation('not-refused', where)
        else:
            kind, ans = info
            if kind == 'ask':
                if ASK not in x:
                    raise Violation('dropped', f'changes are not saved, and {c[0]} does not ask: session {lines}, {where}')
                if ans == 'y' and k == 'exit' and i < len(outs):
                    raise Violation('stayed', where)
                if ans != 'y' and 'Use WRITE SOURCE' not in x:
                    raise Violation('left', where)
                ctx.count('asked')
            else:
                if ASK in x:
                    raise Violation('asked', f'nothing is unsaved, but {c[0]} asks: session {lines}, {where}')
                ctx.count('not asked')
            if k == 'erase' and (kind == 'go' or ans == 'y'):
                pass
    # after the last decided operation the end of input ends the session; was there something unsaved?
    last = expect[-1][0]
    # included files that no successful write has taken over are still there
    took = set()
    for k, c, info in expect:
        if k == 'write':
            took = info[2]
    if not any(k == 'split' for k, _, _ in expect):
        for f in t.files:
            if f not in took and real.get(f) != t.files[f]:
                raise Violation('include-lost', f'{f} was changed or removed although no complete joined file was written: session {lines}')
    ctx.nontrivial(len(expect) > 2)


CHECK = Check('C19', prop, quick=6000, thorough=150000,
              rule='random sessions of SAVE PROOF / SAVE NEW_PROOF, WRITE SOURCE (all forms), failing writes (missing directory, refused name, a file size limit that acts '
                   'like a full disk), ERASE and EXIT with answers; the expected messages, questions and files follow from a model and from a twin session without '
                   'limit; non-trivial = at least two operations; distinct by files, operations and limit')

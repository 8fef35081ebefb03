"""C03  Distinct-variable conditions are enforced exactly."""
import re

from lib import bulk, mm, mmgen, mmref
from lib.core import Check, Discard, Violation

PAIR = re.compile(r'Variables "([^"]|"(?=[^ ])|[^"]+?)" and "(.+?)" do not have a disjoint variable requirement in the assertion being proved, "([^"]*)"')


def edit(g, items):
    """add / drop / regroup / move $d statements"""
    items = list(items)
    for _ in range(g.weighted([(1, 4), (0, 2), (2, 3), (4, 2)])):
        ds = [i for i, it in enumerate(items) if it[0] == 'd']
        op = g.draw(6)
        if op == 0 and ds:
            del items[g.choice(ds)]
        elif op == 1 and ds:
            i = g.choice(ds)
            t = list(items[i][1])
            if len(t) > 2:
                del t[g.draw(len(t))]
                items[i] = ('d', t)
        elif op == 2 and ds:
            # split a list into pairs, in any order
            i = g.choice(ds)
            t = items[i][1]
            prs = [[t[a], t[b]] for a in range(len(t)) for b in range(a)]
            items[i:i + 1] = [('d', g.shuffle(p)) for p in g.shuffle(prs)]
        elif op == 3 and ds:
            i = g.choice(ds)
            items[i] = ('d', g.shuffle(items[i][1]))
        elif op == 4 and ds:
            # move towards the end of the file by a few items
            i = g.choice(ds)
            it = items.pop(i)
            items.insert(min(len(items), i + g.int(1, 4)), it)
        else:
            # add
            j = g.draw(len(items) + 1)
            vs = []
            for it in items[:j]:
                if it[0] == 'v':
                    vs += it[1]
            if len(vs) >= 2:
                items.insert(j, ('d', g.sample(list(dict.fromkeys(vs)), g.int(2, 4))))
    return items


def prop(g, ctx):
    if g.bool(0.02):
        text, dim = bulk.text(g, 0)
        ndv = 1
        ctx.count('large ' + dim)
    else:
        o = mmgen.Opts(dvprob=0.9, compressed=0.3, nvars=(2, 5), types=(1, 3), termdepth=g.int(1, 3), depth=g.int(1, 4), locals=0.6,
                       extra_dv=0.2, nthm=(1, 5), allow_missing_dv=g.choice([0, 0, 0.5]), nax=(2, 5))
        d = mmgen.Gendb(g, o)
        items = edit(g, d.items) if g.bool(0.8) else d.items
        text = mmgen.emit(items, g, g.choice(['plain', 'mixed']))
        ndv = d.stats['dv']
    try:
        db = mmref.parse(text)
    except mmref.MMError:
        raise Discard('illegal')
    exp = {}
    for a in db.order:
        if a.kind != 'p':
            continue
        log = []
        try:
            r = mmref.run_steps(db, a, mmref.decode(db, a, a.proof), dvlog=log)
        except mmref.MMError as e:
            raise Discard('not only $d')
        exp[a.label] = set(log)
    ctx.write('t.mm', text)
    ctx.key(text)
    ctx.show(text[:6000])
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm', 'verify proof *'], ctx.dir, width=20000)
    if '?Error' in outs[0]:
        raise Violation('read-error', outs[0])
    t = outs[1]
    errs = mm.verify_errors(t)
    miss = {}
    for ln in t.split('\n'):
        if ln.startswith('Variables "') and 'do not have a disjoint variable requirement' in ln:
            m = re.match(r'Variables "(.+)" and "(.+)" do not have a disjoint variable requirement in the assertion being proved, "(.*)"\.', ln)
            if not m:
                raise Violation('format', ln)
            miss.setdefault(m.group(3), set()).add(tuple(sorted((m.group(1), m.group(2)))))
    npairs = 0
    for l, e in exp.items():
        pairs = {p for p in e if p[0] != p[1]}
        npairs += len(pairs)
        if (l in errs) != bool(e):
            raise Violation('verdict', f'{l}: expected $d problems {sorted(e)}; errors reported for {sorted(errs)}\n{t}')
        if miss.get(l, set()) != pairs:
            raise Violation('pairs', f'{l}: missing $d pairs should be {sorted(pairs)}, reported {sorted(miss.get(l, set()))}\n{t}')
        common = any(p[0] == p[1] for p in e)
        seg = re.sub(r'\s+', ' ', t)
        n = len(re.findall(r'label "' + re.escape(l) + r'", type "\$p":(?:(?!\?Error on line).)*?have variable "[^ ]*" in common', seg))
        if (n > 0) != common:
            raise Violation('common', f'{l}: common variable expected {common}, reported {n}\n{t}')
    ctx.count('theorems', len(exp))
    ctx.count('violating', sum(1 for e in exp.values() if e))
    ctx.count('missing_pairs', npairs)
    ctx.count('dv_conditions', ndv)
    ctx.nontrivial(ndv > 0 or npairs)


CHECK = Check('C03', prop, quick=15000, thorough=400000,
              rule='databases dense in $d whose $d statements were randomly added, dropped, shrunk, regrouped and moved; every theorem is '
                   'otherwise valid; verdict and the exact set of missing pairs compared with an independent verifier; '
                   'non-trivial = some $d condition is exercised; distinct by source text')

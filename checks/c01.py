"""C01  VERIFY PROOF accepts exactly the valid proofs."""
import re

from lib import bulk, mm, mmgen, mmref, mutate
from lib.core import Check, Discard, Violation


def verdicts(text):
    """reference: label -> 'ok' | 'unknown' | 'bad' for every $p"""
    db = mmref.parse(text)
    out = {}
    why = {}
    for a in db.order:
        if a.kind == 'p':
            try:
                out[a.label] = db.verify(a)
            except mmref.MMError as e:
                out[a.label] = 'bad'
                why[a.label] = str(e)
    return out, why


def large(g, ctx):
    text, dim = bulk.text(g)
    try:
        exp, why = verdicts(text)
    except mmref.MMError as e:
        raise Discard('illegal ' + str(e))
    ctx.write('t.mm', text)
    ctx.key(text)
    ctx.show(text[:4000])
    outs, _ = mm.session(ctx.env['plain'], ['read t.mm', 'verify proof *'], ctx.dir, width=20000)
    if '?Error' in outs[0]:
        raise Violation('read-error', 'legal source rejected by READ: ' + outs[0][:2000])
    errs = mm.verify_errors(outs[1])
    for l, v in exp.items():
        if v != 'unknown' and (v == 'bad') != (l in errs):
            raise Violation('large', f'{dim}: proof of {l} is {v} ({why.get(l)}), reported as {"bad" if l in errs else "good"}:\n{outs[1][:3000]}')
        if v == 'ok' and 'All proofs in the database were verified' not in outs[1]:
            raise Violation('large', f'{dim}: no summary\n{outs[1][:3000]}')
        if v == 'unknown' and l not in errs and 'not proved' not in outs[1]:
            raise Violation('large', f'{dim}: unknown steps not reported\n{outs[1][:3000]}')
        ctx.count('large ' + v)
    ctx.count('large ' + dim)
    ctx.nontrivial()


def prop(g, ctx):
    if g.bool(0.025):
        return large(g, ctx)
    big = g.bool(0.12)
    o = mmgen.Opts(compressed=g.choice([0.0, 0.4, 1.0]), depth=g.int(1, 5 if big else 4), nthm=(1, 9 if big else 5),
                   termdepth=g.int(1, 3), unknown=0.05, dvprob=0.4, chain=0.5 if big else 0.0,
                   allow_missing_dv=g.choice([0, 0, 0.3]))
    d = mmgen.Gendb(g, o)
    items = d.items
    nm = g.weighted([(1, 5), (0, 3), (2, 2), (3, 1)])
    for _ in range(nm):
        items = mutate.mutate(g, d, items)
    text = mmgen.emit(items, g, g.choice(['plain', 'mixed', 'wild']))
    try:
        exp, why = verdicts(text)
    except mmref.MMError:
        raise Discard('mutation made the source illegal')
    ctx.write('t.mm', text)
    ctx.key(text)
    ctx.show(text)
    outs, o_ = mm.session(ctx.env['plain'], ['read t.mm', 'verify proof *'], ctx.dir, width=20000)
    if '?Error' in outs[0]:
        raise Violation('read-error', 'legal source rejected by READ: ' + outs[0])
    errs = mm.verify_errors(outs[1])
    bad = {l for l, v in exp.items() if v == 'bad'}
    unk = {l for l, v in exp.items() if v == 'unknown'}
    for l in sorted(bad - errs):
        raise Violation('accepted-invalid', f'proof of {l} is invalid ({why[l]}) but no error was reported:\n{outs[1]}')
    for l in sorted(errs - bad):
        if l in unk:
            continue
        raise Violation('rejected-valid', f'proof of {l} is {exp[l]} but an error was reported:\n{outs[1]}')
    m = outs[1].find('were not proved:')
    listed = set(outs[1][m + 16:].replace(',', ' ').split()) if m >= 0 else set()
    for l in sorted(unk - errs):
        if l not in listed:
            raise Violation('unknown-not-listed', f'{l} has unknown steps but is not listed as unproved:\n{outs[1]}')
    for l, v in exp.items():
        if v == 'ok' and l in listed:
            raise Violation('ok-listed-unproved', f'{l} is proved but listed as unproved')
    # single-theorem verification agrees with the whole-database one
    if g.bool(0.3):
        l = g.choice(sorted(exp))
        outs2, _ = mm.session(ctx.env['plain'], ['read t.mm', f'verify proof {l}'], ctx.dir, width=20000)
        e2 = mm.verify_errors(outs2[1])
        if (l in e2) != (l in errs) or (e2 - {l}):
            raise Violation('single-vs-all', f'verify proof {l}: {outs2[1]}\nverify proof *: {outs[1]}')
    # closing summary
    said = 'All proofs in the database were verified' in outs[1]
    if not errs and not listed and not said:
        raise Violation('summary-missing', 'every proof is valid but the summary line is missing:\n' + outs[1])
    if said and listed:
        raise Violation('summary-wrong', 'summary says all verified, but some are unknown:\n' + outs[1])
    ctx.count('theorems', len(exp))
    ctx.count('invalid', len(bad))
    ctx.count('unknown', len(unk))
    ctx.count('applications', d.stats['apps'])
    ctx.nontrivial(d.stats['maxsteps'] >= 3 or bad)
    if said and errs:
        t = re.sub(r'\s+', ' ', outs[1])
        n = len(mm.ERR_RE.findall(t))
        if n == t.count('There is a disjoint variable ($d) violation'):
            raise Violation('summary-after-dv', 'summary says all verified after $d violations:\n' + outs[1])
        raise Violation('summary-wrong', 'summary says all verified after errors:\n' + outs[1])


CHECK = Check('C01', prop, quick=24000, thorough=600000,
              rule='random databases with valid-by-construction proofs, 0-3 random mutations of proofs, $d, $e and statements; '
                   'verdict per theorem compared with an independent verifier; non-trivial = a proof of >=3 steps or an invalid one; distinct by source text',
              known={'summary-after-dv': lambda v, ctx: v.kind == 'summary-after-dv'})

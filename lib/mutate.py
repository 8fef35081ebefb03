"""Mutations of generated databases (item lists)."""


def theorems(items):
    return [i for i, it in enumerate(items) if it[0] == 'p']


def mutate_proof(g, d, items, i):
    it = items[i]
    pr = list(it[3])
    labels = [x[1] for x in items if x[0] in 'feap']
    if pr and pr[0] == '(':
        k = pr.index(')')
        labs = pr[1:k]
        letters = ''.join(pr[k + 1:])
        m = g.draw(10)
        if m == 0 and letters:
            j = g.draw(len(letters))
            letters = letters[:j] + letters[j + 1:]
        elif m == 1 and letters:
            j = g.draw(len(letters))
            letters = letters[:j] + g.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ?') + letters[j + 1:]
        elif m == 2:
            j = g.draw(len(letters) + 1)
            letters = letters[:j] + g.choice('ABCDEFGHIJZUV') + letters[j:]
        elif m == 3 and len(letters) >= 2:
            j = g.draw(len(letters) - 1)
            letters = letters[:j] + letters[j + 1] + letters[j] + letters[j + 2:]
        elif m == 4 and labs:
            j = g.draw(len(labs))
            labs[j] = g.choice(labels)
        elif m == 5 and len(labs) >= 2:
            j = g.draw(len(labs) - 1)
            labs[j], labs[j + 1] = labs[j + 1], labs[j]
        elif m == 6 and labs:
            del labs[g.draw(len(labs))]
        elif m == 7:
            labs.insert(g.draw(len(labs) + 1), g.choice(labels))
        elif m == 8 and letters:
            letters = letters[:g.draw(len(letters))]
        else:
            letters = letters + g.choice('ABCDEFZUV?')
        if not letters:
            letters = 'A'
        return ('p', it[1], it[2], ['('] + labs + [')'] + d.chop(letters))
    m = g.draw(8)
    if m == 0 and len(pr) > 1:
        del pr[g.draw(len(pr))]
    elif m == 1 and len(pr) > 1:
        j = g.draw(len(pr) - 1)
        pr[j], pr[j + 1] = pr[j + 1], pr[j]
    elif m == 2:
        pr[g.draw(len(pr))] = g.choice(labels)
    elif m == 3:
        pr.insert(g.draw(len(pr) + 1), g.choice(labels))
    elif m == 4:
        pr[g.draw(len(pr))] = g.choice(pr)
    elif m == 5:
        pr = pr[:g.int(1, len(pr))]
    elif m == 6:
        pr[g.draw(len(pr))] = g.choice(['?', 'nosuch', it[1]])
    else:
        j = g.draw(len(pr))
        k = g.int(j, len(pr))
        pr = pr[:j] + pr[j:k] * 2 + pr[k:]
    return ('p', it[1], it[2], pr)


def mutate(g, d, items):
    """-> new items (may be illegal; the caller lets the reference decide)"""
    items = list(items)
    ths = theorems(items)
    m = g.weighted([('proof', 8), ('dropd', 4), ('stmt', 4), ('e', 3), ('dupproof', 2), ('dshrink', 2), ('order', 1)])
    if m == 'proof':
        i = g.choice(ths)
        items[i] = mutate_proof(g, d, items, i)
    elif m == 'dropd':
        ds = [i for i, it in enumerate(items) if it[0] == 'd']
        if ds:
            del items[g.choice(ds)]
    elif m == 'dshrink':
        ds = [i for i, it in enumerate(items) if it[0] == 'd' and len(it[1]) > 2]
        if ds:
            i = g.choice(ds)
            t = list(items[i][1])
            del t[g.draw(len(t))]
            items[i] = ('d', t)
    elif m == 'stmt' or m == 'e':
        ks = [i for i, it in enumerate(items) if it[0] in ('ap' if m == 'stmt' else 'e')]
        if ks:
            i = g.choice(ks)
            it = items[i]
            t = list(it[2])
            others = [x for y in items if y[0] in 'aep' for x in y[2][1:]]
            j = g.draw(len(t))
            w = g.draw(3)
            if w == 0 and len(others):
                t[j] = g.choice(others)
            elif w == 1 and len(t) > 1:
                del t[j]
            elif others:
                t.insert(j + 1, g.choice(others))
            items[i] = it[:2] + (t,) + it[3:]
    elif m == 'dupproof' and len(ths) >= 2:
        i = g.choice(ths)
        j = g.choice(ths)
        items[i] = items[i][:3] + (items[j][3],)
    elif m == 'order':
        es = [i for i in range(len(items) - 1) if items[i][0] == 'e' and items[i + 1][0] == 'e']
        if es:
            i = g.choice(es)
            items[i], items[i + 1] = items[i + 1], items[i]
    return items

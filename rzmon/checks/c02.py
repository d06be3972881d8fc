"""C02: join, compared by channel name with the union of runs."""
from fractions import Fraction as F

from .. import gen, model
from ..core import Skip

RULE = ('2-4 signal sets (0-3 runs each, sometimes hundreds, 1-5 channels) with the same names, each with its own channel permutation and name order, runs '
        'interleaved in time, joined by method, operator, constructor (names as dict/Tags), in shuffled order and grouping; plus operands broken in '
        'one way that must be refused; non-trivial = at least two operands with runs; distinct by permutations, names and layout')
CASES = dict(quick=4200, thorough=50000)
MIN = dict(crowd=15, joined=500, untagged=40, permuted=200, multichannel_names=200, interleaved=100, refused_names=20, refused_overlap=40,
           refused_structure=20, other_structure=30, repeated_channel=60, sync_operand=30, dict_tags=50)


def permuted(m, perm):
    " same content with channel i moved to perm[i] "
    inv = {p: i for i, p in enumerate(perm)}
    runs = [model.Run(r.rate, r.t, [r.data[inv[i]] for i in range(m.nch)], [r.cals[inv[i]] for i in range(m.nch)])
            for r in m.runs]
    return model.MSet({t: tuple(perm[i] for i in v) for t, v in m.tags.items()}, runs, m.nch)


def shuffled_tags(c, m):
    items = list(m.tags.items())
    c.rnd.shuffle(items)
    m.tags = dict(items)
    return m


def case(c):
    import razorback as rb
    uid, clock = gen.Uid(), gen.Clock(c)
    nch = c.int(1, 5)
    untagged = c.chance(.12)            # channels without a name are joined by position
    tags = gen.gen_tags(c, nch, all_tagged=not untagged, repeat=.1)
    untagged = {i for v in tags.values() for i in v} != set(range(nch))
    if untagged:
        c.obs('untagged')
    if tags and c.chance(.3):                    # a name may list a channel more than once
        t = c.choice(sorted(tags))
        tags[t] += (c.choice(tags[t]),)
        c.obs('repeated_channel')
    k = c.int(2, 4)
    many = gen.crowd(c)
    layout = gen.gen_layout(c, clock, many, nmin=4, nmax=6) if many else gen.gen_layout(c, clock, c.int(1, 7), frac=True)
    parts = [[] for _ in range(k)]
    for e in layout:
        parts[c.int(0, k - 1)].append(e)
    ms = []
    for p in parts:
        m = gen.gen_set(c, uid, clock, nch=nch, tags=tags, layout=p)
        perm = list(range(nch))
        if c.chance(.7) and not untagged:
            c.rnd.shuffle(perm)
        if perm != list(range(nch)) and p:
            c.obs('permuted')
        ms.append(shuffled_tags(c, permuted(m, perm)))
    c.note(models=[gen.describe(m) for m in ms])
    ss = [gen.realize(c, m) for m in ms]
    want = ms[0].join(*ms[1:])
    how = c.choice(['method', 'operator', 'ctor-Tags', 'ctor-dict'])
    if how == 'method':
        got = ss[0].join(*ss[1:])
    elif how == 'operator':
        got = ss[0]
        for s in ss[1:]:
            got = got | s
    elif how == 'ctor-Tags':
        got = rb.SignalSet(ss[0].tags, *ss)
    else:
        got = rb.SignalSet({t: (v[0] if len(v) == 1 and c.chance(.5) else v) for t, v in ms[0].tags.items()}, *ss)
        c.obs('dict_tags')
    gen.check_set(c, got, want, f'join ({how})')
    c.obs('joined')
    if any(len(v) > 1 for v in tags.values()):
        c.obs('multichannel_names')
    owner = [next(i for i, m in enumerate(ms) if any(r.t == q.t for q in m.runs)) for r in want.runs]
    if owner != sorted(owner):
        c.obs('interleaved')
    if len(set(owner)) > 1:
        c.sig([m.tags for m in ms], owner, [(str(r.rate), r.n) for r in want.runs])
    # other orders and groupings designate the same things
    order = list(range(k))
    c.rnd.shuffle(order)
    ref = ss[order[0]].join(*[ss[i] for i in order[1:]])
    gen.check_names(c, ref, want, f'join in order {order}')
    if k >= 3:
        cut = c.int(1, k - 1)
        left = ss[order[0]].join(*[ss[i] for i in order[1:cut]])
        right = ss[order[cut]].join(*[ss[i] for i in order[cut + 1:]])
        gen.check_names(c, left | right, want, f'join grouped {order} at {cut}')
    # with itself, without operand: nothing changes
    gen.check_set(c, ss[0].join(), ms[0], 'join()')
    # Tags | SyncSignal and joining a bare run
    if ms[0].runs and c.chance(.3):
        r = c.choice(want.runs)
        later = model.Run(r.rate, want.runs[-1].stop + F(7) / r.rate, r.data, r.cals)
        g = gen.realize_run(c, later)
        gen.check_set(c, got | g, model.MSet(want.tags, want.runs + [later], nch), 'join with a bare run')
        gen.check_set(c, rb.Tags(nch, **want.tags) | g, model.MSet(want.tags, [later], nch), 'Tags | run')
        c.obs('sync_operand')
    # refusals
    if many:
        for _ in range(6):
            broken(c, rb, [want], [got], uid, clock, tags, nch, 'overlap')
    if not untagged:
        broken(c, rb, ms, ss, uid, clock, tags, nch)
    c.sample(**c.detail)


def broken(c, rb, ms, ss, uid, clock, tags, nch, kind=None):
    kind = kind or c.choice(['names', 'lengths', 'structure', 'overlap', 'overlap', 'nch', 'swap', 'random'])
    base = next((i for i, m in enumerate(ms) if m.runs), None)
    if base is None:
        return
    m, s = ms[base], ss[base]
    after = [(r.rate, m.runs[-1].stop + F(3) / m.runs[-1].rate + r.t - m.runs[0].t, r.n) for r in m.runs]
    label = f'join with an operand of other {kind}'
    if kind == 'names':
        t2 = dict(m.tags)
        if c.chance(.5):
            t2['other'] = (0,)
        else:
            name = c.choice(sorted(t2))
            t2['other'] = t2.pop(name)
        o = gen.gen_set(c, uid, clock, nch=nch, tags=t2, layout=after)
        c.obs('refused_names')
    elif kind == 'lengths':
        big = [t for t, v in m.tags.items() if len(v) > 1]
        if not big:
            return
        t2 = dict(m.tags)
        t = c.choice(big)
        t2[t] = t2[t][:-1]
        o = gen.gen_set(c, uid, clock, nch=nch, tags=t2, layout=after)
        c.obs('refused_structure')
    elif kind == 'structure':
        # a group permuted with respect to the single names
        big = [t for t, v in m.tags.items() if len(v) > 1]
        if not big:
            return
        t2 = dict(m.tags)
        t = c.choice(big)
        t2[t] = t2[t][1:] + t2[t][:1]
        o = gen.gen_set(c, uid, clock, nch=nch, tags=t2, layout=after)
        c.obs('refused_structure')
    elif kind in ('swap', 'random'):
        # the same names with other numbers of channels (same total when swapped) or any other structure
        t2 = dict(m.tags)
        if kind == 'swap':
            if len(t2) < 2:
                return
            a, b = c.rnd.sample(sorted(t2), 2)
            t2[a], t2[b] = t2[b], t2[a]
        else:
            t2 = {t: tuple(c.rnd.sample(range(nch), c.int(1, nch))) for t in t2}
        o = gen.gen_set(c, uid, clock, nch=nch, tags=t2, layout=after)
        c.obs('other_structure')
    elif kind == 'nch':
        o = gen.gen_set(c, uid, clock, nch=nch + 1, tags=m.tags, layout=after)
    else:
        r = c.choice(m.runs)
        how = c.int(0, 3)
        k = c.int(1, max(1, r.n - 2))
        t, n = [(r.t, r.n), (r.t + F(k) / r.rate, 3), (r.t - F(k) / r.rate, k + 2), (r.t - F(1) / r.rate, r.n + 4)][how]
        if how == 1 and k + 1 > r.n - 1:
            return
        o = gen.gen_set(c, uid, clock, nch=nch, tags=m.tags, layout=[(r.rate, t, n)])
        c.obs('refused_overlap')
    try:
        m.join(o)
    except model.Refused:
        pass
    except model.Ambiguous:
        return
    else:
        return
    g = gen.realize(c, o)
    c.note(operand=gen.describe(o), base=base)
    a, b = (s, g) if c.chance(.5) else (g, s)
    c.refused(lambda: a.join(b), label)

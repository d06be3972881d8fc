"""C03: merge, compared with exact interval intersection."""
from fractions import Fraction as F
from itertools import permutations

from .. import gen, model
from ..core import Skip

RULE = ('2-4 signal sets with distinct names on common or deliberately misaligned clocks, 0-4 runs each, overlapping in every way (nested, '
        'chained, touching, disjoint, mixed rates, a few of lazy runs of up to 5e9 samples, a few of dozens of runs), merged in every order and grouping and compared with exact intersections of runs; '
        'non-trivial = at least one common run; distinct by layout, names and clock')
CASES = dict(quick=4200, thorough=50000)
MIN = dict(long=20, crowd=8, common_runs=500, nothing_common=50, empty_operand=20, mixed_rates=30, refused_names=30, refused_misaligned=30, posix=60,
           nondyadic=150, three_operands=100)


def layout(c, clock, rate, offset, sizes, many):
    out, k = [], c.int(-6, 12)
    for _ in range(many or c.choice([0, 1, 1, 2, 2, 3, 4])):
        r = rate if c.chance(.8) else c.choice(clock.rates)
        n = c.int(2, 25) if sizes is None else c.choice(sizes)
        t = clock.t0 + F(k) / clock.coarse + offset / r
        out.append((r, t, n))
        used = F(n - 1) / r * clock.coarse
        k += -((-used) // 1) + c.choice([1, 1, 2, 3, 9])
    return out


def case(c):
    import razorback as rb
    uid, clock = gen.Uid(), gen.Clock(c)
    names = list(gen.NAMES)
    c.rnd.shuffle(names)
    k = c.choice([2, 2, 2, 3, 3, 4])
    rate = c.choice(clock.rates)
    ms = []
    mis = c.chance(.12)
    sizes = c.rnd.sample(gen.LONG, 2) if c.chance(.015) else None
    c.obs('long', int(sizes is not None))
    many = 0 if sizes else gen.crowd(c, .006, 34, 80)
    k = 2 if many else k
    for i in range(k):
        nch = c.int(1, 3)
        mine, names = names[:6], names[6:]
        off = F(0)
        if mis and i == k - 1:
            off = c.choice([F(1, 10), F(1, 4), F(1, 2), F(2, 3), F(9, 10), F(1, 100), F(99, 100), F(1, 1000)])
        lay = layout(c, clock, rate, off, sizes, many and max(2, many - c.int(0, 30)))
        tags = gen.gen_tags(c, nch, names=mine, all_tagged=not lay or c.chance(.8), repeat=.1)
        m = gen.gen_set(c, uid, clock, nch=nch, tags=tags, layout=lay)
        ms.append(m)
    c.note(models=[gen.describe(m) for m in ms], t0=str(clock.t0))
    ss = [gen.realize(c, m) for m in ms]
    try:
        want = ms[0].merge(*ms[1:])
    except model.Ambiguous:
        raise Skip
    except model.Refused as ex:
        c.refused(lambda: ss[0].merge(*ss[1:]), f'merge of {ex} sets')
        c.obs('refused_misaligned')
        return
    got = ss[0].merge(*ss[1:])
    gen.check_set(c, got, want, 'merge')
    c.obs('common_runs', len(want.runs))
    c.obs('nothing_common', int(not want.runs))
    c.obs('empty_operand', int(any(not m.runs for m in ms)))
    c.obs('mixed_rates', int(len({r.rate for m in ms for r in m.runs}) > 1))
    c.obs('three_operands', int(k > 2))
    if want.runs:
        c.obs('posix', int(abs(clock.t0) > 1e9))
        c.obs('nondyadic', int(not clock.exact))
        c.sig(str(clock.t0), [m.signature() for m in ms])
    # operator, order and grouping
    order = list(range(k))
    c.rnd.shuffle(order)
    try:
        pair = ms[order[0]]
        for i in order[1:]:
            pair = pair.merge(ms[i])
    except (model.Ambiguous, model.Refused):
        raise Skip       # misaligned runs that only a third operand of another rate separates
    acc = ss[order[0]]
    for i in order[1:]:
        acc = acc & ss[i]
    # pairwise merges drop common stretches of one sample and rates that differ at each stage: only the final content counts
    gen.check_names(c, acc, want, f'pairwise merge in order {order}')
    got = ss[order[0]].merge(*[ss[i] for i in order[1:]])
    gen.check_names(c, got, want, f'merge in order {order}')
    gen.check_set(c, ss[0].merge(), ms[0], 'merge()')
    for s, m in zip(ss, ms):
        gen.check_set(c, s, m, 'operand after merge')
    # clashing names
    if c.chance(.25):
        i, j = c.rnd.sample(range(k), 2)
        if ms[i].tags and ms[j].tags:
            t2 = dict(ms[j].tags)
            t2[c.choice(sorted(ms[i].tags))] = (0,)
            s2 = gen.realize(c, model.MSet(t2, ms[j].runs, ms[j].nch))
            c.refused(lambda: ss[i].merge(s2), 'merge with a clashing name')
            c.refused(lambda: s2 & ss[i], 'merge with a clashing name')
            c.obs('refused_names')
    c.sample(**c.detail)

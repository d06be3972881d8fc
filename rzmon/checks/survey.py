"""Random surveys: instruments with named channels whose recordings are split into records."""
from fractions import Fraction as F

from .. import gen, model


class Survey:
    pass


def instrument(c, uid, clock, names, origin, multi=True, rate=None, split=None, base=None, repeat=0.):
    """ returns (full model of the instrument, list of record models) """
    nch = c.int(1, 4)
    tags = gen.gen_tags(c, nch, names=names, groups=multi, repeat=repeat)
    if base is None:
        lay = gen.gen_layout(c, clock, c.int(1, 4), start=origin, rate=rate, nmax=24, gaps=[1, 1, 2, 3, 8], grid=True)
    else:
        lay = []
        for r, t, n in base:
            i, j = c.choice([0, 0, 1, 2, 5]), c.choice([0, 0, 1, 2, 5])
            if n - i - j >= 2:
                lay.append((r, t + F(i) / r, n - i - j))
        lay = lay or base
    full = gen.gen_set(c, uid, clock, nch=nch, tags=tags, layout=lay)
    split = split or c.choice(['none', 'runs', 'pieces', 'channels', 'channels+runs', 'permuted'])
    if 'channels' in split:
        # groups do not survive the separation of channels
        full = model.MSet({t: v for t, v in tags.items() if len(v) == 1}, full.runs, nch)
    recs = [full]
    if 'runs' in split or split in ('pieces', 'permuted'):
        recs = [model.MSet(full.tags, [r], nch) for r in full.runs]
    if split == 'pieces':
        out = []
        for r in recs:
            run = r.runs[0]
            cuts = sorted({2 * c.int(1, (run.n - 2) // 2) for _ in range(c.int(0, 2))}) if run.n >= 4 else []
            ends = [0] + cuts + [run.n]
            out += [model.MSet(full.tags, [run.cut(i, j)], nch) for i, j in zip(ends, ends[1:])]
        recs = out
    if split == 'permuted':
        from .c02 import permuted
        recs = [permuted(r, c.rnd.sample(range(nch), nch)) for r in recs]
    if 'channels' in split:
        recs = [r.select([i]) for r in recs for i in range(nch)]
    return full, recs


def survey(c, multi=True, ninst=None, exact=False, repeat=0.):
    uid, clock = gen.Uid(), gen.Clock(c, exact=exact)
    names = list(gen.NAMES)
    if c.chance(.2):
        names = c.rnd.sample(names, 15) + gen.ODD_NAMES
    c.rnd.shuffle(names)
    ninst = ninst or c.choice([1, 2, 2, 3])
    fulls, recs = [], []
    base = gen.gen_layout(c, clock, c.int(1, 4), nmin=4, nmax=24, gaps=[1, 1, 2, 3, 8], grid=True) if c.chance(.5) else None
    for _ in range(ninst):
        mine, names = names[:7], names[7:]
        rate = None if c.chance(.5) else clock.rates[0]
        origin = clock.grid(c.int(-4, 8), clock.coarse)
        f, r = instrument(c, uid, clock, mine, origin, multi, rate, base=base, repeat=repeat)
        fulls.append(f)
        recs += r
    c.rnd.shuffle(recs)
    return clock, fulls, recs

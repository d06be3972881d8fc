"""C07: packing, compared with the exact common stretches of all channels."""
from fractions import Fraction as F

from .. import gen, model
from ..core import Skip
from .survey import survey

RULE = ('surveys of 1-3 instruments (1-4 channels, groups, aliases, one or two sampling rates, hostile clocks) whose recordings are split by run, '
        'time piece, channel or stored with permuted channels, in random storage order, and networks of 27-70 separately recorded channels; pack() and pack(keep_multi_tags=False) compared with exact common '
        'stretches; non-trivial = several records and a non-empty result; distinct by records and clock')
CASES = dict(quick=2400, thorough=40000)
MIN = dict(packed_runs=400, empty=10, fused=15, multi_rate=15, many_records=200, single_only=60, reordered=200, wide=8)


def fused_count(frags):
    return sum(f[2] for f in frags)


def check(c, got, want, names, label):
    want_names = names if want else set()
    c.ok(set(got.tags) == want_names, f'{label}: names', got=sorted(got.tags), want=sorted(want_names))
    c.ok(got.nb_runs == len(want), f'{label}: number of runs', got=str(got.intervals),
         want=[(float(t), n, str(r)) for r, t, n, _ in want])
    tagged = {i for v in got.tags.values() for i in v}
    c.ok(tagged == set(range(got.nb_channels)), f'{label}: channels without a name', got=str(got.tags))
    for k, (run, (rate, t, n, content)) in enumerate(zip(got.signals, want)):
        for name in sorted(want_names):
            data, cals = content[name]
            idx = got.tags[name]
            c.ok(len(idx) == len(data), f'{label}: channels of {name}')
            w = model.Run(rate, t, data, cals)
            view = gen._named({name: idx}, run)
            gen.check_run(c, view, w, f'{label}, run {k}, name {name}')


def nb_channels(fulls):
    return sum(f.nch for f in fulls)


def wide(c):
    " many separately recorded channels (a network of stations), sharing a clock "
    uid, clock = gen.Uid(), gen.Clock(c)
    k = c.int(27, 70)
    stem = c.choice(['s{:02d}_Ex', 'ch{}', 'S{}', 'st{:03d}'])
    names = [stem.format(i) for i in range(k)]
    base = gen.gen_layout(c, clock, c.int(1, 3), nmin=8, nmax=16, gaps=[1, 2, 3, 8], rate=clock.rates[0])
    fulls, recs, i = [], [], 0
    while i < k:
        n = min(k - i, c.choice([1, 1, 1, 2, 3]))
        lay = []
        for r, t, size in base:
            a, b = c.choice([0, 0, 0, 1, 2]), c.choice([0, 0, 0, 1, 2])
            lay.append((r, t + F(a) / r, size - a - b))
        full = gen.gen_set(c, uid, clock, nch=n, tags={names[i + j]: (j,) for j in range(n)}, layout=lay)
        fulls.append(full)
        recs += [full] if c.chance(.5) else [model.MSet(full.tags, [r], n) for r in full.runs]
        i += n
    c.rnd.shuffle(recs)
    c.obs('wide')
    return clock, fulls, recs


def case(c):
    import razorback as rb
    clock, fulls, recs = wide(c) if c.idx % 25 == 3 else survey(c)
    c.note(records=[gen.describe(m) for m in recs], t0=str(clock.t0))
    try:
        want = model.pack(recs)
        single = model.pack(recs, keep_multi=False)
    except model.Refused:
        raise Skip
    ss = [gen.realize(c, m) for m in recs]
    inv = rb.Inventory(ss)
    names = {t for m in recs for t in m.tags}
    got = inv.pack()
    check(c, got, want, names, 'pack')
    if want:
        c.ok(got.nb_channels == nb_channels(fulls), 'pack: number of channels', got=got.nb_channels, want=nb_channels(fulls))
    c.obs('packed_runs', len(want))
    c.obs('empty', int(not want))
    c.obs('multi_rate', int(len({f[0] for f in want}) > 1))
    c.obs('many_records', int(len(recs) > 2))
    nparts = sum(len(m.runs) for m in recs)
    c.obs('fused', int(any(f[2] > max(r.n for m in recs for r in m.runs if r.rate == f[0]) for f in want)))
    if want and len(recs) > 1:
        c.sig(str(clock.t0), sorted(m.signature() for m in recs))
    # storage order is irrelevant
    order = list(ss)
    c.rnd.shuffle(order)
    check(c, rb.Inventory(order).pack(), want, names, 'pack of the shuffled inventory')
    c.obs('reordered')
    if c.chance(.3):
        snames = {t for m in recs for t, v in m.tags.items() if len(v) == 1}
        check(c, inv.pack(keep_multi_tags=False), single, snames, 'pack(keep_multi_tags=False)')
        c.obs('single_only')
    if c.chance(.2):
        one = c.choice(recs)
        i = next(i for i, m in enumerate(recs) if m is one)
        gen.check_names(c, rb.Inventory([ss[i]]).pack(), one.fuse(), 'pack of one record')
    for s, m in zip(ss, recs):
        gen.check_set(c, s, m, 'record after pack')
    c.ok(list(inv) == ss, 'pack changed the inventory')
    empty = rb.Inventory().pack()
    c.ok(empty.nb_runs == 0 and not empty.tags, 'pack of an empty inventory')
    c.sample(**c.detail)

"""C30: mass processing."""
import itertools

import numpy as np

from .. import mt
from ..core import Skip

RULE = ('inventories of random surveys (1-3 remote sites recorded over different runs) processed massively over 1-3 time intervals and 1-3 frequencies, combining remotes or '
        'not: every entry equal to the direct impedance of the packed inventory with that remote group; non-trivial = at least two combinations; distinct by survey and options')
CASES = dict(quick=192, thorough=2500)
MIN = dict(near_intervals=25, nothing_recorded=15, no_remote=8, entries=150, combinations=60, single=8, intervals=30, reordered=10, other_recorders=20)


def survey(c, rb, nrem):
    rate = c.choice([1., 2., 64.])
    n = c.int(500, 900)
    t0 = c.choice([0., 1460000000., 500.])
    cuts = [0, *sorted(c.rnd.sample(range(150, n - 150), c.choice([0, 1]))), n]
    B = c.rng.normal(size=(2, n))
    h = c.rng.normal(size=(2, 2))
    E = h @ B + .2 * c.rng.normal(size=(2, n))
    Bl = B + .2 * c.rng.normal(size=B.shape)
    recs, others = [], []

    def add(tags, x, lo=0, hi=n, pieces=True):
        edges = [max(a, lo) for a in cuts if a < hi] + [hi]
        edges = sorted(set(edges))
        for a, b in zip(edges, edges[1:]):
            if b - a >= 2:
                recs.append(rb.SignalSet(tags, rb.SyncSignal([y[a:b].copy() for y in x], rate, t0 + a / rate)))
    add({'site_E': (0, 1), 'Ex': 0, 'Ey': 1}, E)
    names = []
    add({'site_B': (0, 1), 'Bx': 0, 'By': 1}, Bl)
    for k in range(nrem):
        m = np.linalg.qr(c.rng.normal(size=(2, 2)))[0]
        R = m @ B + .2 * c.rng.normal(size=B.shape)
        lo, hi = (0, n) if c.chance(.5) else (c.int(0, 60), n - c.int(0, 60))
        add({f'r{k}_x': 0, f'r{k}_y': 1, f'rem{k}': (0, 1)}, R, lo, hi)
        names.append(f'rem{k}')
    for t in c.rnd.sample(['Bother', 'E2', 'Bx2', 'xB', 'Ez', 'e', 'b', 'rem', 'rem00', 'Rem0', 'Bremote1'], c.choice([0, 0, 2, 3])):     # other recorders
        lo = c.int(0, n // 2)
        add({t: 0} if c.chance(.5) else {t: (0, 1)}, c.rng.normal(size=(2, n)), lo, c.int(lo + 100, n))
        others.append(t)
    c.rnd.shuffle(recs)
    c.obs('other_recorders', len(others))
    return rate, n, t0, recs, names


def case(c):
    import razorback as rb
    nrem = c.choice([0, 1, 2, 2, 2, 3])
    rate, n, t0, recs, names = survey(c, rb, nrem)
    inv = rb.Inventory([rb.SignalSet({'E' if t == 'site_E' else 'B' if t == 'site_B' else t: v for t, v in s.tags.items()
                                      if t not in ('Ex', 'Ey', 'Bx', 'By')}, *s.signals) for s in recs])
    if c.chance(.5):
        c.rnd.shuffle(names)
        c.obs('reordered')
    T = n / rate
    iv = [(t0, t0 + T), (t0 + .1 * T, t0 + .7 * T), (t0 + .3 * T, t0 + 5 * T)]
    l_interval = c.rnd.sample(iv, c.choice([1, 1, 2]))
    if c.chance(.4):            # an interval that differs by a few samples, or not at all
        a, b = c.choice(l_interval)
        d, e = c.rnd.choices([0, 0, 1, 2, 5, 20], k=2)
        l_interval.append((a + d / rate, b - e / rate))
        c.obs('near_intervals')
    if c.chance(.25):
        l_interval.insert(c.int(0, len(l_interval)), c.choice([(t0 - 9 * T, t0 - T), (t0 + 2 * T, t0 + 3 * T), (t0 - T, t0 - .5 / rate)]))
        c.obs('nothing_recorded')
    freqs = [rate * x for x in c.rnd.sample([.2, .25, .3, .4, 1e-6], c.choice([1, 2]))]
    opts = dict(fourier_opts=dict(Nper=c.choice([2, 4]), overlap=c.choice([0., .5]), window=c.choice([None, np.hanning])),
                weights=c.choice([rb.weights.least_square, rb.weights.mest_weights]), keep_invalid_times=c.chance(.5))
    if c.chance(.3):
        opts['prefilter'] = rb.prefilters.cod_filter(.05)
    if c.chance(.3):
        opts['remote_weights'] = rb.weights.least_square
    comb = c.chance(.75)
    kept = dict(opts)
    before = [dict(s.tags) for s in inv]
    c.note(names=names, intervals=[tuple(x - t0 for x in i) for i in l_interval], freqs=freqs, combine=comb, rate=rate, n=n)
    res = rb.utils.impedance_mass_proc(inv, names, freqs, l_interval, opts, **({} if comb and c.chance(.5) else dict(combines_remotes=comb)))
    c.ok(opts == kept, 'options modified')
    c.ok([dict(s.tags) for s in inv] == before, 'inventory modified')
    want = set(itertools.product(*[(None, k) for k in range(len(names))])) if comb else {tuple(range(len(names)))}
    got = [tuple(x) for x in res.remote_combination]
    c.ok(len(got) == len(want) and set(got) == want, 'every combination once', got=got)
    c.ok(all(len(x) == len(got) for x in (res.impedance, res.invalid_time, res.error, res.transfer_mag)), 'one entry per combination')
    for k, rc in enumerate(got):
        rem = [names[i] for i in rc if i is not None]
        o = dict(opts)
        data = inv.filter('E', 'B')
        if rem:
            chosen = inv.filter(*rem)
            data = data + chosen
        packed = data.pack()
        if rem:
            packed.tags['Bremote'] = tuple(i for r in rem for i in packed.tags[r])
            o['remote'] = 'Bremote'
        for i, (a, b) in enumerate(l_interval):
            r = rb.utils.impedance(packed.extract_t(a, b), freqs, **o)
            label = f'combination {rem}, interval {i}'
            same(c, res.impedance[k][i], r.impedance, label + ': impedance')
            same(c, res.error[k][i], r.error, label + ': errors')
            same(c, res.transfer_mag[k][i], r.transfer_mag, label + ': remote transfer')
            for x, y in zip(res.invalid_time[k][i], r.invalid_time):
                c.ok(len(x) == len(y), label + ': rejected times')
                for u, v in zip(x, y):
                    c.ok(np.shape(u) == np.shape(v) and np.allclose(u, v, rtol=0, atol=1e-6), label + ': rejected times', got=u, want=v)
            c.obs('entries')
            c.obs('estimated', int(np.isfinite(r.impedance).any()))
        c.obs('combinations')
    c.obs('intervals', len(l_interval))
    c.obs('single', int(not comb))
    c.obs('no_remote', int(not names))
    if len(got) > 1:
        c.sig(names, l_interval, freqs, n, rate)
    c.sample(**c.detail)


def same(c, x, y, label):
    x, y = np.asarray(x), np.asarray(y)
    c.ok(x.shape == y.shape, label + ' (shape)', got=x.shape, want=y.shape)
    c.ok(np.array_equal(np.isnan(x), np.isnan(y)), label + ' (NaN)')
    m = ~np.isnan(y)
    c.close(x[m], y[m], label, rtol=1e-8)

"""C05: run selection, compared with indexing a list of runs."""
import numpy as np

from .. import gen, model

RULE = ('signal sets of 0-7 runs (now and then of hundreds) selected by integers (negative too), lists, arrays, slices of any step, boolean masks (random or computed from '
        'run attributes), by method and two-part indexing; out-of-range indices and masks of another length and repeated runs must be refused; non-trivial = some but not all runs are kept; '
        'distinct by number of runs and index')
CASES = dict(quick=2700, thorough=60000)
MIN = dict(crowd=10, int=200, list=200, slice=200, mask=200, attribute_mask=200, two_part=200, by_index=300, empty_result=50, refused=300, refused_mask=200, twice=200)


def case(c):
    import razorback as rb
    uid, clock = gen.Uid(), gen.Clock(c)
    many = gen.crowd(c, .015, 60, 280)
    m = gen.gen_set(c, uid, clock, nch=c.int(1, 3), nruns=many or c.int(0, 7), nmax=4 if many else 12)
    if c.chance(.3):          # channels without a name
        tags = dict(m.tags)
        for t in list(tags):
            if c.chance(.6):
                del tags[t]
        m = model.MSet(tags, m.runs, m.nch)
    s = gen.realize(c, m)
    n = len(m.runs)
    c.note(model=gen.describe(m))
    for _ in range(5):
        kind = c.choice(['int', 'list', 'slice', 'mask', 'attribute_mask', 'where'])
        ref = np.arange(n)
        if kind in ('int', 'list', 'where') and not n:
            continue
        if kind == 'int':
            idx = c.int(-n, n - 1)
            if c.chance(.3):
                idx = np.int32(idx)
        elif kind == 'list':
            idx = c.rnd.sample(range(n), c.int(0, n))
            idx = [i - n if c.chance(.3) else i for i in idx]
            if not idx:
                idx = np.array([], dtype=int)
            elif c.chance(.4):
                idx = np.array(idx)
        elif kind == 'slice':
            f = lambda: c.choice([None, None, c.int(-n - 2, n + 2)])
            idx = slice(f(), f(), c.choice([None, 1, 2, 3, -1, -2]))
        elif kind == 'mask':
            idx = np.array([c.chance(.5) for _ in range(n)], dtype=bool)
            if n and c.chance(.3):
                idx = idx.tolist()
        elif kind == 'where':
            idx = np.where([c.chance(.5) for _ in range(n)])
            kind = 'list'
        else:
            kind2 = c.int(0, 4)
            if kind2 == 0:
                x = c.choice(clock.rates)
                idx, want_mask = s.sampling_rates == float(x), [r.rate == x for r in m.runs]
            elif kind2 == 1:
                x = c.int(2, 12)
                idx, want_mask = s.sizes >= x, [r.n >= x for r in m.runs]
            elif kind2 == 2 and n:
                x = c.choice(m.runs).t
                idx, want_mask = s.starts < float(x) - 1e-3 * float(1 / max(clock.rates)), [r.t < x for r in m.runs]
            elif kind2 == 3 and n:
                x = c.choice(m.runs).stop
                idx, want_mask = s.stops > float(x) + 1e-3 * float(1 / max(clock.rates)), [r.stop > x for r in m.runs]
            elif n:
                x = c.int(2, 12)
                d = s.intervals[:, 1] - s.intervals[:, 0]
                idx = d * s.sampling_rates > x - .5
                want_mask = [r.n - 1 >= x for r in m.runs]
            else:
                continue
            if abs(clock.t0) > 1e9 and max(clock.rates) > 5000 and kind2 in (2, 3):
                continue
            idx = np.asarray(idx, dtype=bool)
            c.ok(list(idx) == want_mask, 'mask computed from run attributes', got=list(idx), want=want_mask)
        keep = sorted(set(np.atleast_1d(ref[idx]).ravel().tolist()))
        want = m.take_runs(keep)
        c.note(index=str(idx))
        c.obs(kind)
        c.obs('empty_result', int(not keep))
        if 0 < len(keep) < n:
            c.sig(n, str(idx))
        gen.check_set(c, s.select_runs(idx), want, 'select_runs')
        gen.check_set(c, s[:, idx], want, 's[:, runs]')
        if m.tags:
            t = c.choice(sorted(m.tags))
            gen.check_set(c, s[t, idx], want.select(m.tags[t]), 's[name, runs]')
            gen.check_set(c, s[t].select_runs(idx), want.select(m.tags[t]), 's[name].select_runs')
            gen.check_set(c, s[[t], idx], want.select(m.tags[t]), 's[[name], runs]')
            c.obs('two_part')
        if m.runs:
            i = c.rnd.sample(range(m.nch), c.int(1, m.nch))
            gen.check_set(c, s[i, idx], want.select(i), 's[[channels], runs]')
            gen.check_set(c, s[i[0], idx], want.select(i[:1]), 's[channel, runs]')
            c.obs('by_index')
        # the selection has its own names
        sub = s.select_runs(idx)
        if m.nch and sub.nb_channels:
            sub.tags['brand_new'] = 0
            c.ok('brand_new' not in s.tags, 'names added to a selection of runs appear in the original')
    for bad in (n, n + 3, -n - 1, [0, n], [-n - 2]):
        c.refused(lambda: s.select_runs(bad), f'run index {bad} out of {n}')
        c.obs('refused')
    for k in {n + 1, n + c.int(1, 4), max(0, n - 1)} - {n}:
        bad = np.array([c.chance(.4) for _ in range(k)], dtype=bool)
        if k > n:
            bad[c.int(n, k - 1)] = True
        elif not k:
            continue
        c.refused(lambda: s.select_runs(bad), f'mask of length {k} for {n} runs')
        c.refused(lambda: s[:, bad], f'mask of length {k} for {n} runs')
        c.obs('refused_mask')
    twice = [i for i, r in enumerate(m.runs) if r.n > 1]
    if twice:                 # a run overlaps itself
        i, rest = c.choice(twice), [k for k in range(n) if c.chance(.5)]
        bad = c.rnd.sample([i, i - n] + rest, 2 + len(rest)) if c.chance(.5) else [i, i] + rest
        if len({k % n for k in bad}) < len(bad):
            bad = c.choice([list, np.array])(bad)
            c.refused(lambda: s.select_runs(bad), f'run selected twice {bad}')
            c.refused(lambda: s[:, bad], f'run selected twice {bad}')
            c.obs('twice')
    gen.check_set(c, s, m, 'original after selections')
    c.sample(**c.detail)

"""Workload generators: hostile clocks, tagged signal sets with unique sample values, and their realisation."""
from fractions import Fraction as F

import dask.array as da
import numpy as np

from .model import MSet, Ramp, Run

# families of sampling rates whose grids either coincide or stay far apart
FAMILIES = [
    [F(1)], [F(1), F(1, 2)], [F(2), F(4)], [F(1, 3)], [F(1, 10)], [F(1, 10), F(1)], [F(3)], [F(7)], [F(10)],
    [F(50), F(150)], [F(250), F(1000)], [F(2400), F(24000)], [F(128), F(512)], [F(1, 3), F(3)], [F(150)],
    [F(1024)], [F(1, 60)], [F(15)],
]
EXACT_FAMILIES = [[F(1)], [F(1), F(1, 2)], [F(2), F(4)], [F(128), F(512)], [F(1024), F(64)]]
STARTS = [F(0), F(1, 2), F(-4001, 4), F(1460000000), F(11685698761, 8), F(1000003, 10), F(-77, 10), F(1609459199),
          F(86400) * 365, F(1234567, 1000)]
EXACT_STARTS = [F(0), F(1, 2), F(-4001, 4), F(1460000000), F(11685698761, 8)]
NAMES = ['Ex', 'Ey', 'Hx', 'Hy', 'Hz', 'E', 'H', 'B', 'Bremote', 'site1_Ex', 'site1_Hy', 'site2_Hx', 'r0', 'r1', 'T3H',
         'x', 'y', 'zz', 'A1', 'a', 'Bx', 'By', 'ref', 'q_9', 'é1']
ODD_NAMES = ['a?', 'E*', 'x[1]', 'b c', 'Hx.1', 'H-x', 'x[!a]', 'E?', 'r*', 'n', 'self', 'keys', 'items', 'get', 'indices']


class Cal:
    " calibration function with an identity "
    def __init__(self, uid):
        self.uid = uid

    def __call__(self, f):
        return complex(1 + 0.5 * self.uid, 0.25 + f)

    def __repr__(self):
        return f'Cal({self.uid})'


class ConstCal:
    " a constant calibration given as a number "
    def __init__(self, uid):
        self.uid = uid
        self.value = complex(1 + 0.5 * uid, 3.)

    def __call__(self, f):
        return self.value

    def __repr__(self):
        return f'ConstCal({self.uid})'


def cal_arg(cal):
    return cal.value if isinstance(cal, ConstCal) else cal


class Clock:
    def __init__(self, c, exact=False):
        self.rates = list(c.choice(EXACT_FAMILIES if exact else FAMILIES))
        self.t0 = c.choice(EXACT_STARTS if exact else STARTS)
        self.exact = exact or all(exactly(1 / r) for r in self.rates) and exactly(self.t0)
        self.coarse = min(self.rates)

    def grid(self, k, rate):
        return self.t0 + F(k) / rate


def exactly(x):
    " is x a dyadic number with room to spare in a double? "
    d = x.denominator
    return d & (d - 1) == 0 and abs(x.numerator) < 2 ** 48


class Uid:
    " unique channel numbers; sample value = uid * 4096 + k "
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def values(uid, n, k0=0):
    if n >= 500000:
        return Ramp((uid, k0, k0 + n, 0.))
    return (uid * 4096 + k0 + np.arange(n)).astype(float)


def gen_tags(c, nch, names=None, all_tagged=True, groups=True, repeat=0.):
    names = list(names or NAMES)
    if nch > len(names):
        names += [f'st{i:02d}' for i in range(nch + 4 - len(names))]
    c.rnd.shuffle(names)
    tags = {}
    for i in range(nch):
        if all_tagged or c.chance(.7):
            tags[names.pop()] = (i,)
    if groups:
        for _ in range(c.int(0, 3)):
            if not names:
                break
            k = c.int(1, nch)
            group = c.rnd.sample(range(nch), k)
            if repeat and c.chance(repeat): # a name may list a channel more than once
                group += c.rnd.choices(group, k=c.int(1, nch + 1))
            tags[names.pop()] = tuple(group)
    items = list(tags.items())
    c.rnd.shuffle(items)
    return dict(items)


LONG = [10 ** 6, 2 ** 24 + 1, 10 ** 8, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 5 * 10 ** 9]


class Lazy:
    " array-like over a Ramp that computes what it is asked for "
    def __init__(self, ramp):
        self.ramp, self.shape, self.dtype, self.ndim, self.read = ramp, (len(ramp),), np.dtype(float), 1, 0

    def __getitem__(self, idx):
        (idx,) = idx if isinstance(idx, tuple) else (idx,)
        if isinstance(idx, slice) and (idx.step or 1) > 0:
            self.read += len(self.ramp[idx])
            if self.read > 2 ** 28:
                raise MemoryError('a long lazy run is read in full')
            return self.ramp[idx].values()[::idx.step or 1]
        i = range(self.shape[0])[idx]
        return self.ramp[i:i + 1].values()[0]


def crowd(c, p=.012, lo=100, hi=280):
    " a count far above the usual ones, now and then "
    if c.chance(p):
        c.obs('crowd')
        return c.int(lo, hi)
    return 0


def gen_layout(c, clock, nruns, nmin=2, nmax=30, start=None, frac=False, gaps=None, rate=None, grid=False, sizes=None):
    " [(rate, t, n)] in time order "
    out = []
    t = clock.grid(c.int(-5, 5), clock.coarse) if start is None else start
    r = rate or c.choice(clock.rates)
    for _ in range(nruns):
        n = c.int(nmin, nmax) if sizes is None else c.choice(sizes) + c.int(-3, 3)
        out.append((r, t, n))
        stop = t + F(n - 1) / r
        g = c.choice(gaps or [1, 1, 1, 2, 3, 7, 0] + ([F(1, 4), F(3, 2), F(5, 2)] if frac else []))
        if g == 0 and not (clock.exact and exactly(stop)):
            g = 1
        t = stop + F(g) / r
        last, r = r, rate or c.choice(clock.rates)
        if (grid and r != last) or (not grid and len(clock.rates) > 1 and g != 0 and c.chance(.5)):
            k = (t - clock.t0) * clock.coarse          # go to the common grid, never before the gap
            t = clock.grid(-((-k) // 1), clock.coarse)
    return out


def gen_set(c, uid, clock, nruns=None, nch=None, tags=None, layout=None, half=.15, **kw):
    nch = nch or c.int(1, 4)
    nruns = c.int(1, 4) if nruns is None else nruns
    layout = gen_layout(c, clock, nruns, **kw) if layout is None else layout
    runs = []
    for rate, t, n in layout:
        ids = [uid() for _ in range(nch)]
        cal = [ConstCal(u) if c.chance(.3) else Cal(u) for u in ids]
        offs = [.5 * c.chance(half) for u in ids]        # some samples are not whole numbers
        runs.append(Run(rate, t, [values(u, n) + h if n < 500000 else Ramp((u, 0, n, h)) for u, h in zip(ids, offs)], cal))
    return MSet(gen_tags(c, nch, all_tagged=not c.chance(.15), repeat=.15) if tags is None else tags, runs, nch)


REPRS = ['f8', 'f8', 'i8', 'i4', 'f4', 'dask', 'dask-i', 'strided', 'readonly']


def realize_array(c, x, rep):
    if isinstance(x, Ramp):
        return da.from_array(Lazy(x), chunks=c.choice([2 ** 20 + 1, 2 ** 21]), fancy=False)
    if rep in ('i8', 'i4', 'dask-i') and not np.array_equal(x, np.floor(x)):
        rep = 'f4' if rep != 'dask-i' else 'dask'
    if rep == 'f8':
        return x.copy()
    if rep == 'strided':
        y = np.zeros(2 * len(x))
        y[::2] = x
        return y[::2]
    if rep == 'readonly':
        y = x.copy()
        y.flags.writeable = False
        return y
    if rep in ('i8', 'i4', 'f4'):
        return x.astype(rep)
    if rep == 'dask':
        return da.from_array(x.copy(), chunks=c.int(1, max(1, len(x) + 3)))
    if rep == 'dask-i':
        return da.from_array(x.astype('i4'), chunks=c.int(1, max(1, len(x))))
    raise ValueError(rep)


def number(c, x):
    " x (Fraction) as one of the numeric types a user may give "
    f = float(x)
    k = c.int(0, 5)
    if k == 0 and f == int(f):
        return int(f)
    if k == 1:
        return np.float64(f)
    if k == 2 and f == int(f) and abs(f) < 2 ** 31:
        return c.choice([np.int32, np.int64])(f)
    if k == 3 and f == float(np.float32(f)):
        return np.float32(f)
    return f


def realize_run(c, run, reps=None, SyncSignal=None):
    import razorback as rb
    reps = reps or REPRS
    rep = c.choice(reps)
    data = [realize_array(c, x, rep if c.chance(.7) else c.choice(reps)) for x in run.data]
    cals = [cal_arg(k) for k in run.cals]
    return rb.SyncSignal(data, number(c, run.rate), number(c, run.t), cals)


def realize(c, m, reps=None, tag_form=None):
    import razorback as rb
    runs = [realize_run(c, r, reps) for r in m.runs]
    order = list(range(len(runs)))
    if all(a.stop < b.t for a, b in zip(m.runs, m.runs[1:])):
        c.rnd.shuffle(order)
    form = tag_form or c.choice(['dict', 'Tags', 'int'])
    if form == 'Tags':
        tags = rb.Tags(m.nch, **m.tags)
    elif form == 'int':
        tags = {k: (v[0] if len(v) == 1 else list(v)) for k, v in m.tags.items()}
    else:
        tags = dict(m.tags)
    return rb.SignalSet(tags, *[runs[i] for i in order])


def time_close(got, want, *others, rate=None):
    " equality of times up to the rounding of a few float operations on times of this size "
    w = float(want)
    tol = 16 * np.spacing(max([abs(w), 1e-3] + [abs(float(o)) for o in others]))
    return abs(float(got) - w) <= max(tol, 1e-7 / float(rate) if rate else 0)


def check_run(c, got, want, label):
    c.ok(got.sampling_rate == float(want.rate), f'{label}: sampling rate', got=got.sampling_rate, want=want.rate)
    c.ok(got.size == want.n, f'{label}: number of samples', got=got.size, want=want.n)
    c.ok(time_close(got.start, want.t, want.stop, rate=want.rate), f'{label}: start time', got=got.start, want=float(want.t))
    c.ok(time_close(got.stop, want.stop, want.t, want.stop - want.t, rate=want.rate), f'{label}: stop time', got=got.stop, want=float(want.stop))
    c.ok(len(got.data) == len(want.data), f'{label}: number of channels', got=len(got.data), want=len(want.data))
    c.ok(len(got.calibrations) == len(want.data), f'{label}: number of calibrations')
    for i, (g, w) in enumerate(zip(got.data, want.data)):
        if isinstance(w, Ramp):
            n = len(w)
            c.ok(g.shape == (n,), f'{label}: shape of channel {i}', got=g.shape, want=n)
            for a in sorted({0, n - 2, c.int(0, n - 2)} if n > 1 else {0}):
                c.eq(np.asarray(g[a:a + 2]), w[a:a + 2].values(), f'{label}: samples of channel {i} from {a}')
        else:
            c.eq(np.asarray(g), w, f'{label}: samples of channel {i}')
    for i, (g, w) in enumerate(zip(got.calibrations, want.cals)):
        for f in (1., 2.5):
            c.ok(g(f) == w(f), f'{label}: calibration of channel {i}', got=g(f), want=w(f))


def check_set(c, got, want, label, tags=True):
    " same runs, same channel order; same names when tags "
    c.ok(got.nb_runs == len(want.runs), f'{label}: number of runs', got=str(got.intervals), want=[
        (float(r.t), float(r.stop), str(r.rate)) for r in want.runs])
    c.ok(got.nb_channels == want.nch or untagged_empty(want), f'{label}: number of channels', got=got.nb_channels, want=want.nch)
    if tags:
        c.ok({k: tuple(v) for k, v in dict(got.tags).items()} == want.tags, f'{label}: names',
             got=dict(got.tags), want=want.tags)
    for k, (g, w) in enumerate(zip(got.signals, want.runs)):
        check_run(c, g, w, f'{label}, run {k}')


def untagged_empty(m):
    " without runs, only named channels are known "
    return not m.runs and {i for v in m.tags.values() for i in v} != set(range(m.nch))


def check_names(c, got, want, label):
    " every name designates the same samples and calibrations, whatever the channel order "
    c.ok(set(got.tags) == set(want.tags), f'{label}: names', got=sorted(got.tags), want=sorted(want.tags))
    c.ok(got.nb_runs == len(want.runs), f'{label}: number of runs', got=str(got.intervals), want=[
        (float(r.t), float(r.stop), str(r.rate)) for r in want.runs])
    c.ok(got.nb_channels == want.nch or untagged_empty(want), f'{label}: number of channels', got=got.nb_channels, want=want.nch)
    for k, (g, w) in enumerate(zip(got.signals, want.runs)):
        check_run(c, _named(got.tags, g), _named(want.tags, w, want=True), f'{label}, run {k}, channels by name {sorted(want.tags)}')


class _named:
    " a run seen through names (sorted) instead of channel indices "
    def __init__(self, tags, run, want=False):
        idx = [i for t in sorted(tags) for i in tags[t]]
        self.data = [run.data[i] for i in idx]
        if want:
            self.cals = [run.cals[i] for i in idx]
            self.rate, self.t, self.n, self.stop = run.rate, run.t, run.n, run.stop
        else:
            self.calibrations = [run.calibrations[i] for i in idx]
            self.sampling_rate, self.start, self.size, self.stop = run.sampling_rate, run.start, run.size, run.stop


def gen_bound(c, m, special=True):
    " a time on, between, at the ends of or outside the samples of a random run "
    if not m.runs:
        return F(c.int(-5, 5))
    r = c.choice(m.runs)
    k = c.int(0, 5)
    if k == 0:
        return r.t
    if k == 1:
        return r.stop
    q = F(c.int(-3, r.n + 2))
    if k >= 4:
        q += c.choice([F(1, 10), F(1, 4), F(1, 2), F(3, 4), F(9, 10), F(1, 3), F(1, 16), F(1, 50), F(1, 1000), F(49, 50), F(999, 1000)])
    return r.t + q / r.rate


def unambiguous_bound(m, t):
    from .model import Ambiguous
    try:
        for r in m.runs:
            r.pos(t)
    except Ambiguous:
        return False
    return True


def describe(m):
    return dict(tags=m.tags, runs=[(str(r.rate), str(r.t), r.n) for r in m.runs])

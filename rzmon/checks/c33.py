"""C33: invariants of every run and signal set created while hostile workloads run; ill-formed data refused."""
import functools

import dask.array as da
import numpy as np

from .. import files, gen, mt
from ..core import Skip, Violation

RULE = ('every run and signal set constructed anywhere in the process, by the user or inside the package, is inspected right after construction and again at the end, under unrestricted '
        'random programs (joins, merges, selections, restrictions with any bounds, fusions, inventories, packs, loads, name edits, estimations); ill-formed runs, sets and names built by '
        'mutating well-formed ones must be refused; distinct by program or mutation')
CASES = dict(quick=5400, thorough=40000)
MIN = dict(runs_inspected=8000, sets_inspected=5000, internal_sets=1500, refused_runs=80, refused_sets=130, refused_tags=130, edits=150, operations=1500, empty_sets=100, estimations=8,
           reinspected=1500, attributes=5000)
_mon = {}


class Monitor:
    def __init__(self):
        self.c, self.depth, self.bad, self.keep = None, 0, None, []

    def install(self, rb):
        for cls, check in ((rb.SyncSignal, self.run), (rb.SignalSet, self.set)):
            cls.__init__ = self.wrap(cls.__init__, check)

    def wrap(self, init, check):
        @functools.wraps(init)
        def wrapped(obj, *a, **k):
            init(obj, *a, **k)
            if self.c is not None:
                try:
                    check(obj)
                except Violation as ex:
                    self.bad = self.bad or str(ex)
                    raise
        return wrapped

    def run(self, r):
        c = self.c
        c.obs('runs_inspected')
        c.ok(len(r.data) == len(r.calibrations) and all(callable(k) for k in r.calibrations), 'one calibration per channel', got=(len(r.data), len(r.calibrations)))
        c.ok(len(r.data) > 0 and all(len(x) == r.size and np.ndim(x) == 1 for x in r.data), 'all channels have the same length', got=[np.shape(x) for x in r.data], size=r.size)
        rate = r.sampling_rate
        want = r.start + (r.size - 1) / rate
        tol = 1e-6 / abs(rate) + 8 * np.spacing(max(abs(r.start), abs(want)))
        c.ok(abs(r.stop - want) <= tol, 'stop time', start=r.start, stop=r.stop, size=r.size, rate=rate)
        a, b = r.interval
        c.ok(a == r.start and b == r.stop, 'interval of a run')
        c.ok(tuple(r.signals) == (r,), 'a run is its own sequence of runs')

    def set(self, s):
        c = self.c
        c.obs('sets_inspected')
        runs = s.signals
        n = s.nb_channels
        c.ok(s.nb_runs == len(runs), 'number of runs')
        c.obs('empty_sets', int(not runs))
        for r in runs:
            c.ok(len(r.data) == n, 'runs have the same channels', got=[len(x.data) for x in runs])
        for a, b in zip(runs, runs[1:]):
            tol = 1e-6 / max(a.sampling_rate, b.sampling_rate) + 8 * np.spacing(abs(a.stop))
            c.ok(a.start <= b.start, 'runs in time order', starts=[r.start for r in runs])
            c.ok(a.stop <= b.start + tol, 'runs do not overlap', intervals=[r.interval for r in runs])
        for name, idx in s.tags.items():
            c.ok(isinstance(idx, tuple) and len(idx) > 0 and all(i == int(i) and 0 <= i < n for i in idx), 'names designate existing channels', name=name, idx=idx, channels=n)
        for got, attr in ((s.sampling_rates, 'sampling_rate'), (s.sizes, 'size'), (s.starts, 'start'), (s.stops, 'stop')):
            c.ok(list(got) == [getattr(r, attr) for r in runs], f'attribute {attr} of the runs', got=list(got))
        c.ok([tuple(x) for x in s.intervals] == [tuple(r.interval) for r in runs], 'intervals of the runs')
        c.obs('attributes', 5)
        if len(self.keep) < 60 or c.chance(.2):
            self.keep.append(s)


def case(c):
    import razorback as rb
    if 'm' not in _mon:
        _mon['m'] = Monitor()
        _mon['m'].install(rb)
    m = _mon['m']
    m.c, m.bad, m.keep = c, None, []
    try:
        k = c.idx % 10
        if k < 6:
            program(c, rb, m)
        elif k == 6 and c.idx % 20 == 6:
            estimate(c, rb, m)
        else:
            illformed(c, rb, m)
        for s in m.keep[:120]:
            for r in s.signals:
                m.run(r)
            m.set(s)
            c.obs('reinspected')
        if m.bad:
            c.fail(m.bad)
    finally:
        m.c, m.keep = None, []


def attempt(c, m, fn):
    " an operation may be refused; whatever it creates is inspected "
    c.obs('operations')
    try:
        return fn()
    except Violation:
        raise
    except Exception:
        if m.bad:
            c.fail(m.bad)
        return None


def program(c, rb, m):
    clock = gen.Clock(c)
    uid = gen.Uid()
    pool = []
    names = list(gen.NAMES)
    trace = []

    def user_set():
        nch = c.int(1, 3)
        tags = gen.gen_tags(c, nch, names=c.rnd.sample(names, 6), all_tagged=c.chance(.8), repeat=.1)
        ms = gen.gen_set(c, uid, clock, nch=nch, tags=tags, nruns=c.int(0, 4), frac=c.chance(.4), nmin=c.choice([1, 2, 2, 2]))
        return gen.realize(c, ms)
    for _ in range(c.int(2, 4)):
        s = attempt(c, m, user_set)
        if s is not None:
            pool.append(s)
    if not pool:
        raise Skip
    before = c.stats.counts.get('sets_inspected', 0)
    own = 0
    for _ in range(c.int(5, 20)):
        s, o = c.choice(pool), c.choice(pool)
        op = c.choice(['join', 'merge', 'sel', 'sel', 'runs', 'time', 'time', 'time', 'excl', 'fuse', 'edit', 'wrap', 'pack', 'item', 'runtime', 'or', 'twin', 'inv', 'order'])
        trace.append(op)
        c.note(trace=trace[-8:])
        ts = [x for q in s.signals for x in q.interval] or [0.]

        def bound():
            dt = 1 / max(list(s.sampling_rates) + [1e-3])
            return c.choice(ts) + c.choice([0, 0, dt, -dt, .5 * dt, 3 * dt, -2.3 * dt, 1e-9, 1e5, -1e5, c.rng.normal() * 10 * dt])
        chans = lambda: c.choice([c.choice(names), c.int(-3, 3), slice(c.int(-2, 2), c.int(-1, 4)), list(s.tags)[:c.int(0, 2)], [c.int(-2, 4), c.int(-2, 4)], np.array([0, c.int(0, 2)])])
        runs = lambda: c.choice([c.int(-4, 4), slice(c.int(-3, 3), c.int(-3, 5), c.choice([None, 1, 2, -1])), [c.int(-3, 3)], [0, 0], [], np.array([c.chance(.5) for _ in range(s.nb_runs)], dtype=bool)])
        a, b = bound(), bound()
        if op == 'join':
            t = attempt(c, m, lambda: s.join(o))
        elif op == 'or':
            t = attempt(c, m, lambda: s | o)
        elif op == 'merge':
            t = attempt(c, m, lambda: s & o if c.chance(.5) else s.merge(o, c.choice(pool)))
        elif op == 'sel':
            t = attempt(c, m, lambda: s.select_channels(chans()))
        elif op == 'item':
            t = attempt(c, m, lambda: s[chans()] if c.chance(.5) else s[chans(), runs()])
        elif op == 'runs':
            t = attempt(c, m, lambda: s.select_runs(runs()))
        elif op == 'time':
            t = attempt(c, m, lambda: s.extract_t(a, b))
        elif op == 'excl':
            t = attempt(c, m, lambda: s.extract_t(a, b, exclude=True))
        elif op == 'fuse':
            t = attempt(c, m, s.merge_consecutive_runs)
        elif op == 'twin':          # the same names shifted in time, joined
            d = c.choice([0., 1., 1000., (max(ts) - min(ts)) + 1 / max(list(s.sampling_rates) + [1.])])
            t = attempt(c, m, lambda: s | rb.SignalSet(s.tags, *[rb.SyncSignal(r.data, r.sampling_rate, r.start + d, r.calibrations) for r in s.signals]))
        elif op == 'wrap':
            t = attempt(c, m, lambda: rb.SignalSet(c.choice([s.tags, dict(s.tags), {}]), *s.signals[:c.int(0, 3)]))
        elif op == 'order':
            t = attempt(c, m, lambda: rb.SignalSet(s.tags, *c.rnd.sample(list(s.signals) + list(o.signals), c.int(0, len(s.signals)))))
        elif op == 'runtime':
            if s.signals:
                r = c.choice(s.signals)
                attempt(c, m, lambda: r.extract_t(a, b, c.choice([True, False])))
                attempt(c, m, lambda: r.extract_i(c.int(-3, 8), c.int(-3, 12), strict=c.chance(.5), include_last=c.chance(.5)))
                attempt(c, m, lambda: r.select(*[c.int(-2, 3) for _ in range(c.int(0, 3))]))
            t = None
        elif op in ('inv', 'pack'):
            inv = rb.Inventory(c.rnd.sample(pool, c.int(1, min(4, len(pool)))))
            if op == 'pack':
                t = attempt(c, m, lambda: inv.pack(c.chance(.5)))
            else:
                q = attempt(c, m, lambda: c.choice([lambda: inv.filter('*'), lambda: inv.extract_t(a, b), lambda: inv.select_runs(runs()), lambda: inv.extract_groups({'G': list(s.tags)[:2]})])())
                t = q[0] if q else None
        else:
            name, idx = c.choice(names), c.choice([0, (0, 1), 5, -1, (), [0, 9], s.nb_channels, s.nb_channels - 1])
            c.obs('edits')

            def edit():
                k = c.int(0, 3)
                if k == 0:
                    s.tags[name] = idx
                elif k == 1:
                    setattr(s.tags, name, idx)
                elif k == 2:
                    s.tags = {name: idx, 'first': 0}
                else:
                    s.tags.update({name: idx})
            attempt(c, m, edit)
            m.set(s)
            t = None
        own += 1
        if t is not None and t.nb_channels <= 10 and t.nb_runs <= 12:
            pool.append(t)
    c.obs('internal_sets', max(0, c.stats.counts.get('sets_inspected', 0) - before - own))
    c.sig(trace, len(pool))
    c.sample(trace=trace)


def estimate(c, rb, m):
    s = mt.site(c, nr=2, noise_e=.1, noise_b=.05, noise_r=.05, sizes=[c.int(300, 800) for _ in range(c.int(1, 3))], mixed=.5)
    sig = mt.realize(c, s)
    fo, (nper, ov, tap) = mt.fourier_opts(c)
    freqs = [f for f in mt.pick_freqs(c, s, 2, nper) if mt.feasible(s, f, nper, ov)]
    if not freqs:
        raise Skip
    kw = {} if fo is None else dict(fourier_opts=fo)
    attempt(c, m, lambda: rb.utils.impedance(sig, freqs, remote='R' if c.chance(.5) else None, **kw))
    inv = rb.Inventory([sig.select_channels([i]) for i in range(sig.nb_channels)])
    attempt(c, m, inv.pack)
    c.obs('estimations')


def expect(c, m, fn, label):
    c.refused(fn, label)
    if m.bad:
        c.fail(m.bad)


def illformed(c, rb, m):
    kind = c.choice(['lengths', 'cals', 'nodata', 'overlap', 'contain', 'channels', 'range', 'setrange', 'assign', 'update', 'tagsobj', 'empty_group', 'joined', 'appended'])
    nch, n = c.choice([1, 2, 3, 4, 4, 9]), c.int(2, 30)
    rate, t0 = c.choice([1., 2., 512., .1, 3.]), c.choice([0., 1e3, 1.46e9])
    wrap = c.choice([np.asarray, np.asarray, list, lambda x: da.from_array(np.asarray(x), chunks=3)])

    def data(k=None, size=None):
        return [wrap(c.rng.normal(size=size or n)) for _ in range(nch if k is None else k)]

    def run(t=t0, k=None, size=None, r=rate):
        return rb.SyncSignal(data(k, size), r, t)
    tags = {f'n{i}': i for i in range(nch)}
    c.note(kind=kind, channels=nch, n=n, rate=rate, t0=t0)
    c.sig(kind, nch, n, rate, t0)
    after = t0 + n / rate + c.choice([0., 1., 50.])
    if kind in ('lengths', 'cals', 'nodata'):
        c.obs('refused_runs')
        if kind == 'lengths':
            d = data(max(2, nch))
            d[c.int(0, len(d) - 1)] = wrap(c.rng.normal(size=n + c.choice([1, -1, 5])))
            expect(c, m, lambda: rb.SyncSignal(d, rate, t0), 'channels of different lengths')
        elif kind == 'cals':
            k = c.choice([nch + 1, nch + 2, nch - 1 or nch + 1])
            expect(c, m, lambda: rb.SyncSignal(data(), rate, t0, [c.choice([1., abs]) for _ in range(k)]), 'wrong number of calibrations')
        else:
            expect(c, m, lambda: rb.SyncSignal([], rate, t0), 'run without channel')
        return
    if kind in ('overlap', 'contain', 'channels', 'joined', 'appended'):
        c.obs('refused_sets')
        ok = [run(), run(after)]
        rb.SignalSet(tags, *ok)
        more = [run(t0 + (2000 + 3 * k) * n / rate) for k in range(c.choice([0, 0, 1, 4, 12]))]
        if kind == 'overlap':
            n2 = c.int(2, 40)
            t = t0 + c.choice([.5, 1, (n - 1) * .5, n - 1.5, 0., -(n2 - 1.5)]) / rate
            if t + (n2 - 1) / rate <= t0 or t >= t0 + (n - 1) / rate:
                raise Skip
            runs = [ok[0], run(t, size=n2)] + ([run(t0 + 1000 * n / rate)] if c.chance(.4) else []) + more
            c.rnd.shuffle(runs)
            expect(c, m, lambda: rb.SignalSet(tags, *runs), 'overlapping runs')
        elif kind == 'contain':
            runs = [run(size=n + 60), run(t0 + c.choice([1., 2.5]) / rate, size=c.choice([2, 5])), run(t0 + 30 / rate, size=2)]
            if c.chance(.5):
                runs.pop()
            runs += more
            c.rnd.shuffle(runs)
            expect(c, m, lambda: rb.SignalSet(tags, *runs), 'run inside another one')
        elif kind == 'channels':
            runs = ok + more + [run(after + 2 * n / rate, k=nch + c.choice([1, 2]))]
            c.rnd.shuffle(runs)
            expect(c, m, lambda: rb.SignalSet(tags, *runs), 'runs with different channels')
        elif kind == 'joined':
            a, b = rb.SignalSet(tags, run(), *more[::2]), rb.SignalSet(tags, *more[1::2], run(t0 + .5 * (n - 1) / rate))
            expect(c, m, lambda: c.choice([lambda: a | b, lambda: b | a, lambda: a.join(b), lambda: rb.SignalSet(tags, a, b)])(), 'join of overlapping sets')
        else:
            a = rb.SignalSet(tags, *ok, *more)
            expect(c, m, lambda: rb.SignalSet(tags, a, run(after + 3 * n / rate, k=nch + 1)), 'run with another number of channels')
        return
    c.obs('refused_tags')
    bad = c.choice([nch, nch + 3, -1, -nch, (0, nch), [nch - 1, -1]])
    s = rb.SignalSet(tags, run(), run(after))
    if c.chance(.3):
        s = c.choice([lambda: s.extract_t(t0, t0 + n / rate), lambda: s.select_runs([0]), lambda: s | rb.SignalSet(tags, run(after + 5 * n / rate))])()
    old = {k: tuple(v) for k, v in s.tags.items()}
    if kind == 'range':
        expect(c, m, lambda: rb.SignalSet({**tags, 'bad': bad}, run()), 'name out of range at construction')
    elif kind == 'tagsobj':
        more = rb.Tags(nch + 2, **tags, **c.choice([{'bad': nch + 1}, {}]))
        if c.chance(.5):
            expect(c, m, lambda: rb.SignalSet(more, run()), 'names for more channels')
        else:
            expect(c, m, lambda: setattr(s, 'tags', more), 'names for more channels, assigned later')
    elif kind == 'setrange':
        def go():
            s.tags['bad'] = bad
        expect(c, m, go, 'name out of range, set later')
    elif kind == 'assign':
        def go():
            s.tags = {**tags, 'bad': bad}
        expect(c, m, go, 'names out of range, assigned later')
    elif kind == 'empty_group':
        def go():
            s.tags[c.choice(['bad', 'n0'])] = c.choice([(), [], np.array([])])
        expect(c, m, go, 'name without channel')
    else:
        expect(c, m, lambda: c.choice([lambda: s.tags.update(bad=bad), lambda: setattr(s.tags, 'bad', bad), lambda: s.tags.setdefault('bad', bad)])(), 'name out of range, updated later')
    c.ok({k: tuple(v) for k, v in s.tags.items()} == old, 'refused names leave the set as it was', got=dict(s.tags), want=old)
    m.set(s)

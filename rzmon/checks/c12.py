"""C12: same values whatever the storage, chunking, deferred evaluation and scheduler."""
import threading

import dask
import dask.array as da
import numpy as np

from .. import files, gen
from ..core import Skip

RULE = ('the same survey stored as arrays of every integer and floating type (narrow, unsigned, big-endian, strided, reversed, read-only, memory-mapped), chunked lazy arrays and ATS files read under several chunk sizes; the same random chain of '
        'operations (join, merge, restriction, exclusion, selection, fusion, pack) and Fourier coefficients, eager or deferred, under sync/threaded schedulers with 1-8 '
        'workers and from concurrent threads; non-trivial = at least 3 storages compared; distinct by storages and chain')
CASES = dict(quick=300, thorough=8000)
MIN = dict(storages=120, file_backed=25, chunked=25, deferred=40, threads=60, sync=25, concurrent=8, coeff_sets=100, ops=60, small_chunks=20, large=4, types=40, mmap=10)

STORES = ['f8', 'i4', 'i8', 'f4', 'strided', 'readonly', 'dask', 'dask-i', 'ats', 'ats', 'dask-f4', '>f8', 'mmap', 'reversed']
NARROW = ['f8', 'i2', 'u2', 'u4', 'u8', '>i4', '>i2', 'f4', 'f2', 'dask', 'dask-i', 'ats', 'mmap', 'reversed']


def store(c, kind, xs, rate, start, lsb, cals, tag, k):
    import razorback as rb
    ints = [np.round(x / lsb).astype('i4') for x in xs]
    if kind == 'ats':
        names = [files.write_ats(c.scratch / tag / f'run{k}_{i}.ats', y, rate, int(start), lsb) for i, y in enumerate(ints)]
        size = c.choice(['128B', '1kiB', '333B', '64kiB', '128MiB'])
        if size in ('128B', '333B', '1kiB'):
            c.obs('small_chunks')
        with dask.config.set({'array.chunk-size': size}):
            return rb.io.load_ats(names, cals)
    reps = []
    for x in xs:
        if kind in ('i4', 'i8', 'dask-i') and lsb == 1.:
            a = x.astype('i8' if kind == 'i8' else 'i4')
        elif kind in ('f4', 'dask-f4'):
            a = x.astype('f4')
        elif lsb == 1. and kind in NARROW[1:7] or kind in ('>f8', 'f2'):
            a = x.astype(kind)
            c.obs('types')
        else:
            a = x.copy()
        if kind == 'strided':
            b = np.zeros((len(a), 3))
            b[:, 1] = a
            a = b[:, 1]
        elif kind == 'readonly':
            a.flags.writeable = False
        elif kind == 'reversed':
            a = a[::-1].copy()[::-1]
        elif kind == 'mmap':
            path = c.scratch / f'{tag}_{k}_{len(reps)}.bin'
            a.astype('f8').tofile(path)
            a = np.memmap(path, dtype='f8', mode='r')
            c.obs('mmap')
        elif kind.startswith('dask'):
            n = len(a)
            if c.chance(.5):
                cuts = sorted(c.rnd.sample(range(1, n), min(n - 1, c.int(1, 6))))
                chunks = (tuple(np.diff([0] + cuts + [n]).tolist()),)
            else:
                chunks = c.int(max(1, n // 40), n + 2)
            a = da.from_array(a, chunks=chunks)
        reps.append(a)
    return rb.SyncSignal(reps, rate, start, cals)


def case(c):
    import razorback as rb
    rate = c.choice([1., 2., 8., 64., 128., .5])
    lsb = c.choice([1., 1., .5, 2. ** -6])
    nch, nruns = c.int(1, 3), c.choice([1, 2, 3])
    sizes = [c.int(60, 500) for _ in range(nruns)]
    start = float(c.choice([0, 1460000000, 12]))
    span = int(max(sizes) / rate) + 2
    gap = c.choice([0, 3])
    starts, t = [], start
    for n in sizes:
        starts.append(t)
        t += np.ceil(n / rate) + gap
    cals = [c.choice([1., gen.Cal(3), 2 - 1j]) for _ in range(2 * nch)]
    data = [[c.rng.integers(-2 ** 20, 2 ** 20, size=n) * lsb for _ in range(2 * nch)] for n in sizes]
    stores = STORES
    if lsb == 1. and c.chance(.3):         # more than a single-precision number can hold
        stores = [k for k in STORES if 'f4' not in k]
        data = [[c.rng.integers(-2 ** 31 + 1, 2 ** 31 - 1, size=n).astype(float) for _ in range(2 * nch)] for n in sizes]
        c.obs('large')
    if lsb != 1.:
        data = [[np.clip(x, -2 ** 17, 2 ** 17) for x in d] for d in data]
    elif stores is STORES and c.chance(.4):       # values every type can hold
        stores = NARROW
        data = [[c.rng.integers(0, 2 ** 11, size=n).astype(float) for _ in range(2 * nch)] for n in sizes]
    kinds = ['f8'] + [c.choice(stores) for _ in range(c.int(3, 5))]
    if c.chance(.8) and 'ats' not in kinds:
        kinds.append('ats')
    names = [f'n{i}' for i in range(2 * nch)]
    # a chain of operations, the same for every storage
    total = t - start
    a, b = sorted([start + total * c.rnd.uniform(-.05, .6), start + total * c.rnd.uniform(.3, 1.1)])
    plan = [c.choice(['time', 'select', 'fuse', 'exclude', 'pack', 'none']) for _ in range(c.int(0, 3))]
    x0 = start + total * c.rnd.uniform(.1, .5)
    freq = rate * c.choice([.25, .2, .1, 1 / 3])
    nper, overlap = c.choice([2, 4, 8]), c.choice([0., .5, .71])
    taper = c.choice([None, np.hanning, rb.fourier_transform.slepian_window(2)])
    c.note(kinds=kinds, plan=plan, sizes=sizes, rate=rate, lsb=lsb, gap=gap)

    def build(j, kind):
        left, right = [], []
        for k, (xs, s) in enumerate(zip(data, starts)):
            kk = kind if c.chance(.85) else c.choice(stores)
            left.append(store(c, kk, xs[:nch], rate, s, lsb, cals[:nch], f's{j}l', k))
            right.append(store(c, kk, xs[nch:], rate, s, lsb, cals[nch:], f's{j}r', k))
        S = lambda runs, nn: rb.Inventory([rb.SignalSet({n: i for i, n in enumerate(nn)}, r) for r in runs])
        inv = S(left, names[:nch]) + S(right, names[nch:])
        if by_pack:
            s = inv.pack()
        else:
            l, r = [None, None]
            for x in inv:
                if names[0] in x.tags:
                    l = x if l is None else l | x
                else:
                    r = x if r is None else r | x
            s = l & r
        for op in plan:
            if op == 'time':
                s = s.extract_t(a, b)
            elif op == 'exclude':
                s = s.extract_t(x0, x0 + .1 * total, exclude=True)
            elif op == 'select':
                s = s.select_channels([names[-1], names[0]]) if nch > 1 else s.select_channels(names[-1])
            elif op == 'fuse':
                s = s.merge_consecutive_runs()
            elif op == 'pack':
                s = rb.Inventory([s]).pack()
            if not s.nb_runs:
                raise Skip
        return s

    by_pack = c.chance(.4)
    if 'select' in plan:
        i = plan.index('select')
        plan = [p for j, p in enumerate(plan) if p != 'select' or j == i]
    ref = build(0, 'f8')
    c.obs('ops', len(plan) + 1)
    ref_x = [[np.asarray(x) for x in run.data] for run in ref.signals]
    feasible = True
    try:
        ref_f, geo = ref.fourier_coefficients(freq, nper, overlap, taper)
        ref_f = [np.asarray(x) for x in ref_f]
    except Exception:
        feasible = False
    scale = max(float(np.abs(x).max()) for xs in ref_x for x in xs) * 3 + 1
    lst = [ref]
    for j, kind in enumerate(kinds[1:], 1):
        s = build(j, kind)
        lst.append(s)
        c.obs('storages')
        c.obs('file_backed', int(kind == 'ats'))
        c.obs('chunked', int(kind.startswith('dask')))
        c.ok(np.array_equal(s.intervals, ref.intervals) and list(s.sampling_rates) == list(ref.sampling_rates) and dict(s.tags) == dict(ref.tags),
             f'runs of storage {kind}', got=str(s.intervals), want=str(ref.intervals))
        sched = c.choice(['default', 'synchronous', 'threads'])
        conf = {} if sched == 'default' else dict(scheduler=sched)
        if sched == 'threads':
            conf['num_workers'] = c.choice([1, 2, 4, 8])
        with dask.config.set(**conf):
            for run, xs in zip(s.signals, ref_x):
                for x, w in zip(run.data, xs):
                    c.eq(np.asarray(x), w, f'samples of storage {kind}')
            compute_all(c, s, kind, freq, nper, overlap, taper, feasible, ref_f if feasible else None, geo if feasible else None, scale)
        c.obs({'default': 'threads', 'synchronous': 'sync', 'threads': 'threads'}[sched])
    if feasible and c.chance(.5):
        concurrent(c, lst, kinds, freq, nper, overlap, taper, ref_f, scale)
    c.sig(sorted(kinds), plan, sizes, nper, overlap)
    c.sample(**c.detail)


def compute_all(c, s, kind, freq, nper, overlap, taper, feasible, ref_f, geo, scale):
    if not feasible:
        c.refused(lambda: s.fourier_coefficients(freq, nper, overlap, taper), f'storage {kind}: coefficients refused for in-memory samples')
        return
    if s.nb_runs == 1 and c.chance(.5) or c.chance(.2):
        got = None
        off = 0
        for k, run in enumerate(s.signals):
            f, g = run.fourier_coefficients(freq, nper, overlap, taper, compute=False)
            c.ok(tuple(g) == tuple(x[k] for x in geo), f'storage {kind}: deferred geometry', got=g)
            f = list(f)
            c.rnd.shuffle(order := list(range(len(f))))
            for i in order:
                v = np.asarray(f[i].compute() if hasattr(f[i], 'compute') else f[i])
                c.close(v, ref_f[i][off:off + g[0]], f'storage {kind}: deferred coefficients', rtol=1e-11, scale=scale)
            off += g[0]
        c.obs('deferred')
    elif c.chance(.3):
        f, g = s.fourier_coefficients(freq, nper, overlap, taper, compute=False)
        c.ok(g == geo, f'storage {kind}: deferred geometry', got=g, want=geo)
        for x, w in zip(f, ref_f):
            c.close(np.asarray(x), w, f'storage {kind}: deferred coefficients', rtol=1e-11, scale=scale)
        c.obs('deferred')
    f, g = s.fourier_coefficients(freq, nper, overlap, taper)
    c.ok(g == geo, f'storage {kind}: geometry', got=g, want=geo)
    for x, w in zip(f, ref_f):
        c.close(np.asarray(x), w, f'storage {kind}: coefficients', rtol=1e-11, scale=scale)
    c.obs('coeff_sets')


def concurrent(c, lst, kinds, freq, nper, overlap, taper, ref_f, scale):
    n = c.choice([2, 4, 8])
    todo = [c.int(0, len(lst) - 1) for _ in range(n)]
    res, errs = [None] * n, []
    bar = threading.Barrier(n)

    def go(k):
        try:
            bar.wait(30)
            res[k] = [np.asarray(x) for x in lst[todo[k]].fourier_coefficients(freq, nper, overlap, taper)[0]]
        except BaseException as ex:
            errs.append(ex)
    ths = [threading.Thread(target=go, args=(k,)) for k in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join(60)
    c.ok(not errs, 'concurrent computation failed', errors=str(errs))
    for k, r in enumerate(res):
        for x, w in zip(r, ref_f):
            c.close(x, w, f'concurrent coefficients of storage {kinds[todo[k]]}', rtol=1e-11, scale=scale)
    c.obs('concurrent')

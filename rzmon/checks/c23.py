"""C23: loading ATS files, compared with what was written byte by byte."""
import os
import pathlib
import warnings

import dask
import numpy as np

from .. import files
from ..core import Skip
from ..gen import Cal

RULE = ('ATS files written byte by byte (full int32 range, 1 to 6 files, header lengths 1024 to 4096, random header fields, odd trailing bytes, announced lengths '
        'above, at and below the samples present), loaded by relative, absolute or Path names from several working directories under several chunk sizes, then read whole, '
        'by pieces and together; non-trivial = loaded and compared; distinct by layout and values')
CASES = dict(quick=4200, thorough=60000)
MIN = dict(loaded=500, channels=1000, short=80, longer=60, refused_start=12, refused_rate=12, headers=80, other_dirs=100, samename=60, calibrated=150, refused_empty=15,
           small_chunks=150, together=60, directories=30, filled_headers=200, bad_files=30, joined=60)
STARTS = [0, 1, -1, 1460000000, 2 ** 31 - 1, -2 ** 31, 946684800]
RATES = [1, 64, 128, 512, 1024, 4096, 65536, 0.5, 1 / 3, 2.5, 0.1, 262144]


def samples(c, n):
    k = c.int(0, 3)
    if k == 0:
        return c.rng.integers(-2 ** 31, 2 ** 31, size=n, dtype=np.int64).astype('<i4')
    if k == 1:
        return c.rng.choice(np.array([-2 ** 31, 2 ** 31 - 1, 0, -1, 1, 255, 256, 65536], dtype='i4'), size=n)
    return (c.int(0, 10 ** 6) * 1000 + np.arange(n)).astype('<i4')


def text(c, n):
    return bytes(c.rnd.choice(b'ABCxyz019 _-.') for _ in range(n))


def header_fields(c):
    out = {}
    for name, (_, code) in files.ATS_FIELDS.items():
        if name in ('header_length', 'sample_length', 'sampling_rate', 'start', 'lsbval') or c.chance(.3):
            continue
        if code.endswith('s'):
            out[name] = text(c, int(code[:-1]))
        elif code in 'bhi':
            m = {'b': 7, 'h': 15, 'i': 31}[code]
            out[name] = c.choice([0, 1, -1, 2 ** m - 1, -2 ** m, c.int(-2 ** m, 2 ** m - 1)])
        elif code == 'H':
            out[name] = c.choice([0, 1, 65535, 32768, c.int(0, 65535)])
        else:
            out[name] = float(np.float32(c.rng.normal() * 10. ** c.int(-3, 3)))
    return out


def check_header(c, path, fields, want):
    from razorback.io import ats
    h = ats.read_ats_header(path)
    for name, v in {**fields, **want}.items():
        if name in ('ADU_Lat', 'ADU_Long'):
            c.ok(abs(h[name] - v / 3600000.) <= 1e-12 * max(1, abs(v / 3600000.)), f'header {name}', got=h[name], want=v)
        elif name == 'ADU_Elev':
            c.ok(abs(h[name] - v / 100.) <= 1e-12 * max(1, abs(v / 100.)), f'header {name}', got=h[name], want=v)
        else:
            c.ok(h[name] == v, f'header {name}', got=h[name], want=v)
    c.obs('headers')


def case(c):
    from razorback.io import ats
    import razorback as rb
    root = c.scratch
    k = c.choice([1, 1, 2, 2, 3, 4, 6])
    rate = float(np.float32(c.choice(RATES)))
    start = c.choice(STARTS + [c.int(-10 ** 9, 2 * 10 ** 9)])
    n = c.choice([1, 2, 3, 7, 64, c.int(1, 300), c.int(1, 5000)])
    dirs = [root / d for d in (['a', 'b', 'c'] if c.chance(.5) else [c.choice(['only', 'site[1]', 'a*', 'b c', 'x?'])])]
    for d in dirs:
        d.mkdir()
    lsb = [c.choice([1., -1., 1e-9, 0.5, 3.0e-7, 1 / 3, 2.44140625e-4, 1e6]) for _ in range(k)]
    data, paths, plans = [], [], []
    samename = len(dirs) > 1 and c.chance(.5)
    short_all = c.chance(.25)
    for i in range(k):
        x = samples(c, n)
        d = dirs[i % len(dirs)]
        p = d / (f'ch{i // len(dirs) if samename else i}.ats')
        plan = c.choice(['exact', 'exact', 'exact', 'longer'] if not short_all else ['short', 'short', 'exact', 'longer'])
        hl = c.choice([1024, 1024, 1024, 1026, 1152, 4096])
        more = header_fields(c) if c.chance(.3) else {}
        c.obs('filled_headers', int(bool(more)))
        if plan == 'short':
            blob = files.ats_bytes(x, rate, start, lsb[i], announced=n + c.choice([1, 2, 1000, 2 ** 31 - 1 - n]), header_length=hl, **more)
        elif plan == 'longer':
            blob = files.ats_bytes(np.concatenate([x, samples(c, c.int(1, 20))]), rate, start, lsb[i], announced=n, header_length=hl, **more)
        else:
            blob = files.ats_bytes(x, rate, start, lsb[i], header_length=hl, **more)
        if plan != 'exact' and c.chance(.3):
            blob += b'\x7f' * c.int(1, 3)
        p.write_bytes(blob)
        data.append(x.astype(float) * lsb[i])
        paths.append(p)
        plans.append(plan)
    c.note(k=k, n=n, rate=rate, start=start, plans=plans, lsb=lsb, samename=samename)
    cals = None
    if c.chance(.4):
        cals = [Cal(i + 1) for i in range(k)]
    chunk = c.choice(['128 MiB', '128 MiB', '4 B', '40 B', '100 B', '1 KiB'])
    if n > 400 and chunk in ('4 B', '40 B'):
        chunk = '1 KiB'
    c.obs('small_chunks', int(chunk != '128 MiB'))
    with dask.config.set({'array.chunk-size': chunk}):
        one_dir = len(dirs) == 1
        form = c.choice(['abs', 'Path', 'rel'])
        if form == 'rel':
            os.chdir(dirs[0] if one_dir and c.chance(.5) else root)
        names = [{'abs': str, 'Path': pathlib.Path, 'rel': lambda q: os.path.relpath(q)}[form](p) for p in paths]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            sig = ats.load_ats(names, cals) if cals is not None or c.chance(.5) else ats.load_ats(names)
        told = [str(w.message) for w in ws if issubclass(w.category, UserWarning)]
    c.ok(bool(told) == ('short' in plans), 'a warning exactly when samples are missing', told=told)
    for plan in plans:
        c.obs('short', int(plan == 'short'))
        c.obs('longer', int(plan == 'longer'))
    os.chdir(dirs[-1])                                   # reading does not depend on the working directory
    check(c, sig, data, rate, start, n)
    if cals is not None:
        c.ok(len(sig.calibrations) == k and all(a is b for a, b in zip(sig.calibrations, cals)), 'calibrations in the order given')
        c.obs('calibrated')
    c.obs('loaded')
    c.sig(k, n, rate, start, plans, lsb, data[0][:3].tolist())
    c.sample(**c.detail)
    sub = c.idx % 6
    if sub == 0:
        per_directory(c, ats, rb)
    elif sub == 1:
        refusals(c, ats)
    elif sub == 2:
        fields = header_fields(c)
        p = root / 'h.ats'
        ln = c.choice([1024, 1100, 2048])
        files.write_ats(p, samples(c, 3), rate, start, lsb[0], header_length=ln, **fields)
        check_header(c, c.choice([str(p), p]), fields, dict(header_length=ln, sample_length=3, sampling_rate=rate, start=start, lsbval=lsb[0]))
    elif sub == 3:
        joined(c, ats, rb)
    elif sub == 4 and one_dir:
        (dirs[0] / 'notes.txt').write_text('no data')
        where = c.choice([str(dirs[0]), dirs[0]])
        got = ats.load_ats_from(where, cals) if cals is not None else ats.load_ats_from(where)
        order = sorted(range(k), key=lambda i: paths[i].name)
        check(c, got, [data[i] for i in order], rate, start, n)
        if cals is not None:
            c.ok(all(a is b for a, b in zip(got.calibrations, cals)), 'calibrations of a directory go with the files in name order')
        c.obs('directories')


def check(c, sig, data, rate, start, n):
    c.ok(sig.sampling_rate == rate and sig.start == start and sig.size == n, 'rate, start and size', got=(sig.sampling_rate, sig.start, sig.size), want=(rate, start, n))
    c.ok(len(sig.data) == len(data), 'one channel per file')
    together = c.chance(.3)
    got = dask.compute(*sig.data, scheduler=c.choice(['threads', 'sync'])) if together else [np.asarray(x) for x in sig.data]
    c.obs('together', int(together))
    for i, (g, w) in enumerate(zip(got, data)):
        c.eq(g, w, f'samples of channel {i}')
        c.obs('channels')
    a, b = sorted([c.int(0, n), c.int(0, n)])
    i = c.int(0, len(data) - 1)
    c.eq(np.asarray(sig.data[i][a:b]), data[i][a:b], f'piece of channel {i}')


def per_directory(c, ats, rb):
    " the same relative names, loaded from several working directories, then used together "
    root = c.scratch / 'sites'
    k, n = c.int(1, 3), c.int(2, 40)
    sets, want = [], []
    for s in range(c.choice([2, 3])):
        d = root / f's{s}'
        d.mkdir(parents=True)
        xs = []
        for i in range(k):
            xs.append(samples(c, n))
            files.write_ats(d / f'ch{i}.ats', xs[-1], 64., 1000, 1.)
        os.chdir(d)
        sets.append(ats.load_ats([f'ch{i}.ats' if c.chance(.7) else pathlib.Path(f'ch{i}.ats') for i in range(k)]))
        want.append(xs)
    os.chdir(root)
    flat = [x for s in sets for x in s.data]
    for g, w in zip(dask.compute(*flat, scheduler=c.choice(['threads', 'sync'])), [x for xs in want for x in xs]):
        c.eq(g, w.astype(float), 'same relative names from different directories')
    merged = None
    for s, sig in enumerate(sets):
        one = rb.SignalSet({f's{s}c{i}': i for i in range(k)}, sig)
        merged = one if merged is None else merged & one
    stack = merged.signals[0].data
    import dask.array as da
    got = np.asarray(da.stack(stack))
    for i, w in enumerate([x for xs in want for x in xs]):
        c.eq(got[i], w.astype(float), 'same relative names, merged')
    c.obs('samename')
    c.obs('other_dirs', len(sets))


def joined(c, ats, rb):
    " two recordings of one site in time order "
    root = c.scratch / 'runs'
    n1, n2, r = c.int(2, 50), c.int(2, 50), float(c.choice([1, 2, 64]))
    t1 = c.int(0, 10 ** 9)
    t2 = t1 + int(n1 / r) + c.int(1, 50)
    sets, want = [], []
    for t, n in ((t1, n1), (t2, n2)):
        xs = [samples(c, n) for _ in range(2)]
        ps = [files.write_ats(root / f'r{t}' / f'{i}.ats', x, r, t, .5) for i, x in enumerate(xs)]
        o = c.choice([(0, 1), (1, 0)])
        sets.append(rb.SignalSet({'a': o.index(0), 'b': o.index(1)}, ats.load_ats([ps[i] for i in o])))
        want.append(xs)
    s = sets[0] | sets[1] if c.chance(.5) else sets[1] | sets[0]
    for name, i in (('a', 0), ('b', 1)):
        for run, xs in zip(getattr(s, name).signals, want):
            c.eq(np.asarray(run.data[0]), .5 * xs[i], f'joined recordings, channel {name}')
    c.eq(np.asarray(s.starts, dtype=float), np.array([t1, t2], dtype=float), 'joined recordings, starts')
    c.obs('joined')


def refusals(c, ats):
    root = c.scratch / 'bad'
    x = samples(c, 10)
    k = c.int(2, 4)
    kind = c.choice(['start', 'rate', 'both', 'empty', 'nofile', 'str', 'nosample', 'cut', 'cals', 'none'])
    j = c.int(0, k - 1)
    ps = []
    for i in range(k):
        odd = i == j
        ps.append(files.write_ats(root / f'{i}.ats', x, 64. * (2 if odd and kind in ('rate', 'both') else 1), 5000 + (odd and kind in ('start', 'both')), 1.))
    if kind == 'start' or kind == 'both':
        c.obs('refused_start')
    if kind in ('rate', 'both'):
        c.obs('refused_rate')
    if kind == 'none':
        c.ok(len(ats.load_ats(ps).data) == k, 'agreeing files accepted')
        return
    if kind == 'nofile':
        ps[j] += 'x'
    if kind == 'nosample':
        pathlib.Path(ps[j]).write_bytes(files.ats_bytes([], 64., 5000, 1., announced=c.choice([0, 10])) + b'\0' * c.int(0, 3))
    if kind == 'cut':
        pathlib.Path(ps[j]).write_bytes(pathlib.Path(ps[j]).read_bytes()[:c.choice([0, 1, 2, 100, 1000, 1023])])
    if kind in ('nofile', 'nosample', 'cut'):
        c.obs('bad_files')
    args = dict(str=ps[0], empty=[]).get(kind, ps)
    c.obs('refused_empty', int(kind in ('empty', 'str')))
    if kind == 'cals':
        c.refused(lambda: ats.load_ats(args, [Cal(1)] * c.choice([k - 1, k + 1])), 'wrong number of calibrations')
    else:
        c.refused(lambda: ats.load_ats(args), f'ats files: {kind}')

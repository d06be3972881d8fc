"""C22: the coefficient of determination prefilter."""
import numpy as np

from .. import mt, ref
from ..core import Skip

RULE = ('random outputs and inputs (coherent, partly corrupted, pure noise) with block sizes dividing the number of windows or not: values against the per-block regression, '
        'rejected windows against the bounds, scaling and mixing invariance, both as a filter of impedances and through the diagnostic helper with window times; '
        'non-trivial = some but not all windows rejected; distinct by size, block size and rejection')
CASES = dict(quick=4200, thorough=30000)
MIN = dict(long=5, values=400, partial=150, remainder=150, exact_blocks=100, invariance=150, max_bound=100, helper=60, in_impedance=40, one_block=60, mass=8, single=60, single_remote=15, at_bound=300)


def check_values(c, f, e, b, size, label):
    " e (n,), b (q, n) "
    want = ref.cod(e, b, size)
    got = np.asarray(f.value(e, b.T))
    c.ok(got.shape == want.shape, f'{label}: one value per window', got=got.shape, want=want.shape)
    # the value is sqrt(1 - small) : compare its square
    c.close(got ** 2, want ** 2, f'{label}: values', rtol=0, atol=1e-7)
    c.ok(np.all((got >= 0) & (got <= 1 + 1e-12)), f'{label}: values in [0, 1]', got=got)
    for a, z in ref.cod_blocks(len(e), size):
        c.ok(np.all(got[a:z] == got[a]), f'{label}: same value within a block')
    c.obs('values')
    return want


def signals(c, n, q):
    B = ref.cgauss(c.rng, q, n)
    noise = np.exp(c.rng.uniform(-4, 2, size=n // 5 + 1)).repeat(5)[:n] if c.chance(.6) else np.full(n, c.choice([1e-3, .3, 1., 5.]))
    e = ref.cgauss(c.rng, q) @ B + noise * ref.cgauss(c.rng, n)
    return e * 10. ** c.int(-5, 5), B * 10. ** c.int(-5, 5)


def case(c):
    import razorback as rb
    k = c.idx % 10
    if k >= 8:
        return in_impedance(c, rb)
    q = c.choice([1, 2, 2, 3])
    size = c.choice([10, 10, 5, 7, 20, 33])
    if size <= q + 1:
        size = 10
    n = c.choice([size, size * c.int(1, 12), size * c.int(1, 12) + c.int(0, size - 1), size * 2 - 1])
    if c.chance(.01):
        n = c.choice([size * 200, size * 1000 + 3])
        c.obs('long')
    e, b = signals(c, n, q)
    lo, hi = c.choice([.5, .8, .9, 0., c.rnd.random()]), c.choice([1., 1., .99, .95])
    v = np.unique(ref.cod(e, b, size))
    if len(v) > 1 and c.chance(.7):        # bounds that split the blocks
        i = c.int(0, len(v) - 2)
        lo = .5 * (v[i] + v[i + 1])
        if c.chance(.4):
            j = c.int(i, len(v) - 2)
            hi = .5 * (v[j] + v[j + 1]) if j > i else 1.
    args = (lo,) if hi == 1. and size == 10 and c.chance(.5) else (lo, hi, size)
    f = c.choice([rb.prefilters.cod_filter, rb.prefilters.CoefficientOfDeterminationFilter])(*args)
    c.note(n=n, q=q, size=size, lo=lo, hi=hi)
    before = e.copy(), b.copy()
    want = check_values(c, f, e, b, size, 'values')
    ids = np.asarray(f(e, b.T))
    c.ok(np.array_equal(e, before[0]) and np.array_equal(b, before[1]), 'inputs modified')
    sure = (np.abs(want - lo) > 1e-6) & (np.abs(want - hi) > 1e-6)
    rej = (want < lo) | (want > hi)
    got = np.zeros(n, dtype=bool)
    c.ok(ids.ndim == 1 and (not len(ids) or (ids.min() >= 0 and ids.max() < n)) and len(set(ids.tolist())) == len(ids), 'rejected windows', got=ids)
    got[ids] = True
    c.ok(np.array_equal(got[sure], rej[sure]), 'rejected windows are those out of bounds', got=ids, want=np.nonzero(rej)[0])
    c.obs('partial', int(0 < rej.sum() < n))
    c.obs('remainder' if n % size else 'exact_blocks')
    c.obs('one_block', int(n < 2 * size))
    c.obs('max_bound', int(hi < 1))
    c.sig(n, size, q, lo, hi, ids.tolist())
    # bounds equal to values taken: nothing is out of bounds there
    v = np.asarray(f.value(e, b.T))
    lo2, hi2 = sorted([c.choice(list(v)), c.choice(list(v) + [v.max()])])
    got2 = np.asarray(rb.prefilters.cod_filter(lo2, hi2, size)(e, b.T))
    c.ok(sorted(got2.tolist()) == np.nonzero((v < lo2) | (v > hi2))[0].tolist(), 'windows exactly at a bound are within bounds', got=got2, lo=lo2, hi=hi2)
    c.obs('at_bound')
    if c.chance(.5):
        s = 10. ** c.int(-8, 8) * np.exp(1j * c.rnd.random())
        v = np.asarray(f.value(e * s, (ref.mixing(c.rng, q) @ b).T))
        c.close(v ** 2, want ** 2, 'scale of outputs and mixing of inputs', rtol=0, atol=1e-6)
        c.obs('invariance')
    c.sample(**c.detail)


def in_impedance(c, rb):
    s = mt.site(c, nr=c.choice([0, 0, 2, 3]), noise_e=.3, noise_r=.2, sizes=[c.int(300, 900) for _ in range(c.choice([1, 2]))], cals=c.chance(.3), mixed=.5)
    for run in s.runs:
        a = c.int(0, len(run['e0']) // 2)
        run['e0'] = run['e0'].copy()
        run['e0'][a:a + len(run['e0']) // 4] += 5 * c.rng.normal(size=len(run['e0']) // 4)
    sig = mt.realize(c, s)
    fo, (nper, ov, tap) = mt.fourier_opts(c)
    freqs = [f for f in mt.pick_freqs(c, s, 2, nper) if mt.feasible(s, f, nper, ov)]
    size = c.choice([10, 10, 15])
    freqs = [f for f in freqs if sum(g[0] for g in mt.geometry(s, f, nper, ov)) >= size]
    if not freqs:
        raise Skip
    lo = c.rnd.uniform(.3, .97)
    f = rb.prefilters.cod_filter(lo, size=size)
    c.note(sizes=s.sizes, rate=s.rate, freqs=freqs, fo=str(fo), size=size, lo=lo)
    vals, tms = rb.utils.prefilter_values(sig, freqs, f, **({} if fo is None else dict(fourier_opts=fo)))
    c.ok(len(vals) == len(freqs) and len(tms) == len(freqs), 'diagnostic helper: one entry per frequency')
    for k, fr in enumerate(freqs):
        e, b, _ = mt.fields(s, fr, nper, ov, tap)
        tt = mt.times(s, fr, nper, ov)
        c.close(tms[k], tt, 'diagnostic helper: times', rtol=0, atol=1e-3 / s.rate + 4 * np.spacing(np.abs(tt).max()))
        c.ok(len(vals[k]) == s.ne, 'diagnostic helper: one line per electric channel')
        for j in range(s.ne):
            want = ref.cod(e[j], b, size)
            c.close(np.asarray(vals[k][j]) ** 2, want ** 2, 'diagnostic helper: values', rtol=0, atol=1e-6)
        c.obs('helper')
        stage = [(None, e, b)] + ([('R', b, np.asarray(mt.fields(s, fr, nper, ov, tap)[2]))] if s.nr else [])
        for remote, out, inp in stage:
            t1, v1 = rb.utils.compute_prefilter(sig, fr, f, remote, fo) if c.chance(.5) else rb.utils.compute_prefilter(sig, fr, prefilter=f, fourier_opts=fo, **({} if remote is None else dict(remote=remote)))
            c.close(t1, tt, 'values of one frequency: times', rtol=0, atol=1e-3 / s.rate + 4 * np.spacing(np.abs(tt).max()))
            c.ok(np.shape(v1) == (len(out), len(tt)), 'values of one frequency: one line per output channel', got=np.shape(v1))
            for x, v in zip(out, v1):
                c.close(np.asarray(v) ** 2, ref.cod(x, inp, size) ** 2, 'values of one frequency', rtol=0, atol=1e-6)
            c.obs('single')
            c.obs('single_remote', int(remote is not None))
    # as the prefilter of an impedance with least squares: exactly these windows are reported
    r = rb.utils.impedance(sig, freqs, prefilter=f, keep_invalid_times=True, **({} if fo is None else dict(fourier_opts=fo)))
    for k, fr in enumerate(freqs):
        e, b, _ = mt.fields(s, fr, nper, ov, tap)
        tt = mt.times(s, fr, nper, ov)
        want = [ref.cod(x, b, size) for x in e]
        if any(np.any(np.abs(w - lo) < 1e-6) or np.any(np.abs(w - 1) < 1e-9) for w in want):
            continue
        if any((w >= lo).sum() == 0 for w in want):
            c.ok(np.isnan(r.impedance[k]).all(), 'everything rejected')
            continue
        for j in range(s.ne):
            ids = np.nonzero(want[j] < lo)[0]
            got = np.asarray(r.invalid_time[k][j])
            c.ok(len(got) == len(ids) and np.allclose(got, tt[ids], rtol=0, atol=1e-3 / s.rate), 'impedance: windows rejected by the prefilter', got=got, want=tt[ids])
            keep = np.nonzero(want[j] >= lo)[0]
            if len(keep) > 2 * s.nb:
                c.close(r.impedance[k][j], ref.lstsq(e[j], b, keep), 'impedance: estimate on the remaining windows', rtol=1e-6)
        c.obs('in_impedance')
        c.sig('imp', s.sizes, fr, size)
    if c.chance(.3):
        t0, t1 = s.starts[0], s.starts[-1] + s.sizes[-1] / s.rates[-1]
        iv = [(t0, t1), (t0 + .1 * (t1 - t0), t1)]
        try:
            wantv = [rb.utils.prefilter_values(sig.extract_t(*i), freqs, f) for i in iv]
        except Exception:
            return
        rem = c.choice([[], ['B'], ['B', 'E']])
        names = {t: tuple(v) for t, v in sig.tags.items()}
        pv, pt = rb.utils.prefilter_values_mass_proc(sig, rem, freqs, iv, f)
        c.ok({t: tuple(v) for t, v in sig.tags.items()} == names, 'mass helper: names of the given signal set changed', got=dict(sig.tags))
        c.ok(len(pv) == len(pt) == 2 ** len(rem) and all(len(x) == len(iv) for x in pv), 'mass helper: one entry per combination and interval')
        for k in range(len(pv)):
            for i in range(len(iv)):
                for a, b_ in zip(wantv[i][0], pv[k][i]):
                    c.ok(len(a) == len(b_) and all(np.array_equal(x, y) for x, y in zip(a, b_)), 'mass helper: values')
                for a, b_ in zip(wantv[i][1], pt[k][i]):
                    c.ok(np.array_equal(a, b_), 'mass helper: times')
        c.obs('mass')

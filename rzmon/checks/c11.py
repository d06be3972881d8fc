"""C11: Fourier coefficients against explicit sums over windows."""
import numpy as np

from .. import gen, ref
from ..core import Skip

RULE = ('random samples (1-3 channels, 1-3 runs, mixed rates), frequency, number of periods, overlap, taper (none, array, function, slepian) and '
        'complex calibrations, the same or not in all runs; every coefficient and the reported window geometry compared with explicit sums; infeasible frequencies must be refused; '
        'up to 70000 windows; non-trivial = at least two windows; distinct by geometry')
CASES = dict(quick=5400, thorough=60000)
MIN = dict(many_windows=30, coefficients=8000, windows_gt1=400, tapered=200, calibrated=200, multi_run=150, refused_low=50, refused_high=200,
           last_position=60, direct=200, own_calibrations=60)


def gen_rate(c):
    return c.choice([1., 2., .5, 8., 10., 128., 1 / 3, 150., 2400., 24000., 1024., 60., .1])


def pick(c, rate):
    nper = c.choice([1, 2, 3, 4, 5, 8, 8, 12, 16])
    nf = c.choice([.5, .25, .2, .1, 1 / 3, c.rnd.uniform(.02, .5), c.rnd.uniform(.02, .2), .05, .04])
    overlap = c.choice([0., .5, .71, .25, .9, .75, 1 / 3, c.rnd.uniform(0, .95)])
    return nper, nf * rate, overlap


def gen_taper(c, shortest):
    k = c.int(0, 4)
    if k == 0:
        return None, None
    if k == 1:
        import razorback as rb
        taus = [t for t in (1, 2, 3, 4) if shortest >= 4 * t + 2]      # a taper needs more samples than its bandwidth
        if taus:
            return rb.fourier_transform.slepian_window(c.choice(taus)), 'function'
        k = 2
    seed = c.int(0, 10 ** 6)
    f = lambda L: np.random.default_rng([seed, L]).normal(size=L)
    if k == 2:
        return np.hanning, 'function'
    return f, ('array' if k == 3 else 'function')


def case(c):
    import razorback as rb
    nch, nruns = c.int(1, 3), c.choice([1, 1, 2, 3])
    rate = gen_rate(c)
    nper, freq, overlap = pick(c, rate)
    rates = [rate] + [rate * c.choice([1, 1, 2, 4]) for _ in range(nruns - 1)]
    sizes, t, shortest = [], 0., 10 ** 9
    for r in rates:
        opts = sorted(ref.window_options(r, freq, nper, overlap))
        L, s = opts[0]
        if s < 2 or L > 3000:
            raise Skip
        shortest = min(shortest, L)
        kind = c.int(0, 9)
        if kind == 0:
            n = max(2, L - c.int(1, max(1, L // 2)))                     # not one window
        elif kind == 1:
            n = L + s * c.int(2, 12) + c.choice([0, 1, s - 1])             # windows ending on the last sample, or just not
            n = max(n, 2)
        else:
            n = L + s * c.int(1, 14) + c.int(0, s - 1) + 2
            if c.chance(.015) and L < 400:                                  # many windows
                n = L + s * min(c.choice([1000, 5000, 33000, 70000, 1024, 4096, 8192, 16384, 32768, 65536, 3 * 4096, 10000, 20000]), 4 * 10 ** 6 // L) + c.int(0, s - 1) + 2
                c.obs('many_windows')
        sizes.append(n)
    data = [[c.rng.normal(size=n) * 10 ** c.rnd.uniform(-2, 3) + c.rnd.choice([0, 0, 50]) for _ in range(nch)] for n in sizes]
    cals = [[c.choice([None, gen.Cal(c.int(1, 9)), 2.5, 1 - 2j, c.choice([3e-13 - 1e-13j, 4e-20, 7e11j])]) for _ in range(nch)] for _ in rates]
    if c.chance(.5):
        cals = [cals[0]] * nruns                # the instrument is the same in all runs
    elif nruns > 1:
        c.obs('own_calibrations')
    calv = [[1. if k is None else (k(freq) if callable(k) else k) for k in ks] for ks in cals]
    taper, form = gen_taper(c, shortest)
    runs, t = [], c.choice([0., 1460000000., -55.5])
    for r, n, d, ks in zip(rates, sizes, data, cals):
        reps = [gen.realize_array(c, x, c.choice(['f8', 'f8', 'strided', 'readonly'])) for x in d]
        runs.append(rb.SyncSignal(reps, r, t, [1. if k is None else k for k in ks]))
        t += n / r * c.choice([1, 1, 1.5, 3])
    s = rb.SignalSet({f'c{i}': i for i in range(nch)}, *c.rnd.sample(runs, nruns))
    c.note(rates=rates, sizes=sizes, freq=freq, nper=nper, overlap=overlap, taper=str(form), start=t)
    infeasible = [n < min(L for L, _ in ref.window_options(r, freq, nper, overlap)) for r, n in zip(rates, sizes)]
    one_only = [any(L <= n < L + sh for L, sh in ref.window_options(r, freq, nper, overlap)) for r, n in zip(rates, sizes)]
    if any(infeasible):
        k = infeasible.index(True)
        c.refused(lambda: runs[k].fourier_coefficients(freq, nper, overlap, None), 'frequency too low for the run')
        c.refused(lambda: s.fourier_coefficients(freq, nper, overlap, None), 'frequency too low for one run')
        c.obs('refused_low')
        return
    if any(one_only):
        raise Skip
    for bad in (rate * c.choice([.51, .6, 1., 7.]), 0., -freq):
        c.refused(lambda: runs[0].fourier_coefficients(bad, nper, overlap, None), f'frequency {bad} at rate {rate}')
    c.obs('refused_high')
    window = taper
    if form == 'array':
        window = None if len(set(rates)) > 1 else taper(runs[0].fourier_coefficients(freq, nper, overlap, None)[1][1])
        if window is None:
            taper = None
        else:
            c.refused(lambda: runs[0].fourier_coefficients(freq, nper, overlap, window[:-1]), 'taper of a wrong length')
    coeffs, (Nws, Lws, shifts) = s.fourier_coefficients(freq, nper, overlap, window)
    c.ok(len(coeffs) == nch and len(Nws) == len(Lws) == len(shifts) == nruns, 'shape of the result')
    pos = 0
    for k in range(nruns):
        Nw, L, sh = Nws[k], Lws[k], shifts[k]
        c.ok((L, sh) in ref.window_options(rates[k], freq, nper, overlap), 'window length and shift', got=(L, sh),
             want=sorted(ref.window_options(rates[k], freq, nper, overlap)))
        c.ok(Nw == ref.nb_windows(sizes[k], L, sh), 'number of windows', got=Nw, want=ref.nb_windows(sizes[k], L, sh), n=sizes[k], L=L, shift=sh)
        if (sizes[k] - L) % sh == 0:
            c.obs('last_position')
        tv = taper(L) if callable(taper) else window
        for i in range(nch):
            want, size = ref.coefficients(data[k][i], rates[k], freq, L, sh, tv)
            got = np.asarray(coeffs[i])[pos:pos + Nw] * calv[k][i]
            c.ok(got.shape == want.shape, 'number of coefficients')
            c.close(got, want, f'coefficients of channel {i}, run {k}', rtol=1e-10, scale=float(size.max()) + 1e-300)
            c.obs('coefficients', Nw)
        c.sig(Nw, L, sh, nper, round(freq / rates[k], 9))
        c.obs('windows_gt1', int(Nw > 1))
        pos += Nw
    for x in coeffs:
        c.ok(len(x) == pos, 'total number of coefficients', got=len(x), want=pos)
    c.obs('tapered', int(taper is not None))
    c.obs('calibrated', int(any(k is not None for ks in cals for k in ks)))
    c.obs('multi_run', int(nruns > 1))
    # the bare function, without calibration
    if c.chance(.4):
        k = c.int(0, nruns - 1)
        f, geo = rb.fourier_transform.time_to_freq(data[k], rates[k], freq, nper, overlap, window)
        c.ok(tuple(geo) == (Nws[k], Lws[k], shifts[k]), 'time_to_freq geometry')
        for i in range(nch):
            want, size = ref.coefficients(data[k][i], rates[k], freq, geo[1], geo[2], taper(geo[1]) if callable(taper) else window)
            c.close(np.asarray(f[i]), want, 'time_to_freq', rtol=1e-10, scale=float(size.max()) + 1e-300)
        c.obs('direct')
        c.refused(lambda: rb.fourier_transform.time_to_freq([data[k][0], data[k][0][:-1]], rates[k], freq, nper, overlap),
                  'channels of different lengths')
    c.sample(**c.detail)

"""C21: times of rejected windows."""
import numpy as np

from .. import mt, ref
from ..core import Skip

RULE = ('synthetic recordings (1-4 runs, gaps, mixed sizes) with bursts at known times: reported times against the centres of the windows that the regression of the '
        'same coefficients rejects, per electric channel; with and without remote reference and prefilters; non-trivial = windows rejected; distinct by geometry and rejections')
CASES = dict(quick=360, thorough=6000)
MIN = dict(channels=100, times=500, bursts=12, not_kept=40, remote=15, prefilter=12, multi_run=20, boundary=15, mixed_rates=6)


def case(c):
    import razorback as rb
    nr = c.choice([0, 0, 2])
    nruns = c.choice([1, 2, 3, 4])
    s = mt.site(c, nr=nr, noise_e=.1, noise_b=.05, noise_r=.05, sizes=[c.int(400, 1200) for _ in range(nruns)], starts=c.choice([0., 1460000000., -12345.5]), mixed=.3)
    hit = []
    for j in range(s.ne):
        for _ in range(c.int(0, 2)):
            k = c.int(0, nruns - 1)
            L = c.int(3, 25)
            a = c.choice([0, s.sizes[k] - L, c.int(0, s.sizes[k] - L)])
            x = s.runs[k][f'e{j}'].copy()
            x[a:a + L] += 300 * c.rng.normal(size=L)
            s.runs[k][f'e{j}'] = x
            hit.append((j, k, a, L))
            c.obs('boundary', int(a in (0, s.sizes[k] - L)))
    sig = mt.realize(c, s)
    fo, (nper, ov, tap) = mt.fourier_opts(c)
    freqs = mt.pick_freqs(c, s, 2, nper)
    freqs = [f for f in freqs if mt.feasible(s, f, nper, ov)]
    if not freqs:
        raise Skip
    w, steps, label = mt.chain(c, rb, c.choice(['mest', 'mest', 'bi', 'ls']))
    kw = dict(weights=w)
    if fo is not None:
        kw['fourier_opts'] = fo
    if nr:
        kw['remote'] = 'R'
    if c.chance(.4):
        lo = c.rnd.uniform(.5, .95)
        kw['prefilter'] = rb.prefilters.cod_filter(lo)
        c.obs('prefilter')
    c.note(label=label, sizes=s.sizes, starts=s.starts, rate=s.rate, hit=hit, freqs=freqs, fo=str(fo), nr=nr)
    r = rb.utils.impedance(sig, freqs, keep_invalid_times=True, **kw)
    r0 = rb.utils.impedance(sig, freqs, **kw)
    c.ok(np.array_equal(r.impedance, r0.impedance, equal_nan=True) and np.array_equal(r.error, r0.error, equal_nan=True),
         'the estimate does not depend on keeping rejected times')
    coeff = {}
    for k, f in enumerate(freqs):
        if np.isnan(r.impedance[k]).any():
            c.ok(np.isnan(r.impedance[k]).all() and len(r.invalid_time[k]) == 0, 'nothing reported for a failed frequency')
            continue
        ivt = r.invalid_time[k]
        c.ok(len(ivt) == s.ne and len(r0.invalid_time[k]) == s.ne, 'one list per electric channel', got=len(ivt))
        for x in r0.invalid_time[k]:
            c.ok(len(x) == 0, 'empty lists when times are not kept', got=x)
        c.obs('not_kept')
        tt = mt.times(s, f, nper, ov)
        # window numbers rejected according to the regression itself, on the coefficients of the signal set
        co, geo = sig.fourier_coefficients(f, *(nper, ov, tap))
        e, b = [co[i] for i in sig.tags.E], [co[i] for i in sig.tags.B]
        ids = None
        pf = kw.get('prefilter')
        if nr:
            br = [co[i] for i in sig.tags.R]
            i0 = filtered(b, br, pf, [[]] * len(b))
            T, ivT = rb.mestimator.transfer_function(b, br, w, invalid_idx=i0)
            b = T.dot(br)
            ids = [np.unique(np.concatenate([*ivT, []]).astype(int))] * s.ne
            c.obs('remote')
        ids = filtered(e, b, pf, [[]] * len(e) if ids is None else ids)
        z, iv = rb.mestimator.transfer_function(e, b, w, invalid_idx=ids)
        c.close(r.impedance[k], z, 'impedance', rtol=1e-10)
        for j in range(s.ne):
            got = np.asarray(ivt[j])
            want = tt[np.asarray(sorted(iv[j]), dtype=int)]
            tol = 1e-3 / s.rate + 4 * np.spacing(np.abs(tt).max())
            c.ok(got.shape == want.shape, f'number of rejected times of channel {j}', got=len(got), want=len(want))
            c.ok(np.all(np.abs(got - want) <= tol), f'rejected times of channel {j}', got=got[:8], want=want[:8])
            c.ok(np.all(np.diff(got) > 0), f'rejected times of channel {j} increase', got=got)
            for x in got:
                c.ok(any(t <= x <= t + n / r for t, n, r in zip(s.starts, s.sizes, s.rates)), 'time inside a run', got=x)
            c.obs('times', len(got))
            c.obs('channels')
            if len(got):
                c.sig(label, s.sizes, nper, ov, tuple(iv[j]))
            # bursts are reported at their own times
            if label in ('mest', 'bi') and not nr and 'prefilter' not in kw:
                for (jj, kk, a, L) in hit:
                    if jj != j:
                        continue
                    nw, Lw, sh = mt.geometry(s, f, nper, ov)[kk]
                    full = [i for i in range(nw) if i * sh <= a and a + L <= i * sh + Lw]
                    frac = sum(len(covered(s, h, f, nper, ov)) for h in hit if h[0] == j) / len(tt)
                    if frac > .08 or not full:
                        continue
                    tapv = mt.taper_values(tap, Lw)
                    for i in full:
                        if tapv is not None and np.abs(tapv[a - i * sh:a - i * sh + L]).max() < .2 * tapv.max():
                            continue
                        t = s.starts[kk] + (i * sh + Lw / 2) / s.rates[kk]
                        c.ok(len(got) and np.min(np.abs(got - t)) <= tol, 'a burst is reported at its time', time=t, got=got[:20])
                        c.obs('bursts')
    c.obs('multi_run', int(nruns > 1))
    if c.chance(.3):
        mixed_rates(c, rb)
    c.sample(**c.detail)


def filtered(e, b, pf, ids):
    " windows already rejected and those rejected by the prefilter, per output "
    if pf is None:
        return [np.asarray(i, dtype=int) for i in ids]
    return [np.union1d(np.asarray(i, dtype=int), np.asarray(pf(x, np.transpose(b)), dtype=int)).astype(int) for x, i in zip(e, ids)]


def covered(s, hit, f, nper, ov):
    j, k, a, L = hit
    nw, Lw, sh = mt.geometry(s, f, nper, ov)[k]
    return [i for i in range(nw) if i * sh < a + L and a < i * sh + Lw]


def mixed_rates(c, rb):
    " runs of different rates: windows have a duration in seconds of their own "
    rates = [c.choice([1., 2., 4.]) for _ in range(c.int(2, 3))]
    h = c.rng.normal(size=(2, 2))
    runs, t, bursts = [], 1000., []
    for r in rates:
        n = int(600 * r)
        B = c.rng.normal(size=(2, n))
        E = h @ B + .05 * c.rng.normal(size=(2, n))
        a = c.int(100, n - 100)
        E[1, a:a + 3] += 500
        bursts.append(t + a / r)
        runs.append(rb.SyncSignal([*E, *B], r, t))
        t += n / r + 17
    sig = rb.SignalSet({'E': (0, 1), 'B': (2, 3)}, *runs)
    f, nper = c.choice([.2, .25]), 4
    r = rb.utils.impedance(sig, [f], weights=rb.weights.mest_weights, keep_invalid_times=True, fourier_opts=dict(Nper=nper, overlap=0., window=None))
    got = np.asarray(r.invalid_time[0][1])
    half = nper / f / 2 + 1
    for b in bursts:
        c.ok(len(got) and np.min(np.abs(got - b)) <= half, 'burst reported in the run it belongs to', burst=b, got=got)
    for x in got:
        c.ok(any(abs(x - b) <= half + 1 for b in bursts) or any(s.start <= x <= s.stop for s in runs), 'time inside a run', got=x)
    c.obs('mixed_rates')

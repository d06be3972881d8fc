"""Synthetic magnetotelluric recordings with a known response, and their reference processing."""
import numpy as np

from . import gen, ref
from .core import Skip


class Site:
    """ channels[name] -> per run samples; electric = filtered magnetic + noise; remote = magnetic + own noise """


def fir(h, x, lead):
    " y[j] = sum_k h[k] x[j - k], x has `lead` samples before the record "
    n = len(x) - lead
    y = np.zeros(n)
    for k, v in enumerate(h):
        y += v * x[lead - k:lead - k + n]
    return y


def response(h, freq, rate):
    return sum(v * np.exp(-2j * np.pi * freq * k / rate) for k, v in enumerate(h))


def site(c, ne=None, nb=None, nr=0, nruns=None, taps=1, noise_e=.05, noise_b=0., noise_r=0., cals=None, rate=None, sizes=None, extra=None,
         starts=None, lead=8, nrange=(1500, 4000), mixed=False):
    s = Site()
    s.ne, s.nb, s.nr = ne or c.choice([2, 2, 1, 3]), nb or 2, nr
    s.rate = rate or c.choice([1., 2., 128., 512., .5])
    nruns = nruns or c.choice([1, 1, 2, 3])
    s.sizes = sizes or [c.int(*nrange) // nruns for _ in range(nruns)]
    s.rates = [s.rate] * len(s.sizes)
    if mixed and taps == 1 and len(s.sizes) > 1 and c.chance(mixed):       # same response at every rate
        s.rates = [s.rate * c.choice([1, 2, 4]) for _ in s.sizes]
        s.rate = min(s.rates)
        s.sizes = [int(n * r / s.rate) for n, r in zip(s.sizes, s.rates)]
        if len(set(s.rates)) > 1:
            c.obs('several_rates')
    s.h = c.rng.normal(size=(s.ne, s.nb, taps)) * (.5 ** np.arange(taps))
    s.mix = ref.mixing(c.rng, max(s.nb, nr), False)[:nr, :s.nb] if nr else None
    names = [f'e{i}' for i in range(s.ne)] + [f'b{i}' for i in range(s.nb)] + [f'r{i}' for i in range(nr)] + \
        [f'x{i}' for i in range(c.int(0, 2) if extra is None else extra)]
    s.names = list(names)
    s.order = c.rnd.sample(names, len(names))            # physical channel order
    s.runs = []
    for n in s.sizes:
        B = c.rng.normal(size=(s.nb, n + lead)) * (1 + .5 * c.rnd.random())
        E = np.array([sum(fir(s.h[i, j], B[j], lead) for j in range(s.nb)) for i in range(s.ne)])
        B = B[:, lead:]
        R = s.mix @ B + noise_r * c.rng.normal(size=(nr, n)) if nr else np.zeros((0, n))
        E = E + noise_e * c.rng.normal(size=E.shape)
        Bm = B + noise_b * c.rng.normal(size=B.shape)
        d = {}
        for i in range(s.ne):
            d[f'e{i}'] = E[i]
        for i in range(s.nb):
            d[f'b{i}'] = Bm[i]
        for i in range(nr):
            d[f'r{i}'] = R[i]
        for nme in names:
            if nme.startswith('x'):
                d[nme] = c.rng.normal(size=n) * 100
        s.runs.append(d)
    t, s.starts = (c.choice([0., 1460000000., 77.5]) if starts is None else starts), []
    for n, r in zip(s.sizes, s.rates):
        s.starts.append(t)
        t += (n + c.choice([0, 1, 50])) / r
    s.cal = {nme: 1. for nme in names}
    if cals:
        s.cal = {nme: c.choice([1., 2.5, 1 - 1j, gen.Cal(c.int(1, 5)), lambda f: 1 / (1 + .1j * f)]) for nme in names}
    return s


def units(c, s):
    " the same recordings in other units (powers of two: nothing else changes) "
    u = {k: 2. ** c.choice([0, -30, -37, -10, 12, 30, c.int(-60, 40)]) for k in 'ebr'}
    s.runs = [{nme: x * u.get(nme[0], 1.) for nme, x in d.items()} for d in s.runs]
    s.h = s.h * (u['e'] / u['b'])
    c.obs('units')


def calv(s, name, freq):
    k = s.cal[name]
    return k(freq) if callable(k) else k


def tags(c, s, names=('E', 'B', 'R')):
    E, B, R = names
    pos = {nme: k for k, nme in enumerate(s.order)}
    t = {E: tuple(pos[f'e{i}'] for i in range(s.ne)), B: tuple(pos[f'b{i}'] for i in range(s.nb))}
    if s.nr:
        t[R] = tuple(pos[f'r{i}'] for i in range(s.nr))
    for nme in s.order:
        if nme.startswith('x'):
            t[nme] = pos[nme]
    return t


def realize(c, s, names=('E', 'B', 'R'), reps=('f8', 'f8', 'dask', 'strided'), shift=0., perm=False):
    import razorback as rb
    runs = []
    for d, t, rate in zip(s.runs, s.starts, s.rates):
        data = [gen.realize_array(c, d[nme], 'f8') if 'dask' not in reps or c.chance(.7) else rechunk(c, d[nme]) for nme in s.order]
        runs.append(rb.SyncSignal(data, rate, t + shift, [s.cal[nme] for nme in s.order]))
    if perm:
        c.rnd.shuffle(runs)
    return rb.SignalSet(tags(c, s, names), *runs)


def rechunk(c, x):
    import dask.array as da
    return da.from_array(x.copy(), chunks=c.int(len(x) // 5 + 1, len(x)))


def truth(s, freq):
    " expected impedance of the calibrated channels: H_ij calB_j / calE_i "
    H = np.array([[response(s.h[i, j], freq, s.rate) for j in range(s.nb)] for i in range(s.ne)])
    ce = np.array([calv(s, f'e{i}', freq) for i in range(s.ne)])
    cb = np.array([calv(s, f'b{i}', freq) for i in range(s.nb)])
    return H * cb[None, :] / ce[:, None]


_geo = {}


def geometry(s, freq, nper, overlap):
    """ per run (nw, L, shift) """
    out = []
    for n, rate in zip(s.sizes, s.rates):
        opts = ref.window_options(rate, freq, nper, overlap)
        if len(opts) == 1:
            L, sh = next(iter(opts))
        else:          # rounding decides: accept any of the admissible choices
            key = (n, rate, freq, nper, overlap)
            if key not in _geo:
                import razorback as rb
                try:
                    _geo[key] = rb.SyncSignal([np.zeros(n)], rate, 0.).fourier_coefficients(freq, nper, overlap, None)[1][1:]
                except Exception:
                    _geo[key] = min(opts)
            L, sh = _geo[key]
            if (L, sh) not in opts:
                raise AssertionError(f'window length and shift {L, sh} not in {opts}')
        if sh < 1:
            raise Skip
        out.append((ref.nb_windows(n, L, sh), L, sh))
    return out


def feasible(s, freq, nper, overlap):
    " True, False, or Skip in the zone where one window fits but the documented code refuses "
    if not 0 < freq <= s.rate / 2:
        return False
    ok = True
    for n, (nw, L, sh) in zip(s.sizes, geometry(s, freq, nper, overlap)):
        if n < L:
            ok = False
        elif n < L + sh:
            raise Skip
    return ok


def taper_values(taper, L):
    return None if taper is None else taper(L) if callable(taper) else taper


def coeffs(s, name, freq, nper, overlap, taper):
    out = []
    for d, rate, (nw, L, sh) in zip(s.runs, s.rates, geometry(s, freq, nper, overlap)):
        x = d[name]
        w = taper_values(taper, L)
        ph = np.exp(-2j * np.pi * freq / rate * np.arange(L)) * (2. / L)
        if w is not None:
            ph = ph * w
        out.append(np.array([np.dot(ph, x[k * sh:k * sh + L]) for k in range(nw)]))
    return np.concatenate(out) / calv(s, name, freq)


def fields(s, freq, nper, overlap, taper):
    f = lambda p, n: np.array([coeffs(s, f'{p}{i}', freq, nper, overlap, taper) for i in range(n)])
    return f('e', s.ne), f('b', s.nb), f('r', s.nr)


def times(s, freq, nper, overlap):
    out = []
    for t, rate, (nw, L, sh) in zip(s.starts, s.rates, geometry(s, freq, nper, overlap)):
        out.append(ref.window_times(t, rate, L, sh, nw))
    return np.concatenate(out)


def regress(e, b, steps, sets, **opts):
    zs, iv = [], []
    for k in range(len(e)):
        z, i = ref.robust(e[k], b, steps(), sets[k], **opts)
        zs.append(z)
        iv.append(i)
    return np.array(zs), iv


def chain(c, rb, which=None):
    " (weights, reference steps, label) "
    W = rb.weights
    k = which or c.choice(['default', 'ls', 'mest', 'mest', 'bi'])
    if k == 'default':
        return None, lambda: [None], k
    if k == 'ls':
        return W.least_square, lambda: [None], k
    if k == 'mest':
        return W.mest_weights, ref.mest_steps, k
    p, n = c.choice([.001, .0025]), c.choice([1, 2, 3])
    return W.bi_weights(p, n), lambda: ref.bi_steps(p, n), k


def fourier_opts(c):
    import razorback as rb
    """ (argument, (nper, overlap, taper)) """
    d = rb.fourier_transform.slepian_window(4)
    if c.chance(.3):
        return None, (8, .71, d)
    full = dict(Nper=c.choice([2, 4, 6, 8]), overlap=c.choice([0., .25, .5, .71]), window=c.choice([None, np.hanning, d]))
    if full['Nper'] == 2 and full['window'] is d:
        full['window'] = np.hanning
    arg = {k: v for k, v in full.items() if c.chance(.7)}
    eff = (arg.get('Nper', 8), arg.get('overlap', .71), arg.get('window', d))
    if eff[2] is d and eff[0] < 4:
        arg['Nper'] = 8
        eff = (8,) + eff[1:]
    return arg, eff


def pick_freqs(c, s, n, nper):
    " frequencies with exactly whole windows, well inside the range "
    out = []
    shortest = min(s.sizes)
    for _ in range(n):
        nf = c.choice([.2, .25, .125, .1, .3, .05, .4, c.rnd.uniform(.04, .45)])
        if nper / nf * 1.5 > shortest:
            nf = .25
        out.append(nf * s.rate)
    return out

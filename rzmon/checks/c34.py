"""C34: Slepian tapers against the concentration problem that defines them."""
import functools

import numpy as np

from ..core import Skip

RULE = ('tapers of every length class (2 tau < N <= 200 solved exactly by an independent eigenproblem, N <= 1000, N around the interpolation threshold, up to 2*10^5) and half-bandwidths '
        '2 to 8, through slepian() and slepian_window(), in any order, with earlier results overwritten; distinct by length and half-bandwidth')
CASES = dict(quick=3600, thorough=20000)
MIN = dict(short=150, long=100, exact=80, around_threshold=25, overwritten=60, energy=300, same_shape=80, in_signal=30)


@functools.lru_cache(64)
def optimal(n, tau):
    " largest concentration in |f| <= tau/n and its sequence, from the tridiagonal operator commuting with the concentration problem "
    k = np.arange(n)
    d = ((n - 1 - 2 * k) / 2.) ** 2 * np.cos(2 * np.pi * tau / n)
    o = k[1:] * (n - k[1:]) / 2.
    w, v = np.linalg.eigh(np.diag(d) + np.diag(o, 1) + np.diag(o, -1))
    v = v[:, -1] * np.sign(v[:, -1].sum())
    return v / v.mean()


def energy(x, tau):
    " fraction of the energy of x in |f| <= tau/N : quadratic form of the sinc kernel, by fast convolution "
    n = len(x)
    k = np.arange(n)
    w = tau / n
    ker = 2 * w * np.sinc(2 * w * k)
    m = 1 << (2 * n).bit_length()
    col = np.zeros(m)
    col[:n] = ker
    col[-n + 1:] = ker[1:][::-1]
    y = np.fft.irfft(np.fft.rfft(x, m) * np.fft.rfft(col), m)[:n]
    return float(x @ y / (x @ x))


def case(c):
    import razorback as rb
    ft = rb.fourier_transform
    tau = c.choice([4, 4, 4., 2, 3, 2.5, 6, 8, c.rnd.uniform(2, 8)])
    kind = c.choice(['exact', 'exact', 'short', 'short', 'edge', 'long', 'long', 'huge'])
    lo = int(2 * tau) + 2
    n = dict(exact=c.int(lo, 200), short=c.int(200, 1000), edge=c.choice([998, 999, 1000, 1001, 1002, 1003, 1010]), long=c.int(1001, 20000),
             huge=c.int(20000, 200000 if c.tier == 'thorough' or c.idx % 40 == 0 else 50000))[kind]
    c.note(n=n, tau=tau)
    f = c.choice([lambda m: ft.slepian(m, tau), ft.slepian_window(tau)])
    x = f(n)
    c.ok(isinstance(x, np.ndarray) and x.shape == (n,) and x.dtype == np.float64, 'length and type', got=getattr(x, 'shape', None))
    if c.chance(.3):
        keep, x0 = x, x.copy()
        keep *= -3.
        keep[:] = np.nan
        x = f(n)
        c.ok(np.array_equal(x, x0), 'an earlier taper was overwritten and changes the next one')
        c.obs('overwritten')
    c.ok(np.all(np.isfinite(x)) and np.all(x > 0), 'positive values', low=float(np.min(x)))
    is_long = n > 1000
    # interpolated tapers: one step of the 1000-point reference is n/1000 samples
    c.ok(abs(x.mean() - 1) <= (1e-2 if is_long else 1e-9), 'unit mean', got=float(x.mean()))
    slope = np.abs(np.diff(x)).max()
    step = n / 1000 + 1 if is_long else 0
    c.ok(np.abs(x - x[::-1]).max() <= (1.5 * slope * step if is_long else 1e-8 * x.max()), 'symmetry', got=float(np.abs(x - x[::-1]).max()), slope=float(slope))
    e = energy(x, tau)
    c.ok(e >= .999, 'energy within the half-bandwidth', got=e)
    c.obs('energy')
    c.obs('long' if is_long else 'short')
    c.obs('around_threshold', int(kind == 'edge'))
    if n <= 200:
        c.close(x, optimal(n, tau), 'taper differs from the most concentrated sequence', rtol=1e-6)
        c.obs('exact')
    elif is_long:
        # the same shape as a short taper, at the resolution of the reference
        m = c.choice([200, 150])
        ref = optimal(m, tau)
        at = (np.arange(m) + .5) / m * n - .5
        y = np.interp(at, np.arange(n), x)
        c.close(y, ref, 'long tapers have the shape of short ones', rtol=.03)
        c.obs('same_shape')
    else:
        ref = optimal(200, tau)
        y = np.interp((np.arange(200) + .5) / 200 * n - .5, np.arange(n), x)
        c.close(y, ref, 'shape does not depend on the length', rtol=.02)
    c.ok(np.array_equal(f(n), x), 'repeated')
    c.sig(n, tau)
    if not is_long and c.chance(.2):
        # a tone further than the half-bandwidth leaks little, a tone on the frequency has unit gain
        k = np.arange(n)
        f0 = .23
        for d, lim in ((0., None), (c.rnd.uniform(1.2, 2.) * tau / n, .05)):
            g = abs(np.sum(x * np.exp(2j * np.pi * d * k))) / n
            if lim is None:
                c.ok(abs(g - 1) < 1e-9, 'gain at the frequency', got=g)
            elif d < .2:
                c.ok(g < lim, 'leakage outside the half-bandwidth', got=g)
        (z,), _ = ft.time_to_freq([np.cos(2 * np.pi * f0 * np.arange(4 * n))], 1., f0, n * f0, .5, ft.slepian_window(tau))
        L = int(np.ceil(n * f0 / f0))
        if 2 * tau / L < f0 < .5 - 2 * tau / L:
            c.ok(np.all(np.abs(np.abs(z) - 1) < .05), 'unit amplitude of a tone', got=np.abs(z))
            c.obs('in_signal')
    c.sample(**c.detail)

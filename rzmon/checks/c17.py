"""C17: error estimates."""
import numpy as np

from .. import mt, ref

RULE = ('random regressions and impedance runs: reported errors against the formula recomputed from outputs, inputs, estimate and rejected windows; scaling laws; '
        'and repeated Gaussian-noise experiments comparing errors with the observed scatter; non-trivial = noise present; distinct by size and rejection')
CASES = dict(quick=4200, thorough=40000)
MIN = dict(long=5, formula=300, rejected=150, scaling=300, scatter=20, impedance=80, remote=15)


def case(c):
    import razorback as rb
    k = c.idx % 12
    if k == 0:
        return scatter(c, rb)
    if k <= 3:
        return in_impedance(c, rb)
    p, q = c.int(1, 4), c.int(1, 4)
    n = q + c.choice([1, 2, 5, 20, 100, 300])
    if c.chance(.004):
        n = c.choice([5000, 33000, 70000])
        c.obs('long')
    e, B, Z = ref.problem(c.rng, n, p, q, c.choice([.01, .3, 3.]), c.chance(.8))
    if c.chance(.3):
        B = B * np.exp(c.rng.normal(size=n))
    err = rb.mestimator.transfer_error
    z, _ = rb.mestimator.transfer_function(e, B)
    if c.chance(.3):
        z = Z
    iv = [np.array(sorted(c.rnd.sample(range(n), c.int(0, n - 1) if c.chance(.5) else 0)), dtype=int) for _ in range(p)]
    c.note(n=n, p=p, q=q, rejected=[len(i) for i in iv])
    form = c.choice([lambda x: x, list])
    got = err(form(e), form(B), z, iv)
    c.ok(np.shape(got) == (p, q), 'shape of errors', got=np.shape(got))
    c.ok(np.all(np.isfinite(got)) and np.all(got >= 0), 'errors are finite and non-negative', got=got)
    cond = np.linalg.cond(B)
    if cond < 1e4:
        want = np.array([ref.error_estimate(e[j], B, z[j], len(iv[j])) for j in range(p)])
        for j in range(p):
            c.close(got[j], want[j], f'errors of output {j}', rtol=1e-9 + 1e-13 * cond ** 2, atol=1e-12 * np.abs(e).max())
        c.obs('formula')
        c.obs('rejected', int(any(len(i) for i in iv)))
        s, t = 10. ** c.int(-4, 4) * 1j, -10. ** c.int(-4, 4)
        got2 = err(s * e, t * B, z * (s / t), iv)
        c.close(got2, got * abs(s / t), 'errors scale with outputs and inversely with inputs', rtol=1e-7, atol=0)
        u = 10. ** np.array([c.int(-9, 9) for _ in range(q)])       # inputs in their own units
        c.close(err(e, u[:, None] * B, z / u, iv) * u, got, 'errors scale inversely with each input', rtol=1e-5, atol=0)
        v = 10. ** np.array([c.int(-9, 9) for _ in range(p)])
        c.close(err(v[:, None] * e, B, v[:, None] * z, iv) / v[:, None], got, 'errors scale with each output', rtol=1e-7, atol=0)
        perm = c.rng.permutation(n)
        c.close(err(e[:, perm], B[:, perm], z, iv), got, 'errors do not depend on the order of windows', rtol=1e-7)
        c.obs('scaling')
        c.sig(n, p, q, [len(i) for i in iv])
    c.sample(**c.detail)


def scatter(c, rb):
    n, q = c.choice([15, 40, 120]), c.choice([1, 2, 3])
    sig = 10 ** c.rnd.uniform(-2, 2)
    trials = 400
    _, B, Z = ref.problem(c.rng, n, 1, q, 0.)
    e = Z @ B + sig * ref.cgauss(c.rng, trials, n)
    z, iv = rb.mestimator.transfer_function(e, B)
    err = rb.mestimator.transfer_error(e, B, z, iv)
    ratio = np.mean(err ** 2, axis=0) / np.mean(np.abs(z - Z) ** 2, axis=0)
    c.note(n=n, q=q, sigma=sig, ratio=ratio)
    c.ok(np.all((ratio > .7) & (ratio < 1.4)), 'error estimates match the scatter of the estimates', ratio=ratio)
    c.obs('scatter')
    c.sig('scatter', n, q, c.idx)


def in_impedance(c, rb):
    nr = c.choice([0, 0, 2, 3])
    s = mt.site(c, nr=nr, noise_e=.3, noise_b=.1 if nr else 0., noise_r=.1, nrange=(900, 1500), nruns=c.choice([1, 2]), cals=c.chance(.5), mixed=.4)
    sig = mt.realize(c, s)
    fo, (nper, ov, tap) = mt.fourier_opts(c)
    freqs = mt.pick_freqs(c, s, 2, nper)
    w, _, label = mt.chain(c, rb)
    kw = dict(fourier_opts=fo)
    if w is not None:
        kw['weights'] = w
    if nr:
        kw['remote'] = 'R'
    c.note(label=label, nr=nr, freqs=freqs, fo=str(fo))
    r = rb.utils.impedance(sig, freqs, keep_invalid_times=True, **kw)
    for k, f in enumerate(freqs):
        if not mt.feasible(s, f, nper, ov) or not np.isfinite(r.impedance[k]).all():
            continue
        e, b, br = mt.fields(s, f, nper, ov, tap)
        x = b if not nr else r.transfer_mag[k] @ br
        want = np.array([ref.error_estimate(e[j], x, r.impedance[k][j], len(r.invalid_time[k][j])) for j in range(s.ne)])
        c.close(r.error[k], want, f'errors of the impedance at {f}', rtol=1e-6)
        c.obs('impedance')
        c.obs('remote', int(nr > 0))
        c.sig('impedance', label, nr, [len(t) for t in r.invalid_time[k]])

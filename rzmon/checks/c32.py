"""C32: real-valued formulation against the complex one."""
import numpy as np

from .. import mt, ref
from ..core import Skip

RULE = ('random complex regressions (with initial rejections in every form and robust chains with outliers) and impedances with and without remote reference, solved as '
        'real problems: same least squares, rejected windows numbered as supplied, corrupted windows found; non-trivial = rejected windows; distinct by size and rejection')
CASES = dict(quick=1500, thorough=30000)
MIN = dict(by_hand=30, two_stages=15, long=5, ls=250, rejected=120, robust=80, corrupted=300, impedance=40, remote=12, prefilter=8, one_array=30, keep_times=12, structured=60, simple=60)


def case(c):
    import razorback as rb
    if c.idx % 8 == 0:
        return in_impedance(c, rb)
    p, q = c.int(1, 3), c.int(1, 3)
    robust = c.chance(.4)
    n = c.choice([60, 120, 200]) if robust else q + c.choice([0, 1, 3, 10, 40, 100])
    if c.chance(.01):
        n = 1500 if robust else c.choice([5000, 33000, 70000])
        c.obs('long')
    noise = c.choice([.01, .2, 2.]) if not robust else c.choice([.02, .2])
    e, B, Z = ref.problem(c.rng, n, p, q, noise)
    if not robust and c.chance(.25):            # simple transfer functions, nearly no noise
        Z[...] = c.choice([1j * Z.real, Z.real, Z[:1, :1], Z.real + .5j, np.where(c.rng.random(Z.shape) < .5, Z, 1. + .5j), 1e-4 * Z.real + 1j])
        e = Z @ B + c.choice([0., 1e-6]) * ref.cgauss(c.rng, p, n)
        c.obs('simple')
    if not robust and c.chance(.35):            # values with structure
        for x in (e, B):
            k = c.choice(['imag', 'real', 'none', 'zeros', 'line'])
            if k == 'imag':
                x[...] = 1j * x.real
            elif k == 'real':
                x[...] = x.real
            elif k == 'zeros' and x is e:
                x[:, c.rng.random(n) < .4] = 0.
            elif k == 'line':
                x[c.int(0, len(x) - 1)] = c.choice([1j, 1.]) * x[c.int(0, len(x) - 1)].real + (x is B) * 1e-1 * c.rng.normal(size=n)
        c.obs('structured')
    f, g = rb.utils.transfer_function_real_prob, rb.mestimator.transfer_function
    room = n - q - 1
    sets = [set()] * p
    arg = None
    if room > 0 and c.chance(.5):
        k = c.int(1, min(room, max(1, n // 4)))
        common = set(c.rnd.sample(range(n), k))
        if c.chance(.6):
            sets = [common] * p
            arg = c.choice([sorted(common), np.array(sorted(common)), [sorted(common)] * p, tuple(sorted(common))])
            c.obs('one_array', int(np.ndim(arg[0]) == 0))
            if c.chance(.5):
                e[:, sorted(common)] = c.choice([np.nan, 1e6 + 1e6j])
        else:
            sets = [set(c.rnd.sample(range(n), c.int(0, k))) for _ in range(p)]
            arg = [sorted(s) for s in sets]
        c.obs('rejected')
    elif c.chance(.3):
        arg = c.choice([[], (), [[]] * p])
    bad = [set()] * p
    if robust:
        k = max(1, int(n * c.rnd.uniform(.01, .06)))
        bad = [set(c.rnd.sample(range(n), k)) for _ in range(p)]
        for j in range(p):
            i = sorted(bad[j])
            # both parts are corrupted
            e[j, i] += noise * 10 ** c.rnd.uniform(1.5, 3.5) * np.exp(1j * (np.pi / 4 + np.pi / 2 * c.rng.integers(0, 4, size=k) + c.rng.uniform(-.3, .3, size=k)))
    c.note(n=n, p=p, q=q, robust=robust, sets=[sorted(s) for s in sets], bad=[sorted(b) for b in bad])
    form = c.choice([lambda x: x, list])
    if robust:
        w = rb.weights.mest_weights
        z, iv = f(form(e), form(B), w, invalid_idx=arg)
        c.ok(np.shape(z) == (p, q) and len(iv) == p, 'shape')
        for j in range(p):
            ids = np.asarray(iv[j])
            c.ok(len(ids) == 0 or (np.all(np.diff(ids) > 0) and ids[0] >= 0 and ids[-1] < n), 'rejected windows in the numbering supplied', got=ids, n=n)
            got = set(ids.tolist())
            c.ok(sets[j] <= got, 'windows rejected beforehand are reported', missing=sorted(sets[j] - got))
            c.ok(bad[j] <= got, 'corrupted windows are rejected', missing=sorted(bad[j] - got))
            c.ok(len(got - bad[j] - sets[j]) <= .08 * n, 'few clean windows are rejected', extra=sorted(got - bad[j] - sets[j]))
            keep = [i for i in range(n) if i not in bad[j] and i not in sets[j]]
            A = B[:, keep]
            std = noise * np.sqrt(np.abs(np.diag(np.linalg.inv(A @ A.conj().T))))
            c.ok(np.all(np.abs(z[j] - Z[j]) <= 7 * std), 'accuracy', dev=np.abs(z[j] - Z[j]) / std)
            c.obs('corrupted', len(bad[j]))
        c.obs('robust')
        c.sig('robust', n, p, q, [len(i) for i in iv])
    else:
        z, iv = f(form(e), form(B), *([] if c.chance(.5) else [c.choice([(None,), rb.weights.least_square])]), invalid_idx=arg)
        c.ok(np.shape(z) == (p, q) and len(iv) == p, 'shape')
        for j in range(p):
            keep = [i for i in range(n) if i not in sets[j]]
            cond = np.linalg.cond(B[:, keep])
            c.ok(list(iv[j]) == sorted(sets[j]), 'rejected windows in the numbering supplied', got=iv[j], want=sorted(sets[j]))
            if cond < 1e4:
                c.close(z[j], ref.lstsq(e[j], B, keep), 'least squares', rtol=1e-12 * cond ** 2 + 1e-11, scale=np.abs(e[j][keep]).max() / np.linalg.svd(B[:, keep], compute_uv=False)[-1])
                c.obs('ls')
        z2, iv2 = g(e, B, invalid_idx=arg)
        m = np.isfinite(z2)
        if np.linalg.cond(B) < 1e3 and not any(sets):
            c.close(z[m], z2[m], 'complex formulation', rtol=1e-7)
        c.sig('ls', n, p, q, [sorted(s) for s in sets])
    c.sample(**c.detail)


def by_hand(c, rb, sig, f, fo, nr, w, got, k):
    " both stages as real-valued problems "
    tf = rb.utils.transfer_function_real_prob
    co, _ = sig.fourier_coefficients(f, *fo)

    def stages(eps):
        x = {n: np.array([co[i] for i in sig.tags[n]]) for n in ('E', 'B') + (('R',) if nr else ())}
        x = {n: v * (1 + eps * c.rng.normal(size=v.shape)) for n, v in x.items()}
        b, iv, T = x['B'], None, None
        if nr:
            T, ivT = tf(b, x['R'], w)
            b = T.dot(x['R'])
            iv = [sorted(set().union(*map(set, ivT)))] * len(x['E'])
            if not iv[0]:
                iv = None
        return tf(x['E'], b, w, invalid_idx=iv)[0], T
    try:
        (z, T), (z2, _) = stages(0), stages(1e-12)
    except Exception:
        return
    if not np.allclose(z, z2, rtol=1e-8, atol=1e-8 * np.abs(z).max()):
        return                # a decision hangs on rounding
    c.close(got.impedance[k], z, 'impedance by two real-valued estimations', rtol=1e-6, scale=np.abs(z).max())
    if nr:
        c.close(got.transfer_mag[k], T, 'remote transfer by a real-valued estimation', rtol=1e-6, scale=np.abs(T).max())
        c.obs('two_stages')
    c.obs('by_hand')


def in_impedance(c, rb):
    nr = c.choice([0, 0, 2, 3])
    s = mt.site(c, nr=nr, noise_e=.2, noise_b=.1 if nr else 0., noise_r=.1, nrange=(600, 1300), nruns=c.choice([1, 2]), cals=c.chance(.4), taps=c.choice([1, 2]), mixed=.5)
    sig = mt.realize(c, s)
    fo, (nper, ov, tap) = mt.fourier_opts(c)
    freqs = mt.pick_freqs(c, s, 2, nper)
    kw = {} if fo is None else dict(fourier_opts=fo)
    if nr:
        kw['remote'] = 'R'
        c.obs('remote')
    if c.chance(.3):
        kw['prefilter'] = rb.prefilters.cod_filter(c.rnd.uniform(.1, .6))
        c.obs('prefilter')
    keep = c.chance(.5)
    c.note(freqs=freqs, fo=str(fo), nr=nr, sizes=s.sizes, prefilter='prefilter' in kw)
    r = rb.utils.impedance(sig, freqs, keep_invalid_times=keep, **kw)
    q = rb.utils.impedance(sig, freqs, keep_invalid_times=keep, real_pb=True, **kw)
    for k, f in enumerate(freqs):
        if np.isnan(r.impedance[k]).any():
            c.ok(np.isnan(q.impedance[k]).all(), 'frequency that cannot be estimated')
            continue
        nw = sum(g[0] for g in mt.geometry(s, f, nper, ov))
        if nw < 3 * (s.nb + s.nr) or np.abs(r.error[k]).max() > .3 * np.abs(r.impedance[k]).max():
            continue
        c.close(q.impedance[k], r.impedance[k], f'impedance at {f}', rtol=1e-5)
        c.close(q.transfer_mag[k], r.transfer_mag[k], f'remote transfer at {f}', rtol=1e-5) if nr else None
        c.close(q.error[k], r.error[k], f'errors at {f}', rtol=1e-4)
        for a, b in zip(q.invalid_time[k], r.invalid_time[k]):
            c.ok(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=1e-6), 'rejected times', got=a, want=b)
        c.obs('impedance')
        c.obs('keep_times', int(keep))
        c.sig('imp', nr, s.sizes, round(f / s.rate, 5))
    # robust weights
    w = rb.weights.mest_weights
    q2 = rb.utils.impedance(sig, freqs, weights=w, real_pb=True, keep_invalid_times=True, **kw)
    r2 = rb.utils.impedance(sig, freqs, weights=w, **kw)
    for k, f in enumerate(freqs):
        if 'prefilter' not in kw and c.chance(.6) and not np.isnan(q2.impedance[k]).any():
            by_hand(c, rb, sig, f, (nper, ov, tap), nr, w, q2, k)
        nw = sum(g[0] for g in mt.geometry(s, f, nper, ov))
        if nw < 60 or np.isnan(r2.impedance[k]).any() or np.isnan(q2.impedance[k]).any() or 'prefilter' in kw:
            continue
        d = np.abs(q2.impedance[k] - r2.impedance[k])
        c.ok(np.all(d <= 6 * r2.error[k] + 1e-9), 'robust impedance agrees within errors', diff=d, err=r2.error[k])
        tt = mt.times(s, f, nper, ov)
        for x in q2.invalid_time[k]:
            c.ok(all(np.min(np.abs(tt - t)) < 1e-3 / s.rate + 1e-6 for t in x), 'rejected times are window centres', got=x)
        c.obs('robust_impedance')

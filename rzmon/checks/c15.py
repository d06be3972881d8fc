"""C15: robust estimation under gross corruption of known windows."""
import numpy as np

from .. import ref

RULE = ('regressions with known transfer function, Gaussian noise, and up to 8 % of windows grossly corrupted in outputs (scattered, contiguous, coherent, saturated) '
        'or up to 4 % in inputs, with and without initial rejections; accuracy in theoretical standard deviations, corrupted windows among the rejected, '
        'few clean ones, numbering of the supplied windows; non-trivial = at least one corrupted window; distinct by configuration')
CASES = dict(quick=4200, thorough=40000)
MIN = dict(long=5, mest=200, bi=100, input_corruption=60, corrupted=4000, init_rejected=200, impedance_chain=60, per_output=100)
ASSUMPTIONS = ['accuracy bound: 7 theoretical standard deviations of the clean least-squares estimate (plus what the clean robust estimate shows); '
               'bounded-influence rejection probability at most 0.005 (0.0025 and leverage up to 15 for corrupted inputs)']


def corrupt(c, n, k, noise, amp):
    " (k) complex perturbations, magnitude at least amp * noise "
    kind = c.choice(['scattered', 'coherent', 'heavy'])
    ph = np.exp(2j * np.pi * c.rng.uniform(size=k))
    if kind == 'coherent':
        ph[:] = ph[0]
    mag = np.ones(k) if kind != 'heavy' else 10 ** c.rng.uniform(0, 3, size=k)
    return amp * noise * mag * ph


def case(c):
    import razorback as rb
    kind = c.choice(['mest', 'mest', 'bi', 'input'])
    p, q = c.int(1, 3), c.choice([2, 2, 1, 3] if kind == 'mest' else [1, 2, 2])
    n = c.choice([120, 150, 220, 400])
    if c.chance(.01):
        n = c.choice([2000, 6000])
        c.obs('long')
    noise = c.choice([.02, .1, .3])
    e, B, Z = ref.problem(c.rng, n, p, q, noise)
    frac = c.rnd.uniform(.004, .08) if kind != 'input' else c.rnd.uniform(.004, .03)
    k = max(1, int(frac * n))
    amp = 10 ** c.rnd.uniform(1.6, 4)

    def windows(k):
        if c.chance(.4):
            a = c.int(0, n - k)
            return list(range(a, a + k))
        return c.rnd.sample(range(n), k)

    clean_e, clean_B = e.copy(), B.copy()
    bad = [windows(k)] * p if kind == 'input' or c.chance(.5) else [windows(k) for _ in range(p)]
    if kind == 'input':
        i = bad[0]
        f = c.rnd.uniform(6, 15)
        B[:, i] = B[:, i] * f if c.chance(.5) else f * ref.cgauss(c.rng, q, len(i))
    else:
        for j in range(p):
            e[j, bad[j]] += corrupt(c, n, len(bad[j]), noise, amp)
    # windows known to be bad beforehand
    init = [set()] * p
    if c.chance(.5):
        m = c.int(1, n // 10)
        common = c.rnd.sample(range(n), m)
        if c.chance(.6):
            init = [set(common)] * p
            if c.chance(.6):
                e[:, common] = c.choice([np.nan, 1e5, 0.])
                if c.chance(.5):
                    B[:, common] = c.choice([np.nan, 1e3])
        else:
            init = [set(c.rnd.sample(range(n), c.int(0, m))) for _ in range(p)]
            c.obs('per_output', int(p > 1))
    w = rb.weights.mest_weights if kind == 'mest' else rb.weights.bi_weights(c.choice([.001, .0025] if kind == 'input' else [.001, .0025, .005]), 3 if kind == 'input' else c.int(2, 4), q)
    c.note(kind=kind, n=n, p=p, q=q, noise=noise, bad=[sorted(b) for b in bad], init=[sorted(s) for s in init], amp=amp)
    arg = [np.array(sorted(s), dtype=int) for s in init] if any(init) else None
    z, iv = rb.mestimator.transfer_function(e, B, w, invalid_idx=arg)
    c.ok(np.all(np.isfinite(z)), 'finite estimate')
    for j in range(p):
        ids = np.asarray(iv[j])
        c.ok(ids.ndim == 1 and (len(ids) == 0 or (np.all(np.diff(ids) > 0) and ids[0] >= 0 and ids[-1] < n)),
             'rejected windows are distinct, increasing and among those supplied', got=ids)
        got = set(int(x) for x in ids)
        c.ok(init[j] <= got, 'windows rejected beforehand are reported', missing=sorted(init[j] - got))
        if kind != 'input':
            c.ok(set(bad[j]) <= got, f'corrupted windows are reported as rejected for output {j}', missing=sorted(set(bad[j]) - got), got=ids)
            c.obs('corrupted', len(set(bad[j])))
        extra = got - init[j] - set(bad[j])
        c.ok(len(extra) <= (.03 if kind == 'mest' else .25) * n, f'few clean windows are rejected for output {j}', got=len(extra), n=n, extra=sorted(extra))
        use = [i for i in range(n) if i not in init[j] and i not in bad[j]]
        A = clean_B[:, use]
        std = noise * np.sqrt(np.abs(np.diag(np.linalg.inv(A @ A.conj().T))))
        dev = np.abs(z[j] - Z[j]) / std
        c.ok(np.all(dev <= 7), f'accuracy of output {j} in standard deviations', got=dev)
        # the estimate on the clean data with the same rejections is as accurate
        c.stats.counts['worst_dev_x100'] = max(c.stats.counts.get('worst_dev_x100', 0), int(100 * dev.max()))
        c.stats.counts[f'worst_extra_permille_{kind}'] = max(c.stats.counts.get(f'worst_extra_permille_{kind}', 0), int(1000 * len(extra) / n))
    c.obs({'mest': 'mest', 'bi': 'bi', 'input': 'input_corruption'}[kind])
    c.obs('init_rejected', int(any(init)))
    c.sig(kind, n, p, q, noise, len(bad[0]), [len(s) for s in init])
    if c.chance(.15):
        in_impedance(c, rb)
    c.sample(**c.detail)


def in_impedance(c, rb):
    " the same through signal sets: a burst in one electric channel "
    n, rate, nper = 2600, 1., 2
    B = c.rng.normal(size=(2, n))
    Z = c.rng.normal(size=(2, 2))
    noise = .05
    E = Z @ B + noise * c.rng.normal(size=(2, n))
    a, L = c.int(100, n - 200), c.int(4, 60)
    j = c.int(0, 1)
    E[j, a:a + L] += 200 * c.rng.normal(size=L) + 300
    s = rb.SignalSet({'E': (0, 1), 'B': (2, 3)}, rb.SyncSignal([*E, *B], rate, 0.))
    r = rb.utils.impedance(s, [.2], weights=rb.weights.mest_weights if c.chance(.6) else rb.weights.bi_weights(.005, 3),
                           fourier_opts=dict(Nper=nper, overlap=0., window=None))
    c.ok(np.abs(r.impedance[0] - Z).max() < .05, 'impedance with a burst in one electric channel', got=r.impedance[0], want=Z)
    c.obs('impedance_chain')

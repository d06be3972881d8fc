"""C19: remote reference processing."""
import numpy as np

from .. import mt, ref
from ..core import Skip

RULE = ('synthetic recordings with 2-4 remote channels and noisy local magnetic channels: impedance and reported transfer against the two-stage regression of '
        'explicit coefficients, against the classical cross-spectral estimate (square least squares), and bias against the true response; '
        'first-stage rejections enter the second; non-trivial = remote estimate compared; distinct by configuration')
CASES = dict(quick=660, thorough=9000)
MIN = dict(units=30, two_stage=90, classical=12, unbiased=4, stage1_rejects=10, own_weights=15, prefilter=20, transfer=90, own_prefilter=8)


def cod_ids(e, b, lo, size):
    v = ref.cod(e, b, size)
    if np.any(np.abs(v - lo) < 1e-9) or np.any(np.abs(v - 1) < 1e-12):
        raise ref.Uncertain
    return set(np.nonzero((v < lo) | (v > 1.))[0].tolist())


def case(c):
    import razorback as rb
    if c.idx % 6 == 0:
        return unbiased(c, rb)
    nb = c.choice([2, 2, 1])
    nr = c.choice([nb, nb, nb + 1, 4])
    s = mt.site(c, nb=nb, nr=nr, noise_e=.1, noise_b=c.choice([.05, .5]), noise_r=c.choice([.05, .3]), cals=c.chance(.5),
                nruns=c.choice([1, 2, 3]), nrange=(1500, 3000), mixed=.4)
    burst = c.chance(.5)
    if burst:                    # a burst in a local magnetic channel: rejected in the first stage
        k = c.int(0, len(s.runs) - 1)
        n = s.sizes[k]
        a = c.int(0, n - 40)
        s.runs[k]['b0'] = s.runs[k]['b0'].copy()
        s.runs[k]['b0'][a:a + 30] += 100 * c.rng.normal(size=30)
    if c.chance(.3):
        mt.units(c, s)
    name = c.choice(['R', 'R', 'Bremote', 'site9'])
    sig = mt.realize(c, s, ('E', 'B', name))
    fo, (nper, ov, tap) = mt.fourier_opts(c)
    freqs = mt.pick_freqs(c, s, 2, nper)
    w, steps, label = mt.chain(c, rb)
    kw = dict(remote=name, keep_invalid_times=True)
    if fo is not None:
        kw['fourier_opts'] = fo
    if w is not None:
        kw['weights'] = w
    rsteps, rlabel = steps, label
    if c.chance(.4):
        rw, rsteps, rlabel = mt.chain(c, rb)
        if rw is None:
            rw, rlabel = rb.weights.least_square, 'ls'
        kw['remote_weights'] = rw
        c.obs('own_weights')
    pf = rpf = None
    if c.chance(.4):
        pf = (c.rnd.uniform(.3, .97), c.choice([10, 12]))
        kw['prefilter'] = rb.prefilters.cod_filter(pf[0], size=pf[1])
        rpf = pf
    if c.chance(.25):
        rpf = (c.rnd.uniform(.3, .97), c.choice([10, 15]))
        kw['remote_prefilter'] = rb.prefilters.cod_filter(rpf[0], size=rpf[1])
        c.obs('own_prefilter')
    opts = {}
    if c.chance(.3):
        opts = dict(tol=c.choice([1e-3, .05]), maxit=c.choice([20, 100, 200]))
        kw['mest_opts'] = opts
    c.note(label=label, remote=rlabel, nb=nb, nr=nr, sizes=s.sizes, freqs=freqs, fo=str(fo), pf=pf, rpf=rpf, opts=opts)
    feas = [mt.feasible(s, f, nper, ov) for f in freqs]
    r = rb.utils.impedance(sig, freqs, **kw)
    some = False
    for k, f in enumerate(freqs):
        if not feas[k]:
            continue
        e, b, br = mt.fields(s, f, nper, ov, tap)
        if b.shape[1] < 25:
            continue
        try:
            init = [set()] * nb if rpf is None else [cod_ids(x, br, *rpf) for x in b]
            T, ivT = mt.regress(b, br, rsteps, init, **opts)
            be = T @ br
            first = set(int(i) for iv in ivT for i in iv)
            second = [first | (set() if pf is None else cod_ids(x, be, *pf)) for x in e]
            z, iv = mt.regress(e, be, steps, second, **opts)
        except (ref.Uncertain, np.linalg.LinAlgError):
            continue
        except ArithmeticError:
            c.ok(np.isnan(r.impedance[k]).all() and np.isnan(r.transfer_mag[k]).all(), 'an estimation that cannot be completed')
            continue
        some = True
        c.close(r.transfer_mag[k], T, f'remote to local transfer at {f}', rtol=1e-6)
        c.obs('transfer')
        c.close(r.impedance[k], z, f'two-stage impedance at {f}', rtol=1e-5)
        tt = mt.times(s, f, nper, ov)
        for j in range(s.ne):
            want = tt[iv[j]] if len(iv[j]) else np.empty(0)
            c.close(np.asarray(r.invalid_time[k][j]), want, 'rejected windows of the two stages', rtol=0, atol=1e-6 + .01 / s.rate)
        c.obs('two_stage')
        c.obs('stage1_rejects', int(bool(first)))
        c.obs('prefilter', int(pf is not None))
        if nr == nb and label in ('default', 'ls') and rlabel in ('default', 'ls') and pf is None and rpf is None:
            G = br.conj().T
            want = (e @ G) @ np.linalg.inv(b @ G)
            c.close(r.impedance[k], want, f'classical remote reference estimate at {f}', rtol=1e-5)
            c.obs('classical')
        c.sig(label, rlabel, nb, nr, s.sizes, round(f / s.rate, 5), len(first))
    if not some:
        raise Skip
    # square least squares: always the cross-spectral estimate
    if nr == nb and c.chance(.5):
        kk = [k for k in range(len(freqs)) if feas[k]]
        if kk:
            f = freqs[kk[0]]
            r2 = rb.utils.impedance(sig, [f], remote=name, **({'fourier_opts': fo} if fo is not None else {}))
            e, b, br = mt.fields(s, f, nper, ov, tap)
            G = br.conj().T
            A = b @ G
            if b.shape[1] > 2 * nb and np.linalg.cond(A) < 1e4:
                c.close(r2.impedance[0], (e @ G) @ np.linalg.inv(A), f'classical remote reference estimate at {f}', rtol=1e-5)
                c.obs('classical')
    c.sample(**c.detail)


def unbiased(c, rb):
    " strong independent noise in the local magnetic channels "
    cals = c.chance(.4)
    nr = c.choice([2, 2, 3])
    s = mt.site(c, ne=2, nb=2, nr=nr, noise_e=.05, noise_b=1., noise_r=.3, cals=cals, taps=1, nruns=c.choice([1, 2]),
                sizes=None, nrange=(9000, 12000), extra=0)
    if c.chance(.3):
        mt.units(c, s)
    sig = mt.realize(c, s, reps=('f8',))
    f = s.rate * c.choice([.2, .25, .3])
    fo = dict(Nper=4, overlap=.5, window=np.hanning)
    w = c.choice([rb.weights.least_square, rb.weights.mest_weights])
    r = rb.utils.impedance(sig, [f], weights=w, remote='R', fourier_opts=fo)
    single = rb.utils.impedance(sig, [f], weights=w, fourier_opts=fo)
    want = mt.truth(s, f)
    nw = sum(g[0] for g in mt.geometry(s, f, 4, .5))
    dev = np.abs(r.impedance[0] - want)
    c.note(f=f, got=r.impedance[0], want=want, nw=nw)
    e, b, br = mt.fields(s, f, 4, .5, np.hanning)
    be = r.transfer_mag[0] @ br        # standard deviation of an instrumental-variable estimate
    var = np.mean(np.abs(e - want @ b) ** 2, axis=1)
    std = np.sqrt(np.outer(var, np.abs(np.diag(np.linalg.inv(be @ be.conj().T)))))
    c.stats.counts['worst_dev_x100'] = max(c.stats.counts.get('worst_dev_x100', 0), int(100 * (dev / std).max()))
    c.ok(np.all(dev <= 8 * std), 'remote reference estimate is unbiased', dev=dev, std=std)
    row = np.linalg.norm(single.impedance[0] - want, axis=1) / np.linalg.norm(want, axis=1)
    if np.all(row > .15) and np.linalg.norm(single.impedance[0] - want) > 9 * np.linalg.norm(std):
        # the noise is strong enough to bias the single-site estimate
        c.ok(np.linalg.norm(dev) < .5 * np.linalg.norm(single.impedance[0] - want), 'remote reference removes the bias', remote=dev)
        c.obs('unbiased')
    c.sig('unbiased', nr, c.idx)

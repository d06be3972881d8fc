"""C20: frequencies that cannot be estimated."""
import numpy as np

from .. import mt, ref
from ..core import Skip

RULE = ('impedance runs over lists mixing feasible frequencies with infeasible ones (zero, negative, above Nyquist, too low for one or all runs) and with failures provoked in '
        'weights, prefilters, calibrations and convergence at chosen frequencies and stages: NaN of the usual shape there, elsewhere the exact values of the frequency alone, and '
        'exceptions with silent_fail off; non-trivial = failing and working frequencies together; distinct by failure pattern')
CASES = dict(quick=540, thorough=7000)
MIN = dict(failed=80, worked=60, infeasible=40, injected_weight=4, injected_prefilter=4, nonconverged=5, all_rejected=4, loud=30, remote=15, real_pb=6,
           exact_alone=60, calibration_error=3, dead=30)


class Injected(Exception):
    pass


EXC = [Injected('boom'), ValueError('bad'), ZeroDivisionError('z'), np.linalg.LinAlgError('singular'), KeyError('k'), AssertionError(), RuntimeError('r'), IndexError('i')]


class Trap:
    " fails when the estimation has a given number of windows (which identifies the frequency) and, optionally, outputs of a given stage "
    def __init__(self, inner, sizes, exc, at=0):
        self.inner, self.sizes, self.exc, self.at, self.hits, self.armed = inner, sizes, exc, at, 0, True


class WeightTrap(Trap):
    def __call__(self, it, residual, e, b, invalid_idx):
        if self.armed and len(residual) in self.sizes and it >= self.at:
            self.hits += 1
            raise self.exc
        return self.inner(it, residual, e, b, invalid_idx)


class FilterTrap(Trap):
    def __call__(self, e, b):
        if self.armed and len(e) in self.sizes:
            self.hits += 1
            raise self.exc
        return self.inner(e, b) if self.inner else np.empty(0, dtype=int)


class CalTrap:
    " calibration that fails at some frequencies "
    def __init__(self, freqs, exc):
        self.freqs, self.exc, self.armed = freqs, exc, True

    def __call__(self, f):
        if self.armed and any(abs(f - x) <= 1e-9 * x for x in self.freqs):
            if self.exc is None:
                return None
            raise self.exc
        return 2 + .5j * f


class RejectAll:
    def __init__(self, sizes):
        self.sizes = sizes

    def __call__(self, e, b):
        return np.arange(len(e)) if len(e) in self.sizes else np.empty(0, dtype=int)


def case(c):
    import razorback as rb
    W = rb.weights
    nr = c.choice([0, 0, 2, 3])
    s = mt.site(c, nr=nr, noise_e=.2, noise_b=.1 if nr else 0., noise_r=.1, nrange=(600, 1500), nruns=c.choice([1, 1, 2]), cals=c.chance(.3), taps=c.choice([1, 2]), mixed=.5)
    fo = dict(Nper=c.choice([2, 4, 8]), overlap=c.choice([0., .5, .71]), window=np.hanning)
    nper, ov = fo['Nper'], fo['overlap']
    nfs = c.rnd.sample([.2, .25, .1, .125, .05, .3, .4, .45, .15, .35], c.int(1, 4))
    good = [nf * s.rate for nf in nfs]
    bad = [c.choice([0., -.2 * s.rate, .51 * s.rate, 3. * s.rate, s.rate * nper / (1.2 * max(s.sizes)) * .5, s.rate * nper / (1.1 * min(s.sizes) + 3) * .8,
                     1e-9 * s.rate]) for _ in range(c.int(0, 3))]
    freqs = c.rnd.sample(good + bad, len(good) + len(bad))
    feas = [mt.feasible(s, f, nper, ov) for f in freqs]
    nw = {f: sum(g[0] for g in mt.geometry(s, f, nper, ov)) for f, ok in zip(freqs, feas) if ok}
    # choose where to provoke failures; frequencies are identified by their number of windows
    targets = [f for f in nw if list(nw.values()).count(nw[f]) == 1 and c.chance(.4)]
    sizes = {nw[f] for f in targets}
    mode = c.choice(['weight', 'prefilter', 'rejectall', 'maxit', 'calibration', 'none']) if sizes else 'none'
    exc = c.choice(EXC)
    caltrap = None
    if mode == 'calibration':
        caltrap = CalTrap(targets, c.choice([exc, exc, None]))
        s.cal[c.choice([n for n in s.cal if n[0] in 'ebr'])] = caltrap
    sig = mt.realize(c, s)
    trap, kw = None, dict(fourier_opts=fo)
    base = c.choice([W.least_square, W.mest_weights])
    remote_only = nr and c.chance(.4)
    if mode == 'weight':
        trap = WeightTrap(W.Huber(), sizes, exc, c.choice([0, 1]))
        ws = W.Weights([None, trap])
        if remote_only:
            kw.update(weights=base, remote_weights=ws)
        else:
            kw['weights'] = ws
            if nr and c.chance(.5):
                kw['remote_weights'] = W.least_square         # rejects nothing: the trap sees the same windows
    elif mode == 'prefilter':
        trap = FilterTrap(rb.prefilters.cod_filter(.01) if c.chance(.5) else None, sizes, exc)
        if remote_only:
            kw['remote_prefilter'] = trap
        else:
            kw['prefilter'] = trap
        kw['weights'] = base
    elif mode == 'rejectall':
        kw['remote_prefilter' if remote_only else 'prefilter'] = RejectAll(sizes)
        kw['weights'] = base
    elif mode == 'maxit':
        kw.update(weights=W.mest_weights, mest_opts=dict(maxit=c.choice([1, 2]), tol=1e-13))
    else:
        kw['weights'] = c.choice([W.least_square, W.mest_weights])
    if nr:
        kw['remote'] = 'R'
        c.obs('remote')
    if mode in ('none', 'maxit', 'rejectall', 'calibration') and c.chance(.3):
        kw['real_pb'] = True
        c.obs('real_pb')
    keep = c.chance(.5)
    c.note(mode=mode, exc=repr(exc), freqs=[f / s.rate for f in freqs], feas=feas, targets=[f / s.rate for f in targets], nr=nr, remote_only=remote_only, sizes=s.sizes,
           nper=nper, ov=ov, real=kw.get('real_pb', False))
    imp = lambda fs, **k2: rb.utils.impedance(sig, fs, keep_invalid_times=keep, **dict(kw, **k2))
    r = imp(freqs)
    F = len(freqs)
    c.ok(np.shape(r.impedance) == (F, s.ne, s.nb) and np.shape(r.error) == (F, s.ne, s.nb) and len(r.invalid_time) == F and len(r.transfer_mag) == F,
         'usual shapes', got=(np.shape(r.impedance), np.shape(r.error)))
    expect_fail = {}
    for k, f in enumerate(freqs):
        T = np.asarray(r.transfer_mag[k])
        c.ok(T.shape == (s.nb, s.nr), 'shape of the remote transfer', got=T.shape)
        if not feas[k]:
            expect_fail[k] = 'infeasible'
        elif mode in ('weight', 'prefilter', 'rejectall', 'calibration') and f in targets:
            expect_fail[k] = mode
        elif mode == 'maxit':
            expect_fail[k] = 'nonconverged'
        nan = np.isnan(r.impedance[k])
        if k in expect_fail:
            c.ok(nan.all() and np.isnan(r.error[k]).all(), f'NaN where the estimation fails ({expect_fail[k]})', got=r.impedance[k])
            c.ok(np.isnan(T).all() or not nr, 'NaN remote transfer where the estimation fails', got=T)
            c.ok(all(len(x) == 0 for x in r.invalid_time[k]), 'no rejected time where the estimation fails')
            c.obs('failed')
            c.obs({'infeasible': 'infeasible', 'weight': 'injected_weight', 'prefilter': 'injected_prefilter', 'rejectall': 'all_rejected', 'calibration': 'calibration_error',
                   'nonconverged': 'nonconverged'}[expect_fail[k]])
        else:
            if nan.any():
                # ordinary processing may fail too (few windows): then it fails alone in the same way
                if nw[f] > 12 * (s.nb + s.nr) and not fails_by_itself(s, f, nper, ov, mode, kw):
                    c.fail('feasible frequency not estimated', freq=f / s.rate, windows=nw[f])
                c.obs('natural_failure')
            else:
                c.obs('worked')
            c.ok(np.isfinite(T).all() == (not nan.any()) or not nr, 'remote transfer of an estimated frequency', got=T)
        if c.chance(.6):
            one = imp([f])
            c.ok(np.array_equal(one.impedance[0], r.impedance[k], equal_nan=True) and np.array_equal(one.error[0], r.error[k], equal_nan=True)
                 and np.array_equal(one.transfer_mag[0], r.transfer_mag[k], equal_nan=True)
                 and len(one.invalid_time[0]) == len(r.invalid_time[k]) and all(np.array_equal(a, b) for a, b in zip(one.invalid_time[0], r.invalid_time[k])),
                 'each frequency has exactly the values it has alone', freq=f / s.rate)
            c.obs('exact_alone')
    # without the failing ones nothing changes
    alive = [k for k in range(F) if k not in expect_fail]
    if alive:
        r2 = imp([freqs[k] for k in alive])
        c.ok(np.array_equal(r2.impedance, r.impedance[alive], equal_nan=True), 'other frequencies are unaffected by the failing ones')
        if expect_fail:
            c.sig(mode, type(exc).__name__, [f / s.rate for f in freqs], sorted(expect_fail), nr)
    # loud mode
    prov = [k for k, v in expect_fail.items() if v not in ('infeasible', 'calibration')]
    if prov:
        c.refused(lambda: imp([freqs[prov[0]]], silent_fail=False), f'{mode}: estimation failure with silent_fail off', type(exc) if trap is not None else Exception)
        c.refused(lambda: imp(freqs, silent_fail=False), f'{mode}: estimation failure among others with silent_fail off')
        c.obs('loud')
    elif alive and not np.isnan(r.impedance[alive]).any():
        r3 = imp([freqs[k] for k in alive], silent_fail=False)
        c.ok(np.array_equal(r3.impedance, r.impedance[alive]), 'silent_fail does not change results')
        c.obs('loud')
    if caltrap is not None:
        caltrap.armed = False
        r4 = imp(freqs)
        c.ok(all(np.array_equal(r4.impedance[k], r.impedance[k], equal_nan=True) for k in alive), 'results after a failure')
    if trap is not None and trap.hits:
        trap.armed = False
        r4 = imp(freqs)
        c.ok(all(np.array_equal(r4.impedance[k], r.impedance[k], equal_nan=True) for k in alive), 'results after a failure')
        c.ok(all(np.isfinite(r4.impedance[k]).all() for k in prov if nw[freqs[k]] > 12 * (s.nb + s.nr)), 'the failing frequencies work once the failure is removed')
    if c.chance(.3):
        dead(c, rb, s, sig, nr, freqs[:2], fo)
    c.sample(**c.detail)


def dead(c, rb, s, sig, nr, freqs, fo):
    " a magnetic channel without signal: the regression has no solution "
    use = sig.tags['R' if nr and c.chance(.6) else 'B']
    k = c.choice(use)
    runs = [rb.SyncSignal([np.zeros(len(x)) if i == k else x for i, x in enumerate(r.data)], r.sampling_rate, r.start, r.calibrations) for r in sig.signals]
    other = rb.SignalSet(sig.tags, *runs)
    if nr and k in sig.tags['B'] and k not in sig.tags['R']:
        stage = 'local channel with a remote'          # predicted as zero
    else:
        stage = 'channel'
    kw = dict(fourier_opts=fo, weights=c.choice([rb.weights.least_square, rb.weights.mest_weights]), real_pb=c.chance(.3))
    if nr:
        kw['remote'] = 'R'
    r = rb.utils.impedance(other, freqs, **kw)
    c.ok(np.shape(r.impedance) == (len(freqs), s.ne, s.nb) and np.isnan(r.impedance).all() and np.isnan(r.error).all(), f'NaN with a dead magnetic {stage}', got=r.impedance)
    c.obs('dead')


def fails_by_itself(s, f, nper, ov, mode, kw):
    " does the documented chain of estimations fail at this frequency? "
    if mode in ('prefilter', 'rejectall', 'maxit') or kw.get('real_pb'):
        return True       # not reconstructed here
    import razorback as rb

    def steps(w):
        if w is rb.weights.least_square:
            return [None]
        if w is rb.weights.mest_weights:
            return ref.mest_steps()
        return [None, ref.HuberStep()]
    e, b, br = mt.fields(s, f, nper, ov, np.hanning)
    w = kw['weights']
    try:
        first = set()
        if s.nr:
            T, iv = mt.regress(b, br, lambda: steps(kw.get('remote_weights', w)), [set()] * s.nb)
            first = set(int(i) for x in iv for i in x)
            b = T @ br
        mt.regress(e, b, lambda: steps(w), [first] * s.ne)
    except (ref.Uncertain, ArithmeticError, np.linalg.LinAlgError):
        return True
    return False

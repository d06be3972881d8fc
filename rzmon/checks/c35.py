"""C35: weight functions, against their formulas and their invariances."""
import copy

import numpy as np

from .. import ref
from ..core import Skip

RULE = ('random residuals (Gaussian, heavy tailed, few distinct values, spanning 1e-10 to 1e10, with rejected windows) and inputs with leverage points, through every weight over several '
        'iterations: values against the formulas, bounds, monotonicity, scale, phase and order invariance, rejected windows; sequences of weights against their documented order; '
        'distinct by size, weight and residuals')
CASES = dict(quick=22500, thorough=150000)
MIN = dict(long=5, huber=400, thomson=400, bounded=120, monotone=500, scaled=300, phase=300, rejected=300, untouched=300, iterations=500, leverage_reduced=60, sequences=60, order=200)


def residuals(c, n):
    k = c.int(0, 4)
    r = ref.cgauss(c.rng, n)
    if k == 1:
        r = r / np.abs(c.rng.normal(size=n) + .01)
    elif k == 2:
        r[:max(1, n // 10)] *= 1e4
    elif k == 3:
        r = np.round(np.abs(r) * 4) / 4 * np.exp(1j * c.rng.uniform(0, 6.28, size=n))
    return r[c.rng.permutation(n)] * 10. ** c.int(-10, 10)


def call(w, it, r, e, b, inv):
    return np.asarray(w(it, r.copy(), e, b, inv))


def case(c):
    import razorback as rb
    W = rb.weights
    k = c.idx % 10
    if k == 9:
        return sequences(c, rb)
    n = c.choice([8, 20, 50, c.int(5, 300)])
    if c.chance(.01):
        n = c.choice([5000, 33000, 70000])
        c.obs('long')
    inv = np.sort(c.rng.permutation(n)[:c.choice([0, 0, 1, n // 5])])
    b = ref.cgauss(c.rng, 2, n).T.copy()
    if c.chance(.5):
        b[c.int(0, n - 1)] *= c.choice([10., 30., 100.])
    e = residuals(c, n)
    r = residuals(c, n)
    r[inv] = np.nan
    if k < 4:
        alpha = c.choice([1.5, 1.5, 1., 2., c.rnd.uniform(.5, 3)])
        w, step = (W.Huber() if alpha == 1.5 else W.Huber(alpha)), ref.HuberStep(alpha)
        name = 'huber'
    elif k < 7:
        xi = c.choice([None, None, 2., 3.5, c.rnd.uniform(1, 5)])
        w, step = (W.Thomson() if xi is None else W.Thomson(xi)), ref.ThomsonStep(xi)
        name = 'thomson'
    else:
        return bounded(c, rb, n, inv, b, e, r)
    if c.chance(.2):
        w = copy.deepcopy(w)
    keep = np.ones(n, dtype=bool)
    keep[inv] = False
    x = np.abs(r)
    scale0 = ref.scale_mad(x)
    if not np.isfinite(scale0) or scale0 <= 1e-6 * np.nanmax(x):
        raise Skip
    c.note(n=n, weight=str(w), rejected=len(inv))
    its = c.choice([1, 1, 3, 5])
    rs = [r] + [r * (1 + .1 * ref.cgauss(c.rng, n)) * c.choice([1., 1., .5, 1e-2, 1e-5, 20.]) for _ in range(its - 1)]
    first = None
    for it, q in enumerate(rs):
        got = call(w, it, q, e, b, inv)
        want = step.weight(it, np.abs(q), b.T)
        c.ok(got.shape == (n,) and got.dtype.kind == 'f', 'one real weight per window', got=got.shape)
        c.close(got[keep], want[keep], f'{name}: formula', rtol=1e-9, scale=1.)
        c.ok(np.all((got[keep] >= 0) & (got[keep] <= 1)), f'{name}: weights in [0, 1]', got=got)
        order = np.argsort(np.abs(q)[keep], kind='stable')
        c.ok(np.all(np.diff(got[keep][order]) <= 1e-12), f'{name}: weights never increase with the residual', got=got[keep][order])
        c.obs('monotone')
        c.obs('iterations')
        first = got if first is None else first
    c.obs(name)
    c.sig(name, n, len(inv), r[keep][:3].tolist())
    within = x[keep] <= scale0 * (alpha if name == 'huber' else .4 * (step.xi or (2 * np.log(2 * n)) ** .5))
    if within.any():
        c.ok(np.all(first[keep][within] >= (1 - 1e-12 if name == 'huber' else .5 if (step.xi or 9) < 2.5 else .9)), f'{name}: residuals within the scale are left untouched', got=first[keep][within], x=(x / scale0)[keep][within])
        c.obs('untouched')
    s = 10. ** c.int(-20, 20) * c.rnd.uniform(.5, 2)
    c.close(call(w, 0, r * s, e, b, inv)[keep], first[keep], f'{name}: common factor', rtol=1e-9, scale=1.)
    c.obs('scaled')
    ph = np.exp(1j * c.rng.uniform(0, 6.28, size=n))
    c.close(call(w, 0, r * ph, e, b, inv)[keep], first[keep], f'{name}: phase of the residuals', rtol=1e-9, scale=1.)
    c.obs('phase')
    p = c.rng.permutation(n)
    invp = np.sort(np.nonzero(np.isin(p, inv))[0])
    got = call(w, 0, r[p], e[p], b[p], invp)
    c.close(got[keep[p]], first[p][keep[p]], f'{name}: order of windows', rtol=1e-9, scale=1.)
    c.obs('order')
    if len(inv):
        e2, b2 = e.copy(), b.copy()
        e2[inv], b2[inv] = 1e6, -1e7
        c.close(call(w, 0, r, e2, b2, inv)[keep], first[keep], f'{name}: values of rejected windows', rtol=1e-12, scale=1.)
        if name == 'huber' or step.xi is not None:      # Thomson's default bound depends on the number of windows supplied
            none = np.array([], dtype=int)
            c.close(call(w, 0, r[keep], e[keep], b[keep], none), first[keep], f'{name}: rejected windows act as if absent', rtol=1e-9, scale=1.)
        c.obs('rejected')
    c.sample(**c.detail)


def bounded(c, rb, n, inv, b, e, r):
    if n < 20:
        raise Skip
    prob = 10. ** c.rnd.uniform(-4, -2)
    nstep = c.choice([1, 2, 3])
    ws, steps = list(rb.weights.bi_weights(prob, nstep))[1:], ref.bi_steps(prob, nstep)[1:]
    c.ok(len(ws) == len(steps) == nstep + 1, 'number of bounded-influence steps', got=len(ws))
    x = np.abs(r)
    s0 = ref.scale_mad(x)
    if not np.isfinite(s0) or s0 <= 1e-6 * np.nanmax(x):
        raise Skip
    keep = np.ones(n, dtype=bool)
    keep[inv] = False
    c.note(n=n, prob=prob, nstep=nstep, rejected=len(inv))
    h = n / 2 * np.einsum('ij,jk,ik->i', b, np.linalg.inv(b.conj().T @ b), b.conj()).real       # leverage, 1 on average
    starts = []
    for i, (w, step) in enumerate(zip(ws, steps)):
        plain = ref.HuberStep() if i < nstep else ref.ThomsonStep()
        for it in range(c.choice([1, 2, 2, 4])):
            q = r * (1 + .05 * it) * (c.choice([1., 1., .1, 1e-3]) if it else 1.)
            if it and np.sum(step.v > 1e-3) < 6:         # nothing left to work on
                break
            want = step.weight(it, np.abs(q), b.T)
            if not np.all(np.isfinite(want)):
                raise Skip
            got = call(w, it, q, e, b, inv)
            top = plain.weight(it, np.abs(q), b.T)
            c.close(got, want, 'bounded influence: formula', rtol=1e-6, scale=1.)
            c.ok(np.all(got >= 0) and np.all(got[inv] == 0), 'bounded influence: rejected windows get no weight', got=got)
            c.ok(np.all(got[keep] <= np.nan_to_num(top)[keep] * 1.003 ** (it + 1) + 1e-9), 'bounded influence: never above the residual weight')
            c.obs('iterations')
            if it == 0:
                starts.append(np.where(np.nan_to_num(top) > 1e-3, got / np.where(top > 1e-3, top, 1), np.nan))
    # excessive leverage is reduced, more and more from the loosest to the tightest bounds
    from scipy.stats import gamma
    upper = gamma.ppf(1 - .5 * prob, 2) / 2
    high = keep & (h > upper * 1.5) & np.isfinite(starts[0])
    if high.any():
        c.ok(np.all(starts[-1][high & np.isfinite(starts[-1])] < .05), 'bounded influence: excessive leverage is reduced', got=starts[-1][high], h=h[high], upper=upper)
        c.obs('leverage_reduced')
    for a, z in zip(starts, starts[1:]):
        both = keep & np.isfinite(a) & np.isfinite(z)
        c.ok(np.all(z[both] <= a[both] * 1.003 + 1e-6), 'bounded influence: from the loosest to the tightest bounds', loose=a[both], tight=z[both])
    s = 10. ** c.int(-8, 8)
    m = ref.mixing(c.rng, 2)
    got = call(ws[0], 0, r * s, e, b @ m.T, inv)
    want = call(ws[0], 0, r, e, b, inv)
    c.close(got, want, 'bounded influence: scale of residuals and mixing of inputs', rtol=1e-5, scale=1.)
    c.obs('scaled')
    p = c.rng.permutation(n)
    got = call(ws[0], 0, r[p], e[p], b[p], np.sort(np.nonzero(np.isin(p, inv))[0]))
    c.close(got, want[p], 'bounded influence: order of windows', rtol=1e-7, scale=1.)
    c.obs('bounded')
    c.sig('bi', n, prob, nstep)


def sequences(c, rb):
    " documented sequences behave like sequences and have the documented order "
    W = rb.weights
    n = c.int(20, 100)
    r, e, b = residuals(c, n), residuals(c, n), ref.cgauss(c.rng, 2, n).T.copy()
    if not ref.scale_mad(np.abs(r)) > 1e-6 * np.abs(r).max():
        raise Skip
    none = np.array([], dtype=int)
    for ws, steps in ((W.mest_weights, ref.mest_steps()), (W.least_square, [None])):
        c.ok(len(ws) == len(steps) and list(ws) == [ws[i] for i in range(len(ws))], 'sequence of weights')
        for w, s in zip(ws, steps):
            if s is None:
                c.ok(w is None, 'the first step is least squares')
            else:
                c.close(call(w, 0, r, e, b, none), s.weight(0, np.abs(r), b.T), 'documented step', rtol=1e-9, scale=1.)
    prob, k, dim = 10. ** c.rnd.uniform(-4, -2), c.int(1, 5), c.choice([1, 2, 3])
    ws = W.bi_weights(prob, k, dim) if dim != 2 or c.chance(.5) else W.bi_weights(prob, k)
    steps = ref.bi_steps(prob, k, dim)
    c.ok(len(ws) == k + 2 and ws[0] is None, 'bounded-influence sequence', got=len(ws))
    b = ref.cgauss(c.rng, dim, n).T.copy()
    for w, s in zip(list(ws)[1:], steps[1:]):
        c.close(call(w, 0, r, e, b, none), s.weight(0, np.abs(r), b.T), 'documented bounded-influence step', rtol=1e-6, scale=1.)
    for seq in (ws, W.mest_weights, W.least_square):
        c.ok(isinstance(str(seq), str) and isinstance(repr(seq), str) and str(seq), 'printable')
    c.obs('sequences')
    c.sig('seq', n, prob, k, dim)

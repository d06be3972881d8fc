"""C14: robust estimates against an independent implementation of the documented chain."""
import numpy as np

from .. import ref

RULE = ('random regressions (Gaussian and heavy-tailed noise, outliers in outputs and leverage points in inputs, 1-3 outputs, 1-3 inputs, real or complex, '
        'initial rejections, options tol/maxit/eps) with M-estimator, bounded-influence and custom weight chains (also functions of a user, returning None or zeros): estimate and rejected windows against an '
        'independent implementation, and equivariances; non-trivial = windows were downweighted or rejected; distinct by chain, size and outcome')
CASES = dict(quick=4500, thorough=60000)
MIN = dict(long=5, user=100, compared=400, rejecting=100, bi=100, mest=150, nonconverged=15, init_rejected=80, equivariance=150, permuted=60, raises_all_rejected=20, options=120,
           init=60)


def chain(c, rb, q):
    " (weights, reference steps factory, label, min windows) "
    W = rb.weights
    k = c.int(0, 9)
    if k == 8:                  # functions of a user: identity weights are None or ones
        ones = c.choice([lambda *a: None, lambda it, r, e, b, iv: np.ones(len(r))])
        if c.chance(.5):
            return [None, ones, W.Huber()], lambda: [None, ref.OnesStep(), ref.HuberStep()], 'user'
        return (None, ones), lambda: [None, ref.OnesStep()], 'user'
    if k == 9:
        x = c.choice([2.5, 3., 5.])
        return [None, lambda it, r, e, b, iv: (abs(r) <= x * np.nanmedian(abs(r))).astype(float), W.Huber()], lambda: [None, ref.CutStep(x), ref.HuberStep()], 'user'
    if k <= 1:
        return W.mest_weights, ref.mest_steps, 'mest'
    if k == 2:
        al, xi = c.choice([1.5, 1., 2.5]), c.choice([None, 2.8, 4.])
        return W.Weights([None, W.Huber(al), W.Thomson(xi)]), lambda: ref.mest_steps(al, xi), 'mest*'
    if k == 3:
        al = c.choice([1.5, .8, 3.])
        return [None, W.Huber(al)], lambda: [None, ref.HuberStep(al)], 'huber'
    if k == 4:
        return (None, W.Thomson()), lambda: [None, ref.ThomsonStep()], 'thomson'
    if k == 5:
        return W.least_square, lambda: [None], 'ls'
    prob, ns = c.choice([.001, .0025, .005, .01]), c.choice([0, 1, 2, 3, 4])
    dim = c.choice([2, 2, q])
    return W.bi_weights(prob, ns, dim), lambda: ref.bi_steps(prob, ns, dim), 'bi'


def data(c):
    p, q = c.int(1, 3), c.int(1, 3)
    n = c.choice([20, 40, 80, 150, 300])
    if c.chance(.01):
        n = c.choice([1500, 5000])
        c.obs('long')
    cplx = c.chance(.85)
    heavy = c.chance(.4)
    noise = c.choice([.01, .1, .5])
    e, B, Z = ref.problem(c.rng, n, p, q, noise, cplx, heavy)
    if c.chance(.3):                       # non-stationary inputs
        s = np.exp(c.rng.normal(size=n) * .5)
        B = B * s
        e = e * s
    if c.chance(.5):
        k = max(1, int(n * c.rnd.uniform(.01, .1)))
        i = c.rng.permutation(n)[:k]
        e[:, i] += noise * 10 ** c.rnd.uniform(.5, 4) * ref.cgauss(c.rng, p, k) if cplx else noise * 30 * c.rng.normal(size=(p, k))
    if c.chance(.3):
        k = max(1, int(n * c.rnd.uniform(.01, .05)))
        i = c.rng.permutation(n)[:k]
        B[:, i] *= c.rnd.uniform(3, 12)
    return e, B, n, p, q, cplx


def reference(e, B, steps, sets, **kw):
    return ref.settled(np.random.default_rng(len(e) * 1000 + e.shape[1]), e, B, steps, sets, **kw)


def case(c):
    import razorback as rb
    e, B, n, p, q, cplx = data(c)
    w, steps, label = chain(c, rb, q)
    opts = {}
    if c.chance(.4):
        for k, v in dict(tol=c.choice([1e-3, 1e-4, .05, 1e-2]), maxit=c.choice([3, 5, 10, 100, 300]), eps=c.choice([1e-14, 1e-6, 1e-3])).items():
            if c.chance(.5):
                opts[k] = v
    sets = [set()] * p
    if c.chance(.4):
        k = c.int(1, max(1, n // 6))
        sets = [set(c.rnd.sample(range(n), k))] * p if c.chance(.5) else [set(c.rnd.sample(range(n), c.int(0, k))) for _ in range(p)]
    c.note(n=n, p=p, q=q, label=label, opts=opts, rejected=[sorted(s) for s in sets])
    f = rb.mestimator.transfer_function
    listed = [sorted(s) for s in sets]
    run = lambda e_=e, B_=B, iv=listed: f(e_, B_, w, invalid_idx=iv, **opts)
    try:
        zr, ivr = reference(e, B, steps, sets, **opts)
    except (ref.Uncertain, np.linalg.LinAlgError) as ex:
        c.obs('uncertain')
        from ..core import Skip
        raise Skip
    except ArithmeticError as ex:
        c.refused(run, f'the chain cannot be completed ({ex})')
        c.obs('nonconverged')
        c.sig(label, n, 'fail')
        return
    before = e.copy(), B.copy()
    z, iv = run()
    c.ok(np.array_equal(e, before[0]) and np.array_equal(B, before[1]), 'inputs modified')
    c.obs('compared')
    c.obs('options', int(bool(opts)))
    c.obs('init_rejected', int(any(sets)))
    c.obs('bi' if label == 'bi' else 'mest' if 'mest' in label else 'user' if label == 'user' else 'other')
    if any(len(a) > len(s) for a, s in zip(ivr, sets)):
        c.obs('rejecting')
        c.sig(label, n, p, q, [len(a) for a in ivr])
    for k in range(p):
        c.ok(list(iv[k]) == list(ivr[k]), f'{label}: rejected windows of output {k}', got=iv[k], want=ivr[k])
    c.close(z, zr, f'{label}: estimate', rtol=1e-6)
    if c.chance(.5):
        Q = ref.mixing(c.rng, q, cplx)
        s = 10. ** c.int(-5, 5) * (c.rnd.choice([1, -1, 1j]) if cplx else -1)
        z2, iv2 = run(e * s, Q @ B)
        c.close(z2, s * z @ np.linalg.inv(Q), f'{label}: scaled outputs and mixed inputs', rtol=1e-5)
        c.ok(all(list(a) == list(b) for a, b in zip(iv, iv2)), f'{label}: rejected windows with scaled outputs and mixed inputs')
        c.obs('equivariance')
    if c.chance(.3):
        perm = c.rng.permutation(n)
        inv = np.argsort(perm)
        z3, iv3 = run(e[:, perm], B[:, perm], [[int(inv[i]) for i in s] for s in listed])
        c.close(z3, z, f'{label}: window order', rtol=1e-6)
        c.ok(all(sorted(int(perm[i]) for i in a) == list(b) for a, b in zip(iv3, iv)), f'{label}: rejected windows and window order')
        c.obs('permuted')
    if c.chance(.1):
        c.refused(lambda: f(e, B, w, invalid_idx=[list(range(n))] * p), 'all windows rejected')
        c.obs('raises_all_rejected')
    # a given starting estimate only matters through the first residuals
    if label in ('huber', 'mest', 'mest*') and c.chance(.2):
        z4, iv4 = f(e, B, w[1:], init=f(e, B, invalid_idx=listed)[0], invalid_idx=listed, **opts)
        c.close(z4, z, f'{label}: explicit starting estimate', rtol=1e-6)
        c.ok(all(list(a) == list(b) for a, b in zip(iv, iv4)), f'{label}: explicit starting estimate, rejected windows')
        c.obs('init')
    c.sample(**c.detail)

"""C13: least-squares transfer functions."""
import numpy as np

from .. import ref
from ..core import Skip

RULE = ('random regressions (1-4 outputs, 1-4 inputs, up to 400 windows, scaled, ill-scaled (inputs in units up to 2^28 apart), real or complex, with or without noise, '
        'initially rejected windows in every accepted form) against QR least squares, plus orthogonality, exact recovery, equivariance, permutation, '
        'independence of outputs and removal of rejected windows; non-trivial = more windows than inputs and noise; distinct by size, form and conditioning')
CASES = dict(quick=22500, thorough=150000)
MIN = dict(estimates=2000, exact=300, rejected=800, per_output=200, poisoned=300, permuted=500, mixed=500, overdetermined=2000, units=150, long=10)


def forms(c, sets, n, p):
    " (invalid_idx argument, common?) for per-output rejected sets "
    common = all(s == sets[0] for s in sets)
    per = [order(c, s) for s in sets]
    if common and sets[0] and c.chance(.5):
        one = order(c, sets[0])
        return c.choice([one, np.array(one), tuple(one)])
    if not any(sets) and c.chance(.7):
        return c.choice([None, [], (), np.array([], dtype=int), [()] * p])
    k = c.int(0, 2)
    if k == 0:
        return [np.array(s, dtype=int) for s in per]
    if k == 1:
        return [tuple(s) for s in per]
    return [list(s) for s in per]


def order(c, s):
    s = sorted(s)
    if c.chance(.5):
        c.rnd.shuffle(s)
    return s


def containers(c, x):
    k = c.int(0, 2)
    return x if k == 0 else list(x) if k == 1 else np.asfortranarray(x)


def case(c):
    import razorback as rb
    p, q = c.int(1, 4), c.int(1, 4)
    n = q + c.choice([0, 1, 2, 5, 10, 40, 150, 400])
    if c.chance(.002):        # a long record
        n, p, q = c.choice([33000, 40000, 70000, 32768, 65536, 16385]), c.int(1, 2), c.int(1, 2)
        c.obs('long')
    cplx = c.chance(.8)
    noise = c.choice([0., 1e-3, .1, 1., 10.])
    e, B, Z = ref.problem(c.rng, n, p, q, noise, cplx)
    se, sb = 10. ** c.int(-6, 6), 10. ** c.int(-6, 6)
    e, B, Z = e * se, B * sb, Z * se / sb
    # rejected windows
    sets = [set() for _ in range(p)]
    room = n - q - 1
    if room > 0 and c.chance(.5):
        k = c.choice([1, 1, 2, room // 2, room])
        sets = [set(c.rnd.sample(range(n), c.int(0, min(max(k, 1), room)))) for _ in range(p)] if c.chance(.4) and p > 1 else \
            [set(c.rnd.sample(range(n), min(max(k, 1), room)))] * p
    D = np.ones(q)
    if c.chance(.3):           # inputs of very different units
        D = 2. ** c.rng.integers(-14, 15, size=q)
        B, Z = B * D[:, None], Z / D
        c.obs('units', int(q > 1 and D.max() / D.min() > 1e4))
    e0, B0 = e.copy(), B.copy()
    clean_e = e.copy()
    poisoned = any(sets) and all(s == sets[0] for s in sets) and c.chance(.6)
    if poisoned:               # rejected windows hold garbage
        idx = sorted(sets[0])
        e0[:, idx] = c.choice([1e6, -3., np.nan, 1e9]) * (1 + c.rng.normal(size=(p, len(idx))))
        B0[:, idx] = c.choice([0., 1e7]) * (1 + c.rng.normal(size=(q, len(idx))))
    c.note(n=n, p=p, q=q, noise=noise, rejected=[sorted(s)[:10] for s in sets], poisoned=poisoned, se=se, sb=sb, complex=cplx)
    arg = forms(c, sets, n, p)
    before = (e0.copy(), B0.copy())
    z, iv = rb.mestimator.transfer_function(containers(c, e0), containers(c, B0), *([] if c.chance(.5) else [(None,)]), invalid_idx=arg)
    c.ok(np.array_equal(e0, before[0], equal_nan=True) and np.array_equal(B0, before[1], equal_nan=True), 'inputs modified')
    c.ok(np.shape(z) == (p, q) and len(iv) == p, 'shape of the result', got=np.shape(z))
    unit = se / sb
    for k in range(p):
        keep = [i for i in range(n) if i not in sets[k]]
        c.ok(list(np.asarray(iv[k])) == sorted(sets[k]), 'reported rejected windows', got=iv[k], want=sorted(sets[k]))
        A = B[:, keep] / D[:, None]
        sv = np.linalg.svd(A, compute_uv=False)
        if sv[-1] <= 0 or sv[0] / sv[-1] > 1e4:
            continue
        cond = sv[0] / sv[-1]
        want = ref.lstsq(e[k], B / D[:, None], keep)
        c.close(z[k] * D, want, f'output {k}: least squares', rtol=1e-12 * cond ** 2 + 1e-12, scale=np.abs(want).max() + np.abs(e[k][keep]).max() / sv[0])
        r = e[k][keep] - (z[k] * D) @ A
        g = np.abs(A.conj() @ r)
        c.ok(np.all(g <= 1e-10 * cond * np.linalg.norm(A, axis=1) * (np.linalg.norm(e[k][keep]) + 1e-300)), f'output {k}: residual orthogonal to inputs', g=g)
        if noise == 0.:
            c.close(z[k] * D, Z[k] * D, 'exact transfer function', rtol=1e-11 * cond ** 2)
            c.obs('exact')
        c.obs('estimates')
        c.obs('overdetermined', int(len(keep) > q))
        c.sig(n, p, q, noise, cplx, len(sets[k]), round(float(np.log10(cond)), 1))
    c.obs('rejected', int(any(sets)))
    c.obs('per_output', int(any(s != sets[0] for s in sets)))
    c.obs('poisoned', int(poisoned))
    sv = np.linalg.svd(B, compute_uv=False)
    if sv[0] / sv[-1] > 300:
        return
    tol = dict(rtol=1e-8, scale=np.abs(z).max())
    f = rb.mestimator.transfer_function
    listed = [sorted(s) for s in sets]
    if c.chance(.5):
        P, Q = ref.mixing(c.rng, p, cplx), ref.mixing(c.rng, q, cplx)
        if all(s == sets[0] for s in sets):
            z2, _ = f(P @ e, Q @ B, invalid_idx=listed)
            c.close(z2, P @ z @ np.linalg.inv(Q), 'mixing of outputs and inputs', rtol=1e-8, scale=30 * np.abs(z).max())
            c.obs('mixed')
        z3, _ = f(-3.5e4 * e, 2j * B, invalid_idx=listed)
        c.close(z3, z * (-3.5e4 / 2j), 'scaling of outputs and inputs', rtol=1e-8)
    if c.chance(.5):
        perm = c.rng.permutation(n)
        inv = np.argsort(perm)
        z4, iv4 = f(e[:, perm], B[:, perm], invalid_idx=[[int(inv[i]) for i in s] for s in listed])
        c.close(z4, z, 'window order', **tol)
        for a, s in zip(iv4, listed):
            c.ok(sorted(int(perm[i]) for i in a) == s, 'rejected windows under permutation')
        c.obs('permuted')
    k = c.int(0, p - 1)
    z5, _ = f(e[k:k + 1], B, invalid_idx=[listed[k]])
    c.close(z5[0], z[k], 'each output independent of the others', **tol)
    keep = [i for i in range(n) if i not in sets[k]]
    z6, iv6 = f(e[k:k + 1, keep], B[:, keep])
    c.close(z6[0], z[k], 'rejected windows act as absent', **tol)
    c.ok(len(iv6[0]) == 0, 'nothing rejected')
    # one weight list: identity after least squares changes nothing
    if c.chance(.3):
        z7, iv7 = f(e, B, (None, None), invalid_idx=listed)
        c.close(z7, z, 'repeated least squares', **tol)
        c.ok(all(list(a) == s for a, s in zip(iv7, listed)), 'repeated least squares: rejected windows')
    c.sample(**c.detail)

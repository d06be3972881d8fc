"""Reference numerics, written directly from the documented formulas (explicit loops, no shared code)."""
import math
from fractions import Fraction as F

import numpy as np


class Uncertain(Exception):
    " a discrete decision of the reference is within rounding of its threshold "


# ---- sliding windows -------------------------------------------------------------------------------
def window_options(rate, freq, nper, overlap):
    """ admissible (Lw, shift) pairs: exact values, or both neighbours when rounding decides """
    q = F(nper) * F(rate) / F(freq)
    near = round(q)
    Ls = {near, near + 1} if abs(q - near) < F(1, 10 ** 6) * max(1, abs(q)) / 1000 or abs(q - near) < F(1, 10 ** 9) else {math.ceil(q)}
    out = set()
    for L in Ls:
        x = L * (1 - F(overlap))
        k = round(x)
        shifts = {k, k - 1} if abs(x - k) < F(1, 10 ** 9) * max(1, L) else {math.floor(x)}
        out |= {(L, s) for s in shifts if s >= 0}
    return out


def nb_windows(n, L, shift):
    return (n - L) // shift + 1 if n >= L else 0


def coefficients(x, rate, freq, L, shift, taper=None):
    x = np.asarray(x, dtype=float)
    n = nb_windows(len(x), L, shift)
    w = np.ones(L) if taper is None else np.asarray(taper)
    ph = 2 * math.pi * (float(freq) / float(rate)) * np.arange(L)
    basis = (np.cos(ph) - 1j * np.sin(ph)) * w
    out = np.array([np.sum(basis * x[k * shift:k * shift + L]) for k in range(n)]) * (2. / L)
    size = np.array([np.sum(np.abs(w * x[k * shift:k * shift + L])) for k in range(n)]) * (2. / L)
    return out, size


def window_times(start, rate, L, shift, n):
    return np.array([start + (shift * k + L / 2) / rate for k in range(n)])


# ---- regression ------------------------------------------------------------------------------------
def lstsq(e, B, keep=None):
    " e (n,), B (q, n): z minimising |e - z.B| over kept windows "
    e, B = np.asarray(e), np.asarray(B)
    if keep is not None:
        e, B = e[keep], B[:, keep]
    return np.linalg.lstsq(B.T, e, rcond=None)[0]


def wls(e, B, w):
    s = np.sqrt(w)
    return np.linalg.lstsq((B * s).T, e * s, rcond=None)[0]


def median(x):
    x = np.sort(np.asarray(x)[~np.isnan(x)])
    n = len(x)
    if not n:
        return np.nan
    return x[n // 2] if n % 2 else .5 * (x[n // 2 - 1] + x[n // 2])


def scale_mad(x):
    " x: absolute residuals, nan where rejected "
    med = median(x)
    return median(np.abs(x - med)) / 0.44845


def expexp(x, a):
    with np.errstate(over='ignore'):
        return np.exp(np.exp(-a * a) - np.exp(a * (x - a)))


def huber(x, alpha, scale):
    out = np.ones(len(x))
    for i, v in enumerate(x):
        if np.isnan(v):
            out[i] = np.nan
        elif v > alpha * scale:
            out[i] = alpha * scale / v
    return out


def thomson(x, xi, scale):
    return expexp(x / scale, xi)


class HuberStep:
    def __init__(self, alpha=1.5):
        self.alpha = alpha

    def start(self):
        pass

    def weight(self, it, x, B):
        return huber(x, self.alpha, scale_mad(x))


class ThomsonStep:
    def __init__(self, xi=None):
        self.xi = xi

    def weight(self, it, x, B):
        if it == 0:
            self.scale = scale_mad(x)
        xi = self.xi if self.xi is not None else math.sqrt(2 * math.log(2 * len(x)))
        return thomson(x, xi, self.scale)


class OnesStep:
    " identity weights "
    def weight(self, it, x, B):
        return np.ones(len(x))


class CutStep:
    " keeps the residuals up to a multiple of their median "
    def __init__(self, k):
        self.k = k

    def weight(self, it, x, B):
        return (x <= self.k * median(x)).astype(float)


class BIStep:
    " bounded influence: residual weights times products of leverage weights (Chave and Thomson 2003) "
    def __init__(self, inner, lower, upper):
        self.inner, self.lower, self.upper = inner, lower, upper

    def weight(self, it, x, B):
        q, n = B.shape
        if it == 0:
            self.v, self.lev = np.ones(n), np.ones(n)
        w = self.inner.weight(it, x, B)
        w = np.where(np.isnan(w), 0., w)
        A = (B.conj() * self.v) @ B.T         # weighted power matrix
        G = np.linalg.inv(A)
        h = np.array([self.v[i] * (B[:, i] @ G @ B[:, i].conj()).real for i in range(n)])
        y = np.sum(self.v) * h / q
        with np.errstate(divide='ignore'):
            self.lev = self.lev * expexp(y, self.upper) * expexp(np.log(y), math.log(self.lower))
        self.v = w * self.lev
        return self.v


def mest_steps(alpha=1.5, xi=None):
    return [None, HuberStep(alpha), ThomsonStep(xi)]


def bi_steps(prob, nsteps, dim=2):
    from scipy.stats import gamma
    lower, upper = gamma.ppf(.5 * prob, dim) / dim, gamma.ppf(1 - .5 * prob, dim) / dim
    res = [None]
    for i in reversed(range(nsteps)):
        res.append(BIStep(HuberStep(), lower / 2 ** i, upper * 2 ** i))
    return res + [BIStep(ThomsonStep(), lower, upper)]


def robust(e, B, steps, rejected=(), tol=1e-2, maxit=100, eps=1e-14, margin=1e-6):
    """ (z, sorted rejected) of one output; raises ArithmeticError when the iteration limit is hit """
    e, B = np.asarray(e, dtype=complex), np.asarray(B, dtype=complex)
    ids = np.array([i for i in range(len(e)) if i not in set(int(k) for k in rejected)], dtype=int)
    out = set(range(len(e))) - set(ids.tolist())
    z = None
    for step in steps:
        if not len(ids):
            raise ArithmeticError('everything rejected')
        ee, BB = e[ids], B[:, ids]
        if step is None:
            z = lstsq(ee, BB)
            continue
        dead = np.zeros(len(ids), dtype=bool)
        prev = None
        for it in range(maxit):
            x = np.abs(ee - z @ BB)
            x[dead] = np.nan
            w = step.weight(it, x, BB)
            if np.any(np.isnan(w[~dead])):
                raise Uncertain('nan weight')
            w = np.where(dead, 0., w)
            near = (w > eps * (1 - 1e-3)) & (w < eps * (1 + 1e-3))
            if near.any():
                raise Uncertain('weight at eps')
            dead = w <= eps
            w_ = w
            if (w > 0).sum() <= len(B):
                raise Uncertain('nothing left')
            z = wls(ee, BB, w_)
            r = np.abs(ee - z @ BB)
            val = float(np.sum(w_ * r ** 2))
            if prev is not None:
                change = abs((val - prev) / prev)
                if abs(change - tol) < margin * max(tol, 1e-3):
                    raise Uncertain('change at tol')
                if change < tol:
                    break
            prev = val
        else:
            raise ArithmeticError('no convergence')
        out |= set(ids[dead].tolist())
        ids = ids[~dead]
    return z, np.array(sorted(out), dtype=int)


def settled(rng, e, B, steps, sets, **kw):
    """ (estimates, rejected) of the outputs

    Uncertain when changing the data by 1e-10 changes what is rejected or moves the estimate
    notably: rounding then decides.
    """
    jitter = lambda x: x * (1 + 1e-10 * rng.normal(size=x.shape))
    zs, ivs = [], []
    for k in range(len(e)):
        try:
            z, iv = robust(e[k], B, steps(), sets[k], **kw)
        except ArithmeticError:
            try:
                robust(jitter(e[k]), jitter(B), steps(), sets[k], **kw)
            except ArithmeticError:
                raise
            raise Uncertain('unstable failure')
        for _ in range(2):
            try:
                z2, iv2 = robust(jitter(e[k]), jitter(B), steps(), sets[k], **kw)
            except ArithmeticError:
                raise Uncertain('unstable outcome')
            if not np.array_equal(iv, iv2) or np.max(np.abs(z - z2)) > 1e-7 * np.max(np.abs(z)):
                raise Uncertain('unstable outcome')
        zs.append(z)
        ivs.append(iv)
    return np.array(zs), ivs


def error_estimate(e, B, z, nrej):
    e, B = np.asarray(e), np.asarray(B)
    n, q = B.shape[1], B.shape[0]
    r = e - z @ B
    res = math.sqrt(float(np.sum(np.abs(r) ** 2)))
    P = B @ B.conj().T
    d = np.sqrt(np.abs(np.diag(np.linalg.inv(P))))
    return res / math.sqrt(n - q) * (n / (n - nrej)) * d


# ---- coherence -------------------------------------------------------------------------------------
def cod_blocks(n, size):
    k = max(1, n // size)
    edges = [i * size for i in range(k)] + [n]
    return list(zip(edges, edges[1:]))


def cod(e, B, size):
    " e (n,), B (q, n) "
    e, B = np.asarray(e), np.asarray(B)
    out = np.empty(len(e))
    for a, b in cod_blocks(len(e), size):
        z = lstsq(e[a:b], B[:, a:b])
        r = e[a:b] - z @ B[:, a:b]
        out[a:b] = math.sqrt(max(0., 1 - np.sum(np.abs(r) ** 2) / np.sum(np.abs(e[a:b]) ** 2)))
    return out


# ---- problems --------------------------------------------------------------------------------------
def cgauss(rng, *shape):
    return (rng.normal(size=shape) + 1j * rng.normal(size=shape)) / math.sqrt(2)


def problem(rng, n, p, q, noise=0.1, complex_=True, heavy=False):
    " outputs (p, n), inputs (q, n), true transfer (p, q) "
    g = (lambda *s: cgauss(rng, *s)) if complex_ else (lambda *s: rng.normal(size=s))
    B, Z = g(q, n), g(p, q)
    N = g(p, n)
    if heavy:
        N = N / np.sqrt(rng.chisquare(3, size=(p, n)) / 3)
    return Z @ B + noise * N, B, Z


def mixing(rng, k, complex_=True):
    " well-conditioned k x k matrix "
    g = cgauss(rng, k, k) if complex_ else rng.normal(size=(k, k))
    u, _, v = np.linalg.svd(g)
    return (u * rng.uniform(.5, 3, size=k)) @ v

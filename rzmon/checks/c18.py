"""C18: impedances of synthetic recordings with a known response."""
import numpy as np

from .. import mt, ref
from ..core import Skip

RULE = ('synthetic recordings (electric = FIR of magnetic + noise, 1-3 electric, 1-3 magnetic and unrelated channels in any physical order, 1-3 runs, several rates, '
        'complex calibrations, group names of the user): impedance against the filter response, against the regression of explicitly computed coefficients, '
        'and its invariances; non-trivial = estimate compared with the truth; distinct by configuration and frequency')
CASES = dict(quick=600, thorough=9000)
MIN = dict(units=30, near=30, shared=10, self_remote=20, truth=80, regression=80, exact=20, calibrated=30, multi_run=25, fir=40, invariance=40, shifted=10, reordered=8, unrelated=8, renamed=20,
           mest=15, bi=6, per_frequency=8)


def case(c):
    import razorback as rb
    exact = c.chance(.3)
    taps = 1 if exact else c.choice([1, 2, 3, 5])
    s = mt.site(c, nb=c.choice([2, 2, 1, 3]), taps=taps, noise_e=0. if exact else c.choice([.02, .1, .3]), cals=c.chance(.6), mixed=.5)
    scaled = c.chance(.3)
    if scaled:
        mt.units(c, s)
    names = c.choice([('E', 'B', 'R'), ('E', 'B', 'R'), ('tell', 'magn', 'R'), ('B', 'E', 'R')])
    sig = mt.realize(c, s, names)
    fo, (nper, ov, tap) = mt.fourier_opts(c)
    freqs = mt.pick_freqs(c, s, c.choice([1, 2, 3]), nper)
    if c.chance(.25):                      # two frequencies almost the same
        freqs.insert(c.int(0, len(freqs)), freqs[0] * (1 + c.choice([1e-2, 1e-3, -1e-4, 1e-5, -1e-6, 1e-7])))
        c.obs('near')
    w, steps, label = mt.chain(c, rb, c.choice(['default', 'ls']) if exact else None)
    kw = {}
    if fo is not None:
        kw['fourier_opts'] = fo
    if w is not None:
        kw['weights'] = w
    if names[0] != 'E':
        kw.update(tag_elec=names[0], tag_mag=names[1])
        c.obs('renamed')
    c.note(label=label, ne=s.ne, nb=s.nb, sizes=s.sizes, rate=s.rate, freqs=freqs, fo=str(fo), taps=taps, exact=exact, order=s.order)
    feas = [mt.feasible(s, f, nper, ov) for f in freqs]
    before = {i: [np.asarray(x).copy() for x in run.data] for i, run in enumerate(sig.signals)}
    r = rb.utils.impedance(sig, freqs, **kw)
    c.ok(np.shape(r.impedance) == (len(freqs), s.ne, s.nb) and np.shape(r.error) == (len(freqs), s.ne, s.nb) and len(r.invalid_time) == len(freqs),
         'shape of the result', got=np.shape(r.impedance))
    for i, run in enumerate(sig.signals):
        for x, y in zip(run.data, before[i]):
            c.ok(np.array_equal(np.asarray(x), y), 'samples modified by the estimation')
    done = []
    for k, f in enumerate(freqs):
        if not feas[k]:
            c.ok(np.isnan(r.impedance[k]).all(), 'infeasible frequency')
            continue
        e, b, _ = mt.fields(s, f, nper, ov, tap)
        if b.shape[1] < 4 * s.nb + 8:
            continue
        try:
            z, iv = mt.regress(e, b, steps, [set()] * s.ne)
        except (ref.Uncertain, np.linalg.LinAlgError):
            continue
        except ArithmeticError:
            c.ok(np.isnan(r.impedance[k]).all(), 'estimation that cannot converge')
            continue
        c.close(r.impedance[k], z, f'impedance at {f} is the regression of the coefficients', rtol=1e-6)
        c.obs('regression')
        done.append(k)
        want = mt.truth(s, f)
        if exact:
            c.close(r.impedance[k], want, f'exact response at {f}', rtol=1e-8)
            c.obs('exact')
        else:
            sc = np.abs(want).max()
            err = np.array([ref.error_estimate(e[j], b, z[j], len(iv[j])) for j in range(s.ne)])
            lim = 15 * err + 6 * leak(s, e, b, taps, nper, f) + 1.5 * taper_bias(s, nper, f, tap, ov)
            c.ok(np.all(np.abs(r.impedance[k] - want) <= lim), f'response at {f}', got=r.impedance[k], want=want, limit=lim)
            c.stats.counts['worst_x100'] = max(c.stats.counts.get('worst_x100', 0), int(100 * np.max(np.abs(r.impedance[k] - want) / lim)))
            c.obs('fir', int(taps > 1))
        c.obs('truth')
        c.sig(label, s.ne, s.nb, s.sizes, round(f / s.rate, 6), taps, names[0])
    if not done:
        raise Skip
    c.obs('calibrated', int(any(callable(v) or v != 1. for v in s.cal.values())))
    c.obs('multi_run', int(len(s.sizes) > 1))
    c.obs(label)
    # invariances
    kind = c.choice(['shift', 'perm', 'extra', 'freq'] + (['shared', 'self'] * 2 if label in ('default', 'ls') else []))
    if kind == 'shift':
        r2 = rb.utils.impedance(mt.realize(c, s, names, shift=c.choice([1e6, -3600., 86400. * 365])), freqs, **kw)
        c.obs('shifted')
    elif kind == 'perm':
        import copy
        s2 = copy.copy(s)
        s2.order = c.rnd.sample(s.order, len(s.order))
        r2 = rb.utils.impedance(mt.realize(c, s2, names, perm=True), freqs, **kw)
        c.obs('reordered')
    elif kind == 'extra':
        import copy
        s2 = copy.copy(s)
        extra = ['x8', 'x9']
        s2.runs = [dict(d, **{x: c.rng.normal(size=len(d['b0'])) * 1e3 for x in extra}) for d in s.runs]
        s2.order = c.rnd.sample(s.order + extra, len(s.order) + 2)
        s2.cal = dict(s.cal, x8=1., x9=3.)
        r2 = rb.utils.impedance(mt.realize(c, s2, names), freqs, **kw)
        c.obs('unrelated')
    elif kind == 'shared':
        # a channel may have both an electric and a magnetic name
        if exact or scaled:
            return
        sig.tags['both'] = (*sig.tags[names[1]], sig.tags[names[0]][0])
        r2 = rb.utils.impedance(sig, freqs, **{**kw, 'tag_elec': names[0], 'tag_mag': 'both'})
        c.ok(np.shape(r2.impedance) == (len(freqs), s.ne, s.nb + 1), 'shared channel: shape of the result', got=np.shape(r2.impedance))
        for k in done:
            e, b, _ = mt.fields(s, freqs[k], nper, ov, tap)
            b = np.vstack([b, e[:1]])
            c.close(r2.impedance[k], np.array([np.linalg.lstsq(b.T, x, rcond=None)[0] for x in e]), 'shared channel: regression', rtol=1e-6)
            c.obs('shared')
        return
    elif kind == 'self':
        # the magnetic channels as their own remote reference
        r2 = rb.utils.impedance(sig, freqs, remote=names[1], **kw)
        c.obs('self_remote')
        for k in done:
            c.close(r2.impedance[k], r.impedance[k], 'magnetic channels as the remote: impedance unchanged', rtol=1e-6)
        return
    else:
        order = c.rnd.sample(range(len(freqs)), len(freqs))
        r1 = rb.utils.impedance(sig, [freqs[k] for k in order], **kw)
        z2 = np.empty_like(r.impedance)
        z2[order] = r1.impedance
        c.ok(np.array_equal(z2, r.impedance, equal_nan=True), 'frequencies are independent')
        c.obs('per_frequency')
        return
    ok = np.isfinite(r.impedance)
    c.ok(np.array_equal(ok, np.isfinite(r2.impedance)), f'{kind}: frequencies estimated')
    c.close(r2.impedance[ok], r.impedance[ok], f'{kind}: impedance unchanged', rtol=1e-7)
    c.close(r2.error[ok], r.error[ok], f'{kind}: errors unchanged', rtol=1e-5, atol=1e-12 * np.abs(r.impedance[ok]).max())
    c.obs('invariance')
    c.sample(**c.detail)


def leak(s, e, b, taps, nper, f):
    " size of the leakage contribution: filter length over window length, averaged over windows "
    if taps == 1:
        return 0.
    L = nper * s.rate / f
    g = np.abs(s.h).max() * np.array([[abs(mt.calv(s, f'b{j}', f)) for j in range(s.nb)]]) / np.array([[abs(mt.calv(s, f'e{i}', f))] for i in range(s.ne)])
    return g * 4 * (taps - 1) / L / np.sqrt(b.shape[1] / 6) * np.sqrt(L)


def taper_bias(s, nper, f, tap, ov):
    " systematic part: the taper of a delayed sample differs from that of the sample (white sources) "
    (_, L, _), *_ = mt.geometry(s, f, nper, ov)
    w = mt.taper_values(tap, L)
    w = np.ones(L) if w is None else np.asarray(w)
    taps = s.h.shape[2]
    rho = np.array([1 - np.dot(w[k:], w[:L - k]) / np.dot(w, w) for k in range(taps)])
    g = np.abs(np.array([[sum(s.h[i, j, k] * rho[k] * np.exp(-2j * np.pi * f * k / s.rate) for k in range(taps)) for j in range(s.nb)] for i in range(s.ne)]))
    return g * np.array([[abs(mt.calv(s, f'b{j}', f)) for j in range(s.nb)]]) / np.array([[abs(mt.calv(s, f'e{i}', f))] for i in range(s.ne)])

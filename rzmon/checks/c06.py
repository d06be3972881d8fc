"""C06: fusion of consecutive runs, compared with exact chains."""
from fractions import Fraction as F

from .. import gen, model
from ..core import Skip

RULE = ('sequences of 0-12 runs or of hundreds (also of 1 sample, or lazy ones of up to 5e9) with gaps of exactly one period, zero, other fractions (>= 0.1 period away from one) or many, one or '
        'two sampling rates, POSIX and non-dyadic clocks, clocks that differ by 1e-7 to 2e-3, fused and compared sample by sample with exact chains, twice; '
        'non-trivial = at least one chain of two runs; distinct by clock and layout')
CASES = dict(quick=4200, thorough=60000)
MIN = dict(long=20, crowd=15, fused_runs=900, kept_gaps=300, chains3=100, mixed_rates=40, posix=80, nondyadic=200, several_chains=100, touching=30, near_rates=15)


def case(c):
    uid, clock = gen.Uid(), gen.Clock(c)
    long = c.chance(.015)
    c.obs('long', int(long))
    many = 0 if long else gen.crowd(c, .012, 100, 320)
    n = c.int(2, 4) if long else many or c.int(0, 12)
    one = c.chance(.5)
    lay = gen.gen_layout(c, clock, n, nmin=1, nmax=4 if many else 9, sizes=gen.LONG if long else None, rate=c.choice(clock.rates) if one else None,
                         gaps=[1] * c.choice([1, 60]) + [2, 7] if many else [1, 1, 1, 1, 2, 5, 0, F(1, 2), F(6, 5), F(4, 5), F(3, 2), F(100), F(1003, 1000), F(997, 1000), F(1001, 1000), F(26, 25)])
    if len(lay) > 1 and c.chance(.15):
        # two clocks that differ by very little: never one run, even when consecutive
        k = c.int(1, len(lay) - 1)
        eps = F(1, c.choice([500, 2000, 10 ** 4, 10 ** 5, 2 * 10 ** 5, 10 ** 7]))
        r = lay[k][0] * (1 + eps)
        r = F(float(r))
        end = lay[k - 1][1] + F(lay[k - 1][2] - 1) / lay[k - 1][0]
        t = end + F(1) / lay[k - 1][0]
        if k + 1 == len(lay) or t + F(lay[k][2]) / r < lay[k + 1][1]:
            lay[k] = (r, t, lay[k][2])
            c.obs('near_rates')
    m = gen.gen_set(c, uid, clock, nch=c.int(1, 3), layout=lay)
    c.note(model=gen.describe(m), t0=str(clock.t0))
    try:
        want = m.fuse()
    except model.Ambiguous:
        raise Skip
    s = gen.realize(c, m)
    got = s.merge_consecutive_runs()
    gen.check_set(c, got, want, 'merge_consecutive_runs')
    c.obs('fused_runs', len(m.runs) - len(want.runs))
    gaps = [(b.t - a.stop) * a.rate for a, b in zip(m.runs, m.runs[1:]) if a.rate == b.rate]
    c.obs('kept_gaps', sum(g != 1 for g in gaps))
    c.obs('touching', sum(g == 0 for g in gaps))
    if len(want.runs) < len(m.runs):
        c.obs('posix', int(abs(clock.t0) > 1e9))
        c.obs('nondyadic', int(not clock.exact))
        c.obs('mixed_rates', int(len({r.rate for r in m.runs}) > 1))
        sizes, k = [], 0
        for w in want.runs:
            j, tot = 0, 0
            while tot < w.n:
                tot += m.runs[k].n
                k, j = k + 1, j + 1
            sizes.append(j)
        c.obs('chains3', int(max(sizes) >= 3))
        c.obs('several_chains', int(sum(x > 1 for x in sizes) > 1))
        c.sig(str(clock.t0), [(str(r.rate), r.n) for r in m.runs], [str(g) for g in gaps])
    gen.check_set(c, got.merge_consecutive_runs(), want, 'fusing again changes nothing')
    gen.check_set(c, s, m, 'original after fusion')
    c.sample(**c.detail)

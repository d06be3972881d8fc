"""C01: restriction in time, compared with exact rational time."""
from fractions import Fraction as F

from .. import gen, model
from ..core import Skip

RULE = ('random signal sets (1-4 runs, 1-4 channels, unique sample values, hostile clocks: dyadic or not, POSIX, negative) restricted '
        'or with an interval excluded at bounds on/between/outside samples, 1-3 times in a row, also run by run (strict and not) and through '
        'an inventory, some on lazy runs of up to 5e9 samples or on hundreds of runs; non-trivial = the bounds cut inside at least one run; distinct by clock, layout and positions of the bounds')
CASES = dict(quick=4200, thorough=60000)
MIN = dict(long=20, crowd=15, own_ends=300, cut_inside=300, bound_on_sample=200, bound_between=200, posix=100, excluded=100, run_strict_refused=30, nondyadic=200)


def case(c):
    import razorback as rb
    uid = gen.Uid()
    clock = gen.Clock(c)
    if c.chance(.015):
        m = gen.gen_set(c, uid, clock, frac=True, nruns=c.int(1, 3), nch=c.int(1, 2), sizes=gen.LONG)      # lazily, more samples than 32 bits count
        c.obs('long')
    else:
        many = gen.crowd(c)
        m = gen.gen_set(c, uid, clock, frac=True, **(dict(nruns=many, nmax=4, nch=1) if many else {}))
    s = gen.realize(c, m)
    c.note(model=gen.describe(m), t0=str(clock.t0))
    for depth in range(c.choice([1, 1, 2, 3])):
        a, b = gen.gen_bound(c, m), gen.gen_bound(c, m)
        if not (gen.unambiguous_bound(m, a) and gen.unambiguous_bound(m, b)):
            raise Skip
        if c.chance(.92) and a > b:
            a, b = b, a
        fa, fb = gen.number(c, a), gen.number(c, b)
        c.note(**{f'bounds{depth}': (str(a), str(b))})
        inside = []
        for r in m.runs:
            for x in (a, b):
                p = r.pos(x)
                if 0 <= p <= r.n - 1:
                    inside.append(p)
                    c.obs('bound_on_sample' if p == int(p) else 'bound_between')
        if inside:
            c.obs('cut_inside')
            c.obs('posix', int(abs(clock.t0) > 1e9))
            c.obs('nondyadic', int(not clock.exact))
            c.sig(str(clock.t0), [str(r) for r in clock.rates], [r.n for r in m.runs], [str(p) for p in inside])
        # single run
        k = c.int(0, len(m.runs) - 1) if m.runs else None
        if k is not None:
            one_run(c, s.signals[k], m.runs[k], a, b, fa, fb)
        exclude = c.chance(.35) and a < b
        if exclude:
            want = m.exclude(a, b)
            inv = rb.Inventory([s]).extract_t(fa, fb, True)
            s2 = s.extract_t(fa, fb, exclude=True)
            c.obs('excluded')
        else:
            want = m.restrict(a, b)
            inv = rb.Inventory([s]).extract_t(fa, fb)
            s2 = s.extract_t(fa, fb)
        gen.check_set(c, s2, want, f'extract_t(exclude={exclude})')
        c.ok(len(inv) == (1 if want.runs else 0), 'inventory restriction drops records left empty')
        if want.runs:
            gen.check_set(c, inv[0], want, 'Inventory.extract_t')
        gen.check_set(c, s, m, 'original after extract_t')
        m, s = want, s2
    c.sample(**c.detail)


def one_run(c, g, r, a, b, fa, fb):
    lo, hi = min(max(a, r.t), r.stop), min(max(b, r.t), r.stop)
    want = r.restrict(lo, hi)
    got = g.extract_t(fa, fb)
    c.obs('run_restricted')
    if want.n:
        gen.check_run(c, got, want, 'SyncSignal.extract_t')
    else:
        c.ok(got.size == 0, 'SyncSignal.extract_t keeps samples outside the interval', size=got.size)
    pa, pb = r.pos(a), r.pos(b)
    n = r.n
    if all(0 <= p <= n - 1 for p in (pa, pb)):
        # a bound equal to the end of the run within rounding may be refused or not in strict mode
        exact = all(float(x) == y for x, y in ((a, float(a)),)) and all(0 < p < n - 1 for p in (pa, pb))
        if exact:
            got = g.extract_t(fa, fb, strict=True) if want.n else None
            c.obs('run_strict_accepted')
            if want.n:
                gen.check_run(c, got, want, 'SyncSignal.extract_t(strict)')
    elif any(p < -F(1, 20) or p > n - 1 + F(1, 20) for p in (pa, pb)):
        c.refused(lambda: g.extract_t(fa, fb, strict=True), 'strict restriction with a bound outside the run')
        c.obs('run_strict_refused')
    if n:
        # the times a run reports as its own are inside it
        u, v = c.choice([(g.start, g.stop), (g.start, g.stop), (g.start, g.start), (g.stop, g.stop)])
        w = r.restrict(*[r.t if x == g.start else r.stop for x in (u, v)])
        gen.check_run(c, g.extract_t(u, v, strict=True), w, 'extract_t(strict) at the ends of the run')
        gen.check_run(c, g.extract_t(u, v), w, 'extract_t at the ends of the run')
        c.obs('own_ends')
    # by sample numbers
    i = c.int(0, n - 1)
    j = c.int(i, n)
    if j > i:
        gen.check_run(c, g.extract_i(i, j), r.cut(i, j), 'extract_i')
        gen.check_run(c, g.extract_i(i, j - 1, include_last=True), r.cut(i, j), 'extract_i(include_last)')
        gen.check_run(c, g.extract_i(i, None), r.cut(i, n), 'extract_i(i, None)')
        gen.check_run(c, g.extract_i(None, j), r.cut(0, j), 'extract_i(None, j)')
    c.refused(lambda: g.extract_i(0, n + c.int(1, 3)), 'extract_i beyond the end')
    c.refused(lambda: g.extract_i(-c.int(1, n), n), 'extract_i before the start')

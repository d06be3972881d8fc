"""C29: which parts of the files are read, and when, observed from outside the code."""
import os
import sys

import dask
import numpy as np

from .. import files, gen, model
from ..core import HarnessError, Skip
from . import c07
from .c02 import permuted
from .c10 import Program

RULE = ('(a) programs of joins, merges, selections, restrictions, fusions, packs and prints on sets loaded from ATS files whose samples are only written to disk after the program: any '
        'sample read too early is wrong, and any opening of a file that reads bytes during the program is seen; (b) big files of which a restricted interval is computed (samples, Fourier '
        'coefficients, impedances) with the bytes read by the process bounded by the overlapping chunks, and the rest of the file cut off; distinct by program or interval')
CASES = dict(quick=1560, thorough=12000)
MIN = dict(programs=60, operations=300, values_after=300, prints=100, pack=20, merge=20, join=10, time=30, fuse=10, restricted=80, bounded=80, cut_off=30, coefficients=12,
           loads=150, impedance=4)

opened = []
_hooked = []


def hook(event, args):
    if event == 'open' and isinstance(args[0], (str, bytes)) and os.fsdecode(args[0]).endswith('.ats'):
        opened.append(os.fsdecode(args[0]))


def rchar():
    " bytes this process has read so far "
    with open('/proc/self/io') as f:
        for line in f:
            if line.startswith('rchar'):
                return int(line.split()[1])
    raise HarnessError('/proc/self/io')


class Lazy(Program):
    " sets backed by files without their samples; values are checked only at the end "

    def __init__(self, c, rb):
        self.c, self.rb = c, rb
        self.uid = gen.Uid()
        self.pool, self.raw, self.trace, self.pending, self.late, self.coeffs = [], [], [], [], [], []
        self.steps = c.int(5, 12)
        self.invs, self.lists = [], []
        self.rate = rate = c.choice([1, 2, 4, 64])
        self.clock = gen.Clock(c, exact=True)
        self.clock.rates, self.clock.t0, self.clock.coarse = [model.F(rate)], model.F(0), model.F(rate)
        names = list(gen.NAMES)
        c.rnd.shuffle(names)
        t, base = c.choice([0, 1460000000]), []
        for _ in range(c.int(2, 4)):
            secs = c.int(2, 12 if rate < 64 else 6)
            base.append((model.F(rate), model.F(t), secs * rate + c.choice([0, 0, 1 if rate > 1 else 0])))
            t += secs + c.choice([0, 0, 2, 5]) + (base[-1][2] > secs * rate)
        for _ in range(3):
            mine, names = names[:5], names[5:]
            nch = c.int(1, 3)
            tags = gen.gen_tags(c, nch, names=mine)
            for _ in range(c.choice([1, 2])):
                lay = [e for e in base if c.chance(.6)] or base[:1]
                m = permuted(gen.gen_set(c, self.uid, self.clock, nch=nch, tags=tags, layout=lay, half=0), c.rnd.sample(range(nch), nch))
                self.add(rb.SignalSet(dict(m.tags), *[self.load(r) for r in m.runs]), m)
        self.depth = [0] * len(self.pool)

    def load(self, run):
        c = self.c
        names = []
        for x in run.data:
            p = c.scratch / f'f{len(self.pending)}.ats'
            garbage = c.rng.integers(-2 ** 31, 2 ** 31, size=len(x), dtype=np.int64)
            files.write_ats(p, garbage, float(run.rate), int(run.t), 1.)
            self.pending.append((p, x))
            names.append(str(p))
        with dask.config.set({'array.chunk-size': c.choice(['64 B', '1 KiB', '128 MiB'])}):
            sig = self.rb.io.load_ats(names, [gen.cal_arg(k) for k in run.cals])
        c.obs('loads', len(names))
        return sig

    def add(self, s, m):
        self.pool.append((s, m))

    def watch(self, label, run):
        c = self.c
        n0, r0 = len(opened), rchar()
        res = run()
        r1 = rchar()
        if len(opened) > n0 and r1 - r0 > 300:
            c.fail(f'{label} reads files', files=opened[n0:n0 + 4], read=r1 - r0)
        c.stats.evals += 1
        c.obs('operations')
        return res

    def outcome(self, label, want, run):
        c = self.c
        try:
            m = want()
        except (model.Ambiguous, model.Refused):
            return False
        self.trace.append(label)
        c.note(trace=self.trace[-10:])
        s = self.watch(label, run)
        self.add(s, m)
        if c.chance(.6):
            def show():
                return str(s) + repr(s) + repr([str(r) + repr(r) for r in s.signals]) + str(s.tags) + repr((s.sizes, s.intervals, s.starts, s.stops, s.sampling_rates, s.nb_runs))
            self.watch('printing', show)
            c.obs('prints')
        return True

    def inspect(self, all_=False):
        pass

    def compute(self, s, m):
        " coefficients that are not computed yet read nothing; their values come at the end "
        c = self.c
        if not m.runs or min(r.n for r in m.runs) < 4:
            return 0
        rate = float(self.rate)
        nper, overlap = c.choice([1, 2]), c.choice([0., .5])
        self.trace.append(f'coefficients{(nper, overlap)}')
        try:
            lazy, wd = self.watch('uncomputed coefficients', lambda: s.fourier_coefficients(rate / 2, nper, overlap, None, compute=False))
        except ValueError:
            return 0                                     # too short for a window
        self.coeffs.append((lazy, wd, m))
        c.obs('coefficients')
        return 1

    def inventory(self, op):
        c, rb = self.c, self.rb
        ids = c.rnd.sample(range(len(self.pool)), min(len(self.pool), c.int(1, 4)))
        ms = [self.pool[j][1] for j in ids]
        self.trace.append(f'{op}{tuple(ids)}')
        inv = self.watch('inventory', lambda: rb.Inventory([self.pool[j][0] for j in ids]))
        self.watch('printing', lambda: str(inv) + repr(inv) + repr(sorted(inv.tags)))
        if op == 'filter':
            self.watch('filter', lambda: inv.filter('*x*', 'E*'))
            return 0
        carriers = {t: tuple(k for k, m in enumerate(ms) if t in m.tags) for m in ms for t in m.tags}
        simple = all(m.runs and all(r.n > 1 for r in m.runs) for m in ms) and all(
            len({m.tags[t] for m in ms if t in m.tags}) == 1 for t in carriers) and all(
            not (set(v) & set(w) and carriers[t] != carriers[u]) for m in ms for t, v in m.tags.items() for u, w in m.tags.items())
        if not simple:
            return 0
        try:
            want = model.pack(ms)
        except (model.Refused, model.Ambiguous):
            return 0
        got = self.watch('pack', inv.pack)
        self.late.append((got, want, set(carriers), f'pack{tuple(ids)}'))
        c.obs('pack')
        return 1

    def finish(self):
        c = self.c
        for p, x in self.pending:
            with open(p, 'r+b') as f:
                f.seek(1024)
                f.write(x.astype('<i4').tobytes())
        for i, (s, m) in enumerate(self.pool):
            gen.check_set(c, s, m, f'signal set {i} computed after the samples were written')
            c.obs('values_after')
        for lazy, wd, m in self.coeffs:
            for i, z in enumerate(lazy):
                want = []
                for run, nw, lw, sh in zip(m.runs, *wd):
                    x, u = np.asarray(run.data[i], float), (-1.) ** np.arange(lw)
                    cal = complex(run.cals[i](self.rate / 2))
                    want += [2 / lw * np.sum(x[w * sh:w * sh + lw] * u) / cal for w in range(nw)]
                c.close(np.asarray(z), np.array(want), 'coefficients computed after the samples were written', rtol=1e-9, atol=1e-6)
        for got, want, names, label in self.late:
            c07.check(c, got, want, names, label)
        c.obs('programs')


def case(c):
    import razorback as rb
    if not _hooked:
        sys.addaudithook(hook)
        _hooked.append(1)
    del opened[:]
    if c.idx % 5 < 3:
        try:
            p = Lazy(c, rb)
        except model.Refused:
            raise Skip
        for _ in range(p.steps * 2):
            if len(p.pool) > 30:
                break
            p.step()
        p.finish()
        c.sig(p.trace)
        c.sample(trace=p.trace)
        return
    restricted(c, rb)


def restricted(c, rb):
    k = c.choice([1, 2, 3])
    n = c.choice([2 ** 18, 2 ** 19, 2 ** 20])
    rate = float(c.choice([16, 64, 1024]))
    chunk = c.choice([16, 32, 64, 100]) * 1024
    per = chunk // 4                                     # samples of a chunk of raw integers
    t0 = c.choice([0, 10 ** 9])
    xs = [c.rng.integers(-2 ** 31, 2 ** 31, size=n, dtype=np.int64).astype('<i4') for _ in range(k)]
    names = []
    for i, x in enumerate(xs):
        names.append(files.write_ats(c.scratch / f'{i}.ats', x, rate, t0, .5))
    rb.io.load_ats(names).extract_t(t0, t0 + 1).data[0].compute()          # warm up
    with dask.config.set({'array.chunk-size': chunk}):
        r0 = rchar()
        sig = rb.io.load_ats(names)
        s = rb.SignalSet({f'c{i}': i for i in range(k)}, sig)
        r1 = rchar()
        c.ok(r1 - r0 <= k * 32768, 'loading reads more than headers', read=r1 - r0)
        a = c.int(0, n - 2)
        m = c.choice([2, 50, per // 2, per, 3 * per, 3 * per, c.int(2, 4 * per)])
        b = min(n, a + max(2, m))
        lo, hi = t0 + a / rate, t0 + (b - 1) / rate
        way = c.choice(['extract_t', 'extract_t', 'select', 'pack', 'merge', 'nested'])
        if way == 'pack':
            inv = rb.Inventory([rb.SignalSet({f'c{i}': 0}, rb.io.load_ats([q])) for i, q in enumerate(names)])
            x = inv.extract_t(lo, hi).pack() if c.chance(.5) else inv.pack().extract_t(lo, hi)
            x = x.select_channels([f'c{i}' for i in range(k)])
        elif way == 'merge':
            x = rb.SignalSet({'c0': 0}, rb.io.load_ats(names[:1]))
            for i, q in list(enumerate(names))[1:]:
                x = x & rb.SignalSet({f'c{i}': 0}, rb.io.load_ats([q]))
            x = x.extract_t(lo, hi)
        elif way == 'nested':
            x = s.extract_t(t0 - 1, t0 + n / rate).merge_consecutive_runs().extract_t(lo, hi)
        elif way == 'select':
            x = s.extract_t(lo, hi)[0].extract_t(lo, hi)
        else:
            x = s.extract_t(lo, hi)
        str(x), repr(x)
        r2 = rchar()
        c.ok(r2 - r1 <= k * 32768, f'restriction ({way}) reads samples', read=r2 - r1)
        used = list(range(x.nb_channels))
        order = [x.tags[f'c{i}'][0] for i in used]
        c.note(n=n, k=k, chunk=chunk, a=a, b=b, way=way, rate=rate)
        last = min(n, b + 2 * per)
        cut = c.chance(.5) and last < n
        if cut:
            for q in names:
                with open(q, 'r+b') as f:
                    f.truncate(1024 + 4 * last)
            c.obs('cut_off')
        what = c.choice(['samples', 'coefficients', 'coefficients', 'impedance', 'impedance'])
        if what == 'coefficients' and b - a < 64 or what == 'impedance' and (b - a < 2000 or k < 2 or len(used) < 2):
            what = 'samples'
        r3 = rchar()
        nread = len(used)
        if what == 'samples':
            got = [np.asarray(x.signals[0].data[order[i]]) for i in used]
        elif what == 'coefficients':
            got, _ = x.fourier_coefficients(rate / 4, 8, .5, np.hanning)
        else:
            fun = rb.SignalSet({'E': (order[0],), 'B': (order[1],)}, x.signals[0])
            got = rb.utils.impedance(fun, [rate / 8], remote=None)
            nread = 2
            c.obs('impedance')
        r4 = rchar()
    need = (b - a) * 4
    bound = len(used) * (need + 4 * chunk + 8192 * (need // chunk + 6))
    if bound < 4 * n:
        c.ok(r4 - r3 <= bound, f'computing a restricted interval ({what}, {way}) reads more than the chunks that overlap it', read=r4 - r3, need=need * len(used), bound=bound, files=4 * n * k)
        c.obs('bounded')
    if what == 'samples':
        for i in used:
            c.eq(got[i], .5 * xs[i][a:b], 'samples of the restricted interval')
    elif what == 'coefficients':
        ref = rb.SyncSignal([.5 * xs[i][a:b] for i in used], rate)
        want, _ = ref.fourier_coefficients(rate / 4, 8, .5, np.hanning)
        c.close(np.asarray(got)[order], want, 'coefficients of the restricted interval', rtol=1e-9)
        c.obs('coefficients')
    c.obs('restricted')
    c.sig(n, a, b, way, what)
    c.sample(**c.detail)

"""C10: programs of signal set operations against the model; nothing involved earlier ever changes."""
import copy

import numpy as np
from fractions import Fraction as F

from .. import gen, model
from ..core import Skip
from . import c07, c08
from .c02 import permuted

RULE = ('random programs of 4-16 operations (join, merge, channel/run/time selection, exclusion, fusion, pack, wrapping of runs, deep copies, edits of names, Fourier coefficients, inventory additions) over a growing pool of '
        'signal sets with unique sample values; every result compared with the model, every refusal with the model, and all sets, name tables and raw arrays re-inspected; '
        'non-trivial = at least three successful combining operations; distinct by program trace')
CASES = dict(quick=840, thorough=25000)
MIN = dict(join=8, merge=100, select=80, runs=80, time=150, exclude=60, fuse=80, pack=40, edit=100, refused=100, reinspected=3000,
           wrapped=60, copied=60, nondyadic=20, computed=60, inventories=300)


class Program:
    def __init__(self, c, rb):
        self.c, self.rb = c, rb
        deep = c.chance(.7)
        self.clock = gen.Clock(c, exact=deep)
        self.steps = c.int(6, 16) if deep else c.int(4, 6)
        if not deep:
            c.obs('nondyadic')
        self.uid = gen.Uid()
        self.pool, self.raw, self.trace = [], [], []
        names = list(gen.NAMES)
        c.rnd.shuffle(names)
        base = gen.gen_layout(c, self.clock, 5, nmin=3, nmax=14, gaps=[1, 1, 2, 4], grid=True)
        for _ in range(3):
            mine, names = names[:6], names[6:]
            nch = c.int(1, 3)
            tags = gen.gen_tags(c, nch, names=mine)
            for k in range(c.choice([1, 2])):
                lay = [e for e in base if c.chance(.55)]
                m = permuted(gen.gen_set(c, self.uid, self.clock, nch=nch, tags=tags, layout=lay), c.rnd.sample(range(nch), nch))
                self.add(gen.realize(c, m), m)
        # a set with special values, only computed with and re-inspected bit by bit
        n = c.int(6, 60)
        x = [c.rng.normal(size=n) for _ in range(2)]
        for y in x:
            for _ in range(c.int(0, 3)):
                y[c.choice([0, -1, c.int(0, n - 1)])] = c.choice([np.nan, np.inf, -np.inf, -0., 1e300])
        self.special = rb.SignalSet({'sp': (0, 1)}, rb.SyncSignal(x, 1., 0.))
        self.bits = [(y, y.tobytes()) for y in x]
        self.bits += [(y, y.tobytes()) for y in (x.astype('i4') for x, _ in self.raw[:2])]
        self.invs, self.lists = [], []

    def add(self, s, m):
        self.pool.append((s, m))
        for run in s.signals:
            for x in run.data:
                if isinstance(x, np.ndarray) and not any(y is x for y, _ in self.raw):
                    self.raw.append((x, x.copy()))

    def pick(self):
        return self.c.int(0, len(self.pool) - 1)

    def inspect(self, all_=False):
        c = self.c
        for x, ref in self.bits:
            if x.tobytes() != ref:
                c.fail('a raw sample array was modified', trace=self.trace[-3:])
        for inv, ids in self.invs:
            c.ok(len(inv) == len(ids) and all(a is b for a, b in zip(inv, ids)), 'inventory re-inspected', trace=self.trace[-3:])
            c.obs('inventories')
        for got, want in self.lists:
            c.ok(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'a list given to an inventory changed', trace=self.trace[-3:])
        todo = range(len(self.pool)) if all_ else {self.pick() for _ in range(3)}
        for i in todo:
            gen.check_set(c, *self.pool[i], f'signal set {i} re-inspected after {self.trace[-1:]}')
            c.obs('reinspected')
        for x, ref in self.raw:
            if not np.array_equal(x, ref):
                c.fail('a raw sample array was modified', trace=self.trace[-3:])

    def outcome(self, label, want, run):
        " compare one operation with the model, including refusals "
        c = self.c
        try:
            m = want()
        except model.Ambiguous:
            return False
        except model.Refused as ex:
            self.trace.append((label, 'refused', str(ex)))
            c.refused(run, f'{label} ({ex})')
            c.obs('refused')
            return False
        self.trace.append(label)
        c.note(trace=self.trace[-10:])
        s = run()
        gen.check_set(c, s, m, label)
        self.add(s, m)
        return True

    def step(self):
        c, rb = self.c, self.rb
        op = c.choice(['join', 'join', 'merge', 'merge', 'select', 'runs', 'time', 'time', 'exclude', 'fuse', 'pack', 'edit', 'edit', 'wrap', 'copy', 'filter', 'compute', 'compute', 'inventory', 'inventory'])
        i = self.pick()
        s, m = self.pool[i]
        if op == 'compute':
            return self.compute(s, m)
        if op == 'inventory':
            return self.containers()
        if op in ('join', 'merge'):
            js = [self.pick() for _ in range(c.choice([1, 1, 2]))]
            if op == 'join' and c.chance(.7):     # prefer compatible operands
                same = [j for j, (_, x) in enumerate(self.pool) if set(x.tags) == set(m.tags) and j != i]
                js = [c.choice(same)] if same else js
            if op == 'merge' and c.chance(.8):
                free = [j for j, (_, x) in enumerate(self.pool) if not set(x.tags) & set(m.tags)]
                js = [c.choice(free)] if free else js
            ss, ms = zip(*[self.pool[j] for j in js])
            if sum(x.nch for x in ms) + m.nch > 12 or sum(len(x.runs) for x in ms) + len(m.runs) > 14:
                return 0
            fn = {'join': lambda: s.join(*ss), 'merge': lambda: s.merge(*ss)}[op]
            if len(ss) == 1 and c.chance(.5):
                fn = {'join': lambda: s | ss[0], 'merge': lambda: s & ss[0]}[op]
            done = self.outcome(f'{op}{(i, *js)}', lambda: getattr(m, op)(*ms), fn)
            if done:
                c.obs(op)
            return int(done)
        if op == 'select':
            if not m.runs:
                return 0
            names = sorted(m.tags)
            parts = [c.choice(names) if names and c.chance(.6) else c.int(0, m.nch - 1) for _ in range(c.int(1, 2))]
            idx = [k for p in parts for k in (m.tags[p] if isinstance(p, str) else (p,))]
            done = self.outcome(f'select{(i, parts)}', lambda: m.select(idx), lambda: s.select_channels(parts))
        elif op == 'runs':
            if not m.runs:
                return 0
            keep = [k for k in range(len(m.runs)) if c.chance(.7)]
            done = self.outcome(f'runs{(i, keep)}', lambda: m.take_runs(keep), lambda: s.select_runs(np.array(keep, dtype=int)))
        elif op in ('time', 'exclude'):
            a, b = sorted([gen.gen_bound(c, m), gen.gen_bound(c, m)])
            if a == b or not (gen.unambiguous_bound(m, a) and gen.unambiguous_bound(m, b)):
                return 0
            if op == 'time':
                done = self.outcome(f'time{(i, str(a), str(b))}', lambda: m.restrict(a, b), lambda: s.extract_t(float(a), float(b)))
            else:
                done = self.outcome(f'exclude{(i, str(a), str(b))}', lambda: m.exclude(a, b), lambda: s.extract_t(float(a), float(b), exclude=True))
        elif op == 'fuse':
            done = self.outcome(f'fuse{(i,)}', m.fuse, s.merge_consecutive_runs)
        elif op == 'wrap':
            if not m.runs:
                return 0
            k = c.int(0, len(m.runs) - 1)
            tags = {t: v for t, v in m.tags.items()}
            done = self.outcome(f'wrap{(i, k)}', lambda: model.MSet(tags, [m.runs[k]], m.nch), lambda: rb.SignalSet(s.tags, s.signals[k]))
            op = 'wrapped'
        elif op == 'copy':
            done = self.outcome(f'copy{(i,)}', lambda: model.MSet(dict(m.tags), m.runs, m.nch), lambda: self.copied(s))
            op = 'copied'
        elif op == 'edit':
            return self.edit(i)
        elif op in ('pack', 'filter'):
            return self.inventory(op)
        if done:
            c.obs(op)
        return int(done)

    def copied(self, s):
        c = self.c
        if c.chance(.5):
            return copy.deepcopy(s)
        r = copy.deepcopy(self.rb.Inventory([s, self.pool[0][0]]))
        c.ok(isinstance(r, self.rb.Inventory) and len(r) == 2, 'copied inventory')
        return list(r)[0]

    def compute(self, s, m):
        " spectral computations read the samples only "
        c, rb = self.c, self.rb
        if c.chance(.5) or not m.runs:
            s, rate, n = self.special, 1., self.special.sizes[0]
        else:
            rate, n = float(min(r.rate for r in m.runs)), min(r.n for r in m.runs)
        nper, nf = c.choice([(1, .5), (1, .4), (2, .5), (1, .3)])
        self.trace.append(f'compute{(nper, nf)}')
        kw = dict(compute=False) if c.chance(.3) else {}
        window = c.choice([None, np.hanning])
        try:
            coeffs, _ = s.fourier_coefficients(nf * rate, nper, c.choice([0., .5]), window, **kw)
            coeffs = [np.asarray(x) for x in coeffs]
            if c.chance(.5):
                rb.prefilters.cod_filter(.1, size=c.int(2, 4))(coeffs[0], np.transpose(coeffs[1:])) if len(coeffs) > 1 else None
            c.obs('computed')
        except Exception:
            pass                 # too short for a window
        self.inspect(all_=c.chance(.3))
        return 0

    def containers(self):
        " inventories: additions and queries leave the operands as they were "
        c, rb = self.c, self.rb
        if len(self.invs) < 3 or c.chance(.2):
            sets = [self.pool[self.pick()][0] for _ in range(c.int(0, 5))]
            for _ in range(c.choice([1, 1, 2])):
                self.invs.append((rb.Inventory(sets), list(sets)))
            self.lists.append((sets, list(sets)))
            self.trace.append('inventory')
        (a, la), (b, lb) = c.choice(self.invs), c.choice(self.invs)
        op = c.choice(['add', 'add', 'add', 'append', 'extend', 'time', 'filter', 'slice'])
        self.trace.append(op)
        if op == 'add':
            r = a + b
            c.ok(isinstance(r, rb.Inventory) and len(r) == len(la) + len(lb) and all(x is y for x, y in zip(r, la + lb)), 'sum of inventories')
            self.invs.append((r, la + lb))
        elif op in ('append', 'extend'):
            new = [self.pool[self.pick()][0] for _ in range(1 if op == 'append' else c.int(0, 3))]
            if op == 'append':
                a.append(new[0])
            else:
                a.extend(c.choice([new, tuple(new), iter(new), rb.Inventory(new)]))
            la.extend(new)
        elif op == 'time':
            a.extract_t(-1e15, 1e15)
        elif op == 'filter':
            a.filter('*')
        else:
            list(a), len(a), bool(a), a.tags, a[:1], repr(a)
        self.invs = self.invs[-6:]
        self.inspect()
        return 0

    def edit(self, i):
        c = self.c
        s, m = self.pool[i]
        if not m.runs:
            return 0
        new = dict(m.tags)
        k = c.int(0, 3)
        if k == 0:
            name, v = c.choice(['new1', 'new2', 'Zed']), tuple(c.rnd.sample(range(m.nch), c.int(1, m.nch)))
            new[name] = v
            s.tags[name] = v
        elif k == 1 and new:
            name = c.choice(sorted(new))
            v = tuple(c.rnd.sample(range(m.nch), c.int(1, m.nch)))
            trial = dict(new)
            trial[name] = v
            if {x for w in trial.values() for x in w} != set(range(m.nch)):
                return 0
            new = trial
            setattr(s.tags, name, v)
        elif k == 2 and new:
            name = c.choice(sorted(new))
            trial = {t: w for t, w in new.items() if t != name}
            if {x for w in trial.values() for x in w} != set(range(m.nch)):
                return 0
            new = trial
            del s.tags[name]
        else:
            old = sorted(new)
            c.rnd.shuffle(old)
            new = {t: new[t] for t in old}
            s.tags = dict(new)
        self.trace.append(f'edit{(i, k)}')
        self.pool[i] = (s, model.MSet(new, m.runs, m.nch))
        c.obs('edit')
        self.inspect(all_=True)
        return 0

    def inventory(self, op):
        c, rb = self.c, self.rb
        ids = c.rnd.sample(range(len(self.pool)), min(len(self.pool), c.int(1, 4)))
        ms = [self.pool[j][1] for j in ids]
        inv = rb.Inventory([self.pool[j][0] for j in ids])
        self.trace.append(f'{op}{tuple(ids)}')
        if op == 'filter':
            names = sorted({t for m in ms for t in m.tags})
            pats = [c08.gen_pattern(c, names) for _ in range(2)] if names else ['*']
            keys = {n for n in names if any(c08.glob(p, n) for p in pats)}
            want = c08.select(ms, keys)
            got = inv.filter(*pats)
            c08.check_inv(c, got, want, f'filter{pats}')
            for g, w in list(zip(got, want))[:2]:
                self.add(g, w)
            return 1
        # pack: only inventories with consistent name structure
        struct = {}
        for m in ms:
            for t, v in m.tags.items():
                key = frozenset((u, tuple(w.index(x) for x in v if x in w)) for u, w in m.tags.items() if set(w) & set(v))
                if struct.setdefault(t, (len(v), key)) != (len(v), key):
                    return 0
        if any(r.n < 2 for m in ms for r in m.runs):
            return 0
        try:
            want = model.pack(ms)
        except (model.Refused, model.Ambiguous):
            return 0
        carriers = {t: tuple(k for k, m in enumerate(ms) if t in m.tags) for m in ms for t in m.tags}
        for m in ms:            # names of one channel must travel together, else channels are duplicated
            for t, v in m.tags.items():
                for u, w in m.tags.items():
                    if set(v) & set(w) and carriers[t] != carriers[u]:
                        return 0
        got = inv.pack()
        names = {t for m in ms for t in m.tags}
        c07.check(c, got, want, names, f'pack{tuple(ids)}')
        c.obs('pack')
        if got.nb_runs and len(self.pool) < 30 and got.nb_channels <= 10:
            tags = {t: tuple(v) for t, v in got.tags.items()}
            runs = []
            for rate, t, n, content in want:
                data, cals = [None] * got.nb_channels, [None] * got.nb_channels
                for name, idx in tags.items():
                    for x, i in enumerate(idx):
                        data[i], cals[i] = content[name][0][x], content[name][1][x]
                runs.append(model.Run(rate, t, data, cals))
            self.add(got, model.MSet(tags, runs, got.nb_channels))
        return 1


def case(c):
    import razorback as rb
    p = Program(c, rb)
    done = 0
    for _ in range(p.steps * 2):
        if len(p.pool) > 30:
            break
        done += p.step()
        c.note(trace=p.trace[-10:])
        if c.chance(.3):
            p.inspect()
    p.trace.append('end')
    p.inspect(all_=True)
    if done >= 3:
        c.sig(p.trace)
    c.sample(trace=p.trace)

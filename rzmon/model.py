"""Executable reference model of tagged sample sets in exact rational time.

Written from the documentation.  A model run knows its exact clock (rate and start are Fractions), its samples
(numpy arrays of unique values) and a calibration identity per channel; the code under test is given the floats nearest to
these exact times.  Operations return new models; `Ambiguous` is raised when the exact times do not determine
what the documentation promises within clock rounding (such cases are outside the domain and skipped).
"""
from fractions import Fraction as F

import numpy as np

GUARD = F(1, 20)      # a bound nearer than this (in samples) to a sample but not on it may be ambiguous


def guard(rate, *times):
    " distance (in samples) below which clock rounding may decide; never more than GUARD "
    big = max(abs(float(t)) for t in times)
    return min(GUARD, max(F(1, 20000), F(64 * float(np.spacing(big))) * rate))


def gap_guard(rate, *times):
    " the same for the gap between two runs (in periods) "
    return min(F(1, 10), 2 * guard(rate, *times) + F(1, 2000) + rate / 10 ** 6)


class Ambiguous(Exception):
    pass


class Refused(Exception):
    " the model says that the operation must be refused "


class Ramp:
    """ samples of a very long run, known by pieces: value = uid * 2**40 + k + half for first <= k < last """

    def __init__(self, *pieces):
        self.pieces = tuple(p for p in pieces if p[2] > p[1])

    def __len__(self):
        return sum(b - a for _, a, b, _ in self.pieces)

    def __getitem__(self, s):
        i, j, _ = s.indices(len(self))
        out, at = [], 0
        for u, a, b, h in self.pieces:
            out.append((u, a + max(0, i - at), min(b, a + j - at), h))
            at += b - a
        return Ramp(*out)

    def values(self):
        return np.concatenate([u * 2. ** 40 + np.arange(a, b) + h for u, a, b, h in self.pieces] or [np.empty(0)])


def cat(parts):
    if isinstance(parts[0], Ramp):
        return Ramp(*[p for r in parts for p in r.pieces])
    return np.concatenate(parts)


class Run:
    __slots__ = 'rate', 't', 'data', 'cals', 'stop'

    def __init__(self, rate, t, data, cals):
        self.rate, self.t, self.data, self.cals = F(rate), F(t), tuple(data), tuple(cals)
        self.stop = self.t + F(self.n - 1) / self.rate

    @property
    def n(self):
        return len(self.data[0])

    def pos(self, time):
        " position of a time in samples; exact sample positions are integers, others are far from integers "
        p = (F(time) - self.t) * self.rate
        q = round(p)
        if p != q and abs(p - q) < guard(self.rate, time, self.t, self.stop) and -1 < p < self.n:
            raise Ambiguous(f'bound at {float(p)} samples')
        return p

    def cut(self, i, j):
        " samples i <= k < j "
        return Run(self.rate, self.t + F(i) / self.rate, [d[i:j] for d in self.data], self.cals)

    def restrict(self, a, b):
        i = max(0, ceil(self.pos(a)))
        j = min(self.n, floor(self.pos(b)) + 1)
        return self.cut(i, max(i, j))

    def select(self, idx):
        return Run(self.rate, self.t, [self.data[i] for i in idx], [self.cals[i] for i in idx])

    def copy(self):
        return Run(self.rate, self.t, self.data, self.cals)


def combos(seqs):
    " combinations of one run per sequence with max(starts) < min(stops), as (combination, start, stop) "
    acc = [((), None, None)]
    for seq in seqs:
        new = []
        for combo, a, b in acc:
            for r in seq:
                a2 = r.t if a is None or r.t > a else a
                b2 = r.stop if b is None or r.stop < b else b
                if a2 < b2:
                    new.append((combo + (r,), a2, b2))
        acc = new
    return acc


def ceil(x):
    return -((-x) // 1)


def floor(x):
    return x // 1


class MSet:
    """ model of a SignalSet: tags {name: tuple of indices}, nch channels (None: unknown), runs """

    def __init__(self, tags, runs, nch):
        self.tags = {k: tuple(v) for k, v in tags.items()}
        self.runs = sorted(runs, key=lambda r: r.t)
        self.nch = nch
        for a, b in zip(self.runs, self.runs[1:]):
            if a.stop > b.t:
                raise Refused('overlap')
            if a.stop == b.t and a.t == b.t:
                raise Ambiguous('same start')

    # -- restriction
    def restrict(self, a, b):
        runs = [r.restrict(a, b) for r in self.runs]
        return MSet(self.tags, [r for r in runs if r.n > 1], self.nch)

    def exclude(self, a, b):
        if not self.runs:
            return self
        lo, hi = min(r.t for r in self.runs), max(r.stop for r in self.runs)
        left, right = self.restrict(lo, a), self.restrict(b, hi)
        return MSet(self.tags, left.runs + right.runs, self.nch)

    # -- channels and runs
    def select(self, idx):
        " keep the channel indices idx (any order, duplicates allowed) "
        idx = sorted(set(idx))
        new = {e: i for i, e in enumerate(idx)}
        tags = {k: tuple(new[i] for i in v) for k, v in self.tags.items() if set(v) <= set(idx)}
        return MSet(tags, [r.select(idx) for r in self.runs], len(idx))

    def take_runs(self, idx):
        return MSet(self.tags, [self.runs[i] for i in idx], self.nch)

    # -- combinations
    def join(self, *others):
        runs = list(self.runs)
        for o in others:
            perm = o.permutation_to(self.tags, self.nch)
            runs += [Run(r.rate, r.t, [r.data[i] for i in perm], [r.cals[i] for i in perm]) for r in o.runs]
        return MSet(self.tags, runs, self.nch)

    def permutation_to(self, tags, nch):
        " perm[i] = own channel standing for channel i of the target "
        if set(tags) != set(self.tags) or any(len(tags[t]) != len(self.tags[t]) for t in tags):
            raise Refused('tags')
        if nch != self.nch:
            raise Refused('channels')
        inv = {}
        for t in tags:
            for mine, target in zip(self.tags[t], tags[t]):
                if inv.setdefault(target, mine) != mine:
                    raise Refused('structure')
        if len(set(inv.values())) != len(inv):
            # two target channels stand for one channel: names still designate what they did; channel
            # count is then redundant -> not generated
            raise Ambiguous('aliased channels')
        if set(inv) != set(range(nch)):
            if all(self.tags[t] == tags[t] for t in tags):
                return list(range(nch))
            raise Ambiguous('untagged channels in a reordering join')
        return [inv[i] for i in range(nch)]

    def merge(self, *others):
        sets = (self,) + others
        names = [t for s in sets for t in s.tags]
        if len(set(names)) != len(names):
            raise Refused('names')
        tags, n = {}, 0
        for s in sets:
            tags.update({t: tuple(i + n for i in v) for t, v in s.tags.items()})
            n += s.nch
        runs = []
        for combo, a, b in combos([s.runs for s in sets]):
            rates = {r.rate for r in combo}
            if len(rates) > 1:
                for r in combo:   # mixed rates: skipped, unless rounding decides what is common
                    r.pos(a), r.pos(b)
                continue
            rate = rates.pop()
            parts = [r.restrict(a, b) for r in combo]
            offs = [(r.t - a) * rate for r in combo]
            if any(o != o // 1 for o in offs):
                if any(p.n < 3 for p in parts):
                    raise Ambiguous('misaligned clocks on a tiny overlap')
                raise Refused('misaligned')
            if any(p.n < 2 for p in parts):
                continue
            runs.append(Run(rate, a, sum((p.data for p in parts), ()), sum((p.cals for p in parts), ())))
        return MSet(tags, runs, n)

    def fuse(self):
        runs = []
        for r in self.runs:
            if runs and runs[-1].rate == r.rate:
                gap = (r.t - runs[-1].stop) * r.rate
                if gap == 1:
                    last = runs.pop()
                    r = Run(r.rate, last.t, [cat(p) for p in zip(last.data, r.data)], last.cals)
                elif abs(gap - 1) < gap_guard(r.rate, *[x for e in self.runs for x in (e.t, e.stop)]):
                    raise Ambiguous('nearly consecutive')
            runs.append(r)
        return MSet(self.tags, runs, self.nch)

    def copy(self):
        return MSet(self.tags, [r.copy() for r in self.runs], self.nch)

    def signature(self):
        return (tuple(sorted(self.tags.items())), tuple((str(r.rate), r.n, len(r.data)) for r in self.runs))


def pack(records, keep_multi=True):
    """ model of Inventory.pack() on models with consistent name structure:
    {name: [ [channel data per index in the name] per run ]} -> list of runs where
    each run is (rate, t, n, {name: ([arrays], [cals])}) """
    names = {t for s in records for t in s.tags}
    if not keep_multi:
        single = {t for s in records for t in s.tags if len(s.tags[t]) == 1}
        names = single
    if not names:
        return []
    rates = sorted({r.rate for s in records for r in s.runs})
    out = []
    for rate in rates:
        # names carried by the same records are packed as one group; equal in content to name by name
        groups = {}
        for t in sorted(names):
            carriers = tuple(i for i, s in enumerate(records)
                             if t in s.tags and any(r.rate == rate for r in s.runs))
            groups.setdefault(carriers, []).append(t)
        incomplete = groups.pop((), None)
        per_group = []
        for carriers, ts in sorted(groups.items()):
            runs = []
            for i in carriers:
                s = records[i]
                for r in s.runs:
                    if r.rate == rate:
                        runs.append((r, {t: s.tags[t] for t in ts}))
            runs.sort(key=lambda e: e[0].t)
            for (r1, _), (r2, _) in zip(runs, runs[1:]):
                if r1.stop > r2.t:
                    raise Refused('overlap')
                if r1.stop == r2.t and r1.t == r2.t:
                    raise Ambiguous('same start')
            per_group.append(runs)
        frags = []
        for gi, runs in enumerate(per_group):
            per_group[gi] = [(r.copy(), tags) for r, tags in runs]     # the same run may serve several groups
        tags_of = {id(r): tags for runs in per_group for r, tags in runs}
        for combo, a, b in combos([[r for r, _ in runs] for runs in per_group]):
            if any(((r.t - a) * rate) % 1 for r in combo):
                raise Refused('misaligned')
            if incomplete:
                continue
            content, n = {}, None
            for r in combo:
                tags = tags_of[id(r)]
                p = r.restrict(a, b)
                n = p.n
                for t, idx in tags.items():
                    content[t] = ([p.data[i] for i in idx], [p.cals[i] for i in idx])
            if n >= 2:
                frags.append((rate, a, n, content))
        frags.sort(key=lambda e: e[1])
        for f in frags:
            if out and out[-1][0] == rate:
                rate_, t_, n_, content_ = out[-1]
                gap = (f[1] - (t_ + F(n_ - 1) / rate)) * rate
                if gap == 1:
                    out[-1] = (rate, t_, n_ + f[2], {
                        t: ([np.concatenate(p) for p in zip(content_[t][0], f[3][t][0])], content_[t][1])
                        for t in content_})
                    continue
                if abs(gap - 1) < gap_guard(rate, *[x for e in frags for x in (e[1], e[1] + F(e[2]) / e[0])]):
                    raise Ambiguous('nearly consecutive')
            out.append(f)
    out.sort(key=lambda e: e[1])
    for f, g in zip(out, out[1:]):
        if f[1] + F(f[2] - 1) / f[0] > g[1]:
            raise Refused('overlap of rates')
    return out

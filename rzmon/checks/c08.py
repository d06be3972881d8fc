"""C08: inventory queries, compared record by record with the model."""
import fnmatch as _fn
from fractions import Fraction as F

from .. import gen, model
from ..core import Skip
from .survey import survey

RULE = ('random survey inventories (some of 66-150 records) queried by glob patterns, names, run masks and intervals, chained, concatenated and grouped; compared record by record '
        'with an independent glob matcher and the model; non-trivial = the query keeps some but not everything; distinct by inventory and query')
CASES = dict(quick=3600, thorough=40000)
MIN = dict(crowd=12, filter=200, select=100, runs=100, time=100, groups=100, partial=400, dropped_records=200, refused=300)


def glob(pattern, name):
    " independent shell-style matcher "
    def m(i, j):
        while i < len(pattern):
            ch = pattern[i]
            if ch == '*':
                return any(m(i + 1, k) for k in range(j, len(name) + 1))
            if ch == '[' and ']' in pattern[i + 2:]:
                e = pattern.index(']', i + 2)
                seq = pattern[i + 1:e]
                neg = seq[0] == '!'
                seq = seq[1:] if neg else seq
                if j >= len(name) or (name[j] in expand(seq)) == neg:
                    return False
                i, j = e + 1, j + 1
                continue
            if j >= len(name) or (ch != '?' and ch != name[j]):
                return False
            i, j = i + 1, j + 1
        return j == len(name)
    return m(0, 0)


def expand(seq):
    out, k = set(), 0
    while k < len(seq):
        if k + 2 < len(seq) and seq[k + 1] == '-':
            out |= {chr(x) for x in range(ord(seq[k]), ord(seq[k + 2]) + 1)}
            k += 3
        else:
            out.add(seq[k])
            k += 1
    return out


def gen_pattern(c, names):
    name = c.choice(names)
    k = c.int(0, 8)
    if set(name) & set('[]!'):
        k = c.choice([0, 1])
    if k == 8:
        return c.choice([str.upper, str.lower, str.swapcase])(gen_pattern(c, names))
    if k == 0:
        return '*'
    if k == 1:
        return name
    if k == 2:
        return name[:c.int(1, len(name))] + '*'
    if k == 3:
        return '*' + name[-c.int(1, len(name)):]
    i = c.int(0, len(name) - 1)
    if k == 4:
        return name[:i] + '?' + name[i + 1:]
    if k == 5:
        return name[:i] + '[%s%s]' % (name[i], c.choice('xyzEH')) + name[i + 1:]
    if k == 6:
        return '*' + name[:i] + '[!%s]' % c.choice('xyzEH01') + name[i + 1:]
    return c.choice(['nothing*', '?', '??', '[a-zA-Z]?', '*[0-9]*', '*x', 'site?_*'])


def select(recs, keys):
    out = []
    for m in recs:
        idx = {i for k in keys for i in m.tags.get(k, ())}
        if idx:
            out.append(m.select(idx))
    return out


def check_inv(c, inv, want, label):
    c.ok(len(inv) == len(want), f'{label}: number of records', got=len(inv), want=len(want))
    for k, (g, m) in enumerate(zip(inv, want)):
        gen.check_set(c, g, m, f'{label}, record {k}')


def crowd(c, k):
    " many small records, with a name or two that only few of them have "
    uid, clock = gen.Uid(), gen.Clock(c)
    recs = []
    for i in range(k):
        nch = c.int(1, 2)
        own = [f'st{i:03d}_{x}' for x in 'EHBZ'] if c.chance(.7) else gen.NAMES[:8]
        lay = gen.gen_layout(c, clock, c.choice([1, 1, 2]), nmax=5, rate=clock.rates[0], start=clock.grid(c.int(-4, 8), clock.coarse))
        recs.append(gen.gen_set(c, uid, clock, nch=nch, tags=gen.gen_tags(c, nch, names=own), layout=lay))
    return clock, recs, recs


def case(c):
    import razorback as rb
    many = gen.crowd(c, .012, 66, 150)
    clock, fulls, recs = crowd(c, many) if many else survey(c, ninst=c.int(2, 3), repeat=.15)
    ss = [gen.realize(c, m) for m in recs]
    inv = rb.Inventory(ss)
    c.note(records=[gen.describe(m) for m in recs])
    cur, m = inv, recs
    trace = []
    for _ in range(c.int(1, 3)):
        names = sorted({t for x in m for t in x.tags})
        op = c.choice(['filter', 'filter', 'select', 'runs', 'time', 'add'])
        before = sum(x.nch * len(x.runs) for x in m), len(m)
        if op == 'filter' and names:
            pats = [gen_pattern(c, names) for _ in range(c.choice([0, 1, 1, 1, 1, 1, 2, 2, 2, 3, 3, 3]))]
            trace.append((op, pats))
            keys = {n for n in names if any(glob(p, n) for p in pats)}
            for p in pats:
                if any(glob(p, n) != _fn.fnmatchcase(n, p) for n in names):
                    raise RuntimeError(f'matcher disagrees on {p}')
            nxt, cur = select(m, keys), cur.filter(*pats)
        elif op == 'select' and names:
            keys = c.rnd.sample(names, c.int(c.chance(.9), min(3, len(names)))) + (['missing'] if c.chance(.3) else [])
            trace.append((op, keys))
            nxt, cur = select(m, keys), cur.select_channels(*keys)
        elif op == 'runs':
            masks = [[c.chance(.5) for _ in x.runs] for x in m]
            if c.chance(.5):
                r0 = c.choice(clock.rates)
                masks = [[r.rate == r0 for r in x.runs] for x in m]
                arg = [f == float(r0) for f in cur.sampling_rates]
            else:
                arg = [list(k) for k in masks]
            trace.append((op, masks))
            if not all(masks):
                continue
            nxt = [x.take_runs([i for i, b in enumerate(k) if b]) for x, k in zip(m, masks)]
            nxt = [x for x in nxt if x.runs]
            bad = list(arg) + [[0]]
            c.refused(lambda: cur.select_runs(bad), 'select_runs with a wrong number of masks')
            cur = cur.select_runs(arg if c.chance(.5) else iter(arg))
        elif op == 'time' and m:
            src = c.choice(m)
            a, b = sorted([gen.gen_bound(c, src), gen.gen_bound(c, src)])
            if a == b or not all(gen.unambiguous_bound(x, t) for x in m for t in (a, b)):
                continue
            ex = c.chance(.3)
            trace.append((op, str(a), str(b), ex))
            nxt = [x.exclude(a, b) if ex else x.restrict(a, b) for x in m]
            nxt = [x for x in nxt if x.runs]
            cur = cur.extract_t(float(a), float(b), ex) if ex or c.chance(.5) else cur.extract_t(start=float(a), stop=float(b))
        elif op == 'add':
            k = c.int(0, len(m))
            trace.append((op, k))
            nxt = list(m) + list(m[:k])
            cur = cur + rb.Inventory(list(cur)[:k])
        else:
            continue
        c.obs(op)
        c.note(trace=trace)
        check_inv(c, cur, nxt, f'after {op}')
        after = sum(x.nch * len(x.runs) for x in nxt), len(nxt)
        if op != 'add':
            c.obs('dropped_records', before[1] - after[1])
            if 0 < after[0] < before[0]:
                c.obs('partial')
                c.sig([x.signature() for x in m], trace)
        m = nxt
    # attributes
    c.ok(cur.tags == {t for x in m for t in x.tags}, 'Inventory.tags', got=cur.tags)
    c.ok([list(x) for x in cur.sampling_rates] == [[float(r.rate) for r in x.runs] for x in m], 'Inventory.sampling_rates')
    for attr, f in (('starts', lambda r: r.t), ('stops', lambda r: r.stop)):
        for g, x in zip(getattr(cur, attr), m):
            c.ok(len(g) == len(x.runs) and all(gen.time_close(v, f(r), r.t, r.stop, rate=r.rate) for v, r in zip(g, x.runs)),
                 f'Inventory.{attr}')
    c.ok([len(x) for x in cur.intervals] == [len(x.runs) for x in m], 'Inventory.intervals')
    c.ok(bool(cur) == bool(m), 'truth value')
    # groups
    if c.chance(.5):
        groups(c, rb, inv, recs)
    # type check, order, unchanged original
    for bad in (None, 3, 'x', [ss[0]], ss[0].signals[0], {'a': 0}):
        c.refused(lambda: rb.Inventory().append(bad), f'append of {type(bad).__name__}', ValueError)
        c.refused(lambda: rb.Inventory([ss[0], bad]), f'construction with {type(bad).__name__}', ValueError)
        c.obs('refused')
    own = rb.Inventory(ss[:1])
    own.extend(ss[1:])
    c.ok(list(own) == ss and [own[i] for i in range(len(ss))] == ss, 'extend keeps the order')
    own.append(ss[0])
    mine = list(ss)
    both = [rb.Inventory(mine), rb.Inventory(mine)]
    both[0].append(ss[-1])
    both[1].extend(ss[:1])
    c.ok(mine == ss and [list(b) for b in both] == [ss + ss[-1:], ss + ss[:1]], 'inventories built from one list are independent')
    c.ok(len(own) == len(ss) + 1 and len(inv) == len(ss), 'append changes only its inventory')
    c.ok(list(inv) == ss, 'queries changed the inventory')
    for s, x in zip(ss, recs):
        gen.check_set(c, s, x, 'record after queries')
    c.sample(**c.detail)


def groups(c, rb, inv, recs):
    from . import c07
    names = sorted({t for x in recs for t in x.tags})
    spec, want = [], []
    for k in range(c.int(1, 2)):
        olds = c.rnd.sample(names, c.int(1, min(3, len(names))))
        spec.append((f'Group{k}', olds))
        sub = select(recs, set(olds))
        try:
            want.append(model.pack(sub))
        except (model.Refused, model.Ambiguous):
            return
    if not all(want):
        return
    for (new, olds), w in zip(spec, want):
        if len({frozenset(r.tags) for r in select(recs, set(olds))}) > 6:
            return
    res = inv.extract_groups(spec)
    c.ok(len(res) == len(spec), 'extract_groups: one signal set per group')
    for g, (new, olds), w in zip(res, spec, want):
        c.obs('groups')
        c.ok(new in g.tags, 'extract_groups: new name')
        for name in olds:
            for _, _, _, content in w:
                if name not in content:
                    return
        c.ok(g.nb_runs == len(w), 'extract_groups: runs', got=g.nb_runs, want=len(w))
        for run, (rate, t, n, content) in zip(g.signals, w):
            data = sum((content[o][0] for o in olds), [])
            cals = sum((content[o][1] for o in olds), [])
            gen.check_run(c, gen._named({new: g.tags[new]}, run), model.Run(rate, t, data, cals), f'extract_groups {new}={olds}')

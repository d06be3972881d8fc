"""C04: channel selection, compared with the model."""
import numpy as np

from .. import gen, model

RULE = ('random tag structures (single names, groups in any order, aliases, untagged channels) on 1-6 channels (now and then up to 90) and 0-3 runs, selected by name, '
        'index, slice, and lists/tuples/sets/arrays mixing these, by method, indexing and attribute; unknown identifiers must be refused; '
        'non-trivial = strict subset of the channels; distinct by names structure and selection')
CASES = dict(quick=2700, thorough=60000)
MIN = dict(near_name=2000, crowd=10, by_name=100, by_index=100, by_slice=100, by_list=200, by_array=100, by_attr=100, names_dropped=300, names_kept=300,
           refused=300, untagged=30, run_select=200)


def case(c):
    uid, clock = gen.Uid(), gen.Clock(c)
    nch = gen.crowd(c, .015, 25, 90) or c.int(1, 6)
    allt = c.chance(.4)
    tags = gen.gen_tags(c, nch, all_tagged=allt, repeat=.15)
    m = gen.gen_set(c, uid, clock, nch=nch, tags=tags, nruns=c.int(1, 3))
    s = gen.realize(c, m)
    c.note(model=gen.describe(m))
    names = sorted(m.tags)
    c.obs('untagged', int(set(range(nch)) != {i for v in m.tags.values() for i in v}))
    for _ in range(4):
        kind = c.choice(['name', 'index', 'slice', 'list', 'list', 'array'])
        if kind == 'name' and names:
            sel = c.choice(names)
            idx = m.tags[sel]
        elif kind == 'index':
            sel = c.int(0, nch - 1)
            idx = [sel]
            if c.chance(.3):
                sel = np.int64(sel)
        elif kind == 'slice':
            f = lambda: c.choice([None, None, c.int(-nch - 1, nch + 1)])
            sel = slice(f(), f(), c.choice([None, 1, 2, -1, -2]))
            idx = list(range(nch))[sel]
        elif kind == 'array':
            idx = [c.int(0, nch - 1) for _ in range(c.int(1, 4))]
            sel = np.array(idx)
        else:
            kind = 'list'
            parts = [c.choice(names) if names and c.chance(.5) else c.int(0, nch - 1) for _ in range(c.int(1, 4))]
            idx = [i for p in parts for i in (m.tags[p] if isinstance(p, str) else (p,))]
            sel = c.choice([list, tuple, set, lambda x: np.array(x, dtype=object)])(parts)
        if not idx:
            continue
        want = m.select(idx)
        c.obs('by_' + kind)
        c.obs('names_dropped', len(m.tags) - len(want.tags))
        c.obs('names_kept', len(want.tags))
        c.note(selection=str(sel))
        gen.check_set(c, s.select_channels(sel), want, 'select_channels')
        if not isinstance(sel, tuple):
            gen.check_set(c, s[sel], want, 'indexing')
            gen.check_set(c, s[(sel, slice(None))], want, 'indexing with all runs')
        if isinstance(sel, str):
            gen.check_set(c, getattr(s, sel), want, 'attribute')
            c.obs('by_attr')
        if want.nch < nch:
            c.sig(m.tags, nch, str(sel))
        # selecting again inside the selection
        if want.tags:
            t = c.choice(sorted(want.tags))
            gen.check_set(c, s.select_channels(sel).select_channels(t), want.select(want.tags[t]), 'nested selection')
    gen.check_set(c, s[:], m, 's[:]')
    gen.check_set(c, s[()], m, 's[()]')
    # unknown identifiers
    for bad in ['nope', nch, -1, -nch - 2, [0, 'nope'], [0, nch + 3], ('nope',)]:
        if c.chance(.4):
            c.refused(lambda: s.select_channels(bad), f'unknown channel {bad!r}')
            c.obs('refused')
    near = ['', '*']
    if names:
        t, o = c.choice(names), c.choice(names)
        near += [t + o, t + ' ', ' ' + t, t[:-1], t + '_', t.swapcase(), t + ',' + o, ''.join(x for x in names if len(x) == 1)]
    for bad in near:
        if bad not in m.tags and c.chance(.5):
            c.refused(lambda: s.select_channels(bad), f'unknown name {bad!r}')
            c.refused(lambda: s[[0, bad]], f'unknown name {bad!r} in a list')
            if bad and not hasattr(type(s), bad):
                c.refused(lambda: getattr(s, bad), f'unknown attribute {bad!r}', AttributeError)
            c.obs('near_name')
    c.refused(lambda: s['unknown_name'], 'unknown name in indexing')
    c.refused(lambda: s.unknown_name, 'unknown attribute', AttributeError)
    c.refused(lambda: s[0, 0, 0], 'three indices')
    # a single run
    r, g = m.runs[0], s.signals[0]
    idx = [c.int(0, nch - 1) for _ in range(c.int(1, nch))]
    gen.check_run(c, g.select(*idx), r.select(idx), 'SyncSignal.select')
    c.obs('run_select')
    gen.check_set(c, s, m, 'original after selection')
    c.sample(**c.detail)

"""Runs a batch of programs and prints a digest of everything observed: used by C37 in processes of different environments."""
import hashlib
import json
import os
import pathlib
import sys

import numpy as np


def digest(x, h):
    if isinstance(x, np.ndarray):
        h.update(f'{x.dtype.str}{x.shape}'.encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(f'[{len(x)}'.encode())
        for e in x:
            digest(e, h)
    elif isinstance(x, dict):
        digest([list(e) for e in x.items()], h)
    elif x is None or isinstance(x, (int, float, complex, str, bool, np.generic)):
        h.update(repr(x).encode())
    else:
        raise TypeError(type(x))


def signalset(s):
    " names in order, clocks and samples of a signal set "
    return [list(s.tags.items()), [[r.sampling_rate, r.start, r.size, [np.asarray(x) for x in r.data], [k(.25) for k in r.calibrations]] for r in s.signals], str(s)]


def outcome(fn):
    try:
        return fn()
    except Exception as ex:
        return f'{type(ex).__name__}'


OBJ = {}


class Log:
    def __init__(self):
        self.items = []

    def __call__(self, label, value):
        h = hashlib.sha1()
        digest(value, h)
        self.items.append((label, h.hexdigest()[:16], repr(value)[:300]))


def sets(c, rb, log):
    from . import gen
    from .checks.survey import survey
    _, fulls, recs = survey(c, ninst=c.choice([2, 3]))
    ss = [gen.realize(c, m) for m in recs]
    inv = rb.Inventory(ss)
    names = []
    for m in fulls:
        names += [t for t in m.tags if t not in names]
    log('pack', outcome(lambda: signalset(inv.pack())))
    log('pack of single names', outcome(lambda: signalset(inv.pack(keep_multi_tags=False))))
    pats = [c.choice(names)[:1] + '*' for _ in range(3)]
    log('filter', [signalset(s) for s in inv.filter(*pats)])
    log('select', [signalset(s) for s in inv.select_channels(*c.rnd.sample(names, min(3, len(names))))])
    groups = [(f'g{k}', c.rnd.sample(names, min(2, len(names)))) for k in range(2)]
    log('groups', outcome(lambda: [signalset(s) for s in inv.extract_groups(groups)]))
    full = [gen.realize(c, m) for m in fulls]
    log('merge', outcome(lambda: signalset(full[0].merge(*full[1:]))))
    log('join', outcome(lambda: signalset(ss[0].join(*[s for s in ss[1:] if set(s.tags) == set(ss[0].tags)]))))
    s = full[0]
    log('fuse', signalset(s.merge_consecutive_runs()))
    some = c.rnd.sample(list(s.tags), c.int(1, len(s.tags)))
    log('channels', signalset(s[some]))
    log('get', [s.tags.filter_get(*pats), s.tags.filter(*pats)])
    pats = c.rnd.sample(pats, len(pats)) + ['*']

    def by_pattern():
        # as in the tutorial: the names found make a group, or a selection
        t = full[-1][:]
        found = t.tags.filter(*pats)
        t.tags['group'] = sum((t.tags[k] for k in found), ())
        return [signalset(t), t.tags.group, signalset(t[list(found)])]
    log('by pattern', outcome(by_pattern))
    a = float(s.starts[0]) + .3 * float(s.stops[-1] - s.starts[0])
    log('times', outcome(lambda: signalset(s.extract_t(a, float(s.stops[-1])))))


def estimation(c, rb, log):
    from . import mt
    nr = c.choice([0, 2, 3])
    s = mt.site(c, nr=nr, noise_e=.2, noise_b=.1, noise_r=.1, nrange=c.choice([(150, 250), (500, 900)]), cals=c.chance(.3))
    sig = mt.realize(c, s)
    if not OBJ:
        # estimations share weights and filters, as programs do
        OBJ.update(W=[rb.weights.least_square, rb.weights.mest_weights, rb.weights.bi_weights(.001, 2)], F=[None, rb.prefilters.cod_filter(.1), rb.prefilters.cod_filter(.6)], S=rb.fourier_transform.slepian_window(3))
    kw = dict(weights=c.choice(OBJ['W']), prefilter=c.choice(OBJ['F']), keep_invalid_times=True,
              real_pb=c.chance(.2), fourier_opts=c.choice([None, dict(Nper=4, overlap=.5, window=np.hanning), dict(window=OBJ['S'])]))
    if nr:
        kw['remote'] = 'R'
    def impedance():
        r = rb.utils.impedance(sig, [s.rate * x for x in (.2, .1, .05)], **kw)
        return [r.impedance, r.error, r.transfer_mag, [[np.asarray(t) for t in x] for x in r.invalid_time]]

    def coefficients():
        co, wd = sig.fourier_coefficients(.1 * s.rate, 4, .5, np.hanning)
        return [[np.asarray(x) for x in co], wd]
    log('impedance', outcome(impedance))
    log('coefficients', outcome(coefficients))
    log('prefilter', outcome(lambda: [[np.asarray(v) for v in x] for x in rb.utils.prefilter_values(sig, [.1 * s.rate], OBJ['F'][1])[0]]))


def massive(c, rb, log):
    from .checks.c30 import survey
    rate, n, t0, recs, names = survey(c, rb, 2)
    inv = rb.Inventory([rb.SignalSet({'E' if t == 'site_E' else 'B' if t == 'site_B' else t: v for t, v in s.tags.items()
                                      if t not in ('Ex', 'Ey', 'Bx', 'By')}, *s.signals) for s in recs])
    r = rb.utils.impedance_mass_proc(inv, names, [.1 * rate], [(t0, t0 + n / rate)], dict(weights=rb.weights.mest_weights))
    log('mass processing', [r.remote_combination, [list(map(np.asarray, x)) for x in r.impedance], [list(map(np.asarray, x)) for x in r.error]])


def loading(c, rb, log):
    from . import files
    d = pathlib.Path('data')
    names = []
    for k in range(c.int(2, 4)):
        p = d / f'f{c.idx}_{k}.ats'
        files.write_ats(p, c.rng.integers(-2 ** 31, 2 ** 31, size=100), 128., 1460000000, 1.5)
        names.append(str(p))
    s = rb.io.load_ats(names)
    log('ats', [s.sampling_rate, s.start, [np.asarray(x) for x in s.data], str(s)])
    paths = ['/'.join(c.choice(['a', 'b1', 'site2', 'X']) for _ in range(3)) + f'/f_{k}.ats' for k in range(10)]
    log('tags', [list(x) for x in rb.utils.tags_from_path(paths, '{x}/**/f_{n}.ats', '{n}_{x}', '{x}')])


def main():
    seed, start, n = map(int, sys.argv[1:4])
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    if os.environ.get('DECIMAL_COMMA'):
        # no such locale is installed here: what a program that sets one gets
        import locale
        locale._override_localeconv.update(decimal_point=',', thousands_sep='.', grouping=[3, 0])
    import razorback as rb
    from . import core
    out = []
    scratch = os.getcwd()
    with core.quiet():
        for i in range(start, start + n):
            c = core.Case('C37', seed, i, 'quick', core.Stats(), scratch)
            log = Log()
            kind = [sets, sets, sets, estimation, massive, loading][i % 6]
            try:
                kind(c, rb, log)
            except (core.Skip, core.Ambiguous):
                pass
            out.append((kind.__name__, log.items))
    print('@@@' + json.dumps(dict(out=out, file=rb.__file__)))


if __name__ == '__main__':
    main()

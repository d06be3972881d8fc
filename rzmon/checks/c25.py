"""C25: Metronix calibration functions, compared with the tables written in the files."""
import cmath
import math
import os

import numpy as np

from .. import pkgcopy

RULE = ('random calibration files (both chopper sections in any order, headers, spacing and letter case as found in the wild, 2 to 40 tabulated frequencies, at times not in order), stored in the local or '
        'in the package directory of a private copy of the package, with default or custom limits, patterns and sensor tables; functions evaluated at, between, below and above '
        'tabulated frequencies, several functions alive at once; distinct by table, chopper state and options')
CASES = dict(quick=13500, thorough=150000)
MIN = dict(functions=1500, nodes=8000, between=2500, below_on=400, below_off=400, above=800, chopper_on=400, chopper_off=400, at_limit=100, custom=200, unknown=60, missing=60, local=300,
           package=300, shadowed=60, alive_later=300, continuity=300, unordered=300)
NAMES = ['MFS06e045.TXT', 'MFS07_123.txt', 'xMFS06', 'a.MFS07.b.TXT', 'cal-MFS06-7', 'MFS07e', 'MFS06.MFS07.TXT']


def table(c, n):
    f = np.cumsum(np.abs(c.rng.normal(size=n)) + 1e-3) * 10. ** c.int(-4, 2)
    return np.column_stack([f, np.abs(c.rng.normal(size=n)) * 10. ** c.choice([-9, -6, -3, -2, -1, 0, 1, 4]) + 1e-12, c.rng.uniform(-180, 180, size=n)])


def text(c, on, off):
    def section(mark, t):
        mark = c.choice([mark, mark.lower(), mark.upper(), mark.replace(' ', '  '), '  ' + mark, mark.replace(' ', '\t') + '  extra'])
        sep = c.choice([' ', '  ', '\t'])
        fmt = c.choice([repr, repr, lambda v: f'{v:+.17e}'])
        t = list(t)
        if c.chance(.15):                  # rows in any order
            c.rnd.shuffle(t) if c.chance(.5) else t.reverse()
            c.obs('unordered')
        return [mark] + [c.choice(['', ' ']) + sep.join(fmt(float(v)) for v in row) for row in t]
    head = ['Metronix GmbH, calibration', 'Magnetometer: x   #045   Date: 01/01/17', ''] if c.chance(.7) else []
    if c.chance(.4):
        head += [c.choice(['Measured with Chopper On and Chopper Off', '# chopper off: noisy site', 'Sensor chopper: on/off', 'Reference: chopper on'])]
    head += ['FREQUENCY  MAGNITUDE  PHASE', '  Hz   V/(nT*Hz)  deg'] if c.chance(.6) else []
    a, b = section('Chopper On', on), section('Chopper Off', off)
    body = a + [''] + b if c.chance(.6) else b + ['  '] + a
    tail = c.choice([[], [''], ['', 'end of file', ''], ['', '', '1 2 3']])
    return c.choice(['\n', '\n', '\r\n']).join(head + body + tail) + c.choice(['', '\n'])


def name_version(name):
    return [name[i:i + 5] for i in range(len(name)) if name[i:i + 3] == 'MFS' and name[i + 3:i + 5].isdigit()]


def case(c):
    pkg = pkgcopy.private(c)
    pkgcopy.clean(pkg)
    import razorback as rb
    cal = rb.calibrations
    cwd = c.scratch / 'work'
    loc = cwd / 'data' / 'metronix_calibration'
    glob_ = pkg / 'data' / 'metronix_calibration'
    cwd.mkdir()
    os.chdir(cwd)
    held = []
    for _ in range(c.int(1, 3)):
        name = c.choice(NAMES)
        on, off = table(c, c.choice([2, 3, 20, c.int(2, 40)])), table(c, c.choice([2, 3, 20, c.int(2, 40)]))
        where = c.choice(['local', 'package', 'both'])
        content = text(c, on, off)
        if where != 'local':
            glob_.mkdir(parents=True, exist_ok=True)
            (glob_ / name).write_text(content if where == 'package' else text(c, table(c, 3), table(c, 3)), newline='')
        if where != 'package':
            loc.mkdir(parents=True, exist_ok=True)
            (loc / name).write_text(content, newline='')
        elif (loc / name).exists():
            (loc / name).unlink()
        c.obs('local', int(where != 'package'))
        c.obs('package', int(where == 'package'))
        c.obs('shadowed', int(where == 'both'))
        opts, limit = {}, 512.
        alpha = dict(MFS06=4., MFS07=32.)
        vers = os.path.splitext(name)[0]
        vers = name_version(vers)[-1]
        if c.chance(.3):
            limit = c.choice([0., 1., 1000., 512.5, 64])
            opts['chopper_on_limit'] = limit
            c.obs('custom')
        if c.chance(.2):
            alpha = {vers: c.choice([1., 7.5, 100.])}
            opts['alpha_map'] = alpha
            c.obs('custom')
        if c.chance(.1):
            opts['version_pattern'] = r'.*?(MFS\d\d).*'
            vers = name_version(os.path.splitext(name)[0])[0]
            if vers not in alpha:
                del opts['version_pattern']
                vers = name_version(os.path.splitext(name)[0])[-1]
        rate = c.choice([limit, limit, np.nextafter(limit, np.inf), limit + 1, limit * 2 + 1, max(limit - 1, 0), limit / 2, int(limit) + 1])
        f = cal.metronix(c.choice([name, name]), rate, **opts)
        chop = rate <= limit
        c.obs('chopper_on' if chop else 'chopper_off')
        c.obs('at_limit', int(rate == limit))
        c.note(name=name, where=where, rate=rate, opts=opts, sizes=(len(on), len(off)))
        t = on if chop else off
        check(c, f, t, chop, alpha[vers])
        held.append((f, t, chop, alpha[vers]))
        c.obs('functions')
        c.sig(t[0].tolist(), chop, vers, str(opts))
    if c.chance(.4):
        pkgcopy.clean(pkg)
        for p in loc.glob('*') if loc.exists() else ():
            p.unlink()
        os.chdir(c.scratch)
        for h in held:
            check(c, *h)
        c.obs('alive_later')
        os.chdir(cwd)
    k = c.idx % 10
    if k == 0:
        bad = c.choice(['x.TXT', 'MFS6.TXT', 'mfs06e1.TXT', 'MFSxx.TXT', 'sensor.MFS06', 'MFS10e1.TXT', 'MFS08.TXT', 'MFS06.MFS11.TXT'])
        loc.mkdir(parents=True, exist_ok=True)
        (loc / bad).write_text(text(c, table(c, 3), table(c, 3)))
        c.refused(lambda: cal.metronix(bad, c.choice([1., 1000.])), f'unknown sensor type {bad}')
        if bad == 'MFS10e1.TXT':
            check(c, cal.metronix(bad, 1000., alpha_map=dict(MFS10=2.)), None, False, 2.)
        else:
            c.refused(lambda: cal.metronix(bad, 1., alpha_map=dict(MFS99=1.)), f'sensor type {bad} not in the given table')
        c.obs('unknown')
    if k == 5:
        c.refused(lambda: cal.metronix('MFS06none.TXT', 1.), 'missing file')
        loc.mkdir(parents=True, exist_ok=True)
        c.refused(lambda: cal.metronix('MFS06none.TXT', 1.), 'missing file')
        c.obs('missing')
    c.sample(**c.detail)


def check(c, f, t, chop, alpha):
    if t is None:
        return
    z = t[:, 0] * t[:, 1] * np.exp(1j * np.radians(t[:, 2]))

    def same(x, want, label):
        got = f(x)
        c.ok(np.ndim(got) == 0, f'{label}: one value')
        c.ok(abs(complex(got) - want) <= 1e-9 * max(abs(want), 1e-3 * np.abs(z).max()), label, freq=x, got=str(complex(got)), want=str(want), chopper=chop)
    for i in range(len(t)):
        same(c.choice([float, np.float64])(t[i, 0]), z[i], 'tabulated frequency')
        c.obs('nodes')
    for _ in range(4):
        i = c.int(0, len(t) - 2)
        u = c.rnd.random()
        same(t[i, 0] + u * (t[i + 1, 0] - t[i, 0]), z[i] + u * (z[i + 1] - z[i]), 'between tabulated frequencies')
        c.obs('between')
    lo, hi = t[0, 0], t[-1, 0]
    for x in (np.nextafter(lo, 0), lo / 2, lo * c.rnd.random() + 1e-12):
        if chop:
            same(x, x * t[0, 1] * cmath.exp(1j * math.atan2(alpha, x)), 'below the table, chopper on')
            c.obs('below_on')
        else:
            c.refused(lambda: f(x), 'below the table, chopper off')
            c.obs('below_off')
    if chop:
        c.ok(abs(abs(complex(f(np.nextafter(lo, 0)))) - abs(complex(f(lo)))) <= 1e-9 * abs(z[0]), 'amplitude continuous at the start of the table')
        c.obs('continuity')
    for x in (np.nextafter(hi, np.inf), hi * (1 + c.rnd.random())):
        c.refused(lambda: f(x), 'above the table')
        c.obs('above')

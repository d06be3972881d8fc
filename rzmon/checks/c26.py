"""C26: Phoenix calibration functions, compared with the tables written in the files."""
import numpy as np

RULE = ('random calibration files with 1 to 7 channels, 1 to 5 sampling levels interleaved in any row order with overlapping frequency ranges and different values, one or two header '
        'lines, optional trailing columns; functions evaluated at, between and outside the frequencies of each level; distinct by table and level')
CASES = dict(quick=13500, thorough=150000)
MIN = dict(blank_field=300, functions=5000, nodes=20000, between=8000, outside=8000, absent=700, two_headers=300, extra_columns=200, overlapping=600, unsorted=300, rewritten=300)


def case(c):
    import razorback as rb
    n = c.choice([1, 2, 3, 5, 5, 7])
    levels = sorted(c.rnd.sample(range(2, 9), c.choice([1, 2, 3, 4, 5])))
    rows, tabs = [], {}
    base = 10. ** c.int(-4, 4)
    for lv in levels:
        m = c.choice([2, 2, 3, 10, c.int(2, 30)])
        f = base * np.cumsum(np.abs(c.rng.normal(size=m)) + 1e-3)
        z = (c.rng.normal(size=(m, n)) + 1j * c.rng.normal(size=(m, n))) * 10. ** c.int(-3, 3)
        tabs[lv] = (f, z)
        for a, b in zip(f, z):
            rows.append((a, lv, b))
    order = c.choice(['level', 'shuffle', 'down'])
    if order == 'shuffle':
        c.rnd.shuffle(rows)
    elif order == 'down':
        rows = rows[::-1]
    c.obs('unsorted', int(order != 'level'))
    c.obs('overlapping', int(len(levels) > 1))
    extra = c.choice([0, 0, 0, 1, 4])
    c.obs('extra_columns', int(extra > 0))
    sep = c.choice([',', ', ', ' , '])
    header = ['2017/01/02', '1234', 'MTU', str(n)]
    if c.chance(.2):
        header.insert(c.int(0, 3), c.choice(['', ' ']))
        c.obs('blank_field')
    lines = [sep.join(header) + c.choice(['', ',', ' , ,'])]
    if c.chance(.4):
        lines.append(sep.join(['freq', 'level'] + [f'c{i}' for i in range(n)]))
        c.obs('two_headers')
    for a, lv, b in rows:
        vals = [repr(float(a)), c.choice([str(lv), f'{float(lv)}'])]
        for v in b:
            vals += [repr(float(v.real)), repr(float(v.imag))]
        lines.append(sep.join(vals + [repr(c.rnd.random()) for _ in range(extra)]))
    p = c.scratch / 'x.CTS'
    p.write_text('\n'.join(lines) + c.choice(['', '\n']))
    arg = c.choice([str(p), p])
    final = p.read_text()
    if c.chance(.3):       # the file had other contents earlier in the session
        old = final.split('\n')
        for i in range(len(lines) - len(rows), len(lines)):
            v = old[i].split(',')
            old[i] = ','.join(v[:2] + [repr(3. * float(x) + 1.) for x in v[2:]])
        p.write_text('\n'.join(old))
        first = rb.calibrations.phoenix(arg, c.choice(levels))
        if c.chance(.5):
            first[0](tabs[levels[0]][0][0]) if len(levels) == 1 else None
        p.write_text(final)
        c.obs('rewritten')
    c.note(channels=n, levels=levels, order=order, header=lines[:2])
    held = []
    for lv in levels:
        got = rb.calibrations.phoenix(arg, lv)
        c.ok(len(got) == n and all(callable(g) for g in got), 'one function per channel', got=len(got), want=n)
        held.append((got, lv))
    if c.chance(.3):
        p.unlink()
        c.obs('alive_later')
    c.rnd.shuffle(held)
    for got, lv in held:
        f, z = tabs[lv]
        for ch in range(n):
            check(c, got[ch], f, z[:, ch], lv)
            c.obs('functions')
        c.sig(f[0], lv, n)
    if p.exists():
        for lv in c.rnd.sample([x for x in list(range(0, 12)) + [-1, 100] if x not in levels], 2):
            c.refused(lambda: rb.calibrations.phoenix(arg, lv), 'level absent from the file')
            c.obs('absent')
        p.unlink()
        c.refused(lambda: rb.calibrations.phoenix(arg, levels[0]), 'missing file')
    c.sample(**c.detail)


def check(c, fn, f, z, lv):
    def same(x, want, label):
        got = fn(x)
        c.ok(np.ndim(got) == 0 and abs(complex(got) - want) <= 1e-9 * np.abs(z).max(), label, level=lv, freq=x, got=str(got), want=str(want))
    for a, b in zip(f, z):
        same(a, b, 'tabulated frequency')
        c.obs('nodes')
    for _ in range(2):
        i, u = c.int(0, len(f) - 2), c.rnd.random()
        same(f[i] + u * (f[i + 1] - f[i]), z[i] + u * (z[i + 1] - z[i]), 'between tabulated frequencies')
        c.obs('between')
    for x in (np.nextafter(f[0], -np.inf), np.nextafter(f[-1], np.inf), f[0] * c.rnd.random() * .99, f[-1] * (1.01 + c.rnd.random())):
        c.refused(lambda: fn(x), 'frequency outside the table of the level')
        c.obs('outside')

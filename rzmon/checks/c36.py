"""C36: what is printed, read back and compared with what is there."""
import ast
import calendar
import os
import re
import time
from datetime import datetime

import numpy as np

from .. import gen, model
from .c09 import any_name

RULE = ('signal sets of 0-6 runs and 1-9 channels with usual, long and odd names, rates from mHz to 100 kHz and starts from 1938 to 2100, printed under several local time zones; '
        'the text is read back (counts, names, rates, UTC dates) and compared with the content, which must be untouched; distinct by content')
CASES = dict(quick=4800, thorough=60000)
MIN = dict(big=30, sets=1500, empty=150, runs=3000, tables=1500, inventories=800, weights=300, odd_names=500, zones=1000)
ZONES = ['UTC', 'EST5EDT', 'JST-9', 'NPT-5:45', 'CET-1CEST,M3.5.0,M10.5.0/3']
DATE = r'(-?\d+-\d\d-\d\d \d\d:\d\d:\d\d)'


def seconds(text):
    return calendar.timegm(datetime.strptime(text, '%Y-%m-%d %H:%M:%S').timetuple())


def near(c, text, t, label):
    c.ok(abs(seconds(text) - t) <= .5 + 1e-6, label, got=text, want=t)


def names_in(c, text, want, label):
    got = ast.literal_eval(text)
    c.ok(got == want, label, got=got, want=want)


def gen_content(c, rb):
    big = c.chance(.03)
    nch = c.int(10, 70) if big else c.int(1, 9)
    pool = gen.NAMES + (gen.ODD_NAMES + ['p%', 'q%s', 'r%(a)s', 'u{0}', 'v}', "w'", 'x"', 'y\\', 'n\n', 't: {'] + [any_name(c) for _ in range(3)] if c.chance(.4) else [])
    c.obs('odd_names', int(len(pool) > len(gen.NAMES)))
    if big:
        pool = pool + [f'site{i:03}_{x}' for i in range(30) for x in ('Ex', 'Hy')]
        c.obs('big')
    tags = {}
    for name in c.rnd.sample(pool, c.int(40, len(pool)) if big else c.int(0, min(12, len(pool)))):
        tags[name] = tuple(c.int(0, nch - 1) for _ in range(c.choice([1, 1, 1, 2, 4])))
    runs, t = [], c.choice([0., -1e9, 1460000000., 1e9 + .25, c.rng.uniform(-1e9, 4e9), 86399.5, 1.4999, 2.5, 3.5])
    for _ in range(c.int(20, 120) if big else c.int(0, 6)):
        rate, n = float(c.choice([1, .5, 1 / 3., .001, 128, 512., 1024, 2400, 65536, 99999.6, 131072, 12345.678, 1e6, 1 / 60])), c.int(1, 50)
        runs.append(rb.SyncSignal([np.arange(n, dtype=float) for _ in range(nch)], rate, t))
        t = runs[-1].stop + c.choice([1., 1 / rate, 3600., 1e5]) * c.choice([1, 1.1])
    return nch, tags, runs


def case(c):
    import razorback as rb
    old = os.environ.get('TZ')
    zone = c.choice(ZONES)
    try:
        os.environ['TZ'] = zone
        time.tzset()
        c.obs('zones', int(zone != 'UTC'))
        c.note(zone=zone)
        body(c, rb)
    finally:
        os.environ.pop('TZ')
        if old is not None:
            os.environ['TZ'] = old
        time.tzset()


def body(c, rb):
    nch, tags, runs = gen_content(c, rb)
    given = list(runs)
    c.rnd.shuffle(given)
    sets = rb.SignalSet(rb.Tags(nch, **tags), *given) if runs else rb.SignalSet(rb.Tags(nch, **tags) if c.chance(.5) else tags)
    c.note(tags=tags, runs=[repr(r) for r in runs])
    before = [(r.sampling_rate, r.start, r.size) for r in sets.signals]
    text, full = str(sets), repr(sets)
    c.ok(str(sets) == text and repr(sets) == full, 'printed twice')
    c.ok([(r.sampling_rate, r.start, r.size) for r in sets.signals] == before and dict(sets.tags) == tags, 'content after printing')
    # the summary
    m = re.match(r'\s*(\w+)\W+(\d+) channels?\W+(\d+) runs?\s*\n', text)
    c.ok(m is not None, 'first line of a summary', got=text[:80])
    c.ok(m[1] == 'SignalSet' and int(m[2]) == sets.nb_channels and int(m[3]) == len(runs), 'counts in the summary', got=m.groups(), want=(nch, len(runs)))
    names, _, table = text[m.end():].rpartition('}\n')
    c.ok(names.lstrip().startswith('tags: {'), 'names in the summary', got=text)
    names_in(c, names.lstrip()[len('tags: '):] + '}', tags, 'names in the summary')
    rows = re.findall(rf'(\S+)\s+{DATE}\s+{DATE}', table)
    c.ok(len(rows) == len(runs), 'one line per run', got=table, want=len(runs))
    for (rate, a, b), r in zip(rows, runs):
        c.ok(abs(float(rate) - r.sampling_rate) <= 6e-5 * r.sampling_rate, 'rate in the summary', got=rate, want=r.sampling_rate)
        near(c, a, r.start, 'start in the summary')
        near(c, b, r.stop, 'stop in the summary')
        c.obs('runs')
    c.obs('sets')
    c.obs('empty', int(not runs))
    # the whole
    c.ok(full.startswith('SignalSet(') and all(repr(n) in full for n in tags), 'representation of a signal set', got=full[:300])
    at = 0
    for r in runs:
        at = full.find(repr(r), at)
        c.ok(at >= 0, 'runs in the representation, in order', got=full[:300], want=repr(r))
        at += 1
        one = str(r)
        got = [re.search(p, one) for p in (r'channels\s*:\s*(\d+)', r'size\s*:\s*(\d+)', r'rate\s*:\s*(\S+)', rf'start\s*:\s*{DATE}', rf'stop\s*:\s*{DATE}')]
        c.ok(all(got), 'summary of a run', got=one)
        k, n, rate, a, b = (g[1] for g in got)
        c.ok(int(k) == nch and int(n) == r.size and float(rate) == r.sampling_rate, 'numbers in the summary of a run', got=one, want=(nch, r.size, r.sampling_rate))
        near(c, a, r.start, 'start of a run')
        near(c, b, r.stop, 'stop of a run')
        c.ok(f'{nch}x{r.size}' in repr(r), 'sizes in the representation of a run', got=repr(r))
    # names
    t = sets.tags
    names_in(c, str(t), tags, 'printed names')
    shown = repr(t)
    c.ok(shown.startswith(f'Tags({len(t.indices)}') and all(n in shown for n in tags), 'representation of names', got=shown)
    if all(n.isidentifier() and n.isascii() for n in tags):
        back = eval(shown, {'Tags': rb.Tags})
        c.ok(back == t, 'representation of names read back', got=shown)
    c.obs('tables')
    # inventories and weights
    if c.chance(.4):
        other = rb.SignalSet({'other': 0}, rb.SyncSignal([np.arange(4.)], 3.5, c.int(0, 9)))
        many = [c.choice([sets, other]) for _ in range(c.choice([0, 1, 2, 3, c.int(4, 80)]))]
        inv = rb.Inventory(many)
        shown = repr(inv)
        c.ok(shown.startswith('Inventory('), 'representation of an inventory', got=shown[:200])
        at = 0
        for e in many:
            at = shown.find(repr(e), at)
            c.ok(at >= 0, 'sets in the representation of an inventory, in order', got=shown[:300], want=repr(e)[:300], sets=len(many))
            at += len(repr(e))
        c.ok(str(inv) == shown, 'printed inventory')
        c.obs('inventories')
    if c.chance(.2):
        W = rb.weights
        a, x = c.choice([1.5, 2., 1.25]), c.choice([None, 3., 2.5])
        kinds = [None, W.Huber(a), W.Thomson(x)] * c.choice([1, 1, 10])
        steps = c.rnd.sample(kinds, c.int(1, len(kinds)))
        ws = W.Weights(iter(steps) if c.chance(.5) else steps)
        shown = repr(ws)
        at = -1
        for s in steps:
            label = 'None' if s is None else f'Huber({a:g}' if isinstance(s, W.Huber) else 'Thomson(' + ('' if x is None else f'{x:g}')
            at = shown.find(label, at + 1)
            c.ok(at >= 0, 'steps of the weights, in order', got=shown, want=label)
        c.ok(list(ws) == steps and list(ws) == steps and len(ws) == len(steps) and ws[-1] is steps[-1], 'weights as a sequence')
        c.ok(repr(W.Weights(steps, 'my weights')) == 'my weights', 'named weights')
        c.obs('weights')
    if runs and tags:
        c.sig(nch, sorted(tags), before)
    c.sample(**c.detail)

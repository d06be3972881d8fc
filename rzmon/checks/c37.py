"""C37: the same programs in processes of different environments."""
import json
import os
import subprocess
import sys

from ..core import SRC, VERIF, HarnessError

RULE = ('batches of random programs (packing, queries, merges, joins, fusions, printing, estimations with robust weights and remotes, mass processing, loading of files, extraction of names) '
        'run in fresh processes that differ by hash seed, local time zone, locale, working directory, order of environment, and by what ran before in the process; '
        'everything observed (names in order, clocks, samples, estimates) must be the same bit for bit; distinct by batch and environment')
CASES = dict(quick=40, thorough=900)
MIN = dict(processes=80, programs=640, values=3200, pack=160, impedance=48, mass=48)
BATCH = 12
ENVS = [dict(PYTHONHASHSEED='0'), dict(PYTHONHASHSEED='1', TZ='EST5EDT'), dict(PYTHONHASHSEED='2', LC_ALL='C', LANG='C'), dict(PYTHONHASHSEED='3', TZ='JST-9', HOME='/nonexistent'),
        dict(PYTHONHASHSEED='77', COLUMNS='20', PYTHONUTF8='1'), dict(PYTHONHASHSEED='4000', TZ='NPT-5:45', DECIMAL_COMMA='1'), dict(PYTHONHASHSEED='random')]


def run(c, k, env, start, n):
    cwd = c.scratch / f'cwd{k}' / c.choice(['a', 'b c', 'dir'])
    cwd.mkdir(parents=True, exist_ok=True)
    full = {x: v for x, v in os.environ.items() if x not in ('TZ', 'COLUMNS')}
    full.update(PYTHONPATH=os.pathsep.join([os.path.dirname(SRC), str(VERIF)]), TMPDIR=str(c.scratch))
    full.update(env)
    p = subprocess.run([sys.executable, '-m', 'rzmon.repro', str(c.seed), str(start), str(n)], cwd=cwd, env=full, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    c.obs('processes')
    if '@@@' not in p.stdout:
        if '/razorback/' in p.stderr:
            c.fail('a program fails in a fresh process', env=env, error=p.stderr[-1500:])
        raise HarnessError(p.stderr[-3000:])
    d = json.loads(p.stdout.split('@@@')[1])
    if os.path.realpath(os.path.dirname(d['file'])) != os.path.realpath(SRC):
        raise HarnessError(f"package taken from {d['file']}")
    return d['out']


def case(c):
    first, *others = c.rnd.sample(ENVS, 3)
    start = c.idx * BATCH
    ref = run(c, 0, first, start, BATCH)
    for k, env in enumerate(others, 1):
        # the second process runs only the end of the batch: nothing ran before
        skip = 0 if k == 1 else c.int(1, BATCH - 1)
        got = run(c, k, env, start + skip, BATCH - skip)
        for i, ((kind, want), (kind2, have)) in enumerate(zip(ref[skip:], got)):
            c.obs('programs')
            c.ok(kind == kind2 and [x[0] for x in want] == [x[0] for x in have], 'steps of a program', want=[x[0] for x in want], got=[x[0] for x in have])
            for (label, h, text), (_, h2, text2) in zip(want, have):
                c.obs('values')
                c.obs({'pack': 'pack', 'impedance': 'impedance', 'mass processing': 'mass'}.get(label, 'others'))
                c.ok(h == h2, f'{label}: another result in another process', program=start + skip + i, environments=[first, env], first=text, second=text2)
        c.sig(start, sorted(env), sorted(first), skip)
    c.sample(environments=[first, *others], steps=[x[0] for x in ref[0][1]])

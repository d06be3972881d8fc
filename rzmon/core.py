"""Case loop, verdicts, evidence and replays shared by all checks."""
import argparse
import contextlib
import importlib
import json
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

from .model import Ambiguous

VERIF = pathlib.Path(__file__).resolve().parent.parent
SRC = os.path.join(os.environ.get('RZMON_REPO', '/repo'), 'src', 'razorback')
PKGMARK = os.sep + 'razorback' + os.sep


class Violation(Exception):
    pass


class Skip(Exception):
    " the generated case is outside the domain of the property (counted) "


class HarnessError(Exception):
    " the harness itself (not the code under test) misbehaved "


def plain(x):
    " JSON-able summary of x "
    if isinstance(x, (bool, int, str, type(None))):
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in list(x.items())[:40]}
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))[:40]
    if isinstance(x, (list, tuple)):
        return [plain(e) for e in list(x)[:40]]
    if isinstance(x, np.ndarray):
        return {'shape': list(x.shape), 'head': [str(e) for e in x.ravel()[:12]]}
    return str(x)[:300]


class Stats:
    def __init__(self):
        self.evals = 0
        self.cases = 0
        self.skipped = 0
        self.counts = {}
        self.sigs = set()
        self.samples = []

    def merge(self, o):
        self.evals += o.evals
        self.cases += o.cases
        self.skipped += o.skipped
        for k, v in o.counts.items():
            self.counts[k] = max(self.counts.get(k, 0), v) if k.startswith('worst') else self.counts.get(k, 0) + v
        self.sigs |= o.sigs
        self.samples = (self.samples + o.samples)[:6]


class Case:
    " one generated execution: random source, observations and verdict helpers "

    def __init__(self, prop, seed, idx, tier, stats, scratch):
        self.prop, self.seed, self.idx, self.tier = prop, seed, idx, tier
        key = [seed, zlib.crc32(prop.encode()), idx]
        self.rng = np.random.default_rng(key)
        self.rnd = random.Random(repr(key))
        self.stats = stats
        self._scratch_root = scratch
        self._scratch = None
        self.detail = {}

    # ---- generation helpers
    def choice(self, seq):
        return seq[self.rnd.randrange(len(seq))]

    def chance(self, p):
        return self.rnd.random() < p

    def int(self, a, b):
        " integer in [a, b] "
        return self.rnd.randint(a, b)

    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = pathlib.Path(self._scratch_root) / f'case{self.idx}'
            self._scratch.mkdir(parents=True, exist_ok=True)
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)

    # ---- observations
    def obs(self, name, n=1):
        self.stats.counts[name] = self.stats.counts.get(name, 0) + n

    def sig(self, *items):
        " signature of a non-trivial observed case "
        self.stats.sigs.add(zlib.crc32(repr(items).encode()) | (len(items) << 32))

    def sample(self, **kw):
        if len(self.stats.samples) < 4:
            self.stats.samples.append(plain(dict(case=self.idx, **kw)))

    def note(self, **kw):
        self.detail.update(kw)

    # ---- verdicts
    def fail(self, msg, **kw):
        self.detail.update(kw)
        raise Violation(msg)

    def ok(self, cond, msg, **kw):
        self.stats.evals += 1
        if not cond:
            self.fail(msg, **kw)

    def eq(self, got, want, msg):
        self.stats.evals += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            self.fail(msg, got=g, want=w)

    def close(self, got, want, msg, rtol=1e-9, atol=0., scale=None):
        """ max |got - want| <= atol + rtol * scale, scale = max |want| by default """
        self.stats.evals += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(msg + ' (shape)', got=g, want=w)
        if not g.size:
            return
        if scale is None:
            scale = float(np.max(np.abs(w)))
        bad = ~(np.abs(g - w) <= atol + rtol * scale)
        if bad.any():
            self.fail(msg, got=g, want=w, maxdiff=float(np.max(np.abs(g - w))), tol=float(atol + rtol * scale))

    def refused(self, fn, msg, exc=Exception):
        " fn must raise "
        self.stats.evals += 1
        try:
            res = fn()
        except Violation:
            raise
        except exc:
            return
        self.fail(msg + ': accepted', result=str(res)[:400])


def from_target(tb):
    " does the traceback go through the code under test? "
    for f in traceback.extract_tb(tb):
        if PKGMARK in f.filename and 'rzmon' not in f.filename:
            return True
    return False


ENVIRONMENT_ERRORS = (MemoryError, KeyboardInterrupt, HarnessError, ImportError)


@contextlib.contextmanager
def quiet():
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield


def run_case(mod, prop, seed, idx, tier, stats, scratch):
    " None, or (message, detail, traceback) when the property is violated "
    c = Case(prop, seed, idx, tier, stats, scratch)
    cwd = os.getcwd()
    try:
        with quiet():
            mod.case(c)
        stats.cases += 1
    except (Skip, Ambiguous):
        stats.skipped += 1
    except Violation as ex:
        stats.cases += 1
        return str(ex), c.detail, traceback.format_exc()
    except ENVIRONMENT_ERRORS:
        raise
    except OSError as ex:
        import errno
        if ex.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
            raise
        stats.cases += 1
        return f'unexpected {type(ex).__name__}: {ex}', c.detail, traceback.format_exc()
    except Exception as ex:
        # deterministic harness, silent on the unchanged tree: either the code under test raised
        # on a valid input, or it gave a result the oracle cannot even be applied to
        stats.cases += 1
        where = 'raised by the code' if from_target(ex.__traceback__) else 'unusable result'
        return f'{where}: {type(ex).__name__}: {ex}', c.detail, traceback.format_exc()
    finally:
        os.chdir(cwd)
        c.cleanup()
    return None


def known_findings(prop):
    " [(key, text)] of the findings recorded for the property (fixed ones suppress nothing) "
    res = []
    f = VERIF / 'known_findings.txt'
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f'known: property={prop} '):
                key, _, text = line.split(' ', 2)[2].partition(' ')
                res.append((key.removeprefix('key='), text))
    return res


def work(mod, prop, seed, tier, indices, scratch, deadline, stop=None):
    stats, found = Stats(), None
    for i in indices:
        if time.monotonic() > deadline or (stop is not None and stop.is_set()):
            break
        found = run_case(mod, prop, seed, i, tier, stats, scratch)
        if found is not None:
            found = (i,) + found
            if stop is not None:
                stop.set()
            break
    return stats, found


def shared(ids, counter):
    " each case goes to the first free worker "
    while True:
        with counter.get_lock():
            k = counter.value
            counter.value += 1
        if k >= len(ids):
            return
        yield ids[k]


def _child(mod, prop, seed, tier, indices, scratch, deadline, stop, conn):
    try:
        conn.send(('ok', work(mod, prop, seed, tier, indices, scratch, deadline, stop)))
    except BaseException as ex:
        conn.send(('err', ''.join(traceback.format_exception(ex))))
    conn.close()
    os._exit(0)


JOBS = 8


def run_parallel(mod, prop, seed, tier, ids, scratch, deadline, jobs):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    stop, counter = ctx.Event(), ctx.Value('l', 0)
    procs = []
    for j in range(jobs):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(mod, prop, seed, tier, shared(ids, counter), scratch, deadline, stop, b))
        p.start()
        b.close()
        procs.append((p, a))
    stats, found, err = Stats(), None, None
    for p, a in procs:
        try:
            kind, res = a.recv()
        except EOFError:
            kind, res = 'err', 'worker died'
        if kind == 'ok':
            stats.merge(res[0])
            if res[1] is not None and (found is None or res[1][0] < found[0]):
                found = res[1]
        else:
            err = res
        p.join()
    if err and found is None:
        raise HarnessError(err)
    return stats, found


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--tier')
    ap.add_argument('--seed', type=int)
    a = ap.parse_args(argv)
    prop = a.prop
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = zlib.crc32(os.environ['VERIF_SEED'].encode())
    t0 = time.monotonic()
    limit = 850
    def alarm(*_):
        print(f'INCONCLUSIVE property={prop}: watchdog ({limit} s)', flush=True)
        os._exit(2)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    scratch = tempfile.mkdtemp(prefix=f'rzmon-{prop}-')
    try:
        return _main(a, prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, prop, tier, seed, t0, scratch):
    try:
        import razorback
        where = os.path.realpath(os.path.dirname(razorback.__file__))
        if where != os.path.realpath(SRC):
            raise HarnessError(f'razorback imported from {where}, expected {SRC}')
        mod = importlib.import_module('rzmon.checks.' + prop.lower())
        if hasattr(mod, 'setup'):
            mod.setup(scratch)
        if a.replay:
            r = json.loads(pathlib.Path(a.replay).read_text())
            ids, seed, tier = [r['case']], r['seed'], r['tier']
        else:
            n = a.cases or mod.CASES[tier]
            ids = list(range(a.start, a.start + n))
        budget = 400 if tier == 'quick' else 600
        jobs = a.jobs or (1 if a.cases and a.cases < 16 else JOBS)
        if jobs > 1 and len(ids) > 1:
            stats, found = run_parallel(mod, prop, seed, tier, ids, scratch, t0 + budget, jobs)
        else:
            stats, found = work(mod, prop, seed, tier, ids, scratch, t0 + budget)
    except Exception:
        traceback.print_exc()
        print(f'INCONCLUSIVE property={prop}: harness or environment error')
        return 2
    wall = time.monotonic() - t0
    known = known_findings(prop)
    minima = getattr(mod, 'MIN', {})
    short = {k: (stats.counts.get(k, 0), v) for k, v in minima.items() if stats.counts.get(k, 0) < v}
    coverage = dict(
        evaluations=stats.cases, distinct_nontrivial=len(stats.sigs), rule=mod.RULE,
        decisive_comparisons=stats.evals, skipped_outside_domain=stats.skipped,
        observed=dict(sorted(stats.counts.items())),
        samples=stats.samples or [f'case {ids[0]} seed {seed}'],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=coverage,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 3), violations=int(found is not None))
    if not a.replay:
        d = VERIF / 'evidence'
        d.mkdir(exist_ok=True)
        (d / f'{prop}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')
    for key, text in known:
        print(f'KNOWN-FINDING: property={prop} {text}')
    print(f'{prop} tier={tier} seed={seed} cases={stats.cases} skipped={stats.skipped} comparisons={stats.evals} '
          f'distinct={len(stats.sigs)} observed={dict(sorted(stats.counts.items()))} wall={wall:.1f}s')
    if found is not None:
        i, msg, detail, tb = found
        d = VERIF / 'replays'
        d.mkdir(exist_ok=True)
        f = d / f'{prop}-s{seed}-{tier}-c{i}.json'
        f.write_text(json.dumps(dict(property=prop, seed=seed, tier=tier, case=i, message=msg,
                                     detail=plain(detail), traceback=tb), indent=1, default=str) + '\n')
        print(f'case {i}: {msg[:600]}')
        print(json.dumps(plain(detail))[:1500])
        print(f'VIOLATION property={prop} replay={f}', flush=True)
        return 1
    if a.replay or a.cases:
        return 0
    if short or not stats.cases or not stats.evals:
        print(f'INCONCLUSIVE property={prop}: observed too little {short}')
        return 2
    return 0

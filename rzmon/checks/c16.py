"""C16: estimates with shared weight objects, over histories and thread schedules."""
import copy
import multiprocessing as mp
import pickle
import sys
import threading

import numpy as np

from .. import ref, sched

RULE = ('histories of 4-14 estimations (transfer functions and impedances, several sizes and weight chains, failing, interrupted at a random line, copied, pickled, sent '
        'to another process) with shared weight objects, and 2-8 threads sharing them under controlled line-level schedules and free-running stress; '
        'every result bit-for-bit equal to the same estimation alone with new weight objects; distinct by history or by schedule')
CASES = dict(quick=540, thorough=5000)
MIN = dict(history_estimates=120, failures=30, interrupted=15, copied=20, pickled=10, schedules=20, switches=2000, threads=60, stress=3, processes=2,
           impedances=20)


def makers(rb):
    W = rb.weights
    return dict(
        bi=lambda: W.bi_weights(.005, 3),
        bi1=lambda: W.bi_weights(.01, 1),
        mest=lambda: W.Weights([None, W.Huber(), W.Thomson()]),
        lazy=lambda: W.Weights(x for x in [None, W.Huber(), W.Thomson()]),
        thomson=lambda: W.Weights([None, W.Thomson(3.)]),
        mix=lambda: W.Weights([None, W.BoundedInfluenceStep(W.Huber(), .1, 6.), W.Thomson()]),
        double=lambda: (lambda s: W.Weights([None, s, s]))(W.BoundedInfluenceStep(W.Thomson(), .08, 7.)),
    )


def job(c, rb, sizes=None):
    " (label, function of weights) of a random estimation "
    n, q, p = c.choice(sizes or [12, 20, 40, 90]), 2, c.choice([1, 1, 2])
    e, B, _ = ref.problem(c.rng, n, p, q, c.choice([.05, .3]), heavy=c.chance(.3))
    k = max(1, n // 20)
    i = c.rng.permutation(n)[:k]
    e[:, i] += 5 * ref.cgauss(c.rng, p, k)
    kind = c.choice(['tf', 'tf', 'tf', 'imp', 'fail_it', 'fail_sing', 'init'])
    f = rb.mestimator.transfer_function
    if kind == 'fail_it':
        return kind, lambda w: f(e, B, w, maxit=2, tol=1e-12)
    if kind == 'fail_sing':
        B2 = B.copy()
        B2[1] = 0
        return kind, lambda w: f(e, B2, w)
    if kind == 'init':
        ids = sorted(c.rnd.sample(range(n), 2))
        return kind, lambda w: f(e, B, w, invalid_idx=[ids] * p)
    if kind == 'imp':
        m = n * 4
        H = c.rng.normal(size=(4, m))
        M = c.rng.normal(size=(2, 4))
        E = M @ H + .2 * c.rng.normal(size=(2, m))
        E[:, m // 2:m // 2 + 3] += 30
        s = rb.SignalSet({'E': (0, 1), 'B': (2, 3), 'R': (4, 5)}, rb.SyncSignal([*E, *H], 1., 0.))
        r = 'R' if c.chance(.4) else None
        cod = rb.prefilters.cod_filter(.05) if c.chance(.5) and n > 40 else None
        def imp(w):
            res = rb.utils.impedance(s, [.2, .31], weights=w, prefilter=cod, remote=r, fourier_opts=dict(Nper=2, overlap=.25, window=None),
                                     keep_invalid_times=True)
            return res.impedance, res.error, [x for t in res.invalid_time for x in t], res.transfer_mag
        return kind, imp
    return kind, lambda w: f(e, B, w)


def outcome(fn, w):
    " canonical bytes of the result (or of the failure) "
    try:
        with np.errstate(all='ignore'):
            res = fn(w)
    except Exception as ex:
        return ('raised', type(ex).__name__)
    flat = []
    def walk(x):
        if isinstance(x, (list, tuple)):
            flat.append(('n', len(x)))
            for y in x:
                walk(y)
        else:
            a = np.asarray(x)
            flat.append((a.shape, str(a.dtype), a.tobytes()))
    walk(res)
    return ('ok', flat)


def remote_worker(args):
    fn_args, w = args
    import razorback as rb
    return outcome(lambda w: rb.mestimator.transfer_function(*fn_args, w), w)


def history(c, rb, mk):
    names = c.rnd.sample(sorted(mk), 2)
    shared = {k: mk[k]() for k in names}
    if c.chance(.3):
        shared['mest'] = rb.weights.mest_weights
        names = sorted(shared)
    trace = []
    for step in range(c.int(4, 14)):
        k = c.choice(names)
        kind, fn = job(c, rb)
        op = c.choice(['run', 'run', 'run', 'interrupt', 'copy', 'deepcopy', 'pickle', 'thread'])
        trace.append((op, k, kind))
        c.note(trace=trace)
        if op == 'interrupt':
            total = sched.raise_at(-1, KeyError(), lambda: fn(mk[k]()))
            if total:
                sched.raise_at(c.int(1, total), c.choice([KeyError('injected'), MemoryError('injected'), KeyboardInterrupt()]), lambda: fn(shared[k]))
                c.obs('interrupted')
            continue
        if op in ('copy', 'deepcopy', 'pickle'):
            w = shared[k]
            new = copy.copy(w) if op == 'copy' else copy.deepcopy(w) if op == 'deepcopy' else pickle.loads(pickle.dumps(w))
            if c.chance(.5):
                shared[k] = new
            else:
                c.ok(outcome(fn, new) == outcome(fn, mk[k]()), f'estimation with a {op} of the weights')
            c.obs('pickled' if op == 'pickle' else 'copied')
        want = outcome(fn, mk[k]())
        if op == 'thread':
            box = []
            t = threading.Thread(target=lambda: box.append(outcome(fn, shared[k])))
            t.start()
            t.join()
            got = box[0]
        else:
            got = outcome(fn, shared[k])
        c.ok(got == want, f'estimation {kind} with weights {k} used before', got=str(got)[:200], want=str(want)[:200])
        c.obs('history_estimates')
        c.obs('failures', int(got[0] == 'raised'))
        c.obs('impedances', int(kind == 'imp'))
    c.sig(trace)
    c.sample(history=trace)


def schedule(c, rb, mk):
    k = c.choice(sorted(mk))
    n = c.choice([2, 2, 3, 4, 8])
    small = [12, 20, 24] if n > 3 else [12, 20, 40]
    same = c.chance(.3)
    jobs = [job(c, rb, small)] * n if same else [job(c, rb, small) for _ in range(n)]
    want = [outcome(fn, mk[k]()) for _, fn in jobs]
    shared = mk[k]()
    mode = c.choice(['lines', 'lines', 'lines', 'free'])
    c.note(weights=k, threads=n, kinds=[j[0] for j in jobs], mode=mode)
    if mode == 'lines':
        rate = c.choice([.5, .1, .03, .01])
        s = sched.Scheduler(c.rnd, [lambda fn=fn: outcome(fn, shared) for _, fn in jobs], rate)
        if not s.run():
            c.fail('concurrent estimations do not terminate')
        res = s.results
        bad = [e for e in s.errors if e is not None]
        if bad:
            raise bad[0]
        c.obs('schedules')
        c.obs('switches', s.switches)
        c.sig(k, n, s.points[:200])
        c.obs('blocked_threads', s.steals)
    else:
        res = [None] * n
        bar = threading.Barrier(n)
        def go(i):
            bar.wait(30)
            out = set()
            for _ in range(4):
                r = outcome(jobs[i][1], shared)
                if r != want[i]:
                    res[i] = r
                    return
            res[i] = r
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ths = [threading.Thread(target=go, args=(i,)) for i in range(n)]
            for t in ths:
                t.start()
            for t in ths:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        c.obs('stress')
    c.obs('threads', n)
    for i in range(n):
        c.ok(res[i] == want[i], f'estimation {jobs[i][0]} concurrent with {n - 1} others, weights {k}', got=str(res[i])[:200], want=str(want[i])[:200])
    c.sample(**c.detail)


def processes(c, rb, mk):
    k = c.choice(sorted(mk))
    shared = mk[k]()
    args = []
    for _ in range(4):
        n = c.choice([20, 60])
        e, B, _ = ref.problem(c.rng, n, 1, 2, .2, heavy=True)
        args.append((e, B))
    f = rb.mestimator.transfer_function
    want = [outcome(lambda w: f(*a, w), mk[k]()) for a in args]
    outcome(lambda w: f(*args[0], w), shared)
    with mp.get_context('fork').Pool(2) as pool:
        got = pool.map_async(remote_worker, [(a, shared) for a in args]).get(60)
    for g, w in zip(got, want):
        c.ok(g == w, f'estimation in another process, weights {k}', got=str(g)[:200], want=str(w)[:200])
    c.obs('processes')
    c.sig('processes', k, c.idx)


def case(c):
    import razorback as rb
    mk = makers(rb)
    k = c.idx % 20
    if k < 8:
        history(c, rb, mk)
    elif k < 19:
        schedule(c, rb, mk)
    else:
        processes(c, rb, mk)

"""C24: proxy arrays, compared index by index with numpy arrays."""
import resource
import threading

import dask
import numpy as np

from .. import sched
from ..core import Skip

RULE = ('file-backed arrays (8 sample types, random offsets and sizes, trailing bytes) and 1 to 3 dimensional proxies over a recording backend, indexed with random integers, '
        'slices of any sign, step and bounds and tuples of them, sequentially, from racing threads, under line-level interleavings after the file shrank, and beyond 2 and 4 GiB in sparse files; '
        'every result against the same index on a numpy array; distinct by shape, type and indices')
CASES = dict(quick=27000, thorough=150000)
MIN = dict(long_files=40, long_indices=500, indices=8000, negative_step=1500, empty=800, out_of_range=800, too_many=150, all_ints=800, file_arrays=300, ranges=1500, threads=60, interleaved=25, truncated=80,
           truncated_error=150, whole=300, partial_tuple=300, dask=60, deleted=8)
TYPES = ['<i4', '>i4', '<i2', '|u1', '<f8', '<f4', '>f8', '<i8']


def gen_bound(c, dim):
    return c.choice([None, None, 0, -1, dim, -dim, dim - 1, dim + 1, -dim - 1, c.int(-2 * dim - 2, 2 * dim + 2), 10 ** 9, -10 ** 9, c.int(0, dim), c.int(0, dim)])


def typed(c, i):
    return i if i is None or c.chance(.8) or abs(i) > 2 ** 31 - 1 else c.choice([np.int64, np.int32])(i)


def gen_item(c, dim, bad=False):
    if bad:
        return typed(c, c.choice([dim, -dim - 1, dim + c.int(0, 9), -dim - c.int(1, 9), 10 ** 12]))
    if c.chance(.3):
        return typed(c, c.int(-dim, dim - 1))
    step = c.choice([None, None, 1, 2, 3, c.int(1, dim + 3), -1, -1, -2, -3, -c.int(1, dim + 3)])
    return slice(typed(c, gen_bound(c, dim)), typed(c, gen_bound(c, dim)), typed(c, step))


def gen_index(c, shape, bad=False):
    k = len(shape)
    if bad:
        n = c.int(1, k)
        j = c.int(0, n - 1)
        items = [gen_item(c, d, i == j) for i, d in enumerate(shape[:n])]
    else:
        items = [gen_item(c, d) for d in shape[:c.choice([k, k, k, c.int(0, k)])]]
    if len(items) == 1 and c.chance(.5):
        return items[0]
    return tuple(items)


def as_tuple(idx):
    return idx if isinstance(idx, tuple) else (idx,)


def forward(i):
    " dask itself mishandles some out of bounds slices of negative step "
    return slice(i.start, i.stop, abs(i.step)) if isinstance(i, slice) and i.step else i


def same(c, got, want, idx):
    c.stats.evals += 1
    g = np.asarray(got)
    if isinstance(want, np.ndarray):
        good = isinstance(got, np.ndarray) and g.shape == want.shape and g.dtype == want.dtype and np.array_equal(g, want, equal_nan=want.dtype.kind == 'f')
    else:
        good = isinstance(got, np.generic) and g.dtype == want.dtype and (got == want or (got != got and want != want))
    if not good:
        c.fail('indexing differs from the numpy array', index=str(idx), got=got, want=want, types=f'{type(got)} {g.dtype}')


def compare(c, proxy, arr, log=None, n=10):
    for _ in range(n):
        bad = c.chance(.12)
        idx = gen_index(c, arr.shape, bad)
        c.note(index=repr(idx), shape=arr.shape)
        if log is not None:
            del log[:]
        if bad:
            try:
                arr[idx]
            except IndexError:
                pass
            else:
                raise Skip
            c.refused(lambda: proxy[idx], 'integer out of range', exc=Exception)
            c.obs('out_of_range')
        else:
            want = arr[idx]
            same(c, proxy[idx], want, idx)
            its = as_tuple(idx)
            c.obs('negative_step', int(any(isinstance(i, slice) and (i.step or 1) < 0 for i in its)))
            c.obs('empty', int(want.size == 0))
            c.obs('all_ints', int(not isinstance(want, np.ndarray)))
            c.obs('partial_tuple', int(len(its) < arr.ndim))
        c.obs('indices')
        c.sig(arr.shape, arr.dtype.str, repr(idx))
        for r in (log or ()):
            c.stats.evals += 1
            if bad:
                c.fail('backend asked although the index is out of range', ranges=str(r))
            if not (isinstance(r, tuple) and len(r) == arr.ndim and all(isinstance(s, slice) for s in r)):
                c.fail('backend asked for something else than one slice per dimension', ranges=str(r))
            for s, d in zip(r, arr.shape):
                if not (0 <= s.start <= d and 0 <= s.stop <= d and (s.step is None or s.step > 0)):
                    c.fail('backend asked for a range outside the array', ranges=str(r), shape=arr.shape)
            c.obs('ranges')
    idx = tuple(gen_item(c, 3) for _ in range(arr.ndim + c.int(1, 2)))
    c.refused(lambda: proxy[idx], 'too many indices')
    c.obs('too_many')


def recorder(arr):
    from razorback.io import binary_file_array as m
    log = []

    class Recorder(m.BaseArrayProxy):
        def extract(self, index):
            log.append(index)
            return self.source[index]
    return Recorder(arr, arr.shape, arr.dtype), log


def file_array(c, n=None, dtype=None):
    from razorback.io import binary_file_array as m
    dtype = np.dtype(dtype or c.choice(TYPES))
    n = n or c.choice([1, 2, 3, 10, 50, c.int(1, 400), c.int(1, 20000)])
    raw = c.rng.integers(0, 256, size=n * dtype.itemsize, dtype='u1').tobytes()
    if dtype.kind == 'f':
        raw = c.rng.normal(size=n).astype(dtype).tobytes()
    off = c.choice([0, 0, 1, 3, 1024, c.int(0, 5000)])
    tail = c.choice([0, 0, c.int(1, dtype.itemsize * 9)])
    p = c.scratch / f'f{c.int(0, 10 ** 9)}'
    p.write_bytes(b'\xa5' * off + raw + b'\x5a' * tail)
    arr = np.frombuffer(raw, dtype)
    have = (n * dtype.itemsize + tail) // dtype.itemsize
    if have == n and c.chance(.3):
        prox = m.BinaryFileArray_1D(str(p), off, n + c.int(1, 50), dtype)      # announced too long : the samples present
    else:
        prox = m.BinaryFileArray_1D(c.choice([str(p), p]), off, n, c.choice([dtype, dtype.str]))
    c.ok(prox.shape == (n,) and prox.dtype == dtype and prox.ndim == 1, 'shape and type', got=(prox.shape, prox.dtype))
    c.obs('file_arrays')
    return prox, arr, p, off


def case(c):
    from razorback.io import binary_file_array as m
    k = c.idx % 10
    if k < 4:
        shape = tuple(c.choice([1, 2, 3, 5, c.int(1, 12)]) for _ in range(c.choice([1, 2, 2, 3])))
        arr = c.rng.integers(-10 ** 6, 10 ** 6, size=shape).astype(c.choice(['i4', 'f8', 'f4', 'i2', 'c16']))
        prox, log = recorder(arr)
        compare(c, prox, arr, log)
        if c.chance(.5):
            c.ok(np.array_equal(np.asarray(prox), arr) and np.asarray(prox).dtype == arr.dtype, 'whole array')
            c.eq(np.asarray(prox, dtype='f8' if arr.dtype.kind != 'c' else 'c16'), arr.astype('f8' if arr.dtype.kind != 'c' else 'c16'), 'whole array, converted')
            c.obs('whole')
        if c.chance(.3):
            d = m.to_dask_array(prox)
            idx = tuple(forward(i) for i in as_tuple(gen_index(c, shape)))
            same(c, np.asarray(d[idx].compute())[()] if not isinstance(arr[idx], np.ndarray) else d[idx].compute(), arr[idx], idx)
            c.obs('dask')
        return
    if k == 4:
        return threads(c)
    if k == 5 and c.idx % 20 == 5:
        return interleaved(c)
    if k == 6:
        return truncated(c, m)
    if k == 7 and c.chance(.05):
        # reading such a file in full must not exhaust the machine
        old = resource.getrlimit(resource.RLIMIT_AS)
        used = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (used + 3 * 2 ** 30, old[1]))
        try:
            return sparse(c, m)
        except MemoryError as e:           # a few values never need 3 GiB
            c.fail('reading a few values of a huge file asks for all of it', error=str(e))
        finally:
            resource.setrlimit(resource.RLIMIT_AS, old)
    prox, arr, p, off = file_array(c)
    compare(c, prox, arr)
    if c.chance(.5):
        g = np.asarray(prox)
        c.ok(g.tobytes() == arr.tobytes() and g.dtype == arr.dtype, 'whole array')
        c.obs('whole')
    if c.chance(.3):
        with dask.config.set({'array.chunk-size': c.choice(['64 B', '1 KiB', '1 MiB']) if len(arr) < 500 else '16 KiB'}):
            d = m.to_dask_array(prox)
        idx = forward(gen_item(c, len(arr)))
        if isinstance(idx, slice):
            same(c, d[idx].compute(scheduler=c.choice(['sync', 'threads'])), arr[idx], idx)
            c.obs('dask')
    c.sample(n=len(arr), dtype=arr.dtype.str, offset=off, tail=int(p.stat().st_size - off - arr.nbytes))


def sparse(c, m):
    " files longer than 32 bits count, mostly holes "
    dtype = np.dtype(c.choice(TYPES))
    it = dtype.itemsize
    off = c.choice([0, 1, 1024, 2 ** 31 - 3, 2 ** 31 + 7, 2 ** 32 + 5])
    n = c.choice([2 ** 31 // it + 9, 2 ** 32 // it + 9, 2 ** 31 - 5, 2 ** 31 + 11, 2 ** 32 + 17]) + c.int(0, 5)
    p = c.scratch / 'sparse'
    marks = {}
    places = sorted({0, n - 8, c.int(0, n - 8)} | {q for q in (2 ** 31 // it - 4, 2 ** 32 // it - 4, 2 ** 31 - 4, 2 ** 32 - 4, (2 ** 31 - off) // it - 4) if 0 <= q <= n - 8})
    tail = c.choice([0, c.int(1, 9)])
    with open(p, 'wb') as f:
        f.truncate(off + n * it + tail)
        for q in places:
            x = c.rng.integers(1, 100, size=8).astype(dtype)
            f.seek(off + q * it)
            f.write(x.tobytes())
            marks.update(zip(range(q, q + 8), x))
    prox = m.BinaryFileArray_1D(str(p), off, n + c.choice([0, 0, c.int(1, 5)]) * (tail < it), dtype)
    c.ok(prox.shape == (n,), 'shape', got=prox.shape, want=n)
    d = m.to_dask_array(prox)
    for _ in range(12):
        i = min(max(0, c.choice(places) + c.int(-9, 15)), n - 1)
        j = min(n, i + c.int(0, 20))
        step = c.choice([None, 1, 2, 3])
        neg = c.chance(.3)
        idx = c.choice([i, slice(i, j, step), slice(i, j, step), slice(i, n if n - i < 1000 else j, step)])
        if neg:
            idx = idx - n if isinstance(idx, int) else slice(i - n, j - n if j < n else None, step)
        want = np.array([marks.get(q, 0) for q in range(n)[idx]], dtype) if isinstance(idx, slice) else dtype.type(marks.get(i, 0))
        c.note(index=repr(idx), shape=[n], dtype=dtype.str, offset=off)
        got = prox[idx]
        c.ok(np.shape(got) == np.shape(want) and np.array_equal(got, want), 'samples of a long file', got=got, want=want)
        if isinstance(idx, slice) and c.chance(.2):
            with dask.config.set(scheduler='sync'):
                c.ok(np.array_equal(d[idx].compute(), want), 'samples of a long file, as a lazy array')
        c.obs('long_indices')
    c.refused(lambda: prox[n + c.int(0, 3)], 'integer out of range', exc=Exception)
    p.unlink()
    c.obs('long_files')
    c.sig('sparse', off, n, dtype.str)


def threads(c):
    n = c.int(100, 30000)
    prox, arr, p, off = file_array(c, n=n)
    plans = [[gen_index(c, arr.shape) for _ in range(12)] for _ in range(c.choice([2, 4, 8]))]
    bad, barrier = [], threading.Barrier(len(plans))

    def work(plan):
        barrier.wait()
        try:
            for idx in plan:
                g, w = np.asarray(prox[idx]), np.asarray(arr[idx])
                if g.shape != w.shape or g.tobytes() != w.tobytes():
                    bad.append((repr(idx), 'wrong samples'))
        except Exception as ex:
            bad.append((repr(idx), repr(ex)))
    ts = [threading.Thread(target=work, args=(pl,)) for pl in plans]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    c.ok(not bad, 'reading from several threads', bad=bad)
    c.obs('threads')


def interleaved(c):
    prox, arr, p, off = file_array(c, n=c.int(20, 300))
    plans = [[gen_index(c, arr.shape) for _ in range(2)] for _ in range(c.choice([2, 3]))]
    tasks = [lambda pl=pl: [np.asarray(prox[i]).tobytes() for i in pl] for pl in plans]
    s = sched.Scheduler(c.rnd, tasks, c.choice([.2, .5, 1.]), names=None)
    c.ok(s.run(), 'interleaved reading does not end')
    for pl, res, err in zip(plans, s.results, s.errors):
        c.ok(err is None, 'interleaved reading failed', error=repr(err))
        c.ok(res == [np.asarray(arr[i]).tobytes() for i in pl], 'interleaved reading', indices=[repr(i) for i in pl])
    c.obs('interleaved')
    c.obs('interleaved_switches', s.switches)


def truncated(c, m):
    prox, arr, p, off = file_array(c, n=c.int(2, 500))
    it, n = arr.dtype.itemsize, len(arr)
    d = m.to_dask_array(prox)
    if c.chance(.15):
        p.unlink()
        c.refused(lambda: prox[0:n], 'reading a deleted file')
        c.obs('deleted')
        return
    left = c.choice([0, n - 1, c.int(0, n - 1)])
    size = off + left * it + c.choice([0, c.int(0, it - 1)])
    if c.chance(.1):
        size, left = c.int(0, off), 0
    with open(p, 'r+b') as f:
        f.truncate(size)
    c.obs('truncated')
    for _ in range(8):
        idx = gen_item(c, n)
        w = np.asarray(arr[idx])
        used = np.atleast_1d(np.arange(n)[idx])
        c.note(index=repr(idx), n=n, left=left)
        get = c.choice([lambda: prox[idx], lambda: d[idx].compute()]) if isinstance(idx, slice) and (idx.step or 1) > 0 else lambda: prox[idx]
        if used.size and used.max() >= left:
            c.refused(get, 'reading samples that are no longer in the file')
            c.obs('truncated_error')
        else:
            try:
                g = np.asarray(get())
            except Exception:
                continue                       # an error is allowed, wrong samples are not
            c.ok(g.shape == w.shape and g.tobytes() == w.tobytes(), 'wrong samples after the file shrank', got=g, want=w)
            c.obs('truncated_ok')
    if c.chance(.5) and left:
        c.refused(lambda: np.asarray(prox), 'reading the whole truncated file')

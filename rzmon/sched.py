"""Controlled thread schedules: one thread runs at a time, switching at chosen source lines of the code under test."""
import sys
import threading

from .core import PKGMARK


class Scheduler:
    """ runs functions in threads; before each traced line the running thread may hand over to another one

    A thread that does not come back (blocked on a lock held by another) loses its turn after `patience` seconds.
    """
    def __init__(self, rnd, fns, rate, patience=.5, names=('weights', 'mestimator', 'prefilters', 'utils')):
        self.rnd, self.fns, self.rate, self.patience = rnd, fns, rate, patience
        self.n = len(fns)
        self.cond = threading.Condition()
        self.turn = 0
        self.ticks = 0
        self.alive = set(range(self.n))
        self.switches = 0
        self.points = []
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.names = None if names is None else tuple(f'{PKGMARK}{n}.py' for n in names)
        self.steals = 0

    def _next(self, me):
        others = sorted(self.alive - {me})
        return self.rnd.choice(others) if others else me

    def _await(self, me):
        seen = self.ticks
        while self.turn != me:
            if not self.cond.wait(self.patience):
                if self.ticks == seen and self.turn != me:     # the running thread is stuck: take over
                    self.turn = me
                    self.steals += 1
                    break
            seen = self.ticks

    def _point(self, me, where):
        with self.cond:
            self.ticks += 1
            if self.turn == me and self.rnd.random() < self.rate:
                nxt = self._next(me)
                if nxt != me:
                    self.switches += 1
                    self.points.append((me, nxt, where))
                    self.turn = nxt
                    self.cond.notify_all()
            if self.turn != me:
                self._await(me)

    def _trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self._point(me, (frame.f_code.co_name, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            return local if (PKGMARK in f if self.names is None else f.endswith(self.names)) else None
        return glob

    def _run(self, me):
        with self.cond:
            self._await(me)
        sys.settrace(self._trace(me))
        try:
            self.results[me] = self.fns[me]()
        except BaseException as ex:
            self.errors[me] = ex
        finally:
            sys.settrace(None)
            with self.cond:
                self.alive.discard(me)
                self.ticks += 1
                if self.turn == me and self.alive:
                    self.turn = self.rnd.choice(sorted(self.alive))
                self.cond.notify_all()

    def run(self, timeout=120):
        ths = [threading.Thread(target=self._run, args=(k,), daemon=True) for k in range(self.n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join(timeout)
        return not any(t.is_alive() for t in ths)


def raise_at(k, exc, fn, names=('weights', 'mestimator')):
    " run fn, raising exc at its k-th traced line; returns the number of lines seen "
    files = tuple(f'{PKGMARK}{n}.py' for n in names)
    count = [0]

    def local(frame, event, arg):
        if event == 'line':
            count[0] += 1
            if count[0] == k:
                raise exc
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.endswith(files) else None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        fn()
    except type(exc):
        pass
    except Exception:
        pass
    finally:
        sys.settrace(old)
    return count[0]

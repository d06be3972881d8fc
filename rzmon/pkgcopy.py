"""A private copy of the package, whose own data directory can be filled and emptied freely."""
import importlib
import os
import pathlib
import shutil
import sys

from .core import SRC, HarnessError

_done = {}


def private(c):
    " make `razorback` of this process a private copy; return its directory "
    pid = os.getpid()
    if pid not in _done:
        root = pathlib.Path(c._scratch_root) / f'pkg-{pid}'
        pkg = root / 'razorback'
        shutil.copytree(SRC, pkg, ignore=shutil.ignore_patterns('__pycache__'))
        for name in [m for m in sys.modules if m == 'razorback' or m.startswith('razorback.')]:
            del sys.modules[name]
        sys.path.insert(0, str(root))
        importlib.invalidate_caches()
        import razorback
        if os.path.realpath(os.path.dirname(razorback.__file__)) != os.path.realpath(pkg):
            raise HarnessError(f'private copy not used: {razorback.__file__}')
        _done[pid] = pkg
    return _done[pid]


def clean(pkg):
    shutil.rmtree(pkg / 'data', ignore_errors=True)


def tree(root):
    " snapshot of a directory: {relative path: content, link target or None for a directory} "
    out = {}
    for d, dirs, names in os.walk(root):
        if '__pycache__' in dirs:
            dirs.remove('__pycache__')
        for n in dirs + names:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            out[r] = ('link', os.readlink(p)) if os.path.islink(p) else None if n in dirs else open(p, 'rb').read()
    return out

#!/usr/bin/env python3
"""run.py Cxx [--replay FILE] [--cases N] [--start I]  -- runs the check of one property.

Exit 0: the property held on everything observed.  Exit 1: a line
"VIOLATION property=Cxx replay=FILE" was printed.  Exit 2: inconclusive.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RZMON_REPO', '/repo')      # another tree can be monitored with RZMON_REPO
VENV = '/opt/venv/bin/python'

ENV = {
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore', 'HOME': '/tmp',
    'LC_ALL': 'C.UTF-8',
}


def main():
    if os.environ.get('RZMON_CHILD') != '1':
        env = dict(os.environ, RZMON_CHILD='1', RZMON_REPO=REPO, **ENV)
        env['PYTHONPATH'] = os.path.join(REPO, 'src')
        os.execve(VENV, [VENV, os.path.join(HERE, 'run.py')] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from rzmon import core
    sys.exit(core.main(sys.argv[1:]))


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Nothing to build: checks that the interpreter of the target and its dependencies are there."""
import subprocess
import sys
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy, dask, click; print(numpy.__version__, scipy.__version__, dask.__version__)'],
                   capture_output=True, text=True)
print(r.stdout, r.stderr)
sys.exit(r.returncode)

#!/usr/bin/env python
"""run.py <property id> [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONHASHSEED', '0')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')      # the jobs run in parallel
from vf import env        # noqa: E402,F401
from vf import core       # noqa: E402

if __name__ == '__main__':
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if isinstance(rc, int) else 2)

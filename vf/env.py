"""Process set-up: import path of the code under test and of Hypothesis.

The code under test is always imported from the working tree in $WCXF_REPO
(default /repo); Hypothesis comes from the tooling venv and is appended at the
END of sys.path so that numpy/yaml/... stay those of the interpreter that runs
the project.
"""
import logging
import os
import sys
import warnings

REPO = os.path.abspath(os.environ.get('WCXF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get('WCXF_PYTHON', '/opt/venv/bin/python')
HYPO = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
if HYPO not in sys.path:
    sys.path.append(HYPO)

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


def child_env():
    """Environment for subprocesses that run the code under test."""
    e = dict(os.environ)
    e['PYTHONPATH'] = REPO
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONWARNINGS'] = 'ignore'
    e['PYTHONHASHSEED'] = '0'
    return e

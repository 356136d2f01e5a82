#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['MPLBACKEND'] = 'Agg'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')

import logging
import warnings
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')

from engine import runner

runner.main()

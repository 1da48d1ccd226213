#!/opt/venv/bin/python
"""replay.py FILE [--trace]: re-executes a recorded violation; exit 1 when it reproduces."""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0' and not os.environ.get('VERIF_KEEP_HASHSEED'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ['OPENBLAS_NUM_THREADS'] = '1'
os.environ['OMP_NUM_THREADS'] = '1'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import runner
sys.exit(runner.main_replay(sys.argv[1:]))

import os
import sys
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PARAMZ_REPO', '/repo')
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
import logging
logging.disable(logging.CRITICAL)

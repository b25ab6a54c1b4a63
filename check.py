#!/opt/venv/bin/python
"""check.py <property> [--thorough]      decide a property
   check.py --replay <file>              show what a reported replay does"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import common, runner  # noqa
from harness.registry import CHECKS, replay  # noqa

if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    code = runner.main(CHECKS, sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)     # whatever worker processes still do

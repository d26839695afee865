#!/opt/venv/bin/python
"""
Usage: run_check.py <property id> [quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored; 1: violation (or the check was prevented from running by the code).
"""
import os
import sys

os.environ.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc.core import main, setup

if __name__ == '__main__':
    code = setup() if sys.argv[1:] == ['setup'] else main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)

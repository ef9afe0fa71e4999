#!/usr/bin/env python3
"""check.py <property> [runs]   run a check;   check.py --replay <file>   replay a violation."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.runner import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   run the monitor of one property."""
import os, sys, importlib
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'lib'))
from vf import core

if __name__ == '__main__':
    if len(sys.argv) < 2:
        sys.exit('usage: check.py <ID> [quick|thorough]')
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('vf.checks.' + pid.lower())
    core.main(pid, tier, mod)

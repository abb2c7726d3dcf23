#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property from the current sources of /repo."""
import sys, os, pathlib
if os.environ.get('PYTHONHASHSEED') != '0':          # the analysis iterates over sets: make every run the same
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from bflsa import registry
sys.exit(registry.main(sys.argv[1:]))

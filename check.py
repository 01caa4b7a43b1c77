#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get('PYTHONHASHSEED') != '0' \
        or sys.prefix != '/opt/venv':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if sys.argv[1:] == ['--selftest']:
    from symx import selftest
    sys.exit(1 if selftest.run() else 0)
from symx import runner
sys.exit(runner.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))

#!/usr/bin/env python3
"""Checks that the tools are there.  Nothing has to be built."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from harness import core                                              # noqa

os.makedirs(os.path.join(HERE, 'work'), exist_ok=True)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
subprocess.check_call([core.PY, '-W', 'ignore', '-B', '-c', 'import node, odict, plumber'])
out = subprocess.run(['java', '-cp', core.CP, 'tlc2.TLC', '-h'], capture_output=True, text=True)
if 'TLC' not in out.stdout + out.stderr:
    sys.exit('TLC does not run')
print('ready')

#!/usr/bin/env python3
"""usage: check.py PROPERTY [--quick|--thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from harness import core                                              # noqa

MODULES = ['checks_tree', 'checks_misc']


def find(prop):
    for name in MODULES:
        mod = importlib.import_module('harness.' + name)
        if prop in mod.CHECKS:
            return mod.CHECKS[prop]
    sys.exit('no check for ' + prop)


if __name__ == '__main__':
    sys.exit(core.main(find(sys.argv[1]), sys.argv[1]))

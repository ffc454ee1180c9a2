#!/usr/bin/env python
"""Usage: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vh import core
# one module object only, whatever name it is imported under
if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))

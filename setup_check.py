#!/usr/bin/env python3
"""setup_cmd: everything is interpreted, so setup only verifies the tools."""
import shutil
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pdsmon import build
from pdsmon.registry import load_specs
ok = os.path.exists(build.PYTHON) and shutil.which('g++') is not None
print('interpreter %s, g++ %s, %d properties' % (build.PYTHON, shutil.which('g++'), len(load_specs())))
sys.exit(0 if ok else 1)

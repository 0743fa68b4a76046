"""Nothing to build: check that the tools used by the checks are there."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import env

env.setup_sym()
import z3
import numpy
import Cython

assert shutil.which('clang'), 'clang is missing'
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'Cython',
      Cython.__version__)

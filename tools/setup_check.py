#!/opt/venv/bin/python
"""setup_cmd: nothing to build; checks that the engine and the solvers are usable"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, ".."))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, sympy, yaml, z3  # noqa
from symx import runner  # noqa

print("numpy", numpy.__version__, "sympy", sympy.__version__, "z3", z3.get_version_string())

"""setup_cmd: the framework is pure Python; check that what it needs works."""
import os
import shutil
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
import numpy  # noqa: E402,F401
import pyomo  # noqa: E402,F401
import scipy  # noqa: E402,F401

assert shutil.which("glpsol") and shutil.which("cbc"), "solvers missing"
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ok: python", sys.version.split()[0], "pyomo", pyomo.__version__)

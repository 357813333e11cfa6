"""setup: nothing to build; checks that the interpreter offers what the simulator needs"""
import sys
assert sys.version_info[:2] >= (3, 12) and hasattr(sys, "monitoring"), "needs CPython >= 3.12"
import numpy, scipy.optimize, scipy.linalg, nbformat  # noqa
print("setup ok: python", sys.version.split()[0], "numpy", numpy.__version__)

"""Framework set-up: makes Hypothesis importable offline and checks the interpreter."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.setup()
import hypothesis  # noqa: E402
import numpy  # noqa: E402,F401
import scipy  # noqa: E402,F401
import sympy  # noqa: E402,F401

print('hypothesis', hypothesis.__version__, hypothesis.__file__)

"""Check that everything that the checks need can be imported"""

import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, "vendor"), "/repo/src"]

import hypothesis  # noqa: E402
import numpy  # noqa: E402
import pandas  # noqa: E402

from pbt import core, ref, scen  # noqa: E402, F401

print("python", sys.version.split()[0], "numpy", numpy.__version__, "pandas", pandas.__version__)
print("hypothesis", hypothesis.__version__, "from", hypothesis.__file__)

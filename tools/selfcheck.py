"""setup: nothing to build, only make sure that the interpreter and the repository can be imported"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import hypothesis, sympy, numpy
from vlib import env
env.setup()
import ikbtbasics.kin_cl
print('hypothesis', hypothesis.__version__, 'sympy', sympy.__version__, 'numpy', numpy.__version__)

"""C31: the Python interface.  See mcpy.py; the spaces are in harness/py/."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import mcpy
import c31_mat, c31_tf, c31_sg  # noqa: F401
mcpy.main("C31")

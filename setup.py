"""Builds the symbolic engine and the native replay runtime into /verif/build (also done on demand by each check)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core
core.build_engine()
print('engine ready')

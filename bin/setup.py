#!/usr/bin/env python3
"""Builds the library and every driver once (the checks rebuild what they need anyway)."""
import sys, os, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
d = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(vf.VERIF, 'harness', '*.cpp')))
vf.build(d)

#!/usr/bin/env python3
"""Builds the verifier."""
import os, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["x", "C00"]
sys.path.insert(0, V)
import check
d = tempfile.mkdtemp()
print(check.build_gocv(d))
shutil.rmtree(d)

#!/usr/bin/env python3
"""Builds the symbolic engine and the IR of /repo's current sources once (each check rebuilds whatever is out of date)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.build_both())

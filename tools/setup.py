#!/usr/bin/env python3
"""Checks the toolchain and warms the build cache; every check can also build by itself."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import build_lib
b = build_lib.build(V + '/harness/C01.cc')
print('engine', b['engine'])

#!/usr/bin/env python3
"""usage: check.py C01 [quick|thorough]    decides one property on /repo's current tree"""
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
sys.path[:0] = [here + '/lib', here + '/checks']; sys.dont_write_bytecode = True
import importlib, hv
prop = sys.argv[1]
hv.main(importlib.import_module(prop.lower()).run, prop)

#!/usr/bin/env python3
"""Builds what the checks share; every check also builds what it finds missing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import hv
hv.peload(); hv.support_obj(); hv.build_hlc('plain'); print('ok')

#!/usr/bin/env python3
"""Build the current tree once (the checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build
t = build.Tree()
t.targets('all')
print('built', t.dir)

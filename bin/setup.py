#!/usr/bin/env python3
"""Builds what the checks need from /repo, so that the first check does not pay for it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import tt
try:
    print(tt.build_cli())
    for extra in ('build_harness', 'build_shim'):
        if hasattr(tt, extra):
            print(getattr(tt, extra)())
except tt.ToolError as e:
    print('ERROR: %s' % e)
    sys.exit(2)

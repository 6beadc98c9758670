#!/usr/bin/env python3
"""Builds what the checks use. Every check builds again from /repo's working tree; this only fills the caches."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.mon import *
try:
    parallel(lambda: vmon("dbg"), lambda: vmon("rel"), lambda: cli("dbg"), lambda: cli("rel"))
    jitter_lib()
except Inconclusive as e:
    print(e, file=sys.stderr)
    sys.exit(1)

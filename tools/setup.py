#!/usr/bin/env python3
"""setup_cmd: builds the module (and the C++ harnesses) so that the checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
d, t = build.build_module()
print("module: %s %.1f s" % (d, t))
print("harnesses: %.1f s" % sum(build.build_harness(*h)[1] for h in build.HARNESSES))

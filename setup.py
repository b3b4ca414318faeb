"""Builds the drivers once, so that the checks start from a warm build directory."""

import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib  # noqa: E402

vlib.build_rust()
try:
    vlib.build_full()
except vlib.ToolError as e:  # the checks of collection will say so themselves
    print(e, file=sys.stderr)

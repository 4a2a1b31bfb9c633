#!/usr/bin/env python3
"""check.py <property>: runs the check of one property (see DESIGN.md)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import vf  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    module = importlib.import_module(f"checks.{prop}")
    vf.main(prop, module.run)

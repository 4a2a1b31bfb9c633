"""Builds all drivers once. Not required: every check builds what it needs."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import vf  # noqa: E402

for crate in sorted(os.listdir(os.path.join(vf.VERIF, "harness"))):
    if os.path.exists(os.path.join(vf.VERIF, "harness", crate, "Cargo.lock")):
        vf.build(crate)

#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
from vf import core  # noqa: E402

pid = sys.argv[1]
mod = importlib.import_module("vf." + pid.lower())
sys.exit(core.main(pid, mod.run))

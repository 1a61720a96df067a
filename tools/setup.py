#!/usr/bin/env python3
"""Builds the harnesses (checks rebuild what has changed) and tries TLC."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build as B  # noqa: E402

B.build([(h, v) for h in sorted(B.HARNESSES) for v in ("OFF", "SSE", "AVX")])
print("ok")

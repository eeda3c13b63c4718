#!/usr/bin/env python3
"""Warms the Go build cache and checks that the toolchain answers."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import run as R      # noqa: E402

s = R.Scratch()
try:
    R.build(s)
finally:
    s.close()
print("ok")

#!/usr/bin/env python3
"""Warms Go's build cache (normal and race builds of the harness); the checks work without it, only slower."""
import shutil, sys, tempfile, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
s = tempfile.mkdtemp(prefix="verif-boo-")
try:
    for r in (False, True):
        d = os.path.join(s, str(r))
        os.makedirs(d)
        print(build.build(d, r))
finally:
    shutil.rmtree(s, ignore_errors=True)

#!/usr/bin/env python3
"""Compiles the exact-number module for TLC and self-tests it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.java_classes()
rc, out = vlib.tlc("NumTest", "NumTest.cfg", 1)
if rc != 0 or "No error has been found" not in out:
    print(out[-3000:]); sys.exit(1)
print("setup ok")

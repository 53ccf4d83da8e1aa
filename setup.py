#!/usr/bin/env python3
"""Warm the build cache of the compiler under test (every check does this itself when needed)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import common as K, front
print(K.build_idlc())
print(K.build_idlc(release=True))
print(K.build_idlc(profile='opt'))
print(front.build_lib())
from mc.checks import threads
print(threads.mcstd())
K.cleanup()

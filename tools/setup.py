#!/usr/bin/env python3
"""Builds the IR extractor (offline, LLVM 18 from the sandbox)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "engine"))
import ir
print(ir.tool())

#!/usr/bin/env python3
"""Builds everything the checks use (each check rebuilds what it needs anyway)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib

ctx = vlib.Ctx("setup", "quick", 1)
ctx.java()
try:
    ctx.build()
except vlib.CheckError as e:  # a check reports what it cannot build
    print(e)

#!/usr/bin/env python3
"""Builds the checkers from the committed files (each check builds what it needs again, if it has to)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engines import mc, platforms, sched
print(mc.build())
print(sched.build())
platforms.prepare()

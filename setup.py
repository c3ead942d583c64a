#!/usr/bin/env python3
"""Builds the IR dumper from its committed source."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build
print(build.tool())

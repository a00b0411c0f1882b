#!/usr/bin/env python3
"""Builds the instrumentation pass and the runtime."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

build.tools()
print("ready")

#!/usr/bin/env python3
"""Builds the harness once, so that missing tools or dependencies show early."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
try:
    lib.build()
finally:
    lib.S.close()

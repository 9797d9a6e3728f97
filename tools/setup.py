#!/usr/bin/env python3
"""Builds every driver (each check also rebuilds what it needs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks import DRIVERS, EXTRA_BUILDS, build
build(*(list(DRIVERS) + EXTRA_BUILDS))
print("built", len(DRIVERS) + len(EXTRA_BUILDS), "drivers")

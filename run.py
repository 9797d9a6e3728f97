#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (tier and seed from VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from checks import REGISTRY

if __name__ == "__main__":
    prop = sys.argv[1]
    mod, fn, level = REGISTRY[prop]
    m = importlib.import_module("checks." + mod)
    sys.exit(core.main(prop, getattr(m, fn), level))

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX]: decides one property on /repo's current tree."""
import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import registry, runner

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only")
a = ap.parse_args()
p = registry.PROPS[a.prop]
sys.exit(runner.run_property(a.prop, p["harnesses"], a.tier, int(os.environ.get("VERIF_SEED", "1")), p["note"], p["assumptions"] + registry.COMMON_ASSUMPTIONS, a.only))

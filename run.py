#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (tier and seed from VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
sys.dont_write_bytecode = True
import core
pid = sys.argv[1]
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
sys.exit(core.main(pid, importlib.import_module(pid.lower()).body))

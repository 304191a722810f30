#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]: runs the check of one property."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(os.path.dirname(here), "checks")]
sys.dont_write_bytecode = True
import pbt
if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module(prop.lower())
    rc = pbt.main(mod.CHECK, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)

#!/usr/bin/env python3
"""check.py PROPERTY  - runs the check of one property (tier and seed from VERIF_TIER, VERIF_SEED)"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbv
MODULES = ["p_xbw", "p_json", "p_misc", "p_values", "p_doc", "p_image", "p_disk"]
def main():
    f = None
    for m in MODULES:
        f = getattr(importlib.import_module(m), sys.argv[1].lower(), None) or f
    if f is None: print("no check for", sys.argv[1]); return 2
    try:
        return f().finish()
    except mbv.Fail as e:
        print("ERROR", e); return 2
    finally:
        mbv.cleanup()
if __name__ == "__main__": sys.exit(main())

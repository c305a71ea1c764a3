#!/usr/bin/env python3
"""run.py PROP TIER  -- decides one property;  run.py --build TARGET"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, vlib
import props

def main():
    if sys.argv[1] == "--build":
        props.BUILD[sys.argv[2]]()
        return 0
    if sys.argv[1] == "--setup":      # builds what the checks share; every check rebuilds what changed
        for n, f in props.BUILD.items():
            try:
                f()
            except build.BuildError as e:
                print("setup: %s: %s" % (n, str(e)[-500:]))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = vlib.Report(prop, tier)
    try:
        props.CHECK[prop](rep)
    except build.BuildError as e:
        print("ERROR building the code under test:", str(e)[-3000:])
        sys.exit(2)
    rep.finish()
main()

import argparse
import os
import sys

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    if a.replay:
        import json
        prop = json.load(open(a.prop))["property"]
    if prop in ("C14", "C15"):       # libc's rand() must be replaced before anything is loaded
        from mc import coins
        coins.preload()
    from mc import core
    if a.replay:
        sys.exit(core.replay(a.prop))
    rc = core.run_property(a.prop, a.tier)
    sys.stdout.flush()
    sys.exit(rc)

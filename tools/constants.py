"""Writes pbt/constants.json, the constants of the present sources.  Run by hand, after commits to /repo."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "pbt"))
import hints  # noqa

with open(os.path.join(VERIF, "pbt", "constants.json"), "w") as out:
    json.dump({name: dict(sorted(counter.items())) for name, counter in sorted(hints.constants("/repo").items())}, out, indent=0)
    out.write("\n")

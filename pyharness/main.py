"""main.py check PROP SEED SECONDS JOBS WORK OUT REPLAY [KNOWN,...] | main.py replay FILE WORK"""
import gc
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt  # noqa: E402


def load(prop):
    importlib.import_module(prop.lower())
    # Only look at what the cases create.
    gc.collect()
    gc.freeze()


if sys.argv[1] == "check":
    prop, seed, seconds, jobs, work, out, rep = sys.argv[2:9]
    load(prop)
    known = [k for k in (sys.argv[9] if len(sys.argv) > 9 else "").split(",") if k]
    sys.exit(pbt.main(prop, int(seed), float(seconds), int(jobs), work, known, out, rep))
else:
    with open(sys.argv[2], encoding="utf-8") as f:
        r = json.load(f)
    load(r["property"])
    sys.exit(pbt.replay(r, sys.argv[3]))

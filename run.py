#!/usr/bin/python3
"""Entry point of the checks.

  run.py setup               build everything once
  run.py check C07           decide a property on /repo's current working tree
  run.py replay FILE         repeat the case of a replay file
  run.py list                properties with a check

VERIF_SEED selects the random choices, VERIF_TIER (quick, thorough) the effort.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build  # noqa: E402
import checks  # noqa: E402

REPLAYS = os.path.join(VERIF, "build", "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")


def known_findings(prop):
    """Lines 'known: property=C01 key=... <what fails>' of the known-findings file."""
    out = []
    try:
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop:
                    out.append((w[2].split("=", 1)[1], w[3].strip()))
    except FileNotFoundError:
        pass
    return out


def main_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    cfg = checks.CHECKS[prop]
    known = known_findings(prop)
    os.makedirs(REPLAYS, exist_ok=True)
    work = tempfile.mkdtemp(prefix="mlio-verif-%s-" % prop)
    os.chmod(work, 0o755)
    results = []
    failure = None
    try:
        for part in cfg["parts"]:
            seconds = part["seconds"][0 if tier == "quick" else 1]
            seconds = float(os.environ.get("MLIO_VERIF_SECONDS", seconds))
            replay = os.path.join(REPLAYS, "%s-%s.json" % (prop, part["kind"]))
            if os.path.exists(replay):
                os.unlink(replay)
            res = checks.run_part(part, prop, tier, seed, seconds, work, replay,
                                  [k for k, _ in known])
            results.append(res)
            if res["violation"]:
                failure = (replay, res)
                break
        write_evidence(prop, cfg, tier, seed, results, time.time() - t0,
                       1 if failure else 0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if failure:
        print("VIOLATION property=%s replay=%s" % (prop, failure[0]))
        return 1
    print("%s held on everything explored (%.0f s)" % (prop, time.time() - t0))
    return 0


def write_evidence(prop, cfg, tier, seed, results, wall, violations):
    samples = []
    tests = {}
    tags = {}
    notes = []
    for r in results:
        samples += r["samples"][:12]
        tests.update(r["tests"])
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        if r.get("notes"):
            notes.append(r["notes"])
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["cases"] for r in results),
            "distinct_nontrivial": sum(r["distinct"] for r in results),
            "rule": cfg["rule"],
            "samples": samples,
            "discarded": sum(r["discards"] for r in results),
            "known_finding_cases": sum(r["known"] for r in results),
            "per_test": tests,
            "classes": tags,
            "notes": notes,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": violations,
    }
    d = os.environ.get("MLIO_VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


def main_replay(path):
    with open(path, encoding="utf-8") as f:
        rep = json.load(f)
    work = tempfile.mkdtemp(prefix="mlio-verif-replay-")
    try:
        return checks.replay(rep, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main_setup():
    build.build_harness("asan", None, quiet=False)
    for prop, cfg in checks.CHECKS.items():
        for part in cfg["parts"]:
            checks.build_part(part, prop)
    return 0


def main():
    # Nothing the checks start may outlive them or be slowed by a full /tmp.
    cmd = sys.argv[1] if len(sys.argv) > 1 else ""
    try:
        if cmd == "check":
            return main_check(sys.argv[2])
        if cmd == "replay":
            return main_replay(sys.argv[2])
        if cmd == "setup":
            return main_setup()
        if cmd == "list":
            print(" ".join(sorted(checks.CHECKS)))
            return 0
    except build.BuildError as e:
        print(e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

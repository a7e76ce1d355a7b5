"""Writes MANIFEST.json from checks.CHECKS and properties.jsonl."""
import json
import os
import subprocess

import checks

VERIF = checks.VERIF


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True,
                           text=True).stdout.splitlines()
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "hooks": {
            "guard": "MLIO_VERIF_HOOKS",
            "enable": "lib/build.py compiles /repo's sources itself, with -DMLIO_VERIF_HOOKS",
            "source_commits": [h.split()[0] for h in hooks if "verification hook" in h],
        },
        "checks": [],
        "not_applicable": [],
    }
    for p in props:
        pid = p["id"]
        cfg = checks.CHECKS.get(pid)
        if cfg is None:
            m["not_applicable"].append({"property": pid, "reason": checks.NOT_APPLICABLE.get(
                pid, "no check has been built yet")})
            continue
        m["checks"].append({
            "property": pid,
            "quick_cmd": "VERIF_TIER=quick python3 run.py check " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + pid,
            "technique": cfg.get("technique", "property-based testing: coverage-guided generated "
                                              "cases against a reference model, with shrinking"),
            "level": "exploration",
            "level_note": cfg["note"],
        })
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
NOTES = {
    "P17": "runtime monitoring with fault injection (a file created between call and open via an audit hook), byte-level file oracle",
    "P20": "runtime monitoring with fault injection (every-line truncation, token damage, foreign files), differential oracle against the intact contents",
    "P22": "runtime monitoring: argument digests before/after every call, mutation of returned copies, repeated-call oracle",
    "P25": "runtime monitoring of the real training loop: instrumented dataset/optimizer/model event log checked by an offline trace oracle",
}
DEFAULT = "runtime monitoring: generated workloads on the real code, online oracle against independently computed ground truth"
checks, missing = [], []
for line in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    pid = p["id"]
    if (root / "rnmon" / "checks" / f"{pid.lower()}.py").exists():
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./run {pid} quick",
                "thorough_cmd": f"./run {pid} thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": NOTES.get(pid, DEFAULT),
                "level": "exploration",
                "level_note": "decided on the executions observed; the evidence file counts cases, oracle decisions and code reached",
            }
        )
    else:
        missing.append({"property": pid, "reason": "check not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "./run selfcheck",
    "hooks": {
        "guard": "RNMON_HOOKS",
        "enable": "no hooks are needed in /repo: every observation point is reachable from outside (public API, sys.monitoring, audit hooks); the variable is reserved and unused",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": missing,
    "notes": "runtime monitoring only; see DESIGN.md",
}
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks", len(missing), "missing")

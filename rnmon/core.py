"""Monitor core: cases, oracles, verdicts, evidence.

A check is a set of *case functions*.  Every iteration of a case function runs the real
ramannoodle code under a generated workload while oracles (``mon.check``) decide over
what was observed.  Verdicts are three-valued: violated (exit 1), held on what was
observed (exit 0), inconclusive (exit 3: the deciding monitor never ran).
"""

from __future__ import annotations

import hashlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("RNMON_REPO", "/repo"))
PKG = str(REPO / "ramannoodle") + os.sep


class Violation(Exception):
    """An oracle refuted the property."""


class Inconclusive(Exception):
    """The workload could not be set up; nothing was decided."""


class CodeMonitor:
    """Counts executions of functions of the code under test (sys.monitoring)."""

    TOOL = 4

    def __init__(self) -> None:
        self.calls: dict[str, int] = {}
        self.lines: set[tuple[str, int]] = set()

    def start(self) -> None:
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "rnmon")
        m.register_callback(self.TOOL, m.events.PY_START, self._start)
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.PY_START | m.events.LINE)

    def _start(self, code, _offset):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        key = code.co_filename[len(PKG) :] + ":" + code.co_qualname
        self.calls[key] = self.calls.get(key, 0) + 1
        return None

    def _line(self, code, line):
        if code.co_filename.startswith(PKG):
            self.lines.add((code.co_filename[len(PKG) :], line))
        return sys.monitoring.DISABLE

    def stop(self) -> None:
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)


def digest(obj) -> str:
    """Stable digest of (nested) python/numpy data."""
    h = hashlib.sha1()

    def rec(o):
        if isinstance(o, np.ndarray):
            h.update(f"nd{o.dtype}{o.shape}".encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(f"{type(o).__name__}{len(o)}[".encode())
            for item in o:
                rec(item)
            h.update(b"]")
        elif isinstance(o, dict):
            h.update(b"{")
            for k in o:
                rec(k)
                rec(o[k])
            h.update(b"}")
        else:
            h.update(repr(o).encode())

    rec(obj)
    return h.hexdigest()


def short(obj, limit=600) -> str:
    """Readable, bounded rendering for samples and witnesses."""
    with np.printoptions(precision=17, threshold=60, linewidth=200):
        text = repr(obj)
    return text if len(text) <= limit else text[:limit] + "..."


class Monitor:
    """State of one check run."""

    def __init__(self, prop: str, tier: str, seed: int):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.oracles = 0
        self.keys: set[str] = set()
        self.events: dict[str, int] = {}
        self.samples: list = []
        self._sampled: dict[str, int] = {}
        self.violations: list[dict] = []
        self.known_hits: dict[str, int] = {}
        self.skips: dict[str, int] = {}
        self.case_counts: dict[str, int] = {}
        self.current = ("", 0)
        self.notes: list[str] = []
        self.assumptions: list[str] = []
        self.code = CodeMonitor()
        self.facts: dict = {}

    # -- observation -----------------------------------------------------
    def event(self, name: str, n: int = 1) -> None:
        self.events[name] = self.events.get(name, 0) + n

    def nontrivial(self, *key) -> None:
        """Record a distinct non-trivial case."""
        self.keys.add(digest(key))

    def sample(self, **info) -> None:
        name = self.current[0]
        if self._sampled.get(name, 0) < 2:
            self._sampled[name] = self._sampled.get(name, 0) + 1
            self.samples.append(
                {"case": f"{name}#{self.current[1]}"}
                | {k: short(v, 300) for k, v in info.items()}
            )

    def skip(self, why: str) -> None:
        self.skips[why] = self.skips.get(why, 0) + 1

    # -- oracles ---------------------------------------------------------
    def check(self, cond, what: str, **info) -> None:
        self.oracles += 1
        if not bool(cond):
            raise Violation(
                what + "".join(f"\n    {k} = {short(v)}" for k, v in info.items())
            )

    def close(self, a, b, what: str, rtol=1e-9, atol=1e-12, **info) -> None:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.check(
            a.shape == b.shape, what + " (shape)", **{"got": a.shape, "want": b.shape, **info}
        )
        if a.size == 0:
            return
        with np.errstate(all="ignore"):
            ok = np.isfinite(a).all() == np.isfinite(b).all() and np.allclose(
                a, b, rtol=rtol, atol=atol, equal_nan=True
            )
            dev = np.nanmax(np.abs(a - b)) if a.size else 0.0
        self.check(ok, what, **{"deviation": float(dev), "got": a, "want": b, **info})

    def same(self, a, b, what: str, **info) -> None:
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            equal = np.array_equal(a, b)
        else:
            equal = a == b
        self.check(equal, what, **{"got": a, "want": b, **info})

    def raises(self, exc_types, what: str, fn, *args, **kw):
        """Oracle: the call is refused with one of the given exception types."""
        self.oracles += 1
        try:
            result = fn(*args, **kw)
        except exc_types as exc:
            self.event("refusals")
            return exc
        except Exception as exc:  # pylint: disable=broad-except
            raise Violation(
                f"{what}: wrong error {type(exc).__name__}: {exc}\n"
                f"    expected {exc_types}"
            ) from exc
        raise Violation(f"{what}: accepted, returned {short(result)}")

    # -- running ---------------------------------------------------------
    def rng_for(self, name: str, index: int) -> np.random.Generator:
        seed = hashlib.sha256(f"{self.seed}/{self.prop}/{name}/{index}".encode())
        return np.random.default_rng(int.from_bytes(seed.digest()[:8], "big"))


class Case:
    def __init__(self, fn, quick, thorough):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough


def case(quick: int, thorough: int):
    """Declare a case function ``fn(mon, rng, index)``."""

    def deco(fn):
        fn._rn_case = Case(fn, quick, thorough)
        return fn

    return deco


def load_known() -> list[dict]:
    """Known findings (see known_findings.json)."""
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return json.loads(path.read_text())["findings"]


def missing_events(mon: Monitor, module) -> list[str]:
    """Required events not observed so far."""
    return [
        name
        for name in getattr(module, "REQUIRED_EVENTS", [])
        if mon.events.get(name, 0) == 0
    ]


def run_cases(mon: Monitor, module, budget: float, only=None) -> None:
    cases = [
        v._rn_case for v in vars(module).values() if hasattr(v, "_rn_case")
    ]
    if only is not None:
        cases = [c for c in cases if c.name == only[0]]
    counts = {c.name: (c.thorough if mon.thorough else c.quick) for c in cases}
    # last case begun, for the supervisor in case of a crash
    path = os.environ.get("RNMON_CURRENT")
    current = open(path, "w", encoding="utf-8") if path else None
    start = time.monotonic()
    index = 0
    truncated = False
    while True:
        active = [c for c in cases if counts[c.name] > index]
        if not active:
            break
        for c in active:
            if only is not None and index != only[1]:
                continue
            spent = time.monotonic() - start
            if index > 0 and spent > budget and (
                spent > 5 * budget or not missing_events(mon, module)
            ):
                truncated = True
                break
            mon.current = (c.name, index)
            if current:
                current.seek(0)
                current.write(f"{c.name} {index}\n")
                current.truncate()
                current.flush()
            mon.evaluations += 1
            mon.case_counts[c.name] = mon.case_counts.get(c.name, 0) + 1
            try:
                c.fn(mon, mon.rng_for(c.name, index), index)
            except Violation as exc:
                record(mon, str(exc), traceback.format_exc())
            except Inconclusive as exc:
                mon.skip(str(exc))
            except (MemoryError, KeyboardInterrupt):
                raise
            except (Exception, SystemExit) as exc:  # pylint: disable=broad-except
                record(
                    mon,
                    f"unexpected {type(exc).__name__}: {exc}",
                    traceback.format_exc(),
                )
            if len(mon.violations) >= 5:
                mon.notes.append("stopped after 5 violations")
                return
        if truncated:
            mon.notes.append(f"time budget reached at iteration {index}")
            break
        index += 1


def record(mon: Monitor, what: str, trace: str) -> None:
    name, index = mon.current
    for finding in load_known():
        if finding["property"] == mon.prop and finding["key"] in what:
            mon.known_hits[finding["key"]] = mon.known_hits.get(finding["key"], 0) + 1
            return
    mon.violations.append(
        {"case": name, "index": index, "what": what, "trace": trace[-4000:]}
    )


def finish(mon: Monitor, module, wall: float) -> int:
    evidence_dir = VERIF / "evidence"
    evidence_dir.mkdir(exist_ok=True)
    reached = {k: v for k, v in sorted(mon.code.calls.items())}
    files: dict[str, int] = {}
    for f, _ in mon.code.lines:
        files[f] = files.get(f, 0) + 1
    evidence = {
        "property": mon.prop,
        "tier": mon.tier,
        "seed": mon.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": mon.evaluations,
            "distinct_nontrivial": len(mon.keys),
            "rule": module.RULE,
            "samples": mon.samples[:12],
            "oracle_decisions": mon.oracles,
            "iterations_per_case": mon.case_counts,
            "events": mon.events,
            "skipped": mon.skips,
            "code_under_test": {
                "functions_entered": len(reached),
                "function_entries": int(sum(reached.values())),
                "lines_executed_per_file": dict(sorted(files.items())),
                "top_functions": dict(
                    sorted(reached.items(), key=lambda kv: -kv[1])[:15]
                ),
            },
            "known_findings_hit": mon.known_hits,
            "notes": mon.notes,
            **mon.facts,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])) + mon.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(mon.violations),
    }
    path = evidence_dir / f"{mon.prop}.json"
    path.write_text(json.dumps(evidence, indent=1, default=str) + "\n")

    for finding in load_known():
        if finding["property"] == mon.prop:
            print(f"KNOWN-FINDING: property={mon.prop} {finding['what']}")
    if mon.violations:
        replay = evidence_dir / f"{mon.prop}.replay.json"
        replay.write_text(
            json.dumps(
                {
                    "property": mon.prop,
                    "tier": mon.tier,
                    "seed": mon.seed,
                    "violations": mon.violations,
                    "replay": [
                        f"VERIF_SEED={mon.seed} VERIF_TIER={mon.tier} "
                        f"{VERIF}/run {mon.prop} {mon.tier} --only {v['case']}:{v['index']}"
                        for v in mon.violations
                    ],
                },
                indent=1,
                default=str,
            )
            + "\n"
        )
        for v in mon.violations:
            print(f"--- {mon.prop} {v['case']}#{v['index']}: {v['what']}")
        print(f"VIOLATION property={mon.prop} replay={replay}")
        return 1
    missing = missing_events(mon, module)
    if mon.oracles == 0 or not mon.keys or not reached or missing:
        print(
            f"INCONCLUSIVE property={mon.prop} oracles={mon.oracles} "
            f"nontrivial={len(mon.keys)} missing_events={missing} skips={mon.skips}"
        )
        return 3
    print(
        f"OK property={mon.prop} tier={mon.tier} seed={mon.seed} "
        f"evaluations={mon.evaluations} nontrivial={len(mon.keys)} "
        f"oracles={mon.oracles} functions={len(reached)} wall={wall:.1f}s"
    )
    return 0

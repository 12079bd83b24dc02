"""Run one check: python -m rnmon P01 [quick|thorough] [--only case:index]."""

import importlib
import os
import signal
import subprocess
import sys
import tempfile
import time
import warnings


def no_stale_bytecode(repo: str) -> None:
    """Always compile the code under test from the working tree."""
    import importlib._bootstrap_external as ext

    original = ext.cache_from_source

    def cache_from_source(path, *args, **kw):
        if str(path).startswith(repo):
            raise NotImplementedError
        return original(path, *args, **kw)

    ext.cache_from_source = cache_from_source


def selfcheck() -> int:
    """Sanity of the ground truth itself (no ramannoodle code involved)."""
    from rnmon import gen

    for name, order in gen.KNOWN_ORDERS.items():
        found = len(gen.BASE[name].ops())
        if found != order:
            print(f"oracle self-check failed: {name} has {found} operations, not {order}")
            return 3
    import ramannoodle  # noqa: F401

    print("oracle self-check passed")
    return 0


CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def supervise() -> int:
    """Run the check in a process of its own, so that a crash of the interpreter is seen."""
    descriptor, current = tempfile.mkstemp(prefix="rnmon_current_")
    os.close(descriptor)
    start = time.monotonic()
    try:
        process = subprocess.run(
            [sys.executable, "-m", "rnmon", *sys.argv[1:]],
            env={**os.environ, "RNMON_CURRENT": current},
            check=False,
        )
        code = process.returncode
        if code >= 0:
            return code
        if -code not in CRASHES:  # ended from outside, such as for lack of memory
            print(f"INCONCLUSIVE: the check was ended by signal {-code}")
            return 3
        with open(current, encoding="utf-8") as file:
            case, index = (file.read().split() + ["start", "0"])[:2]
    finally:
        os.remove(current)
    from rnmon import core

    tier, seed = parse(sys.argv[2:])
    mon = core.Monitor(sys.argv[1], tier, seed)
    mon.current = (case, int(index))
    core.record(mon, f"the interpreter crashed with signal {-code}", "")
    module = importlib.import_module(f"rnmon.checks.{mon.prop.lower()}")
    return core.finish(mon, module, time.monotonic() - start)


def parse(args: list[str]) -> tuple[str, int]:
    """Tier and seed of a run."""
    tier = args[0] if args and not args[0].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        return tier, int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return tier, 1


def main() -> int:
    if sys.argv[1] != "selfcheck" and "RNMON_CURRENT" not in os.environ:
        return supervise()
    args = sys.argv[1:]
    only = None
    if "--only" in args:
        k = args.index("--only")
        name, index = args[k + 1].rsplit(":", 1)
        only = (name, int(index))
        del args[k : k + 2]
    prop = args[0]
    if prop == "selfcheck":
        return selfcheck()
    tier, seed = parse(args[1:])

    from rnmon import core

    sys.path.insert(0, str(core.REPO))
    no_stale_bytecode(str(core.REPO) + os.sep)
    warnings.simplefilter("ignore")
    start = time.monotonic()
    mon = core.Monitor(prop, tier, seed)
    module = importlib.import_module(f"rnmon.checks.{prop.lower()}")
    import ramannoodle

    if not os.path.realpath(ramannoodle.__file__).startswith(
        os.path.realpath(core.REPO)
    ):
        print(f"INCONCLUSIVE property={prop}: ramannoodle not imported from /repo")
        return 3
    budget = 600.0 if tier == "thorough" else 60.0
    budget = float(os.environ.get("RNMON_BUDGET", budget))
    mon.code.start()
    try:
        core.run_cases(mon, module, budget, only)
    finally:
        mon.code.stop()
    return core.finish(mon, module, time.monotonic() - start)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)

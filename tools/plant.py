#!/usr/bin/env python3
"""Plant bugs: create /verif/seeded entries from specs, validate them, run checks against them.

plant.py make SPEC.py [ids]     write seeded/<id>/ from a spec module defining BUGS
plant.py test [ids]             demo on clean and patched copies, stable tests on the patched copy
plant.py check [ids] [-p P01,..] quick check of the property (or of the named ones) on the patched copy

Everything happens in copies of /repo under /tmp, which are removed afterwards.
"""

import argparse
import concurrent.futures
import importlib.util
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SEEDED = VERIF / "seeded"
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# Exit 0: the behaviour is right; anything else: it is broken. Run in the repository's root.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TQDM_DISABLE=1 OMP_NUM_THREADS=2 CUDA_VISIBLE_DEVICES=
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
SCRATCH="$scratch" timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def copy_repo(where):
    subprocess.run(["cp", "-a", "/repo", where], check=True)
    subprocess.run(["git", "-C", where, "checkout", "-q", "--", "."], check=True)
    return where


def make(args):
    sys.path.insert(0, str(pathlib.Path(args.spec).resolve().parent))
    spec = importlib.util.spec_from_file_location("spec", args.spec)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    for bug in module.BUGS:
        if args.ids and bug["id"] not in args.ids:
            continue
        with tempfile.TemporaryDirectory(dir="/tmp", prefix="plant") as tmp:
            repo = copy_repo(tmp + "/repo")
            for path, old, new in bug["edits"]:
                file = pathlib.Path(repo, "ramannoodle", path)
                text = file.read_text()
                if text.count(old) != 1:
                    raise SystemExit(f"{bug['id']}: {text.count(old)} occurrences of {old!r}")
                file.write_text(text.replace(old, new))
            diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True, check=True).stdout
        folder = SEEDED / bug["id"]
        folder.mkdir(parents=True, exist_ok=True)
        (folder / "patch.diff").write_text(diff)
        (folder / "demo.sh").write_text(DEMO)
        (folder / "demo.sh").chmod(0o755)
        (folder / "demo.py").write_text(getattr(module, "PRELUDE", "") + bug["demo"])
        (folder / "meta.json").write_text(json.dumps({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
        print("made", bug["id"])


def patched(ident, tmp):
    repo = copy_repo(f"{tmp}/repo")
    out = subprocess.run(["git", "-C", repo, "apply", str(SEEDED / ident / "patch.diff")], capture_output=True, text=True)
    return repo, out.stderr if out.returncode else ""


def demo(ident, repo, tmp):
    folder = pathlib.Path(tmp, "elsewhere")
    if folder.exists():
        shutil.rmtree(folder)
    folder.mkdir()
    for item in (SEEDED / ident).iterdir():
        if item.name not in ("patch.diff", "meta.json"):
            shutil.copy(item, folder)
    out = subprocess.run(["bash", str(folder / "demo.sh")], cwd=repo, capture_output=True, text=True)
    return out.returncode, (out.stdout + out.stderr)[-400:]


def stable_tests(repo):
    report = repo + "/../junit.xml"
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1")
    subprocess.run(f"find {repo}/test/data/scratch -type f ! -name README -delete", shell=True, check=False)
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={report}", "test"], cwd=repo, env=env, capture_output=True)
    out = report.replace("junit.xml", "out.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, f"junit:{report}"], capture_output=True)

    def passed(path):
        data = json.load(open(path))
        for key in ("passed", "stable", "tests"):
            if isinstance(data, dict) and key in data:
                data = data[key]
                break
        return {k for k, v in data.items() if v in ("passed", "pass", True)} if isinstance(data, dict) else set(data)

    return sorted(passed("/opt/vp/BASELINE.json") - passed(out))


def test_one(ident):
    with tempfile.TemporaryDirectory(dir="/tmp", prefix="plant") as tmp:
        repo, error = patched(ident, tmp)
        if error:
            return f"{ident}: DOES NOT APPLY {error}"
        os.mkdir(tmp + "/clean")
        clean = copy_repo(tmp + "/clean/repo")
        good, text = demo(ident, clean, tmp)
        bad, text2 = demo(ident, repo, tmp)
        missing = stable_tests(repo)
        verdict = "ok" if good == 0 and bad != 0 and not missing else "BAD"
        result = f"{ident}: {verdict} demo clean={good} patched={bad} tests missing={len(missing)} {missing[:3]}"
        if good != 0:
            result += "\n" + text
        if bad != 0 and verdict == "ok":
            result += "\n    " + text2.strip().split("\n")[-1]
        return result


def check_one(ident, props):
    lines = []
    with tempfile.TemporaryDirectory(dir="/tmp", prefix="plant") as tmp:
        repo, error = patched(ident, tmp)
        if error:
            return f"{ident}: DOES NOT APPLY {error}"
        verif = tmp + "/verif"
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        env = dict(os.environ, RNMON_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        for prop in props or [json.load(open(SEEDED / ident / "meta.json"))["property"]]:
            out = subprocess.run([verif + "/run", prop, "quick"], capture_output=True, text=True, env=env)
            first = [l for l in out.stdout.split("\n") if l.startswith("---")][:1]
            lines.append(f"{ident}: {prop} {'CAUGHT' if out.returncode == 1 and 'VIOLATION property=' + prop in out.stdout else 'missed' if out.returncode == 0 else 'rc=%d' % out.returncode} {first}")
    return "\n".join(lines)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("action", choices=["make", "test", "check"])
    parser.add_argument("args", nargs="*")
    parser.add_argument("-p", default="")
    parser.add_argument("-j", type=int, default=6)
    args = parser.parse_args()
    if args.action == "make":
        args.spec, args.ids = args.args[0], args.args[1:]
        return make(args)
    ids = args.args or sorted(p.name for p in SEEDED.iterdir())
    props = [p for p in args.p.split(",") if p]
    with concurrent.futures.ThreadPoolExecutor(args.j) as pool:
        fn = test_one if args.action == "test" else lambda i: check_one(i, props)
        for result in pool.map(fn, ids):
            print(result, flush=True)


main()

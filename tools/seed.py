#!/usr/bin/env python3
"""Planted bugs.  `seed.py make [ids]` writes seeded/<id>/ from tools/seeds.py,
`seed.py verify [--no-tests] [ids]` checks each one in a scratch copy of /repo: stable tests
pass, demo distinguishes, the property's quick check reports a violation."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


exec((ROOT / "tools" / "seeds.py").read_text())


def copy_repo() -> Path:
    d = Path(tempfile.mkdtemp(prefix="seed_"))
    subprocess.check_call(["cp", "-a", "/repo", str(d / "repo")])
    return d


def make(ids):
    d = copy_repo()
    repo = d / "repo"
    try:
        for i in ids:
            s = SEEDS[i]
            subprocess.check_call(["git", "-C", str(repo), "checkout", "-q", "--", "."])
            for path, old, new in s["edits"]:
                f = repo / path
                t = f.read_text()
                assert t.count(old) == 1, (i, path, t.count(old), old)
                f.write_text(t.replace(old, new))
            diff = subprocess.check_output(["git", "-C", str(repo), "diff"], text=True)
            out = ROOT / "seeded" / i
            out.mkdir(parents=True, exist_ok=True)
            (out / "patch.diff").write_text(diff)
            (out / "demo.py").write_text(s["demo"].lstrip())
            (out / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(out / "demo.sh", 0o755)
            (out / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    finally:
        shutil.rmtree(d)


def verify(i, tests=True):
    out = ROOT / "seeded" / i
    prop = json.loads((out / "meta.json").read_text())["property"]
    d = copy_repo()
    repo = d / "repo"
    try:
        env = {**os.environ, "PYTHONPATH": f"/opt/vp/env:{repo}/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1"}
        demo0 = subprocess.run(["bash", str(out / "demo.sh")], cwd=repo, env=env, capture_output=True, text=True)
        subprocess.check_call(["git", "-C", str(repo), "apply", str(out / "patch.diff")])
        demo1 = subprocess.run(["bash", str(out / "demo.sh")], cwd=repo, env=env, capture_output=True, text=True)
        missing = "skipped"
        if tests:
            shutil.rmtree(repo / "test/.vm-output", ignore_errors=True)
            subprocess.run(["timeout", "840", "/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "-p", "pygerber_offline",
                            "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={d}/junit.xml", "test/"],
                           cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            subprocess.run(["python3", "/opt/vp/results.py", f"{d}/t.json", f"junit:{d}/junit.xml"], check=True)
            t = json.loads((d / "t.json").read_text())
            b = json.loads(Path("/opt/vp/BASELINE.json").read_text())
            missing = sorted(set(b["stable"]) - set(t["passed"]))
        c = subprocess.run([str(ROOT / "run.py"), prop, "quick"], cwd=ROOT, capture_output=True, text=True,
                           env={**os.environ, "VERIF_REPO_SRC": f"{repo}/src", "VERIF_NO_EVIDENCE": "1", "VERIF_SEED": "1"})
        caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
        print(f"{i}: demo clean={demo0.returncode} patched={demo1.returncode} tests_missing={missing} check rc={c.returncode} caught={caught}", flush=True)
        if not caught or demo0.returncode or not demo1.returncode:
            print(demo0.stdout[-500:], demo0.stderr[-800:], c.stdout[-500:], c.stderr[-800:], flush=True)
        else:
            print("   ", [ln for ln in c.stdout.splitlines() if not ln.startswith("VIOL")][0][:200])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[2:]
    tests = "--no-tests" not in args
    ids = [a for a in args if not a.startswith("-")] or list(SEEDS)
    if sys.argv[1] == "make":
        make(ids)
    else:
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(lambda i: verify(i, tests), ids))

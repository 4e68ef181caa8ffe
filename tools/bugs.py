"""Planted bugs: build, validate and run the checks against them, in scratch copies of /repo.

    bugs.py add SPECS.py [ID ...]     create seeded/<id> from (file, old, new) replacements and a demonstration
    bugs.py validate [ID ...]         patch applies, demonstration passes/fails, stable tests pass
    bugs.py groups [ID ...]           the same, running the tests on groups of changes
    bugs.py check [ID ...] [--all]    run the check of the bug's property (or all checks) against it
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0 if the property holds on the code in the current directory (/repo)
export CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


class Copy:
    """A scratch copy of /repo with the bug applied."""

    def __init__(self, bug=None):
        self.bug = bug

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
        self.repo = os.path.join(self.dir, "repo")
        shutil.copytree("/repo", self.repo, symlinks=True)
        if self.bug:
            rc, out = sh(["git", "apply", os.path.join(SEEDED, self.bug, "patch.diff")], cwd=self.repo)
            assert rc == 0, out
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def add(specs, only):
    ns = {}
    exec(open(specs).read(), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        with Copy() as c:
            for f, old, new in b["edits"]:
                p = os.path.join(c.repo, "curvlinops", f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            rc, out = sh(["git", "diff"], cwd=c.repo)
        open(os.path.join(d, "patch.diff"), "w").write(out)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        print("added", b["id"])


def original_lines(bug, repo):
    """Lines that the patch removes which are not the base commit's."""
    base = sh("git rev-list --max-parents=0 HEAD", cwd="/repo")[1].split()[-1]
    patch = open(os.path.join(SEEDED, bug, "patch.diff")).read().splitlines()
    bad, total, f, n = [], 0, None, 0
    for line in patch:
        if line.startswith("--- a/"):
            f = line[6:]
        elif line.startswith("@@"):
            n = int(line.split()[1].split(",")[0][1:])
        elif f and line.startswith("-") and not line.startswith("---"):
            total += 1
            out = sh(["git", "blame", "-l", "-L", f"{n},{n}", "HEAD", "--", f], cwd="/repo")[1]
            if out.lstrip("^")[:39] not in base:
                bad.append((f, n, line))
            n += 1
        elif line.startswith(" "):
            n += 1
    return total, bad


def tests(repo):
    env = dict(HOME="/root", LANG="C.UTF-8", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", CI="1", MPLBACKEND="Agg",
               MPLCONFIGDIR="/opt/vp/mplconfig", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD="1", PYTHONPATH=repo,
               PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin")
    serial = "test/test_inverse.py::test_KFAC_inverse_save_and_load_state_dict"
    args = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--run-optional-tests=montecarlo"]
    rc1, o1 = sh(args + ["-n", "8", "--dist", "worksteal", "--doctest-modules", "--deselect", serial, "curvlinops", "test"],
                 cwd=repo, env=env, timeout=1800)
    rc2, o2 = sh(args + [serial], cwd=repo, env=env, timeout=900)
    where = sh([PY, "-c", "import curvlinops; print(curvlinops.__file__)"], cwd=repo, env=env)[1]
    assert where.startswith(repo), where
    return rc1 == 0 and rc2 == 0, [x for x in (o1 + o2).splitlines() if x.startswith(("FAILED", "ERROR"))][:5]


def validate(bugs):
    for b in bugs:
        d = os.path.join(SEEDED, b)
        total, bad = original_lines(b, "/repo")
        rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", timeout=300)
        with Copy(b) as c:
            rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=c.repo, timeout=300)
            ok, failed = (None, []) if rc0 or not rc1 else tests(c.repo)
        good = rc0 == 0 and rc1 != 0 and ok and total and not bad
        print(b, "OK" if good else "BAD", f"clean={rc0} patched={rc1} tests={ok} removed={total} foreign={bad}", flush=True)
        if rc0:
            print("   ", o0[-600:])
        for x in failed:
            print("   ", x, flush=True)
        if rc1:
            print("    demo:", o1.strip().splitlines()[-1][:200], flush=True)


def validate_groups(bugs, size):
    """Like ``validate``, but run the tests on several changes at once, splitting groups that fail."""
    ready = []
    for b in bugs:
        d = os.path.join(SEEDED, b)
        rc0, o0 = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", timeout=300)
        with Copy(b) as c:
            rc1, o1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=c.repo, timeout=300)
        if rc0 or not rc1:
            print(b, "BAD", f"clean={rc0} patched={rc1}", flush=True)
        else:
            ready.append(b)
    todo = [ready]
    while todo:
        group = todo.pop()
        with Copy() as c:
            used, left = [], []
            for b in group:
                rc = 1
                if len(used) < size:
                    rc, _ = sh(["git", "apply", os.path.join(SEEDED, b, "patch.diff")], cwd=c.repo)
                (left if rc else used).append(b)
            ok, failed = tests(c.repo) if used else (True, [])
        if left and not used:
            print(*left, "do not apply", flush=True)
        elif left:
            todo.append(left)
        if ok:
            for b in used:
                print(b, "OK", flush=True)
        elif len(used) == 1:
            print(used[0], "BAD", failed, flush=True)
        else:
            todo += [used[: len(used) // 2], used[len(used) // 2 :]]


def check(bugs, every):
    ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    for b in bugs:
        prop = json.load(open(os.path.join(SEEDED, b, "meta.json")))["property"]
        hits = []
        with Copy(b) as c:
            for p in ids if every else [prop]:
                rc, out = sh([os.path.join(ROOT, "bin/check"), p, "--tier", "quick"],
                             env={"CURVLINOPS_REPO": c.repo, "VERIF_OUT": c.dir})
                v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
                if rc not in (0, 1) or (rc == 1) != bool(v):
                    hits.append(f"{p}:exit{rc}")
                elif rc == 1:
                    hits.append(p)
        print(b, prop, "CAUGHT" if prop in hits else "MISSED", hits, flush=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "add":
        return add(args[0], args[1:])
    every = "--all" in args
    bugs = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    if cmd == "groups":
        validate_groups(bugs, 8)
    elif cmd == "validate":
        validate(bugs)
    else:
        check(bugs, every)


if __name__ == "__main__":
    main()

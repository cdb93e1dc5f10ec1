"""Try planted bugs in scratch copies of the repository.

  python3 tools/seedcheck.py [--no-tests] [--no-check] [ID ...]

For each seeded/<id>: the patch applies, the repository's stable tests still
pass, demo.sh passes without and fails with it, and what the property's own
quick check says.  Nothing is changed in /repo.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           PATH="/opt/venv/bin:" + os.environ["PATH"])
for k in ("COSIPY_DIR", "PYTHONPATH", "NUMBA_DISABLE_JIT", "PBT_REPO"):
    ENV.pop(k, None)


def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(sid, tests, check):
    d = os.path.join(HERE, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = tempfile.mkdtemp(prefix=f"seed-{sid}-", dir="/tmp")
    work = os.path.join(base, "repo")
    out = {"id": sid, "property": meta["property"]}
    try:
        shutil.copytree(REPO, work, symlinks=True)
        rc, txt = sh(["git", "apply", os.path.join(d, "patch.diff")], work)
        if rc:
            out["apply"] = txt[-300:]
            return out
        dd = os.path.join(base, "demo")
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        if tests != "no-demo":
            rc, txt = sh(["bash", os.path.join(dd, "demo.sh")], work, 300)
            out["demo with"] = rc
            out["demo text"] = txt[-200:]
            sh(["git", "apply", "-R", os.path.join(d, "patch.diff")], work)
            rc, txt = sh(["bash", os.path.join(dd, "demo.sh")], work, 300)
            out["demo without"] = rc
            if rc:
                out["demo text"] = txt[-400:]
            sh(["git", "apply", os.path.join(d, "patch.diff")], work)
        if tests == "yes":
            rc, txt = sh([sys.executable if "venv" in sys.executable else "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300"], work, 800)
            out["tests"] = (re.findall(r"\d+ (?:passed|failed)[^\n]*", txt) or [txt[-200:]])[-1]
            if "failed" in out["tests"]:
                out["failed"] = re.findall(r"FAILED (\S+)", txt)[:5]
        if check:
            os.makedirs(os.path.join(base, "out"))
            rc, txt = sh(["bash", os.path.join(HERE, "check.sh"), meta["property"], "quick"], HERE, 900, dict(ENV, PBT_REPO=work, PBT_OUT=os.path.join(base, "out")))
            out["check"] = rc
            out["said"] = txt.strip()[-300:]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    tests = "no-demo" if "--only-check" in sys.argv else "no" if "--no-tests" in sys.argv else "yes"
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: one(i, tests, "--no-check" not in sys.argv), ids):
            ok = r.get("demo with", 1) not in (0,) and r.get("demo without", 0) == 0 and "failed" not in r.get("tests", "") and "apply" not in r
            print(r["id"], r["property"], "VALID" if ok else "INVALID", "caught" if r.get("check") == 1 else "MISSED" if "check" in r else "", flush=True)
            for k, v in r.items():
                if k not in ("id", "property") and (not ok or k in ("tests", "said") and r.get("check") != 1):
                    print("    ", k, ":", v)


if __name__ == "__main__":
    main()

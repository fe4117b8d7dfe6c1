"""Confirms planted bugs (seeded/<id>) in a scratch copy of /repo and runs the check of their property against it.

usage: plant.py [--nocheck] [--prop ID] [ids...]
For each bug: demo passes on the unchanged copy, the patch applies, the stable tests pass, the demo fails, and the check of the property reports a violation.
"""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"


def run(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONPATH=cwd, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b"").decode(errors="replace")


def base_lines(patch):
    """Lines removed by the patch that are not lines of the original repository."""
    own = []
    root = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    name, n = None, 0
    blame = {}
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            name = line[6:]
            b = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", name], capture_output=True, text=True).stdout.splitlines()
            blame[name] = [x.split()[0].lstrip("^") for x in b]
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("+++") or line.startswith("diff") or line.startswith("index"):
            pass
        elif line.startswith("-"):
            c = blame[name][n - 1]
            own.append((line, root.startswith(c) or c.startswith(root[:len(c)])))
            n += 1
        elif line.startswith(" "):
            n += 1
    return own


def one(bug, check=True, prop=None, seed="1", tier="quick"):
    d = os.path.join(HERE, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    prop = prop or meta["property"]
    patch = os.path.join(d, "patch.diff")
    out = {"bug": bug, "property": prop}
    scratch = tempfile.mkdtemp(prefix="plant.")
    demo = tempfile.mkdtemp(prefix="plantdemo.")
    try:
        copy = os.path.join(scratch, "repo")
        subprocess.run(["cp", "-a", REPO, copy], check=True)
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), demo)
        dm = ["bash", os.path.join(demo, "demo.sh")]
        lines = base_lines(open(patch).read())
        out["orig_lines"] = "%d of %d" % (sum(o for _, o in lines), len(lines))
        rc, o = run(dm, copy, 300)
        out["demo_clean"] = rc
        if rc:
            out["log"] = o[-1500:]
        p = subprocess.run(["git", "-C", copy, "apply", patch], capture_output=True, text=True)
        if p.returncode:
            out["apply"] = p.stderr
            return out
        rc, o = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests"], copy, 600)
        out["tests"] = rc
        if rc:
            out["log"] = o[-1500:]
        rc, o = run(dm, copy, 300)
        out["demo_bug"] = rc
        out["demo_says"] = o.strip().splitlines()[-1][:200] if o.strip() else ""
        if check:
            t = time.time()
            rc, o = run([os.path.join(HERE, "check"), prop, "--seed", seed, "--tier", tier], HERE, 900, MPSIM_REPO=copy)
            out["check"] = rc
            out["secs"] = round(time.time() - t)
            v = [x for x in o.splitlines() if x.startswith("VIOLATION")]
            out["violation"] = v[0] if v else o[-600:]
            out["detail"] = "\n".join(o.splitlines()[-12:]) if not v else "\n".join([x for x in o.splitlines() if x.strip()][:6])[:900]
    finally:
        shutil.rmtree(scratch)
        shutil.rmtree(demo)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--nocheck", action="store_true")
    ap.add_argument("--prop")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--jobs", type=int, default=1)
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(HERE, "seeded")))
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        for out in ex.map(lambda b: one(b, not a.nocheck, a.prop, a.seed), ids):
            ok = out.get("demo_clean") == 0 and out.get("tests") == 0 and out.get("demo_bug", 0) != 0
            caught = out.get("check") == 1
            bad += not ok
            print("%-26s %s valid=%s %s lines=%s demo=%s/%s tests=%s %ss %s" % (
                out["bug"], out["property"], ok, "" if a.nocheck else ("CAUGHT" if caught else "MISSED rc=%s" % out.get("check")), out.get("orig_lines"),
                out.get("demo_clean"), out.get("demo_bug"), out.get("tests"), out.get("secs"), out.get("apply", "")), flush=True)
            if out.get("log"):
                print(out["log"])
            print("    demo: " + str(out.get("demo_says")))
            if "detail" in out:
                print("    " + out["detail"].replace("\n", "\n    "), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

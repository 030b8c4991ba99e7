"""Confirm planted bugs and say which checks report them.

usage: plant.py [--no-check] [--all-checks] [--runs N] ID [ID ...]     (ID = a directory of /verif/seeded)

For each: a scratch copy of /repo under /tmp (removed afterwards); the patch applies; the 140 stable tests pass; the demo
exits 0 without and nonzero with the patch; then the check of the bug's property (or all checks) on the patched copy.
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C{:02d}".format(i) for i in list(range(1, 16)) + [17, 18, 19, 20]]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def demo(folder, copy, work):
    place = os.path.join(work, "elsewhere")
    shutil.rmtree(place, ignore_errors=True)
    shutil.copytree(folder, place, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1")
    return sh(["bash", os.path.join(place, "demo.sh")], cwd=copy, env=env, timeout=300)


def one(i, a):
    folder = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns("doc", "__pycache__"))
        r = demo(folder, copy, work)
        if r.returncode != 0:
            return "demo fails on the clean tree: " + r.stdout.decode()[-600:]
        r = sh(["git", "apply", os.path.join(folder, "patch.diff")], cwd=copy)
        if r.returncode != 0:
            return "does not apply: " + r.stdout.decode()[-400:]
        r = demo(folder, copy, work)
        if r.returncode == 0:
            return "demo passes with the patch"
        say = r.stdout.decode().strip().split("\n")[-1][:150]
        if not a.no_tests:
            r = sh([HERE + "/tools/testcopy.sh", copy, "6"])
            if r.returncode != 0:
                return "stable tests: " + r.stdout.decode()
        out = []
        if not a.no_check:
            for p in (ALL if a.all_checks else [meta["property"]]):
                cmd = [HERE + "/check", p, "--no-evidence", "--seed", str(a.seed)] + (["--runs", str(a.runs)] if a.runs else [])
                r = sh(cmd, env=dict(os.environ, VERIF_REPO=copy, VERIF_TIER="quick"), cwd=HERE)
                t = r.stdout.decode(errors="replace")
                v = [l for l in t.split("\n") if l.startswith("VIOLATION")]
                out.append("{}:{}".format(p, "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else "ERROR " + t[-500:]))
                if v and not a.all_checks and r.returncode == 1:
                    rep = v[0].split("replay=")[1].split()[0]
                    rr = sh([HERE + "/check", p, "--replay", rep], env=dict(os.environ, VERIF_REPO=copy), cwd=HERE)
                    out.append("replay " + ("reproduces" if rr.returncode == 1 else "DOES NOT REPRODUCE {}".format(rr.returncode)))
                    out.append(t.strip().split("\n")[0][:200])
        return " ".join(out) + "   [demo: " + say + "]"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--all-checks", action="store_true")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    for i in a.ids or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        print(i, one(i, a), flush=True)


main()

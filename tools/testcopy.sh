#!/bin/bash
# usage: testcopy.sh COPY_OF_REPO  -- runs the 140 stable tests of a scratch copy; exit 0 when all pass
copy=$(realpath "$1")
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$copy:/opt/vp/plugin"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/tmp" "$work/mpl"
export TMPDIR="$work/tmp" MPLCONFIGDIR="$work/mpl"
cd "$copy" || exit 1
timeout 120 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p stable_ids -n ${2:-2} --dist worksteal --timeout=30 --tb=no \
    --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$work/junit.xml" test >/dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py "$work/out.json" "junit:$work/junit.xml" >/dev/null 2>&1
python3 - "$work/out.json" <<'P'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
key = [k for k in b if isinstance(b[k], list)][0] if not isinstance(b, list) else None
base = b if key is None else b[key]
ok = o.get("passed", o) if isinstance(o, dict) else o
ok = set(ok if isinstance(ok, list) else [k for k, v in ok.items() if v in ("pass", "passed", True)])
missing = [t for t in base if t not in ok]
print(len(base), "stable,", len(missing), "missing", missing[:3])
sys.exit(1 if missing else 0)
P

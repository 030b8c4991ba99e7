"""A batch of runs over worker processes; minimisation; replay files; evidence."""
import gc
import importlib
import json
import multiprocessing
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import core, props
from .core import HarnessError
from .main import HERE, REPO, WORKERS, seed_of
from .run import recv, run_once, send, wipe

SHRINK_RUNS = 400
SHRINK_TIME = 75


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="dsim.", dir=base)


def hash_seed(i):
    return 1000 + i % WORKERS


class Companion(object):
    """A second interpreter with another PYTHONHASHSEED that executes the same runs."""

    def __init__(self, prop, hashseed):
        import subprocess

        env = dict(os.environ, DSIM_HASHSEED=str(hashseed), PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "dsim.main", prop, "--companion"], env=env, cwd=HERE,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)

    def ask(self, request):
        send(self.p.stdin.fileno(), request)
        m = recv(self.p.stdout.fileno())
        if m is None:
            raise HarnessError("companion interpreter died")
        if m[0] == "harness":
            raise HarnessError("companion: " + m[1])
        return m[1]

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def serve(prop, module):
    """Body of a companion interpreter."""
    out = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    scratch = scratch_dir()
    freeze()
    n = 0
    try:
        while True:
            req = recv(0)
            if req is None:
                break
            n += 1
            try:
                res = run_once(prop, module, scratch, "c{}".format(n), choices=req["choices"], tier=req["tier"],
                               companion="self")
                send(out, ("ok", res["info"]))
            except HarnessError:
                send(out, ("harness", traceback.format_exc()))
    finally:
        wipe(scratch)


def freeze():
    gc.collect()
    gc.freeze()


def worker(w, a, module, prop, limit, runs, fd, scratch):
    """Runs i = w mod WORKERS, in order; one message per run."""
    comp = None
    if getattr(module, "COMPANION", False):
        comp = Companion(prop, hash_seed(a.first + w))
    failed = 0
    try:
        for i in range(a.first + w, a.first + runs, WORKERS):
            if i > limit.value:
                break
            try:
                res = run_once(prop, module, scratch, "{}_{}".format(w, i), seed=seed_of(prop, a.seed, i), tier=a.tier,
                               companion=comp)
            except HarnessError:  # no verdict on this run; the others may still have one
                failed += 1
                send(fd, ("failed", i, traceback.format_exc()))
                if failed >= 20 or "wall-clock" in traceback.format_exc():
                    break
                continue
            if res["violation"] is None:
                res.pop("choices")
                res["trace"] = res["trace"][:60] if i < 3 else None
                if i >= 40 and not res["info"].get("sample"):
                    res["plan"] = None
            elif not a.all:
                with limit.get_lock():
                    limit.value = min(limit.value, i)
            send(fd, ("run", i, res))
        send(fd, ("done", w))
    finally:
        if comp:
            comp.close()


def main(a, t0):
    name, quick, factor = props.TABLE[a.prop]
    module = importlib.import_module("dsim.props." + name)
    if hasattr(module, "setup"):
        module.setup()
    if a.companion:
        serve(a.prop, module)
        return 0
    if a.replay:
        return replay(a, module)
    if a.show is not None:
        return show(a, module)
    runs = a.runs or (quick if a.tier == "quick" else quick * factor)
    scratch = scratch_dir()
    freeze()
    try:
        return batch(a, module, runs, scratch, t0)
    finally:
        wipe(scratch)


def show(a, module):
    scratch = scratch_dir()
    freeze()
    comp = Companion(a.prop, hash_seed(a.show)) if getattr(module, "COMPANION", False) else None
    try:
        res = run_once(a.prop, module, scratch, "show", seed=seed_of(a.prop, a.seed, a.show), tier=a.tier, companion=comp)
    finally:
        if comp:
            comp.close()
        wipe(scratch)
    for s in res["plan"] + ["--"] + res["trace"] + ["--", str(res["violation"]), str(res["info"]), res["digest"]]:
        print(s)
    return 0


def batch(a, module, runs, scratch, t0):
    limit = multiprocessing.Value("q", 2 ** 62)
    procs = {}
    t_run = core.PERF()
    for w in range(WORKERS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                d = os.path.join(scratch, "w{}".format(w))
                os.makedirs(d)
                try:
                    worker(w, a, module, a.prop, limit, runs, wr, d)
                except BaseException:
                    send(wr, ("harness", traceback.format_exc()))
                    code = 1
            finally:
                os._exit(code)
        os.close(wr)
        procs[r] = pid
    results, errors = {}, []
    agg = Aggregate(module)
    open_fds = set(procs)
    digests = {}
    while open_fds:
        for fd in select.select(sorted(open_fds), [], [])[0]:
            m = recv(fd)
            if m is None:
                open_fds.discard(fd)
                os.close(fd)
                os.waitpid(procs[fd], 0)
                continue
            if m[0] == "run":
                digests[m[1]] = m[2]["digest"]
                agg.add(m[1], m[2])
                if m[2]["violation"] is not None:
                    results[m[1]] = m[2]
            elif m[0] == "failed":
                errors.append(m[2])
            elif m[0] == "harness":
                errors.append(m[1])
                with limit.get_lock():
                    limit.value = -1
    wall = core.PERF() - t_run
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(digests):
                f.write("{} {}\n".format(i, digests[i]))
    if a.all:
        return classes(results, errors, agg, wall)
    known = load_known()
    first = None
    seen_known = {}
    for i in sorted(results):
        k = match_known(known, a.prop, results[i]["violation"])
        if k:
            seen_known.setdefault(k, i)
        elif first is None:
            first = i
    if first is None and errors:
        sys.stderr.write(errors[0])
        print("ERROR of the check (not a verdict): " + errors[0].strip().split("\n")[-1])
        return 2
    if first is None and not errors and agg.n != runs and not results:
        print("ERROR of the check: {} of {} runs reported".format(agg.n, runs))
        return 2
    code = 0
    nviol = 0
    if first is not None:
        nviol = 1
        res = results[first]
        path = report(a, module, first, res, scratch)
        print("{}".format(res["violation"]["message"]))
        print("VIOLATION property={} replay={}".format(a.prop, path))
        code = 1
    for k in known:
        if k.get("status") == "open" and k["property"] == a.prop:
            print("KNOWN-FINDING: property={} {}".format(a.prop, k["what"]))
    if not a.no_evidence:
        evidence(a, module, agg, runs, wall, core.PERF() - t_run, t0, nviol)
    print("{} {}: {} runs in {:.1f} s, {} distinct non-trivial, {} violation(s)".format(
        a.prop, a.tier, agg.n, wall, agg.nontrivial(), nviol))
    return code


def classes(results, errors, agg, wall):
    by = {}
    for i in sorted(results):
        by.setdefault(results[i]["violation"]["class"], []).append(i)
    for c in sorted(by, key=lambda c: -len(by[c])):
        print("{:5d}  {}  (runs {})".format(len(by[c]), c, by[c][:4]))
        for i in by[c][:2]:
            print("         " + results[i]["violation"]["message"][:400])
    for e in errors[:2]:
        print(e)
    print("{} runs in {:.1f} s, {} with a violation".format(agg.n, wall, len(results)))
    return 1 if results else 2 if errors else 0


# -- known findings ---------------------------------------------------------------------------
def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with core.REAL_OPEN(p) as f:
        return json.load(f)["findings"]


def match_known(known, prop, v):
    for k in known:
        if k.get("status") == "open" and k["property"] == prop and k["class"] == v["class"] and \
                k["match"] in v["message"]:
            return k["what"]
    return None


# -- minimisation -----------------------------------------------------------------------------
def shrink(a, module, res, scratch, comp):
    """A simpler choice sequence with the same violation class."""
    best = list(res["choices"])
    cls = res["violation"]["class"]
    state = {"n": 0, "best": res}
    t_end = core.PERF() + SHRINK_TIME
    tried = set()

    def test(c):
        nonlocal best
        key = tuple(c)
        if key in tried or state["n"] >= SHRINK_RUNS or core.PERF() > t_end:
            return False
        tried.add(key)
        state["n"] += 1
        try:
            r = run_once(a.prop, module, scratch, "shrink{}".format(state["n"]), choices=c, tier=a.tier,
                         companion=comp, timeout=60)
        except HarnessError:
            return False
        if r["violation"] is None or r["violation"]["class"] != cls:
            return False
        if len(r["choices"]) > len(best) or (len(r["choices"]) == len(best) and r["choices"] >= best):
            return False
        best = list(r["choices"])
        state["best"] = r
        return True

    go = True
    while go and state["n"] < SHRINK_RUNS and core.PERF() < t_end:
        go = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if test(best[:i] + best[i + size:]):
                    go = True
                    continue
                if any(best[i:i + size]) and test(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    go = True
                i += size
                if core.PERF() > t_end or state["n"] >= SHRINK_RUNS:
                    break
            if core.PERF() > t_end or state["n"] >= SHRINK_RUNS:
                break
            size //= 2
        for i in range(len(best)):
            if i < len(best) and best[i] > 0:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v < best[i] and test(best[:i] + [v] + best[i + 1:]):
                        go = True
                        break
            if core.PERF() > t_end or state["n"] >= SHRINK_RUNS:
                break
    return state["best"], state["n"]


def report(a, module, i, res, scratch):
    comp = Companion(a.prop, hash_seed(i)) if getattr(module, "COMPANION", False) else None
    tries = 0
    try:
        # the same seed again, then the recorded choices: the violation must come back exactly
        same = run_once(a.prop, module, scratch, "again", choices=res["choices"], tier=a.tier, companion=comp)
        exact = same["violation"] == res["violation"] and same["digest"] == res["digest"]
        small = res
        if not a.no_shrink:
            small, tries = shrink(a, module, res, scratch, comp)
    finally:
        if comp:
            comp.close()
    doc = {
        "property": a.prop,
        "seed": seed_of(a.prop, a.seed, i),
        "run": i,
        "tier": a.tier,
        "hash_seed": hash_seed(i),
        "violation": small["violation"],
        "scenario": small["plan"],
        "faults_fired": small["fired"],
        "trace": small["trace"],
        "digest": small["digest"],
        "choices": small["choices"],
        "minimisation": {"runs": tries, "choices_before": len(res["choices"]), "choices_after": len(small["choices"])},
        "original": {"violation": res["violation"], "digest": res["digest"], "choices": res["choices"],
                     "reproduced_exactly": exact},
        "replay_with": "./check {} --replay <this file>".format(a.prop),
    }
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "{}-{}-{}.json".format(a.prop, a.seed, i))
    with core.REAL_OPEN(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def replay(a, module):
    with core.REAL_OPEN(a.replay) as f:
        doc = json.load(f)
    if doc["property"] != a.prop:
        print("ERROR: replay file of property " + doc["property"])
        return 2
    scratch = scratch_dir()
    freeze()
    comp = Companion(a.prop, doc["hash_seed"]) if getattr(module, "COMPANION", False) else None
    try:
        res = run_once(a.prop, module, scratch, "replay", choices=doc["choices"], tier=doc["tier"], companion=comp)
    finally:
        if comp:
            comp.close()
        wipe(scratch)
    for s in res["plan"]:
        print(s)
    if res["violation"] is None:
        print("the violation does not occur on this tree")
        return 0
    print(res["violation"]["message"])
    print("same violation: {}; same event log: {}".format(
        res["violation"] == doc["violation"], res["digest"] == doc["digest"]))
    print("VIOLATION property={} replay={}".format(a.prop, os.path.abspath(a.replay)))
    return 1


# -- evidence ---------------------------------------------------------------------------------
class Aggregate(object):
    def __init__(self, module):
        self.n = 0
        self.fired, self.probes, self.kinds = {}, {}, {}
        self.digests = set()
        self.cover = set()
        self.samples = []
        self.sim_time = 0.0

    def add(self, i, r):
        self.n += 1
        for k, v in r["fired"].items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in r["probes"].items():
            self.probes[k] = self.probes.get(k, 0) + v
        info = r["info"]
        for k in info.get("ops", ()):
            self.kinds[k] = self.kinds.get(k, 0) + 1
        for c in info.get("cover", ()):
            self.cover.add(tuple(c))
        if info.get("nontrivial"):
            self.digests.add(r["digest"])
        self.sim_time += r["sim_time"]
        if r.get("plan") and len(self.samples) < 400 and info.get("nontrivial"):
            self.samples.append((i, r["plan"]))

    def nontrivial(self):
        return len(self.digests)


COMPONENTS = {
    "real": ["every toughio reader, writer, mesh computation and command-line function (imported from /repo)",
             "CPython's buffered and text I/O layers, numpy, meshio, h5py, scipy",
             "the file contents (a scratch directory per run)"],
    "simulated": ["raw file I/O below toughio's own formats (short, interrupted, failing, fatal at any step)",
                  "process lifetimes, crashes and power loss", "the clock toughio can read",
                  "buffer and chunk sizes", "thread scheduling (C11)"],
    "stub": ["the TOUGH simulator (writes result files in its printed formats)"],
    "not simulated": ["HDF5's own file I/O, numpy.fromfile/tofile (real, outside the fault injector)"],
}


def evidence(a, module, agg, runs, wall, total, t0, nviol):
    samples = [{"run": i, "scenario": p} for i, p in sorted(agg.samples)[:5]]
    level = getattr(module, "LEVEL", "exploration")
    doc = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
        "level": level,
        "coverage": {
            "evaluations": agg.n,
            "distinct_nontrivial": agg.nontrivial(),
            "rule": module.RULE,
            "samples": samples,
            "runs_per_hour": int(agg.n / max(wall, 1e-9) * 3600),
            "seeds_per_hour": int(agg.n / max(wall, 1e-9) * 3600),
            "simulated_time_s": round(agg.sim_time, 3),
            "simulated_io_steps": agg.probes.get("io-steps", 0),
            "faults_fired": dict(sorted(agg.fired.items())),
            "probes": dict(sorted(agg.probes.items())),
            "operations": dict(sorted(agg.kinds.items())),
            "distinct_event_logs_measure": "SHA-256 over the ordered log of calls, I/O steps, faults, clock reads, "
                                           "thread switches and outcomes of a run",
            "components": COMPONENTS,
            "workers": WORKERS,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []) + [
            "sampled, not exhaustive: a clean batch is evidence, not proof",
            "the generated inputs stay inside the documented formats and field widths",
        ],
        "wall_s": round(core.PERF() - t0, 2),
        "violations": nviol,
    }
    if agg.cover:
        doc["coverage"]["distinct_situations"] = len(agg.cover)
        doc["coverage"]["distinct_situations_measure"] = getattr(module, "COVER", "see rule")
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with core.REAL_OPEN(os.path.join(d, a.prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)

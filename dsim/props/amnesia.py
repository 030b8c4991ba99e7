"""C12: a call's result depends on its arguments and the files, not on what the process did before.

The probe call is made once in a fresh process; its value (or error) and the bytes of its files are
the reference.  Another process first lives through a drawn history (valid, refused and failing
calls; reads of torn files; earlier versions of the probe's own source, of the same size and time
stamp; the probe itself on the same argument objects while they held other values, or struck by an
I/O error, an interrupt or a failing allocation) and then makes the probe call on the same files.
Both must agree to the byte.  So must a fresh process of a second interpreter with another
PYTHONHASHSEED and address layout; the process with a history may also belong to another user and
machine and have other numpy print options.
"""
import os
import re

import numpy as np

from ..ops import meshes, pool, refused
from ..ops.base import deep, first_diff, rread, rwrite
from ..run import (ERRORS, Violation, attempt, count_events, do_setup, draw_fault, draw_knobs, place_fault, restore, sha, show_fault,
                   snapshot)
from .bytes import draw_env, live_in
from .history import use
from .torn import draw_torn

COMPANION = True

RULE = ("one case = one simulated run: a probe call in a fresh process and after a history of 1-7 calls; non-trivial if "
        "the history made at least one call; distinct by the digest of the complete event log")
COVER = "(kind of probe, outcome, kinds of history steps)"


def alter(op, how):
    """Change the argument objects of op in place; returns a function that puts them back."""
    undo = []
    mesh = getattr(op, "mesh", None)
    if mesh is not None and hasattr(mesh, "points"):
        if how < 2 and not (isinstance(mesh.points, np.ndarray) and mesh.points.dtype.kind == "f"):
            how = 3
        if how == 0:
            keep = mesh.points.copy()
            mesh.points[...] = keep * 2.0 + 1.0

            def back():
                mesh.points[...] = keep
        elif how == 1:
            keep = mesh.points
            mesh.points = keep * 3.0

            def back():
                mesh.points = keep
        elif how == 2 and isinstance(mesh.cell_data.get("material"), np.ndarray):
            keep = mesh.cell_data["material"]
            mesh.cell_data["material"] = np.zeros(len(keep), dtype=int)

            def back():
                mesh.cell_data["material"] = keep
        else:
            keep = mesh.label_length
            mesh.label_length = 6 if keep == 5 else 5

            def back():
                mesh.label_length = keep
        return back
    params = getattr(op, "params", None)
    if isinstance(params, dict):
        keys = list(params)
        keep = {k: params[k] for k in keys}
        if how < 2:
            drop = [k for k in keys if k not in ("rocks", "elements")][how::2]
            for k in drop:
                del params[k]

            def back():
                params.clear()
                params.update(keep)
        else:
            params["title"] = "another title"

            def back():
                params.clear()
                params.update(keep)
        return back
    outs = getattr(op, "outputs", None)
    if outs is not None:
        todo = [outs] if hasattr(outs, "_fields") else list(outs) if isinstance(outs, (list, tuple)) else []
        todo = [o for o in todo if isinstance(getattr(o, "data", None), dict)]
        keep = []
        for o in todo:
            for h, v in o.data.items():
                if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                    keep.append((v, v.copy()))
                    v *= -0.5

        def back():
            for v, w in keep:
                v[...] = w
        return back
    return None


def variant(data, seed):
    """Another content of the same size: some digits differ."""
    import random

    r = random.Random(seed)
    b = bytearray(data)
    at = [i for i, c in enumerate(b) if 48 <= c <= 57]
    for i in r.sample(at, min(len(at), r.choice([1, 5, 50]))) if at else []:
        b[i] = 48 + (b[i] - 48 + 1 + r.randrange(8)) % 10
    return bytes(b)


def result(op, o, root, sim, text=True):
    """Everything observable of a call."""
    if o.kind == "ok":
        out = ("ok", op.canon(o.value))
    elif not text:
        out = (o.kind, o.exc_type)
    else:
        out = (o.kind, re.sub(r"0x[0-9a-f]{6,}", "0x", o.exc))
    snap = snapshot(root)
    files = []
    for x in sorted(snap):
        b = snap[x]
        if hasattr(op, "canon_bytes") and x in op.dests:
            b = op.canon_bytes(b)
        files.append((x, b))
    return out, tuple(files)


def differ(a, b):
    if a[0] != b[0]:
        return "result " + first_diff(a[0], b[0])
    fa, fb = dict(a[1]), dict(b[1])
    for x in sorted(set(fa) | set(fb)):
        if fa.get(x) != fb.get(x):
            if x not in fa or x not in fb:
                return "file {} {}".format(x, "only after the history" if x not in fa else "missing after the history")
            k = next((i for i in range(min(len(fa[x]), len(fb[x]))) if fa[x][i] != fb[x][i]), min(len(fa[x]), len(fb[x])))
            return "file {}: {} bytes in the fresh process, {} after the history; differs at byte {}: {!r} != {!r}".format(
                x, len(fa[x]), len(fb[x]), k, fa[x][max(0, k - 20):k + 40], fb[x][max(0, k - 20):k + 40])
    return None


def draw_probe(d):
    m = d.raw(20)
    if m < 3:
        return refused.draw_refused(d)
    if m < 5:
        return draw_torn(d)
    return pool.draw_op(d, pool.WRITES, pool.READS, pool.TOOLS, pool.PURE, pool.DELEGATED, pool.DELEGATED_READS)


def run(ctx):
    d = ctx.d
    knobs = draw_knobs(d, calm=0.6)
    probe = draw_probe(d)
    cwd = d.bool(0.25)
    hist = []
    for _ in range(d.int(1, 6)):
        m = d.raw(12)
        f = draw_fault(d) if d.bool(0.25) else None
        if m < 4:  # a call of the same kind
            for _ in range(4):
                op = draw_probe(d)
                if op.kind == probe.kind:
                    break
            hist.append(("call", op, f, d.bool(0.5)))
        elif m < 7:
            hist.append(("call", draw_probe(d), f, d.bool(0.3)))
        elif m < 9:
            hist.append(("earlier", None, f, d.raw(2 ** 16)))
        elif m < 11:
            hist.append(("altered", None, f, d.raw(4)))
        else:
            hist.append(("same", None, f, 0))
    if d.bool(0.25):  # one blow after another to the probe, each followed by a whole call
        hist = hist[: d.raw(2)]
        hist += [("struck", None, draw_fault(d, ["interrupt", "nomem"] if d.bool(0.8) else ERRORS), 0) for _ in range(d.int(2, 16))]
    env = draw_env(d, 0) if d.bool(0.3) else None
    if env and not (probe.dests or probe.sources):
        env["print"] = None  # results of calls without files hold texts for people
    me = ctx.companion == "self"
    ctx.mkdir("p")
    ctx.mkdir("q")
    ctx.say("probe{}: {}".format(" (cwd)" if cwd else "", probe.describe()))
    ctx.say("history: {}".format({k: v for k, v in knobs.items() if v}))
    if env:
        ctx.say("the history's process: {}".format({k: env[k] for k in ("user", "print")}))
    for what, op, f, x in hist:
        ctx.say("  " + {"call": lambda: "{} in {}".format(op.describe(), "the probe's directory" if x else "another directory"),
                        "earlier": lambda: "the probe reads an earlier version of its source, same size and time",
                        "altered": lambda: "the probe with its argument objects altered ({})".format(x),
                        "same": lambda: "the probe", "struck": lambda: "the probe"}[what]() + show_fault(f))
    info = {"ops": [probe.kind], "cover": [], "nontrivial": True}
    root = os.path.join(ctx.root, "p")
    other = os.path.join(ctx.root, "q")
    src = [x for x in probe.sources if isinstance(x, str)]

    def go():
        os.chdir(root if cwd else os.path.join(ctx.root, "cwd"))
        probe.dir = "" if cwd else root

    def fresh(sim, tell):
        go()
        do_setup(sim, probe)
        start = snapshot(root)
        o = attempt(sim, probe, setup=False)
        # another interpreter has other paths and may print sets in another order: no texts of errors
        out, files = result(probe, o, root, sim, text=False)
        files = [(x, b) for x, b in files if b != start.get(x)]  # not those of the setup (FLAC3D's has the time in it)
        tell((start, result(probe, o, root, sim, text=not env), sha(repr((out, files)).encode())))

    (msg,), _ = ctx.process(fresh, {"process": 1} if me else {}, "fresh process")
    start, want, mark = msg
    if me:
        return {"mark": mark}
    if ctx.companion is not None:
        if ctx.companion.ask({"choices": list(d.rec), "tier": ctx.tier})["mark"] != mark:
            raise Violation("C12 {} interpreter".format(probe.kind),
                            "{}: other result in another interpreter (other PYTHONHASHSEED)".format(probe.describe()))
        ctx.probe("compared with another interpreter")
    restore(root, start)

    def stamp():
        for x in start:
            os.utime(os.path.join(root, x), ns=(10 ** 18, 10 ** 18))

    def body(sim, tell):
        go()
        if env:
            live_in(env)
        n = None
        for what, op, f, x in hist:
            back = None
            if what == "call":
                op.dir = ("" if cwd else root) if x else other
                if x:
                    restore(root, start)
                where = root if x else other
                k = count_events(sim, op, where, [f]) if f else 0
                o = attempt(sim, op, place_fault(f, k) if f else None)
                tell((op.kind, o.kind))
                if o.kind == "hang":
                    return
                continue
            restore(root, start)
            if what == "earlier":
                for s in src:
                    if s in start:
                        rwrite(os.path.join(root, s), variant(start[s], x))
            elif what == "altered":
                back = alter(probe, x)
            stamp()
            if f and n is None:
                n = count_run(sim, probe, root, [x[2] for x in hist])
                stamp()
            try:
                o = attempt(sim, probe, place_fault(f, n) if f else None, setup=False)
            finally:
                if back:
                    back()
            tell((what, o.kind))
            if o.kind == "hang":
                return
            if what == "struck":
                whole(sim)
        whole(sim)
        tell(("probe", "done"))

    def whole(sim):
        restore(root, start)
        stamp()
        if os.path.realpath(os.getcwd()) != os.path.realpath(root if cwd else os.path.join(ctx.root, "cwd")):
            raise Violation("C12 cwd", "the history left the process in another directory: " + sim.rel(os.getcwd()))
        o = attempt(sim, probe, setup=False)
        got = result(probe, o, root, sim, text=not env)
        bad = differ(want, got)
        if bad:
            raise Violation("C12 {} {}".format(probe.kind, want[0][0]),
                            "{}: after the history, {}".format(probe.describe(), bad))

    msgs, _ = ctx.process(body, knobs, "process with a history")
    info["cover"].append((probe.kind, want[0][0], "+".join(sorted({m[0] for m in msgs[:-1]}))))
    ctx.probe("compared")
    for m in msgs[:-1]:
        ctx.probe("history step " + m[1])
    return info


def count_run(sim, op, root, faults):
    """I/O steps of the probe from a dry run without its setup."""
    return count_events(sim, op, root, faults, setup=False)

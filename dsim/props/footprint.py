"""C14: every call closes its files and touches only the files it was told to.

A run makes one to three calls (valid, corrupted, or on torn files) in a directory with bystander
files, with up to four I/O errors each.  At the moment a call returns or its error is caught, every
handle it opened must be closed; afterwards the directory may differ in its destination files only.
"""
import os

from ..ops import pool, refused
from ..ops.base import rwrite
from ..run import Violation, attempt, count_events, do_setup, draw_fault, draw_knobs, place_fault, show_fault, snapshot
from .history import use
from .torn import draw_torn

RULE = ("one case = one simulated run (1-3 calls, each made 1-5 times with and without I/O errors); non-trivial if at "
        "least one attempt opened a file; distinct by the digest of the complete event log")
COVER = "(kind of call, outcome, error and kind of I/O step struck)"

REFUSED = [(4, refused.RefusedInput), (4, refused.RefusedOutput), (3, refused.RefusedTough), (1, refused.RefusedIncon), (3, refused.RefusedMesh),
           (6, refused.RefusedTool)]
BYSTANDERS = ["MESH", "INCON", "GENER", "SAVE", "CO2TAB", "other.dat", "notes", "sub/MESH", "OUTPUT_ELEME.csv"]


def run(ctx):
    d = ctx.d
    knobs = draw_knobs(d)
    calls = []
    for k in range(d.weighted([(3, 1), (1, 2), (1, 3)])):
        m = d.raw(20)
        if m < 4:
            op = refused.draw_refused(d, REFUSED)
            while not op.own_format:
                op = refused.draw_refused(d, REFUSED)
        elif m < 7:
            op = draw_torn(d)
        else:
            op = pool.draw_op(d, pool.WRITES, pool.TOOLS, pool.READS)
        by = [x for x in BYSTANDERS if d.bool(0.3)]
        twin = d.bool(0.3)
        calls.append((op, [draw_fault(d) for _ in range(d.int(0, 4))], d.bool(0.3), by, twin))
    ctx.say("knobs {}".format({k: v for k, v in knobs.items() if v}))
    for i, (op, faults, cwd, by, twin) in enumerate(calls):
        ctx.mkdir("s{}/sub".format(i))
        ctx.say("in s{}{}: {}, beside {}".format(i, " (cwd)" if cwd else "", op.describe(), ",".join(by) or "nothing"))
        for f in faults:
            ctx.say("   " + show_fault(f))
    info = {"ops": [c[0].kind for c in calls], "cover": [], "nontrivial": False}

    def body(sim, tell):
        for i, (op, faults, cwd, by, twin) in enumerate(calls):
            root = os.path.join(ctx.root, "s{}".format(i))
            if not cwd:
                os.chdir(os.path.join(ctx.root, "cwd"))
            use(op, root, cwd)
            names = list(by)
            if twin:
                for x in op.dests + op.sources:
                    h, e = os.path.splitext(x)
                    names += [x + "~", x + ".bak", h + "_old" + e]
                names += getattr(op, "beside", [])
            mine = set(op.dests) | set(op.sources) | set(getattr(op, "also", [])) | set(getattr(getattr(op, "op", op), "own_sources", ()))
            for x in names:
                if x not in mine:
                    rwrite(os.path.join(root, x), "bystander {}\n".format(x))
            n = count_events(sim, op, root, faults) if faults else 0
            for f in faults + [None]:
                fault = place_fault(f, n) if f else None
                do_setup(sim, op)
                before = snapshot(ctx.root)
                fired = dict(sim.fired)
                e0 = sim.events
                o = attempt(sim, op, fault, setup=False)
                step = [k for k in sim.fired if "@" in k and sim.fired[k] > fired.get(k, 0)]
                if o.leaks:
                    raise Violation("C14 {} {} open handle".format(op.kind, o.kind),
                                    "{}{} ({}) left open: {}".format(op.describe(), show_fault(f), o.key(),
                                                                     ", ".join(sorted(set(o.leaks)))))
                here = os.path.join(ctx.root, "s{}".format(i) if cwd else "cwd")
                if os.path.realpath(os.getcwd()) != os.path.realpath(here):
                    raise Violation("C14 {} {} cwd".format(op.kind, o.kind), "{}{} ({}) left the process in another directory: {}".format(
                        op.describe(), show_fault(f), o.key(), sim.rel(os.getcwd())))
                after = snapshot(ctx.root)
                dests = {"s{}/{}".format(i, x) for x in op.dests + getattr(op, "also", [])}
                bad = []
                for x in sorted(set(before) | set(after)):
                    if x in dests or before.get(x) == after.get(x):
                        continue
                    if x not in before:
                        if o.kind == "ok":
                            bad.append(x + " was created")
                    else:
                        bad.append(x + (" was removed" if x not in after else " was changed"))
                if bad:
                    raise Violation("C14 {} {} footprint".format(op.kind, o.kind),
                                    "{}{} ({}): {}".format(op.describe(), show_fault(f), o.key(), "; ".join(bad)))
                tell((op.kind, o.kind, step[0] if step else "-", sim.events > e0))

    msgs, _ = ctx.process(body, knobs)
    for m in msgs:
        info["cover"].append(m[:3])
        info["nontrivial"] |= m[3]
        ctx.probe("judged: " + m[1])
    return info

"""C13: no call changes the data passed to it, whether it succeeds, is refused or fails.

A run draws one or two calls (valid or corrupted) and up to four errors for each, and compares a
byte-exact image of every argument before and after each attempt.
"""
import os

from ..ops import pool, refused
from ..ops.base import deep, first_diff
from ..run import Violation, attempt, count_events, draw_fault, draw_knobs, place_fault, show_fault
from .history import use

RULE = ("one case = one simulated run (1-2 calls, each made 1-5 times with and without I/O errors); non-trivial if the "
        "arguments of at least one attempt were compared; distinct by the digest of the complete event log")
COVER = "(kind of call, success / refusal / error at kind of I/O step)"

REFUSED = [(4, refused.RefusedInput), (4, refused.RefusedOutput), (3, refused.RefusedTough), (1, refused.RefusedIncon), (3, refused.RefusedMesh),
           (2, refused.RefusedSeries)]
READS = [(1, c, k) for w, c, k in pool.READS if c.__name__ in ("OutputRead", "ResultRead", "MeshResults")]
DELEGATED = [(2, c, k) for w, c, k in pool.DELEGATED if c.__name__ != "Export"]


def run(ctx):
    d = ctx.d
    knobs = draw_knobs(d)
    calls = []
    for k in range(d.weighted([(3, 1), (1, 2)])):
        bad = d.bool(0.35)
        op = refused.draw_refused(d, REFUSED) if bad else pool.draw_op(d, pool.WRITES, READS, DELEGATED)
        calls.append((op, [] if bad else [draw_fault(d) for _ in range(d.int(0, 4))], d.bool(0.25)))
    ctx.say("knobs {}".format({k: v for k, v in knobs.items() if v}))
    for i, (op, faults, cwd) in enumerate(calls):
        ctx.mkdir("s{}".format(i))
        ctx.say("in s{}{}: {}".format(i, " (cwd)" if cwd else "", op.describe()))
        for f in faults:
            ctx.say("   " + show_fault(f))
    info = {"ops": [c[0].kind for c in calls], "cover": [], "nontrivial": False}

    def body(sim, tell):
        for i, (op, faults, cwd) in enumerate(calls):
            use(op, os.path.join(ctx.root, "s{}".format(i)), cwd)
            before = deep(op.args())
            if before is None:
                continue
            n = count_events(sim, op, os.path.join(ctx.root, "s{}".format(i)), faults) if faults else 0
            for f in faults + [None]:
                fault = place_fault(f, n) if f else None
                fired = dict(sim.fired)
                o = attempt(sim, op, fault, setup=f is None)
                step = [k for k in sim.fired if "@" in k and sim.fired[k] > fired.get(k, 0)]
                after = deep(op.args())
                if after != before:
                    raise Violation("C13 {} {}".format(op.kind, o.kind),
                                    "{}{} ({}) changed its arguments: {}".format(
                                        op.describe(), show_fault(f), o.key(), first_diff(before, after)))
                tell((op.kind, (step[0] if step else "-") + " " + o.kind))

    msgs, _ = ctx.process(body, knobs)
    for m in msgs:
        info["cover"].append(m)
        info["nontrivial"] = True
        ctx.probe("compared after: " + m[1].split(" ")[1])
    return info

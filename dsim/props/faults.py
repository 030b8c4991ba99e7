"""C07: a call struck by an I/O error raises, or its result is complete and correct.

A run draws one or two calls of any kind and one to five errors for each, strikes the same call
with each error in turn (its files restored in between), and checks whatever it reports as success
against the operation's model.  After the last error the call is made again without one.
"""
import os

from ..ops import pool
from ..run import Violation, attempt, count_events, draw_fault, draw_knobs, place_fault, restore, show_fault, snapshot, \
    verify, do_setup
from .history import junk, use
from ..ops.base import rwrite

RULE = ("one case = one simulated run (one process, 1-2 calls, 1-5 I/O errors each); non-trivial if an error really "
        "struck; distinct by the digest of the complete event log")
COVER = "(kind of call, kind of error, kind of I/O step struck, outcome)"


def run(ctx):
    d = ctx.d
    knobs = draw_knobs(d)
    calls = []
    for k in range(d.weighted([(3, 1), (1, 2)])):
        op = pool.draw_op(d, pool.WRITES, pool.TOOLS, pool.READS, pool.DELEGATED, pool.DELEGATED_READS)
        calls.append((op, [draw_fault(d) for _ in range(d.int(1, 5))], d.bool(0.4), d.raw(2 ** 16), d.bool(0.25)))
    ctx.say("knobs {}".format({k: v for k, v in knobs.items() if v}))
    for i, (op, faults, jk, _, cwd) in enumerate(calls):
        ctx.mkdir("s{}".format(i))
        ctx.say("in s{}{}: {}{}".format(i, " (cwd)" if cwd else "", op.describe(), ", destination exists" if jk else ""))
        for f in faults:
            ctx.say("   " + show_fault(f))
    info = {"ops": [c[0].kind for c in calls], "cover": [], "nontrivial": False}

    def body(sim, tell):
        for i, (op, faults, jk, js, cwd) in enumerate(calls):
            root = os.path.join(ctx.root, "s{}".format(i))
            use(op, root, cwd)
            if jk and op.dests:
                rwrite(op.p(op.dests[0]), junk(js))
            n = count_events(sim, op, root, faults)
            snap = snapshot(root)
            for f in faults:
                restore(root, snap)
                fault = place_fault(f, n)
                before = dict(sim.fired)
                o = attempt(sim, op, fault, setup=False)
                step = [k.split("@")[1] for k in sim.fired if "@" in k and sim.fired[k] > before.get(k, 0)]
                if o.kind == "hang":
                    raise Violation("C07 {} hang".format(op.kind), "{}{}: {}".format(op.describe(), show_fault(f), o.exc))
                if o.kind == "ok":
                    bad = verify(sim, op, o.value)
                    if bad and o.fault_fired:
                        raise Violation("C07 {} {} unreported".format(op.kind, f["kind"]),
                                        "{}{} ({}): returned normally, but {}".format(
                                            op.describe(), show_fault(f), ",".join(step), bad))
                if o.fault_fired:
                    tell((op.kind, f["kind"], step[0] if step else "?", o.kind))
            o = attempt(sim, op)
            if o.kind == "ok":
                bad = verify(sim, op, o.value)
                if bad:
                    raise Violation("C07 {} retry".format(op.kind), "{} again, without error: returned normally, but {}".format(
                        op.describe(), bad))

    msgs, _ = ctx.process(body, knobs)
    for m in msgs:
        info["cover"].append(m)
        info["nontrivial"] = True
        ctx.probe("struck: " + m[3])
    return info

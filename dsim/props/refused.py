"""C08: a refused call leaves every existing file as it was and creates no destination.

A run makes one to four calls with corrupted arguments, bad sources, bad options or sources that
cannot be read, over destinations that are absent, hold junk, or hold a good file written before.
Only calls that raise are judged.
"""
import os

from ..ops import refused
from ..ops.base import rwrite
from ..run import Violation, attempt, count_events, do_setup, draw_knobs, place_fault, show_fault, snapshot
from .history import junk, use

RULE = ("one case = one simulated run of 1-4 calls that should be refused; non-trivial if at least one call raised "
        "with a destination that existed; distinct by the digest of the complete event log")
COVER = "(kind of call, what was wrong, kind of destination)"


def run(ctx):
    d = ctx.d
    knobs = draw_knobs(d)
    calls = []
    for k in range(d.int(1, 4)):
        op = refused.draw_refused(d)
        calls.append((op, d.pick(["junk", "junk", "good", "absent"]), d.raw(2 ** 16), d.bool(0.3), d.raw(2)))
    ctx.say("knobs {}".format({k: v for k, v in knobs.items() if v}))
    for i, (op, what, _, cwd, _) in enumerate(calls):
        ctx.mkdir("s{}".format(i))
        ctx.say("in s{}{}: {}, destination: {}".format(i, " (cwd)" if cwd else "", op.describe(), what))
    info = {"ops": [c[0].kind for c in calls], "cover": [], "nontrivial": False}

    def body(sim, tell):
        for i, (op, what, js, cwd, both) in enumerate(calls):
            root = os.path.join(ctx.root, "s{}".format(i))
            use(op, root, cwd)
            if what != "absent":
                for x in op.dests if both or op.kind == "write_tough" else op.dests[:1]:
                    rwrite(op.p(x), junk(js) if what == "junk" else b"a good file\n" * (js % 3000 + 1))
            fault = None
            if getattr(op, "eread", False):
                keep = snapshot(root)
                n = count_events(sim, op, root)
                # the dry run has left what stood before, and the sources
                for x in op.dests:
                    if x in keep and x not in getattr(op.op, "own_sources", {}) and x != getattr(op.op, "name", None):
                        rwrite(op.p(x), keep[x])
                fault = place_fault(op.fault, n)
                before = snapshot(root)
                o = attempt(sim, op, fault, setup=False)
            else:
                do_setup(sim, op)
                before = snapshot(root)
                o = attempt(sim, op, setup=False)
            if o.kind == "ok":
                ctx_note = "accepted"
                tell((op.kind, "accepted", what, False))
                continue
            if o.kind == "hang":
                raise Violation("C08 {} hang".format(op.kind), "{}: {}".format(op.describe(), o.exc))
            after = snapshot(root)
            bad = []
            for x in before:
                if after.get(x) != before[x]:
                    bad.append("{} {}".format(x, "is gone" if x not in after else "of {} bytes now has {}".format(
                        len(before[x]), len(after[x]))))
            for x in op.dests:
                if x in after and x not in before:
                    bad.append("{} was created ({} bytes)".format(x, len(after[x])))
            if bad:
                raise Violation("C08 {} {}".format(op.kind, type(op).__name__),
                                "{}{} raised {}, but {}".format(op.describe(), show_fault(getattr(op, "fault", None)),
                                                                o.exc, "; ".join(bad)))
            tell((op.kind, o.exc.split(":")[0], what, what != "absent"))

    msgs, _ = ctx.process(body, knobs)
    for m in msgs:
        info["cover"].append(m[:3])
        info["nontrivial"] |= m[3]
        ctx.probe("accepted" if m[1] == "accepted" else "refused")
    return info

"""C18: a mesh holds what its whole editing history says.

A run is a session over up to three meshes and one to three process lifetimes.  Every step (grids
made, data and materials set, extrusion, pruning, interpolation, results put on the mesh, copies,
conversions, queries, saves, reloads, refused calls) is judged against a reference in plain numpy;
steps that touch files are struck by I/O errors and crashes.  A failed or refused step must leave
every mesh as it was, an edit must leave all other meshes and all arrays given as they were, and
after a crash the session goes on from the meshes whose saving was acknowledged.
"""
import os

from ..ops import session
from ..ops.base import deep, first_diff
from ..run import Violation, attempt, count_events, draw_fault, draw_knobs, place_fault, show_fault

RULE = ("one case = one simulated run: a session of 1-3 process lifetimes with 3-14 steps each over up to 3 meshes; non-trivial "
        "if at least three steps were judged against the reference; distinct by the digest of the complete event log")
COVER = "(kind of step, kind of step before it on the same mesh, outcome)"

KINDS = ["eio", "enospc", "eacces", "emfile", "crash", "crash", "estale"]


def run(ctx):
    d = ctx.d
    lives = []
    for _ in range(d.weighted([(5, 1), (3, 2), (1, 3)])):
        knobs = draw_knobs(d, calm=0.6)
        steps = []
        for _ in range(d.int(3, 14)):
            kind = d.weighted([(w, f.__name__) for w, f in session.STEPS])
            f = draw_fault(d, KINDS + (["interrupt", "nomem"] if kind != "s_output" else [])) if kind in ("s_save", "s_load", "s_output", "s_export") and d.bool(0.3) else None
            steps.append((kind, d.raw(2 ** 31), f))
        lives.append((knobs, steps))
    info = {"ops": [], "cover": [], "nontrivial": False}
    saved = {}
    judged = 0
    for i, (knobs, steps) in enumerate(lives):
        ctx.say("process {}: {}".format(i + 1, {k: v for k, v in knobs.items() if v}))

        def body(sim, tell, steps=steps):
            W = session.World(ctx.root, dict(saved))
            past = {}
            for kind, seed, f in steps:
                s = session.resolve(W, kind, seed)
                if s is None:
                    continue
                fault = None
                if f and s.io:
                    n = count_events(sim, s, ctx.root, [f])
                    fault = place_fault(f, n)
                said = s.describe() + (show_fault(f) if fault else "")
                file = getattr(s, "file", None)
                if file:
                    W.saved[file] = None
                tell(("step", said, s.kind, file))
                o = attempt(sim, s, fault)
                bad = None
                if o.kind == "hang":
                    bad = o.exc
                elif s.refuse:
                    bad = "was accepted" if o.kind == "ok" else None
                elif o.kind == "raised":
                    bad = None if o.fault_fired else "was refused: " + o.exc
                cls = "outcome"
                if o.kind == "ok" and not bad:
                    bad, cls = judge(sim, s, o.value), "result"
                if not bad:
                    cls = "other mesh"
                    touched = s.target if o.kind == "ok" and not s.refuse else None
                    bad = W.disturbed(touched)
                    if bad and touched is None:
                        cls, bad = "after failure", "failed ({}), but {}".format(o.key(), bad)
                if bad:
                    raise Violation("C18 {} {}".format(s.kind, cls), "{}: {}".format(said, bad))
                for it in W.items.values():
                    it.image = deep(it.real)
                tell(("judged", (s.kind, past.get(s.target, "-"), "refused" if s.refuse else o.kind)))
                past[s.target] = s.kind
                if file:
                    tell(("saved", file, W.saved[file]))

        msgs, crashed = ctx.process(body, knobs, "process {}".format(i + 1))
        for m in msgs:
            if m[0] == "step":
                ctx.say("  " + m[1])
                info["ops"].append(m[2])
                if m[3]:
                    saved[m[3]] = None
            elif m[0] == "judged":
                judged += 1
                info["cover"].append(m[1])
                ctx.probe({"ok": "judged against the reference", "refused": "refused, nothing changed",
                           "raised": "failed, nothing changed"}[m[1][2]])
            elif m[0] == "saved":
                saved[m[1]] = m[2]
        if crashed:
            ctx.probe("crashed inside a step")
        if i and any(m[0] == "judged" and m[1][0] == "load" for m in msgs):
            ctx.probe("went on from a saved mesh in a new process")
    info["nontrivial"] = judged >= 3
    return info


def judge(sim, s, value):
    """The check of a step, which may read files back (without faults)."""
    from ..core import HarnessError, SimHang
    from ..run import BUDGET, exc_key, scrub, where

    if s.check is None:
        return None
    sim.fault = None
    sim.start_budget(BUDGET)
    sim.on = True
    try:
        return s.check(value)
    except SimHang as e:
        return "looking at the result: " + str(e)
    except HarnessError:
        raise
    except (Exception, SystemExit) as e:
        return "looking at the result raised " + scrub(exc_key(e), sim) + where(e)
    finally:
        sim.on = False
        sim.stop_budget()
        sim.handles = []

"""C20: registered formats are used exactly as registered last.

One to three threads (under a seeded schedule) or one thread with I/O faults live through a drawn
history: formats, extensions, readers, writers and material keys are registered and registered
again, calls by extension or name must reach the function the reference table says, with the
caller's arguments, and bring back its value or error; calls of built-in formats go on working.
"""
import os

from .. import core
from ..ops import inputs, meshes, outputs, registry
from ..ops.base import exc_key
from ..run import IO_ERRORS, Outcome, Violation, attempt, do_setup, draw_fault, draw_knobs, scrub, show_fault, verify
from ..sched import Scheduler

RULE = ("one case = one simulated run: 1-3 threads with 3-14 steps each (registrations, uses, calls of built-in formats); "
        "non-trivial if at least one registered function was judged; distinct by the digest of the complete event log")
COVER = "(kind of use, by name or extension, outcome, registrations before)"


def setup():
    core.enable_lines(True)


BUILTIN = [(2, inputs.InputWrite, "input"), (1, inputs.InputRead, "input"), (2, outputs.OutputWrite, "output"),
           (1, outputs.OutputRead, "output"), (2, meshes.MeshWrite, "mesh"), (1, meshes.MeshRead, "mesh")]


def draw_builtin(d, table):
    for _ in range(6):
        cls, api = d.weighted([(w, (c, a)) for w, c, a in BUILTIN])
        op = cls(d, own=True) if api == "mesh" else cls(d)
        w = getattr(op, "w", op)
        reads = api == "output" or not w.explicit
        if w.fmt in table.taken_fmt[api]:
            continue
        if not w.explicit and os.path.splitext(w.name)[1].lower() in table.taken_ext[api]:
            continue
        if api == "output" and reads and "csv" in table.taken_fmt[api]:
            continue
        return op
    return None


def run(ctx):
    d = ctx.d
    n = d.weighted([(6, 1), (3, 2), (1, 3)])
    knobs = draw_knobs(d, calm=0.6)
    threads = []
    for t in range(n):
        table = registry.Table()
        prefix = "" if n == 1 else "t{}".format(t)
        steps = []
        regs = 0
        for _ in range(d.int(3, 14)):
            m = d.raw(10)
            op = None
            if m < 3 or not regs:
                op = registry.Register(d, table, prefix, n == 1)
                regs += 1
            elif m < 9:
                op = registry.Use(d, table, prefix)
                op = op if op.ok else None
            else:
                op = draw_builtin(d, table)
            if op is None:
                continue
            f = draw_fault(d, IO_ERRORS) if n == 1 and isinstance(op, registry.Use) and d.bool(0.15) else None
            steps.append((op, f, regs))
        threads.append(steps)
    regime = d.pick(["dense", "medium", "sparse", "bursts", "i/o"])
    switches = d.int(1, d.pick([400, 3000, 40]))
    seed = d.raw(2 ** 31)
    if n > 1:
        ctx.say("schedule: {} switches at most, {}, seed {}".format(switches, regime, seed))
    for t, steps in enumerate(threads):
        for k, (op, f, _) in enumerate(steps):
            op.dir = ctx.mkdir("t{}_{}".format(t, k))
            ctx.say("{}{}{}".format("thread {}: ".format(t) if n > 1 else "", op.describe().replace(ctx.root, "<root>"),
                                    show_fault(f)))
    info = {"ops": [op.kind for steps in threads for op, _, _ in steps], "cover": [], "nontrivial": False}

    def judge(op, o, f, regs, cover):
        if isinstance(op, registry.Register):
            return None if o.kind == "ok" else "registration was refused: " + str(o.exc)
        if isinstance(op, registry.Use):
            cover.append((op.kind, "name" if op.fmt else "extension", o.kind, min(regs, 4)))
            return op.judge(o, o.fault_fired)
        if o.kind != "ok":
            return "a call of a built-in format failed: " + str(o.exc)
        return None

    def body(sim, tell):
        cover = []
        if n == 1:
            for op, f, regs in threads[0]:
                fault = None
                if f:
                    fault = {x: f[x] for x in ("kind", "frac", "persist")}
                    fault.update(at=f["u"] % 4, n=4)
                o = attempt(sim, op, fault)
                bad = judge(op, o, f, regs, cover)
                if not bad and isinstance(op, (registry.Register, registry.Use)) is False:
                    bad = verify(sim, op, o.value)
                if bad:
                    raise Violation("C20 " + op.kind, "{}: {}".format(op.describe(), bad))
            tell((cover, 0))
            return
        for steps in threads:
            for op, _, _ in steps:
                do_setup(sim, op)
                op.prepare()
        sched = Scheduler(sim, seed, regime, switches)
        got = {}

        def job(t):
            def go():
                for k, (op, _, _) in enumerate(threads[t]):
                    sched.under[t] = op.kind
                    o = Outcome()
                    if getattr(op, "fn", None):
                        op.fn.calls = []
                    try:
                        o.value = op.call()
                    except (Exception, SystemExit) as e:
                        o.kind, o.exc, o.exc_type = "raised", scrub(exc_key(e), sim), type(e).__name__
                    got[t, k] = o
                    # judged at once: functions remember their last call only
                    got[t, k, "bad"] = judge(op, o, None, 0, cover) if isinstance(op, registry.Use) else None
                    del sched.under[t]

            return go

        sim.start_budget(10 ** 9)
        sim.on = True
        try:
            sched.run([job(t) for t in range(n)])
        except core.SimHang as e:
            raise Violation("C20 hang", "under the schedule: " + str(e))
        finally:
            sim.on = False
            sim.stop_budget()
        for t, steps in enumerate(threads):
            for k, (op, _, regs) in enumerate(steps):
                bad = got[t, k, "bad"]
                if not isinstance(op, registry.Use):
                    bad = judge(op, got[t, k], None, regs, cover)
                    if not bad and not isinstance(op, registry.Register):
                        bad = verify(sim, op, got[t, k].value)
                if bad:
                    raise Violation("C20 " + op.kind, "thread {}: {}: {}".format(t, op.describe(), bad))
        tell((cover, sched.switched))

    msgs, _ = ctx.process(body, knobs, "process")
    cover, sw = msgs[0]
    info["cover"] = cover
    info["nontrivial"] = bool(cover)
    ctx.probe("uses judged", len(cover))
    if n > 1:
        ctx.probe("thread switches", sw)
        ctx.fired["preemption"] = ctx.fired.get("preemption", 0) + sw
    return info

"""C11: calls on separate data from different threads do not disturb each other.

Two to four threads make one to three calls each on their own objects and files, under a seeded
schedule that switches threads at lines of toughio's code.  Value or error and file bytes of every
call must equal those of the same call made alone in a fresh process.
"""
import os
import re

from .. import core
from ..ops import pool, refused
from ..ops.base import exc_key, first_diff
from ..run import Violation, attempt, do_setup, draw_knobs, restore, scrub, snapshot
from ..sched import Scheduler
from .torn import draw_torn

RULE = ("one case = one simulated run: 2-4 threads with 1-3 calls each under one seeded schedule; non-trivial if at least "
        "one thread was preempted inside a call by another one making a call; distinct by the digest of the complete "
        "event log, which holds every switch and its place")
COVER = "pairs (place a thread was preempted at, kind of call under way in the thread that ran instead)"
BUDGET = 20000000


def draw_call(d):
    m = d.raw(20)
    if m < 2:
        op = refused.draw_refused(d)
        return op if op.kind != "co2tab" and not getattr(op, "argv", None) else draw_torn(d)
    if m < 3:
        return draw_torn(d)
    return pool.draw_op(d, pool.WRITES, pool.READS, pool.TOOLS, pool.PURE)


def setup():
    core.enable_lines(True)


def run(ctx):
    d = ctx.d
    knobs = draw_knobs(d, calm=0.7)
    n = d.weighted([(5, 2), (3, 3), (2, 4)])
    threads = []
    first = None
    same = d.bool(0.5)
    for t in range(n):
        ops = []
        for _ in range(d.weighted([(3, 1), (2, 2), (1, 3)])):
            op = draw_call(d)
            for _ in range(6 if same and first else 0):
                if op.kind == first:
                    break
                op = draw_call(d)
            first = first or op.kind
            ops.append(op)
        threads.append(ops)
    regime = d.pick(["dense", "medium", "sparse", "bursts", "i/o"])
    switches = d.weighted([(2, 400), (2, 3000), (2, 40), (2, 4), (1, 1)])
    switches = d.int(1, switches)
    seed = d.raw(2 ** 31)
    rel = d.bool(0.4)
    ctx.say("schedule: {} switches at most, {}, seed {}; {}{}".format(
        switches, regime, seed, "relative paths; " if rel else "", {k: v for k, v in knobs.items() if v}))
    dirs = {}
    for t, ops in enumerate(threads):
        for k, op in enumerate(ops):
            dirs[t, k] = ctx.mkdir("t{}_{}".format(t, k))
            op.dir = os.path.relpath(dirs[t, k], ctx.root) if rel else dirs[t, k]
            ctx.say("thread {}: {}".format(t, op.describe().replace(ctx.root, "<root>")))
    info = {"ops": [op.kind for ops in threads for op in ops], "cover": [], "nontrivial": False}
    flat = [(t, k, op) for t, ops in enumerate(threads) for k, op in enumerate(ops)]
    want, starts = {}, {}

    def result(op, home, kind, payload):
        files = {}
        for x, b in snapshot(home).items():
            if hasattr(op, "canon_bytes") and x in op.dests:
                b = op.canon_bytes(b)
            files[x] = b
        return kind, payload, files

    # every call alone, each in its own process
    for t, k, op in flat:
        def solo(sim, tell, op=op, home=dirs[t, k]):
            os.chdir(ctx.root)
            do_setup(sim, op)
            tell(snapshot(home))
            o = attempt(sim, op, setup=False, budget=BUDGET)
            tell(result(op, home, o.kind, op.canon(o.value) if o.kind == "ok" else clean(o.exc)))

        (starts[t, k], msg), _ = ctx.process(solo, {}, "alone {}.{}".format(t, k))
        want[t, k] = msg
        if msg[0] == "hang":
            return info

    def body(sim, tell):
        os.chdir(ctx.root)
        for t, k, op in flat:
            restore(dirs[t, k], starts[t, k])
        got = {}
        sched = Scheduler(sim, seed, regime, switches)
        under = sched.under

        def job(t):
            def go():
                for k, op in enumerate(threads[t]):
                    under[t] = op.kind
                    try:
                        v = op.call()
                        got[t, k] = ("ok", op.canon(v))
                    except (Exception, SystemExit) as e:
                        got[t, k] = ("raised", clean(scrub(exc_key(e), sim)))
                    del under[t]

            return go

        sim.start_budget(BUDGET * len(flat))
        sim.on = True
        try:
            sched.run([job(t) for t in range(n)])
        except core.SimHang as e:
            raise Violation("C11 hang", "under the schedule: " + str(e))
        finally:
            sim.on = False
            sim.stop_budget()
        if os.path.realpath(os.getcwd()) != os.path.realpath(ctx.root):
            raise Violation("C11 cwd", "under the schedule: the calls left the process in another directory: " + sim.rel(os.getcwd()))
        for t, k, op in flat:
            w = want[t, k]
            g = result(op, dirs[t, k], *got[t, k])
            if g[:2] != w[:2]:
                raise Violation("C11 {} {}".format(op.kind, w[0]), "thread {}: {}: {} under the schedule ({} switches): {}".format(
                    t, op.describe(), "other result" if g[0] == w[0] else "{} instead of {}".format(g[0], w[0]), sched.switched,
                    first_diff(w[:2], g[:2])))
            for x in sorted(set(w[2]) | set(g[2])):
                if w[2].get(x) != g[2].get(x):
                    raise Violation("C11 {} bytes".format(op.kind), "thread {}: {}: file {} differs under the schedule "
                                    "({} switches): {} and {} bytes".format(
                                        t, op.describe(), x, sched.switched, w[2].get(x) and len(w[2][x]),
                                        g[2].get(x) and len(g[2][x])))
        tell((sched.switched, sched.points, sorted(sched.pairs)))

    msgs, _ = ctx.process(body, knobs, "threads")
    sw, pts, pairs = msgs[0]
    info["nontrivial"] = sw > 0
    info["cover"] = pairs
    ctx.probe("thread switches", sw)
    ctx.probe("switch points", pts)
    ctx.fired["preemption"] = ctx.fired.get("preemption", 0) + sw
    return info


def clean(text):
    return re.sub(r"0x[0-9a-f]{6,}", "0x", text)

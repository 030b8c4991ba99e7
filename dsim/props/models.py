"""C17: a constitutive model answers for its present parameters, in any history.

One to three threads (under a seeded schedule, with models of their own and shared ones they only
look at) or one thread over one or two process lifetimes live through a drawn history of
constructions, changes of parameters, refused changes, evaluations, copies, pickles, plots and
input files (with I/O faults).  Values are compared with the published formulas.
"""
import warnings

from .. import core
from ..ops import models
from ..run import Violation, attempt, count_events, draw_fault, draw_knobs, place_fault, show_fault
from ..sched import Scheduler

RULE = ("one case = one simulated run: 1-3 threads or 1-2 processes with 4-20 steps each; non-trivial if at least three values "
        "were compared with a formula; distinct by the digest of the complete event log")
COVER = "(kind of step, model, kind of step before it)"


def setup():
    core.enable_lines(True)
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401  (slow to import, once is enough)


def run(ctx):
    d = ctx.d
    n = d.weighted([(5, 1), (3, 2), (1, 3)])
    knobs = draw_knobs(d, calm=0.6)
    info = {"ops": [], "cover": [], "nontrivial": False}
    shared, past = {}, models.Past()
    if n > 1:
        for name in ("s1", "s2"):
            kind = d.pick(models.KINDS)
            shared[name] = (kind, past.draw_params(d, kind))
            ctx.say("shared {} = {}.{}({})".format(name, kind.module, kind.name, ", ".join(map(repr, shared[name][1]))))
    bags = [models.Bag("t{}".format(t), ctx.root, past) for t in range(n)]
    lives = []
    for life in range(d.weighted([(2, 1), (1, 2)]) if n == 1 else 1):
        threads = []
        for t in range(n):
            if life:
                bags[t].forget()
            steps = []
            for _ in range(d.int(4, 20)):
                s = models.draw_step(d, bags[t], shared, n == 1)
                if s is None:
                    continue
                f = draw_fault(d) if s.io and d.bool(0.3) else None
                steps.append((s, f))
            threads.append(steps)
        lives.append(threads)
    regime = d.pick(["dense", "medium", "sparse", "bursts"])
    switches = d.int(1, d.pick([400, 3000, 40]))
    seed = d.raw(2 ** 31)
    if n > 1:
        ctx.say("schedule: {} switches at most, {}, seed {}".format(switches, regime, seed))
    values = 0
    for life, threads in enumerate(lives):
        for t, steps in enumerate(threads):
            last = "-"
            for s, f in steps:
                ctx.say("{}{}{}".format("thread {}: ".format(t) if n > 1 else "process {}: ".format(life + 1) if len(lives) > 1 else "",
                                        s.describe(), show_fault(f)))
                info["ops"].append(s.kind)
                info["cover"].append((s.kind, s.text.split(": ")[-1].split("(")[0][-20:] if s.kind in ("one", "many") else "", last))
                last = s.kind
                values += s.kind in ("one", "many", "plot")

        def body(sim, tell, threads=threads):
            warnings.simplefilter("ignore")
            made = {}
            for name, (kind, p) in shared.items():
                made[name] = kind.cls()(*p)
            for b in bags:
                b.real = dict(made)
            if n == 1:
                for s, f in threads[0]:
                    fault = place_fault(f, count_events(sim, s, ctx.root, [f])) if f else None
                    o = attempt(sim, s, fault)
                    bad = o.value if o.kind == "ok" else None if o.fault_fired else o.exc
                    if bad:
                        raise Violation("C17 " + s.kind, "{}: {}".format(s.describe(), bad))
                tell(0)
                return
            sched = Scheduler(sim, seed, regime, switches)
            wrong = []

            def job(t):
                def go():
                    for s, _ in threads[t]:
                        sched.under[t] = s.kind
                        try:
                            bad = s.call()
                        except Exception as e:
                            bad = "{}: {}".format(type(e).__name__, e)
                        if bad:
                            wrong.append((s.kind, "thread {}: {}: {}".format(t, s.describe(), bad)))
                            return

                return go

            sim.start_budget(10 ** 9)
            sim.on = True
            try:
                sched.run([job(t) for t in range(n)])
            except core.SimHang as e:
                raise Violation("C17 hang", "under the schedule: " + str(e))
            finally:
                sim.on = False
                sim.stop_budget()
            if wrong:
                raise Violation("C17 " + wrong[0][0], wrong[0][1])
            tell(sched.switched)

        msgs, _ = ctx.process(body, knobs, "process {}".format(life + 1))
        if n > 1:
            ctx.probe("thread switches", msgs[0])
            ctx.fired["preemption"] = ctx.fired.get("preemption", 0) + msgs[0]
    ctx.probe("values compared with formulas", values)
    info["nontrivial"] = values >= 3
    return info

"""C10: readers racing a simulated TOUGH process.

One to three simulated TOUGH runs write result files (one may rewrite the file of another: the
simulation was started again).  The schedule interleaves the progress of the writers (any byte,
often around the end of a row, a page or a step) with reads by one or two reader processes that
stay alive across reads, some of them struck by an I/O error; at the end the writers finish or are
dead, and everything is read again.  Each read is judged against the steps whose last byte was
written.
"""
import os

from ..ops import results
from ..ops.base import rwrite
from ..run import Violation, attempt, draw_fault, draw_knobs, place_fault, show_fault, verify

RULE = ("one case = one simulated run: 1-3 TOUGH runs, 2-12 reads at drawn moments of their progress; non-trivial if at "
        "least one read found a file that was neither empty nor finished, or read a finished one and compared it; "
        "distinct by the digest of the complete event log")
COVER = "(kind of file, progress: nothing/some/all steps complete and clean or torn tail, outcome)"


class Writer(object):
    def __init__(self, d, names):
        self.op = results.MeshResults(d, partial=True) if d.raw(8) == 0 else results.ResultRead(d)
        again = [n for n in names if n[0] == self.op.name]
        self.dir = "s{}".format(len(names))
        if again and d.bool(0.5):
            self.dir = again[0][1]  # the simulation is started again
        names.append((self.op.name, self.dir))
        self.cut = 0
        self.n = len(self.op.stub.text)

    def progress(self, d):
        c = results.draw_cut(d, self.op.stub)
        self.cut = max(self.cut, c)


def run(ctx):
    d = ctx.d
    names = []
    writers = [Writer(d, names) for _ in range(d.weighted([(5, 1), (3, 2), (1, 3)]))]
    dead = [d.bool(0.3) for _ in writers]
    lives = []
    order = []  # (writer, cut, knobs index, fault)
    active = 0
    for life in range(d.weighted([(3, 1), (1, 2)])):
        knobs = draw_knobs(d)
        steps = []
        for _ in range(d.int(1, 6)):
            w = d.raw(len(writers))
            # a run that reuses a file starts after the earlier one ended
            same = [k for k in range(len(writers)) if (writers[k].dir, writers[k].op.name) == (writers[w].dir, writers[w].op.name)]
            if w != same[-1] and any(writers[k].cut for k in same if k > w):
                w = same[-1]
            if d.bool(0.75):
                writers[w].progress(d)
            f = draw_fault(d, ["eio", "estale", "eacces", "emfile", "enoent", "interrupt", "nomem"]) if d.bool(0.12) else None
            steps.append((w, writers[w].cut, f))
        lives.append((knobs, steps))
    last = []
    for w in range(len(writers)):
        same = [k for k in range(len(writers)) if (writers[k].dir, writers[k].op.name) == (writers[w].dir, writers[w].op.name)]
        if any(writers[k].cut for k in same if k > w):
            continue
        if not dead[w]:
            writers[w].cut = writers[w].n
        last.append((w, writers[w].cut, None))
    lives[-1][1].extend(last)
    for x in writers:
        ctx.mkdir(x.dir)
        ctx.say("TOUGH run writes {}/{}: {}".format(x.dir, x.op.name, x.op.describe()))
    for i, (knobs, steps) in enumerate(lives):
        ctx.say("reader process {}: {}".format(i + 1, {k: v for k, v in knobs.items() if v}))
        for w, cut, f in steps:
            ctx.say("  {}/{} has {} of {} bytes; read{}".format(writers[w].dir, writers[w].op.name, cut, writers[w].n, show_fault(f)))
    info = {"ops": [x.op.rkind for x in writers], "cover": [], "nontrivial": False}

    for i, (knobs, steps) in enumerate(lives):
        def body(sim, tell, steps=steps):
            for w, cut, f in steps:
                x = writers[w]
                op = x.op
                op.dir = os.path.join(ctx.root, x.dir)
                rwrite(op.p(op.name), op.stub.text[:cut])
                order, whole = op.order, cut == x.n
                op.cut = None if whole else cut
                if not whole:
                    op.order = None
                try:
                    fault = None
                    if f:
                        fault = place_fault(f, 4)
                    o = attempt(sim, op, fault, setup=False)
                    done = sum(1 for e in op.stub.ends if e <= cut)
                    state = "finished" if whole else "{} complete".format(
                        "nothing" if not done else "some" if done < len(op.stub.ends) else "all")
                    if o.kind == "hang":
                        raise Violation("C10 {} hang".format(op.rkind), "{}: {}".format(op.describe(), o.exc))
                    if o.kind == "raised":
                        if whole and not o.fault_fired:
                            raise Violation("C10 {} refused".format(op.rkind), "{}: a finished file was refused: {}".format(
                                op.describe(), o.exc))
                        tell((op.rkind, state, "raised" if not o.fault_fired else "struck", False))
                        continue
                    bad = verify(sim, op, o.value)
                    if bad:
                        raise Violation("C10 {} {}".format(op.rkind, "finished" if whole else "unfinished"),
                                        "{}: {}".format(op.describe(), bad))
                    tell((op.rkind, state, "read", cut > 0))
                finally:
                    op.order = order
                    op.cut = None

        msgs, _ = ctx.process(body, knobs, "reader {}".format(i + 1))
        for m in msgs:
            info["cover"].append(m[:3])
            info["nontrivial"] |= m[3]
            ctx.probe("{}: {}".format(m[1], m[2]))
    return info

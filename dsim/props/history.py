"""C01-C06, C19: after an acknowledged write, the destination holds exactly what was written.

A run is a history of one to three process lifetimes over one to three destinations.  A
lifetime makes calls (some struck by an I/O error, the last one possibly by a crash or a power
loss), and re-reads earlier results.  The model is the last acknowledged call per destination;
a failed or interrupted call makes its destination unknown until the next acknowledged one.
Everything the model knows is read back in the same process, and again by a fresh process
without faults at the end of the run.  C19 has reads only: of files other programs wrote.
"""
import os

from ..ops import cli, foreign, inputs, meshes, outputs, series, tough
from ..run import (Violation, attempt, count_events, draw_fault, draw_knobs, place_fault, residue, rwrite,
                   show_fault, snapshot, verify)
from ..ops.base import rread

# property -> [(weight, class, takes a fixed destination name, formats)]
FAMILIES = {
    "C01": [(5, inputs.InputWrite, {}), (2, inputs.InputRead, {})],
    "C02": [(5, outputs.OutputWrite, {}), (2, outputs.OutputRead, {})],
    "C03": [(5, meshes.MeshWrite, {}), (2, meshes.MeshRead, {})],
    "C04": [(5, tough.ToughWrite, {}), (3, tough.InconWrite, {}), (1, tough.ToughMeshRead, {})],
    "C05": [(3, cli.Merge, {}), (3, cli.Save2Incon, {}), (1, cli.Co2tab, {}), (4, cli.Extract, {})],
    "C06": [(4, series.TimeSeries, {}), (4, series.Export, {})],
    "C19": [(4, foreign.DeckRead, {}), (3, foreign.ForeignMesh, {}), (4, foreign.ForeignResult, {})],
}

KINDS = ["eio", "enospc", "eacces", "emfile", "crash", "crash", "powercut", "eio", "estale", "interrupt", "nomem"]


class Slot(object):
    def __init__(self, d, prop, k):
        self.dir = "s{}".format(k)
        self.family = FAMILIES[prop]
        self.cls = d.weighted([(w, c) for w, c, _ in self.family]) if prop in ("C05",) else None
        self.junk = d.bool(0.35)
        self.junk_seed = d.raw(2 ** 16)
        self.cwd = d.bool(0.25)  # relative names in the current directory

    def op(self, d):
        cls = self.cls or d.weighted([(w, c) for w, c, _ in self.family])
        return cls(d)


def junk(seed):
    import random

    r = random.Random(seed)
    n = r.choice([0, 1, 100, 5000, 40000])
    m = r.randrange(3)
    if m == 0:
        return bytes(r.randrange(256) for _ in range(min(n, 5000)))
    if m == 1:
        return b"ELEME----1----*----2\nA1 10          rock1\n" * (n // 40 + 1)
    return ("{:20.13e}\n" * (n // 21 + 1)).format(*[r.random() for _ in range(n // 21 + 1)]).encode()


def run(ctx):
    d = ctx.d
    slots = [Slot(d, ctx.prop, k) for k in range(d.weighted([(5, 1), (3, 2), (1, 3)]))]
    lives = []
    for life in range(d.weighted([(5, 1), (3, 2), (1, 3)])):
        knobs = draw_knobs(d)
        steps = []
        for _ in range(d.weighted([(4, 1), (3, 2), (2, 3), (1, 4)])):
            s = d.raw(len(slots))
            op = slots[s].op(d)
            f = draw_fault(d, KINDS) if d.bool(0.3) else None
            steps.append(["call", s, op, f])
            if d.bool(0.2):
                steps.append(["recheck", d.raw(len(slots)), None, None])
            if d.bool(0.08) and op.dests and not (f and f["kind"] in ("crash", "powercut")):
                steps.append(["spoil", s, op, [d.raw(4), d.raw(10 ** 6), d.bool(0.5)]])
                steps.append(["call", s, op, None])
            if f and f["kind"] in ("crash", "powercut"):
                break
        lives.append((knobs, steps))
    for s in slots:
        ctx.mkdir(s.dir)
    # what the scenario says
    for i, (knobs, steps) in enumerate(lives):
        ctx.say("process {}: {}".format(i + 1, {k: v for k, v in knobs.items() if v}))
        for what, s, op, f in steps:
            if what == "call":
                ctx.say("  in {}{}: {}{}".format(slots[s].dir, " (cwd)" if slots[s].cwd else "", op.describe(),
                                                 show_fault(f)))
            elif what == "spoil":
                ctx.say("  another program writes {} bytes into {}, the call is made again".format(
                    ["zero", "other", "swapped", "some other"][f[0]], slots[s].dir))
            else:
                ctx.say("  re-read what {} should hold".format(slots[s].dir))
    started = set()
    last = {}  # slot -> acknowledged op
    info = {"acked": 0, "ops": []}

    for i, (knobs, steps) in enumerate(lives):
        def body(sim, tell, steps=steps):
            known = dict(last)
            for n, (what, s, op, f) in enumerate(steps):
                slot = slots[s]
                root = os.path.join(ctx.root, slot.dir)
                if what == "recheck":
                    if known.get(s) is not None:
                        use_dir(slot, known[s], root)
                        bad = verify(sim, known[s], None)
                        if bad:
                            raise Violation("{} {} re-read".format(ctx.prop, known[s].kind),
                                            "re-reading later in the same process: {}: {}".format(
                                                known[s].describe(), bad))
                        tell(("rechecked", s))
                    continue
                use_dir(slot, op, root)
                if what == "spoil":
                    known[s] = None
                    spoil(op, f)
                    tell(("failed", s))
                    continue
                if slot.junk and s not in started and op.dests:
                    rwrite(op.p(op.dests[0]), junk(slot.junk_seed))
                started.add(s)
                tell(("start", s, n))
                known[s] = None
                fault = None
                if f:
                    k = count_events(sim, op, root, [f])
                    fault = place_fault(f, k)
                    if f["kind"] == "powercut":
                        tell(("old", s, {x: rread(op.p(x)) for x in op.dests}))
                o = attempt(sim, op, fault)
                if o.kind == "hang":
                    raise Violation("{} {} hang".format(ctx.prop, op.kind), "{}: {}".format(op.describe(), o.exc))
                if o.kind == "raised":
                    if not o.fault_fired:
                        raise Violation("{} {} refused".format(ctx.prop, op.kind),
                                        "a valid call was refused: {}: {}".format(op.describe(), o.exc))
                    tell(("failed", s))
                    continue
                bad = verify(sim, op, o.value)
                if bad:
                    raise Violation(
                        "{} {} {}".format(ctx.prop, op.kind, "after " + fault["kind"] if o.fault_fired else "result"),
                        "{}{}: {}".format(op.describe(), show_fault(f) if o.fault_fired else "", bad))
                if op.dests:
                    known[s] = op
                    tell(("acked", s, n))
                else:
                    tell(("read", s, n))

        msgs, crashed = ctx.process(body, knobs, "process {}".format(i + 1))
        old = {}
        cur = None
        for m in msgs:
            if m[0] == "start":
                started.add(m[1])
                last[m[1]] = None
                cur = m[2]
                info["ops"].append(steps[m[2]][2].kind)
            elif m[0] == "acked":
                last[m[1]] = steps[m[2]][2]
                info["acked"] += 1
                ctx.probe("acknowledged and read back")
            elif m[0] == "read":
                info["acked"] += 1
                ctx.probe("read and compared")
            elif m[0] == "failed":
                ctx.probe("failed with an error")
            elif m[0] == "rechecked":
                ctx.probe("re-read later in the process")
            elif m[0] == "old":
                old = m[2]
        if crashed:
            ctx.probe("crashed inside a call")
            what, s, op, f = steps[cur]
            if crashed == "powercut":
                for x in op.dests:
                    if os.path.join(slots[s].dir, x) in ctx.in_flight:
                        residue(f, os.path.join(ctx.root, slots[s].dir, x), old.get(x))
    # recovery: a fresh process, no faults

    def body(sim, tell):
        for s in sorted(last):
            op = last[s]
            if op is None:
                continue
            use_dir(slots[s], op, os.path.join(ctx.root, slots[s].dir))
            bad = verify(sim, op, None)
            if bad:
                raise Violation("{} {} fresh process".format(ctx.prop, op.kind),
                                "re-reading in a fresh process: {}: {}".format(op.describe(), bad))
            tell(s)

    if any(last.values()):
        msgs, _ = ctx.process(body, {}, "fresh process")
        ctx.probe("re-read in a fresh process", len(msgs))
    info["nontrivial"] = info["acked"] > 0
    return info


def spoil(op, how):
    """Another program puts as many other bytes into a destination of the last call, with its time stamp or not."""
    kind, u, stamp = how
    there = [x for x in op.dests if os.path.isfile(op.p(x))]
    if not there:
        return
    path = op.p(there[u % len(there)])
    b, st = rread(path), os.stat(path)
    if kind == 0:
        b = b"\0" * len(b)
    elif kind == 1:
        b = (junk(u) * (len(b) // 100 + 1) + b"\n" * len(b))[: len(b)]
    elif kind == 2:
        b = b[len(b) // 2:] + b[: len(b) // 2]
    else:
        k = u % (len(b) or 1)
        b = b[:k] + b"7" * min(20, len(b) - k) + b[k + 20:]
    rwrite(path, b)
    if stamp:
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))


def use_dir(slot, op, root):
    use(op, root, slot.cwd)


def use(op, root, cwd=False):
    if cwd:
        os.chdir(root)
        op.dir = ""
    else:
        op.dir = root


RULE = ("one case = one simulated run: a drawn history of 1-3 process lifetimes over 1-3 destinations with drawn "
        "data, I/O knobs and faults; non-trivial if at least one call was acknowledged (or a read compared) and "
        "checked against the model; distinct by the digest of the complete event log")

"""C09: reading a torn or damaged file ends, with a value or an ordinary error.

A run generates one file of any own format, lets a crash or power loss leave a residue of it (cut at
a byte, zeroed tail, hole, stale tail, empty), reads the residue under a step budget proportional to
its size, and repeats for several cut points; then a good file is read in the same process and must
come out right.
"""
import os

from ..ops import foreign, inputs, meshes, outputs, pool, results, tough
from ..ops.base import Op, rread, rwrite
from ..run import Violation, attempt, do_setup, draw_knobs, verify

RULE = ("one case = one simulated run: one generated file, 4-16 residues of it read, then a good file; non-trivial if "
        "at least one residue is shorter than the file or damaged; distinct by the digest of the complete event log")
COVER = "(format, residue kind, outcome)"

KINDS = [
    (6, inputs.InputRead, {}),
    (5, outputs.OutputRead, {}),
    (6, meshes.MeshRead, {"own": True}),
    (2, tough.ToughMeshRead, {}),
    (7, results.ResultRead, {}),
    (2, foreign.DeckRead, {}),
    (2, foreign.ForeignMesh, {}),
    (2, foreign.ForeignResult, {}),
]


def flavour(op):
    w = getattr(op, "w", op)
    return getattr(w, "rkind", None) or getattr(w, "fmt", op.kind)


class Torn(Op):
    """A read of what is left of a file."""

    def __init__(self, d, op=None):
        super().__init__()
        if op is None:
            cls, kw = d.weighted([(w, (c, k)) for w, c, k in KINDS])
            op = cls(d, **kw)
        self.op = op
        self.kind = op.kind
        self.sources = list(op.sources)
        self.pickle = flavour(op) == "pickle"
        self.how = d.weighted([(6, "prefix"), (2, "line"), (2, "zero"), (1, "empty")] + (
            [] if self.pickle else [(1, "hole"), (2, "stale"), (1, "edge")]))
        self.u, self.v = d.raw(10 ** 6), d.raw(10 ** 6)
        self.data = None
        self.size = 0

    def setup(self):
        self.op.dir = self.dir
        self.op.setup()
        path = self.p(self.op.sources[0])
        rwrite(path, self.residue(rread(path)))

    def prepare(self):
        self.op.prepare()

    def residue(self, good):
        n = len(good)
        k = int(self.u / 1e6 * (n + 1))
        if self.how == "prefix":
            return good[:k]
        if self.how == "line":
            ends = [i + 1 for i, b in enumerate(good) if b == 10] or [n]
            j = ends[int(self.u / 1e6 * len(ends))] + self.v % 5 - 2
            return good[:max(0, min(n, j))]
        if self.how == "zero":
            return good[:k] + b"\0" * (n - k)
        if self.how == "edge":  # the last bytes are missing
            return good[: max(0, n - 1 - self.v % 40)]
        if self.how == "hole":
            m = min(n, k + 1 + self.v % 600)
            return good[:k] + b"\0" * (m - k) + good[m:]
        if self.how == "stale":  # the tail of an older, shifted version
            return good[:k] + good[min(n, self.v % (n + 1)):]
        return b""

    def call(self):
        self.op.dir = self.dir
        return self.op.call()

    def canon(self, value):
        return self.op.canon(value)

    def describe(self):
        return "{} ({}, residue: {} {:.4f})".format(self.op.describe(), flavour(self.op), self.how, self.u / 1e6)


def draw_torn(d):
    return Torn(d)


def budget(size):
    return 200000 + 300 * size


def run(ctx):
    d = ctx.d
    knobs = draw_knobs(d, calm=0.6)
    first = Torn(d)
    residues = [first] + [Torn(d, first.op) for _ in range(d.int(3, 15))]
    good = pool.draw_op(d, pool.READS, pool.WRITES)
    ctx.mkdir("a")
    ctx.mkdir("b")
    ctx.say("knobs {}".format({k: v for k, v in knobs.items() if v}))
    for t in residues:
        ctx.say(t.describe())
    ctx.say("then " + good.describe())
    info = {"ops": [first.kind + " " + str(flavour(first.op))], "cover": [], "nontrivial": False}

    def body(sim, tell):
        op = first.op
        op.dir = os.path.join(ctx.root, "a")
        do_setup(sim, op)
        path = op.p(op.sources[0])
        whole = rread(path)
        for t in residues:
            t.dir = op.dir
            rest = t.residue(whole)
            rwrite(path, rest)
            o = attempt(sim, t, budget=budget(len(rest)), setup=False)
            fmt = str(flavour(op))
            if o.kind == "hang":
                raise Violation("C09 {} hang".format(fmt), "{} ({} bytes of {}): {}".format(
                    t.describe(), len(rest), len(whole), o.exc))
            if o.stop:
                raise Violation("C09 {} StopIteration".format(fmt), "{} ({} bytes of {}) raised {}".format(
                    t.describe(), len(rest), len(whole), o.exc))
            if o.kind == "raised" and o.exc_type in ("SystemExit", "RecursionError", "MemoryError"):
                raise Violation("C09 {} {}".format(fmt, o.exc_type), "{} ({} bytes of {}) raised {}".format(
                    t.describe(), len(rest), len(whole), o.exc))
            if rest == whole:
                bad = verify(sim, op, o.value) if o.kind == "ok" else "raised " + o.exc
                if bad:
                    raise Violation("C09 {} whole".format(fmt), "{}: the file is whole, but {}".format(t.describe(), bad))
            tell((fmt, t.how, o.kind, rest != whole))
        good.dir = os.path.join(ctx.root, "b")
        o = attempt(sim, good)
        bad = verify(sim, good, o.value) if o.kind == "ok" else o.key()
        if bad:
            raise Violation("C09 later call", "after reading damaged files, {}: {}".format(good.describe(), bad))

    msgs, _ = ctx.process(body, knobs)
    for m in msgs:
        info["cover"].append(m[:3])
        info["nontrivial"] |= m[3]
        ctx.probe("residue read: " + m[2])
    return info

"""Calls that toughio should refuse: arguments corrupted anywhere, sources missing or invalid."""
import os

import numpy as np

from . import cli, inputs, meshes, outputs, series, tough
from .base import Op, rread, rwrite, short


class Opaque(object):
    """A value no writer can print."""

    def __repr__(self):
        return "<opaque>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        if spec:
            raise TypeError("unsupported format string")
        return "<opaque>"


BAD = [
    ("an opaque object", lambda: Opaque()),
    ("a word", lambda: "not a number"),
    ("an empty string", lambda: ""),
    ("None", lambda: None),
    ("-1", lambda: -1),
    ("nan", lambda: float("nan")),
    ("inf", lambda: float("inf")),
    ("an empty list", lambda: []),
    ("an empty dict", lambda: {}),
    ("a ragged list", lambda: [[1.0], [2.0, 3.0], "x"]),
    ("a list of words", lambda: ["a", "b"]),
    ("a complex number", lambda: 1j),
    ("an array of words", lambda: np.array(["a", "b"])),
    ("bytes", lambda: b"abc"),
    ("a long string", lambda: "x" * 200),
    ("a list of opaque objects", lambda: [Opaque(), Opaque()]),
    ("True", lambda: True),
    ("a set", lambda: {1, 2}),
    ("a function", lambda: len),
    ("an empty array", lambda: np.zeros(0)),
    ("a 3D array", lambda: np.ones((2, 2, 2))),
    ("a lambda", lambda: (lambda: 0)),
    ("non-ASCII text", lambda: "caf\u00e9 \u4e2d"),
]


def paths(x, prefix=(), depth=0):
    """All places inside nested dicts, lists and tuples."""
    yield prefix
    if depth > 6:
        return
    if isinstance(x, dict):
        for k in x:
            for p in paths(x[k], prefix + (("k", k),), depth + 1):
                yield p
    elif isinstance(x, (list, tuple)):
        for i in range(len(x)):
            for p in paths(x[i], prefix + (("i", i),), depth + 1):
                yield p
    elif isinstance(x, np.ndarray) and x.ndim and len(x):
        for i in (0, len(x) // 2, len(x) - 1):
            yield prefix + (("a", i),)


def put(x, path, bad):
    """x with bad at path (containers along the path are copied)."""
    if not path:
        return bad
    how, k = path[0]
    if how == "k":
        y = dict(x)
        y[k] = put(x[k], path[1:], bad)
        return y
    if how == "a":
        y = np.empty(len(x), dtype=object)
        for i in range(len(x)):
            y[i] = x[i]
        y[k] = bad
        return y
    if hasattr(x, "_fields"):
        v = list(x)
        v[k] = put(v[k], path[1:], bad)
        return type(x)(*v)
    y = list(x)
    y[k] = put(x[k], path[1:], bad)
    return tuple(y) if isinstance(x, tuple) else y




def corrupt(d, x):
    ps = [p for p in paths(x)]
    # half of the time deep inside
    p = d.pick(ps)
    if d.bool(0.5):
        m = max(len(q) for q in ps)
        p = d.pick([q for q in ps if len(q) >= min(m, 3)] or ps)
    name, make = d.pick(BAD)
    where = "".join("[{!r}]".format(k) for _, k in p)
    return put(x, p, make()), "{} at {}".format(name, where or "the top")


class RefusedInput(inputs.InputWrite):
    def __init__(self, d):
        super().__init__(d)
        self.extra = {}
        m = d.raw(10)
        if m == 0:
            self.extra = d.pick([{"file_format": "word"}, {"block": "everything"}, {"block": ["mesh", 3]},
                                 {"file_format": 12}])
            self.what = "with {}".format(self.extra)
        else:
            self.params, self.what = corrupt(d, self.params)
            if m == 1:
                self.params, w = corrupt(d, self.params)
                self.what += " and " + w

    def call(self):
        import toughio

        kw = {"file_format": self.fmt} if self.explicit else {}
        if self.fmt == "tough" and self.block != "all":
            kw["block"] = self.block
        kw.update(self.extra)
        return toughio.write_input(self.p(self.name), self.params, **kw)

    def describe(self):
        return "{} {}".format(super().describe(), self.what)


class RefusedOutput(outputs.OutputWrite):
    def __init__(self, d):
        super().__init__(d)
        self.extra = {}
        if d.raw(12) == 0:
            self.extra = d.pick([{"file_format": "tough"}, {"file_format": "word"}, {"file_format": 7}])
            self.what = "with {}".format(self.extra)
        else:
            self.outputs, self.what = corrupt(d, self.outputs)

    def call(self):
        import toughio

        kw = {"file_format": self.fmt} if self.explicit else {}
        kw.update(self.extra)
        return toughio.write_output(self.p(self.name), self.outputs, **kw)

    def describe(self):
        return "{} {}".format(super().describe(), self.what)


class RefusedTough(tough.ToughWrite):
    def __init__(self, d):
        super().__init__(d)
        m = d.raw(4)
        # whatever refuses, both files must survive
        self.dests = [self.name, "INCON"]
        if m == 0:
            k = d.pick(["nodal_distance", "material_name", "material_end", "incon", "coord"])
            v, w = d.pick(BAD)[0], None
            v, make = d.pick(BAD)
            self.kw = dict(self.kw)
            self.kw[k] = make()
            self.what = "{} = {}".format(k, v)
        elif m == 1 and self.kw.get("material_name"):
            self.kw = dict(self.kw)
            self.kw["material_name"], self.what = corrupt(d, self.kw["material_name"])
            self.what = "material_name: " + self.what
        else:
            ks = list(self.mesh.cell_data)
            k = d.pick(ks + ["initial_condition", "boundary_condition", "porosity", "permeability"])
            v = self.mesh.cell_data.get(k)
            if v is not None and d.bool(0.6):
                q = d.raw(3)
                if q == 0:
                    v = v[: len(v) // 2]
                    w = "cut in half"
                elif q == 1:
                    v = np.concatenate([v, v])
                    w = "doubled"
                else:
                    name, make = d.pick(BAD)
                    y = v.astype(object)
                    y.reshape(-1)[d.raw(y.size)] = make()
                    v, w = y, "with an entry that is " + name
            else:
                name, make = d.pick(BAD)
                v, w = make(), "= " + name
                if d.bool(0.4):
                    z = np.empty(self.T.M.n_cells, dtype=object)
                    for i in range(len(z)):
                        z[i] = make()
                    v, w = z, "full of " + name
            self.mesh.cell_data[k] = v
            self.what = "cell_data[{}] {}".format(k, w)

    def describe(self):
        return "{} {}".format(super().describe(), self.what)


class RefusedIncon(RefusedTough):
    kind = "write_incon"

    def __init__(self, d):
        super().__init__(d)
        self.dests = [self.name]

    def call(self):
        return self.mesh.write_incon(self.p(self.name))

    def describe(self):
        return "write_incon({!r}) {}".format(self.p(self.name), self.what)


class RefusedMesh(meshes.MeshWrite):
    """Mesh.write to one of toughio's own formats of a mesh, or with options, it cannot hold."""

    def __init__(self, d):
        super().__init__(d, own=True)
        import toughio

        m = d.raw(6)
        mesh = self.mesh
        n = len(mesh.points)
        if m == 0:
            k, v = d.pick([("file_format", "word"), ("file_format", 5), ("protocol", 99), ("protocol", "x"), ("float_fmt", "q"),
                           ("float_fmt", 3), ("binary", "yes"), ("what", 1)])
            self.kw = dict(self.kw)
            self.kw[k] = v
            self.what = "with {}={!r}".format(k, v)
        elif m == 1:
            t, w = d.pick([("hexahedron20", 20), ("quad8", 8), ("line3", 3), ("tetra10", 10), ("triangle6", 6), ("polygon5", 5),
                           ("vertex", 1), ("unheard_of", 2)])
            at = d.pick([0, len(mesh.cells)])
            mesh.cells.insert(at, toughio.CellBlock(t, np.arange(w).reshape(1, w) % n))
            for k, v in mesh.cell_data.items():
                mesh.cell_data[k] = np.concatenate([v[:1], v] if not at else [v, v[:1]])
            self.what = "with a cell of type {}".format(t)
        elif m == 2:
            mesh.points = d.pick([lambda p: p[:, :2], lambda p: np.column_stack([p, p]), lambda p: p[: n // 2],
                                  lambda p: p.astype(object), lambda p: p.tolist(), lambda p: p.astype(str)])(mesh.points)
            self.what = "with points of {}".format(getattr(mesh.points, "shape", "a list"))
        elif m == 3:
            name, make = d.pick(BAD)
            mesh.field_data = dict(mesh.field_data)
            mesh.field_data[d.pick(list(mesh.field_data) + ["NEW"])] = make()
            self.what = "with field data that is " + name
        else:
            data = d.pick([mesh.point_data, mesh.cell_data])
            k = d.pick(list(data) + ["material"] if data is mesh.cell_data else list(data) + ["new"])
            v = data.get(k)
            q = d.raw(4)
            if v is None or q == 3:
                name, make = d.pick(BAD)
                v, w = make(), "= " + name
            elif q == 0:
                v, w = v[: len(v) // 2], "cut in half"
            elif q == 1:
                v, w = np.concatenate([v, v]), "doubled"
            else:
                name, make = d.pick(BAD)
                y = np.array(v).astype(object)
                y.reshape(-1)[d.raw(y.size)] = make()
                v, w = y, "with an entry that is " + name
            data[k] = v
            self.what = "data {} {}".format(k, w)

    def call(self):
        import toughio

        kw = dict(self.kw)
        if self.explicit and "file_format" not in kw:
            kw["file_format"] = self.fmt
        if self.via:
            return self.mesh.write(self.p(self.name), **kw)
        return toughio.write_mesh(self.p(self.name), self.mesh, **kw)

    def describe(self):
        return "{} {}".format(super().describe(), self.what)


class RefusedSeries(series.TimeSeries):
    """Arguments write_time_series checks itself."""

    def __init__(self, d):
        super().__init__(d)
        m = d.raw(6)
        if m == 0:
            self.a_t = d.pick([(lambda: 5.0), (lambda: "0 1 2"), (lambda: {0: 1})])()
            self.what = "time_steps of a wrong type"
        elif m == 1:
            self.a_t = list(range(self.nt + d.pick([1, 2, -1]))) or [0.0, 1.0]
            self.what = "time_steps of a wrong length"
        elif m == 2:
            if self.a_pd is not None:
                self.a_pd = {"P": 1}
            else:
                self.a_cd = {"P": 1}
            self.what = "data of a wrong type"
        elif m == 3:
            if self.a_pd is None:
                self.a_pd = [{} for _ in range(self.nt)]
            if self.a_cd is None:
                self.a_cd = [{} for _ in range(self.nt)]
            self.a_cd = self.a_cd + [{}]
            self.what = "point and cell data of different lengths"
        elif m == 4:
            self.a_pd = self.a_cd = None
            self.what = "without data"
        else:
            self.a_pd, self.a_cd = [], []
            self.what = "with empty data"

    def describe(self):
        return "{} {}".format(super().describe(), self.what)


def bad_text(d, good):
    """An invalid version of a source file's content."""
    good = good if isinstance(good, bytes) else good.encode()
    m = d.raw(10)
    lines = good.split(b"\n")
    if m == 0:
        return b"", "empty"
    if m == 1:
        return None, "missing"
    if m == 2:
        return b"no such thing\n" * d.int(1, 30), "text of another kind"
    if m == 3:
        return bytes(255 - (b % 7) for b in good[:500]), "bytes that are not text"
    if m == 4:
        k = d.raw(len(lines))
        return b"\n".join(lines[:k]), "cut at line {}".format(k)
    if m == 5:
        k = d.raw(len(lines))
        return b"\n".join(lines[k:]), "from line {}".format(k)
    if m == 6:
        k = d.raw(len(lines))
        lines[k] = d.pick([b"\xff\xfe\xfa", b"*** *** ***", b"x" * 100, b"1 2 3 4 5 6 7 8 9 10 11 12 13"])
        return b"\n".join(lines), "line {} overwritten".format(k)
    if m >= 8 and good[:1] != b"\x80":  # another name in a record (of a text)
        k = [i for i, x in enumerate(lines) if x.strip()]
        k = k[len(k) - 1 - d.raw((len(k) + m % 2) // (1 + m % 2))] if k else 0
        j = len(lines[k]) - len(lines[k].lstrip())
        lines[k] = lines[k][:j] + b"ZZZ" + lines[k][j + 3:]
        return b"\n".join(lines), "line {} renamed".format(k)
    k = d.raw(len(good) + 1)
    return good[:k], "cut at byte {}".format(k)


class RefusedTool(Op):
    """A command-line tool with a bad source, a bad option, or a source that cannot be read."""

    def __init__(self, d):
        super().__init__()
        self.op = op = d.weighted([
            (3, cli.Merge), (3, cli.Save2Incon), (4, cli.Extract), (3, series.Export), (1, cli.Co2tab)])(d)
        self.kind = op.kind
        self.dests = list(op.dests)
        self.sources = list(op.sources)
        self.own_format = op.own_format
        self.bad = None
        self.argv = None
        self.eread = False
        self.what = ""
        srcs = sorted(set(op.sources) | (set(op.dests) & set(getattr(op, "own_sources", ()))))
        m = d.raw(10)
        if op.kind == "co2tab":
            self.eread, self.what = True, "while the shipped file cannot be read"
        elif m < 5 and srcs:
            self.victim = d.pick(srcs)
            self.seed = [d.raw(10), d.raw(2 ** 20), d.raw(4)]
            self.bad = True
            if op.kind == "extract":  # --split of what is left of one time step: one file without a number
                self.also = [op.out]
            self.what = "with {} {}".format(self.victim, ["empty", "missing", "of another kind", "not text", "cut", "beheaded",
                                                          "damaged", "cut", "with another name", "with another name"][self.seed[0]])
        elif m < 8:
            self.eread, self.what = True, "while a source cannot be read"
        else:
            self.argv = d.pick([[], ["--what"], ["a", "b", "c", "d", "e"], ["-f", "word"], ["--label-length", "12"],
                                ["-t", "99999"], ["-t", "x"], ["--connection", "-f", "tecplot"],
                                ["--voxelize"], ["--origin", "1"]])
            self.what = "with arguments {}".format(self.argv)
        if self.eread:
            # co2tab copies the file of the package in pieces: only its opening is judged
            self.fault = {"kind": "eread", "place": "first" if op.kind == "co2tab" else d.pick(
                ["uniform", "uniform", "first", "last"]), "u": d.raw(10 ** 6),
                          "frac": 0.0, "persist": d.bool(0.4)}

    def setup(self):
        from ..draw import Draw

        self.op.dir = self.dir
        self.op.setup()
        if self.bad:
            good = rread(self.p(self.victim))
            text, _ = bad_text(Draw(choices=self.seed), good)
            if text is None:
                os.unlink(self.p(self.victim))
            else:
                rwrite(self.p(self.victim), text)

    def call(self):
        import toughio

        self.op.dir = self.dir
        if self.argv is None:
            return self.op.call()
        real = getattr(toughio._cli, self.kind)
        extra = list(self.argv)

        def more(argv):
            return real(list(argv) + extra if extra else [])

        # the tool is called with what the op would pass, plus the bad arguments
        setattr(toughio._cli, self.kind, more)
        try:
            return self.op.call()
        finally:
            setattr(toughio._cli, self.kind, real)

    def describe(self):
        return "{} {}".format(self.op.describe(), self.what)


KINDS = [(6, RefusedInput), (5, RefusedOutput), (4, RefusedTough), (2, RefusedIncon), (4, RefusedMesh), (1, RefusedSeries), (6, RefusedTool)]


def draw_refused(d, kinds=KINDS):
    return d.weighted(kinds)(d)

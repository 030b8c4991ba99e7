"""Formats of the user: registration and calls that must reach the functions registered last."""
import os

import numpy as np

from . import meshes
from .base import Op, deep, first_diff, rread, rwrite, short

APIS = ["input", "output", "mesh"]


class UserError(Exception):
    pass


class Fn(object):
    """A reader or writer of the user.  Remembers what it was called with."""

    def __init__(self, api, rw, tag, how, M=None, key=None):
        self.api, self.rw, self.tag, self.how = api, rw, tag, how
        self.M, self.key = M, key
        self.calls = []
        self.last = None

    def blocks(self, v):
        n = np.cumsum([len(c) for _, c in self.M.blocks])[:-1]
        return np.split(v.copy(), n)

    def reader(self, filename, args, kw):
        self.calls.append((filename, args, kw))
        if self.how == "raise":
            raise UserError(self.tag)
        with open(filename, "r") as f:
            text = f.read()
        if self.api == "mesh":
            m = self.M.build()
            m.cell_data = {(self.key if k == "material" else k): self.blocks(v) for k, v in self.M.cell_data.items()}
            m.field_data["tag"] = np.array([len(text), 3])
            self.last = m
        elif self.api == "output":
            self.last = [self.tag, text]
        else:
            self.last = {"tag": self.tag, "text": text}
        return self.last

    def writer(self, filename, data, kw):
        self.calls.append((filename, data, kw))
        if self.how == "raise":
            raise UserError(self.tag)
        seen = None
        if self.api == "mesh":
            seen = (deep(np.asarray(data.points)), tuple((c.type, deep(np.asarray(c.data))) for c in data.cells),
                    tuple((k, tuple(deep(np.asarray(x)) for x in v)) for k, v in data.cell_data.items()))
            data.points = data.points * 2.0
            data.cell_data["scribble"] = []
        self.last = seen
        with open(filename, "w") as f:
            f.write("written by {}\n".format(self.tag) * 3)

    def function(self):
        if self.rw == "write":
            def write(filename, data, **kw):
                return self.writer(filename, data, kw)

            return write
        if self.api == "output":
            def read(filename, file_type, file_format, labels_order, **kw):
                return self.reader(filename, (file_type, file_format, labels_order), kw)
        else:
            def read(filename, **kw):
                return self.reader(filename, (), kw)
        return read


class Table(object):
    """What is registered: the reference model."""

    def __init__(self):
        self.ext = {a: {} for a in APIS}
        self.fn = {a: {"read": {}, "write": {}} for a in APIS}
        self.materials = {"material", "gmsh:physical", "medit:ref", "avsucd:material", "flac3d:group"}
        self.taken_ext = {a: set() for a in APIS}
        self.taken_fmt = {a: set() for a in APIS}


BUILTIN = {"input": ({"tough", "json"}, {".json"}), "output": ({"tough", "csv", "petrasim", "tecplot", "save"}, {".csv", ".tec"}),
           "mesh": ({"tecplot", "avsucd", "flac3d", "pickle", "tough"}, {".dat", ".tec", ".f3grid", ".pickle", ".pkl"})}


class Register(Op):
    kind = "register"

    def __init__(self, d, table, prefix, alone):
        super().__init__()
        self.api = d.pick(APIS)
        name = prefix + d.pick(["alpha", "beta", "gamma"])
        if alone and d.bool(0.15):
            name = d.pick({"input": ["json"], "output": ["csv"], "mesh": ["flac3d", "tecplot"]}[self.api])
        exts = ["." + prefix + x for x in ("abc", "x", "long_ext", "abcd")]
        self.exts = d.subset(exts, 0.5)
        if alone and d.bool(0.15):
            self.exts.append(d.pick({"input": [".json"], "output": [".csv", ".tec"], "mesh": [".dat", ".f3grid"]}[self.api]))
        if name in BUILTIN[self.api][0]:
            table.taken_fmt[self.api].add(name)
        table.taken_ext[self.api] |= set(self.exts) & BUILTIN[self.api][1]
        self.fmt = name
        n = d.raw(10 ** 6)
        tag = "{}-{}-{}".format(self.api, name, n)
        fns = table.fn[self.api]
        self.material = None
        M = key = None
        if self.api == "mesh":
            M = meshes.gen_mesh(d, 3, data=True)
            key = prefix + d.pick(["mat", "zone", "reg:id"])
            if d.bool(0.7):
                self.material = d.pick([key, key, prefix + "other"])
                table.materials.add(self.material)
        self.reader = Fn(self.api, "read", "r" + tag, d.weighted([(6, "value"), (1, "raise")]), M, key)
        self.writer = None
        if name in fns["write"] or name in BUILTIN[self.api][0] or d.bool(0.7):
            self.writer = Fn(self.api, "write", "w" + tag, d.weighted([(6, "value"), (1, "raise")]))
            fns["write"][name] = self.writer
        fns["read"][name] = self.reader
        for x in self.exts:
            table.ext[self.api][x] = name
        self.form = d.pick([list, tuple, np.array])

    def call(self):
        import toughio

        f = {"input": toughio.register_input, "output": toughio.register_output, "mesh": toughio.register_mesh}[self.api]
        kw = {"writer": self.writer.function()} if self.writer else {}
        if self.material:
            kw["material"] = self.material
        f(self.fmt, self.form(self.exts) if self.exts else [], self.reader.function(), **kw)

    def describe(self):
        return "register_{}({!r}, {}, reader {}, writer {}{})".format(
            self.api, self.fmt, self.exts, self.reader.tag, self.writer and self.writer.tag,
            ", material " + self.material if self.material else "")


class Use(Op):
    """A read or write that must reach a registered function."""

    def __init__(self, d, table, prefix):
        super().__init__()
        known = [a for a in APIS if table.fn[a]["read"]]
        self.api = d.pick(known or APIS)
        self.rw = d.pick(["read", "write"])
        ext = sorted(table.ext[self.api].items())
        names = sorted(table.fn[self.api]["read"])
        self.ok = bool(names)
        if not names:
            return
        self.fmt = None
        how = d.raw(3)
        byname = (self.api == "mesh" or (self.api == "output" and self.rw == "write")) and (how == 0 or not ext)
        if self.api == "output" and self.rw == "read":
            # chosen by content
            self.ok = "csv" in names
            if not self.ok:
                return
            fmt, self.name = "csv", "res" + d.pick([".csv", "", ".out"])
        elif byname:
            fmt = self.fmt = d.pick(names)
            self.name = d.pick(["file", "f.dat", "a.b." + prefix + "x"])
        elif self.api == "input" and "json" in names and d.bool(0.3):
            fmt = self.fmt = "json"
            self.name = d.pick(["deck", "deck." + prefix + "x"])
        elif ext:
            e, fmt = d.pick(ext)
            self.name = d.pick(["file", "a.b", ".hid", "x.json"]) + d.pick([e, e, e.upper()])
        else:
            self.ok = False
            return
        self.fn = table.fn[self.api][self.rw].get(fmt)
        self.resolved = fmt
        if self.fn is None and self.api == "mesh" and os.path.splitext(self.name)[1].lower() in BUILTIN["mesh"][1]:
            self.ok = False  # falls to meshio, which may know the extension
            return
        self.kw = {k: d.raw(100) for k in d.subset(["alpha", "beta", "verbose"], 0.3)}
        self.kind = "use_{}_{}".format(self.rw, self.api)
        self.label = None
        self.materials = set(table.materials)
        self.text = '"ELEM","P"\n"","(PA)"\n' + "x" * d.raw(50)
        if self.rw == "read":
            self.sources = [self.name]
            if self.api == "output":
                self.order = d.pick([None, ["a", "b"]])
        else:
            self.dests = [self.name]
            from toughio._io.output._common import Output

            if self.api == "mesh":
                self.M = meshes.gen_mesh(d, 3)
                self.data = self.M.build()
                self.before = deep_mesh(self.data)
            elif self.api == "output":
                o = Output("element", "csv", 1.0, ["a"], {"P": [1.0]})
                self.data = d.pick([o, [o], (o, o)])
            else:
                self.data = {"title": "t", "n": d.raw(9)}

    def setup(self):
        rwrite(self.p(self.name), self.text if self.rw == "read" else "old content")

    def prepare(self):
        if self.fn:
            self.fn.calls = []

    def call(self):
        import toughio

        path = self.p(self.name)
        kw = dict(self.kw)
        if self.fmt:
            kw["file_format"] = self.fmt
        if self.rw == "read":
            if self.api == "output":
                return toughio.read_output(path, labels_order=self.order, **kw)
            return (toughio.read_input if self.api == "input" else toughio.read_mesh)(path, **kw)
        if self.api == "mesh":
            return toughio.write_mesh(path, self.data, **kw)
        return (toughio.write_input if self.api == "input" else toughio.write_output)(path, self.data, **kw)

    def judge(self, o, fault):
        """What is wrong with the outcome."""
        if self.fn is None:
            if o.kind != "raised":
                return "format {!r} has no writer, but the call returned normally".format(self.resolved)
            if rread(self.p(self.name)) != b"old content":
                return "format {!r} has no writer, but the file was changed".format(self.resolved)
            return None
        calls = self.fn.calls
        if len(calls) != 1:
            if fault and not calls and o.kind == "raised":
                return None
            return "{} was called {} times{}".format(self.fn.tag, len(calls),
                                                        ": " + o.exc if o.kind == "raised" else "")
        name, arg, kw = calls[0]
        if name != self.p(self.name):
            return "{} got the file name {!r}".format(self.fn.tag, name)
        kw = dict(kw)
        if self.api == "output" and self.rw == "read":
            if arg[:2] != ("element", "csv") or deep(arg[2]) != deep(self.order):
                return "reader got {}".format(short(arg))
        if kw != self.kw:
            return "{} got the options {} instead of {}".format(self.fn.tag, kw, self.kw)
        if self.fn.how == "raise":
            if o.kind != "raised" or o.exc_type != "UserError" or self.fn.tag not in o.exc:
                return "the error of {} did not arrive: {}".format(self.fn.tag, o.key())
            return None
        if o.kind != "ok":
            if fault:
                return None if o.exc_type in ("OSError", "PermissionError", "FileNotFoundError") else "the I/O error of {} arrived as {}".format(
                    self.fn.tag, o.exc)
            return "raised " + str(o.exc)
        if self.rw == "read":
            if self.api != "mesh":
                want = {"tag": self.fn.tag, "text": self.text} if self.api == "input" else [self.fn.tag, self.text]
                return None if deep(o.value) == deep(want) else "result is not what {} returned: {}".format(self.fn.tag, short(o.value))
            return self.check_mesh(o.value)
        if self.api == "output":
            want = [self.data] if hasattr(self.data, "_fields") else self.data
            if deep(list(arg)) != deep(list(want)):
                return "writer got other data: " + first_diff(deep(list(want)), deep(list(arg)))
        elif self.api == "input":
            if deep(arg) != deep(self.data):
                return "writer got other data: " + short(arg)
        else:
            pts, cells, cd = self.fn.last
            blocks = tuple((t, deep(c)) for t, c in self.M.blocks)
            n = np.cumsum([len(c) for _, c in self.M.blocks])[:-1]
            want = tuple((k, tuple(deep(x) for x in np.split(v, n))) for k, v in self.M.cell_data.items())
            if pts != deep(self.M.points):
                return "writer got other points"
            if cells != blocks:
                return "writer got other cells"
            if sorted(cd) != sorted(want):
                return "writer got other cell data: {} expected {}".format(sorted(k for k, _ in cd), sorted(k for k, _ in want))
            if deep_mesh(self.data) != self.before:
                return "what the writer did to its mesh changed the caller's: " + first_diff(self.before, deep_mesh(self.data))
        got = rread(self.p(self.name))
        if got != ("written by {}\n".format(self.fn.tag) * 3).encode():
            return "the file does not hold what {} wrote: {}".format(self.fn.tag, short(got))
        return None

    def check_mesh(self, m):
        M, key = self.fn.M, self.fn.key
        cd = dict(M.cell_data)
        if "material" in cd:
            v = cd.pop("material")
            cd["material" if key in self.materials else key] = v
        return (meshes.cmp_arr("points", m.points, M.points) or meshes.cmp_blocks(m.cells, M.merged())
                or meshes.cmp_data("point_data", m.point_data, M.point_data, None)
                or meshes.cmp_data("cell_data", m.cell_data, cd, None)
                or (None if int(m.field_data.get("tag", [-1])[0]) == len(self.text) else "field data lost"))

    def describe(self):
        return "{}_{}({!r}{}{}) -> {}".format(
            self.rw, self.api, os.path.basename(self.name), ", file_format=" + self.fmt if self.fmt else "",
            "".join(", {}={}".format(*x) for x in sorted(self.kw.items())), self.fn.tag if self.fn else "no writer")


def deep_mesh(m):
    return (deep(m.points), tuple((c.type, deep(np.asarray(c.data))) for c in m.cells), deep(m.point_data), deep(m.cell_data),
            deep(m.field_data))

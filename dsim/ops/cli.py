"""Command-line file tools: merge, save2incon, co2tab, extract."""
import os

import numpy as np

from .base import Op, rread, rwrite, short
from .inputs import labels as gen_labels
from .outputs import compare_steps
from .results import Stub
from .tough import ELEME


def text_lines(d, n):
    out = []
    for _ in range(n):
        m = d.raw(5)
        if m == 4:  # names that look like keywords
            out.append("{:5}{:>5}    2600.0       0.1\n".format(
                d.pick(["ENDPL", "END", "endof", "ENDC", "Start", "ELEM1", "INCO", "CONN", "MESH", "ENDF1", "+++"]), d.raw(3)))
        elif m == 0:
            out.append("\n")
        elif m == 1:
            out.append("rock{}    2    2600.0       0.1  1.00E-15  1.00E-15  1.00E-15       2.0    1000.0\n".format(d.raw(10)))
        elif m == 2:
            out.append(" " + "x" * d.int(0, 90) + "\n")
        else:
            out.append("{:>10}{:>10}{:>10}\n".format(d.raw(1000), d.raw(1000), d.raw(1000)))
    return out


class Merge(Op):
    kind = "merge"

    def __init__(self, d, name=None):
        super().__init__()
        end = d.pick(["ENDCY", "ENDFI", "endcy", "ENDCY----1----*----2"])
        big = d.bool(0.1)
        n = lambda: d.int(0, 200 if big else 6)
        title = d.pick(["title of the run", "End of injection", "ELEMENTS", "rocks", "", "  ENDCY test"])
        A = [title + "\n"] + ["{}----1----*\n".format(d.pick(["ROCKS", "rocks"]))] + text_lines(d, n()) + ["\n"]
        B = ["{}----1----*\n".format(d.pick(["PARAM", "Param"]))] + text_lines(d, n()) + ["\n"]
        C = []
        if d.bool(0.4):
            C = [d.pick(["START", "MULTI", "GENER"]) + "\n"] + text_lines(d, n())
        head = A + B if d.bool(0.8) else B + A
        tail = [end + ("\n" if d.bool(0.8) else "")]
        if tail[0].endswith("\n") and d.bool(0.3):
            tail += d.pick([["\n"], ["ENDFI\n"], ["comment after the end\n", "ENDCY\n"]])
        self.head, self.tail = head + C, tail
        self.mesh = ["ELEME----1----*\n"] + text_lines(d, n()) + ["\n", "CONNE\n"] + text_lines(d, n()) + ["\n"]
        self.incon = None
        if d.bool(0.6):
            self.incon = ["INCON----1----*\n"] + text_lines(d, n()) + ["\n"]
        self.infile = d.pick(["INFILE", "flow.inp", "in put.txt"])
        m = d.raw(6)
        self.out = name or ("MERGED" if m < 4 else self.infile if m == 4 else d.pick(["MESH", "INCON"]))
        if self.out == "INCON" and self.incon is None:
            self.out = "MERGED"
        self.dests = [self.out]
        self.sources = [x for x in [self.infile, "MESH"] + (["INCON"] if self.incon else []) if x != self.out]
        self.own_sources = {self.infile: self.head + self.tail, "MESH": self.mesh, "INCON": self.incon}

    def setup(self):
        for k, v in self.own_sources.items():
            if v is not None:
                rwrite(self.p(k), "".join(v))
            elif os.path.exists(self.p(k)):
                os.unlink(self.p(k))

    def call(self):
        import toughio

        return toughio._cli.merge([self.p(self.infile), self.p(self.out)])

    def verify(self, value):
        want = "".join(self.head + self.mesh + (self.incon or []) + self.tail).encode()
        got = rread(self.p(self.out))
        if got != want:
            return "merged file {} expected {}".format(*byte_diff(got, want))
        for s in self.sources:
            if rread(self.p(s)) != "".join(self.own_sources[s]).encode():
                return "input file {} changed".format(s)
        return None

    def describe(self):
        return "merge {} -> {} ({} + {} + {} lines)".format(
            self.p(self.infile), self.p(self.out), len(self.head), len(self.mesh), len(self.incon or []))


def byte_diff(got, want):
    if got is None:
        return "missing", "{} bytes".format(len(want))
    k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
    return ("of {} bytes, differs at byte {}: {!r}".format(len(got), k, got[max(0, k - 10):k + 30]),
            "{} bytes: {!r}".format(len(want), want[max(0, k - 10):k + 30]))


class Save2Incon(Op):
    kind = "save2incon"

    def __init__(self, d, name=None):
        super().__init__()
        self.stub = Stub(d, "save")
        text = self.stub.text.decode()
        m = d.raw(6)
        if m == 0:  # an INCON file, without counters
            text = text[: text.index("+++")] + "\n"
        elif m == 1:  # trailing comment lines
            text += "\n" * d.int(0, 3)
        self.text = text
        self.reset = d.bool(0.5)
        self.name = d.pick(["SAVE", "save.txt"])
        self.out = name or d.pick(["INCON", "INCON", "incon.out", self.name])
        self.flag = d.pick(["--reset", "-r"])
        self.dests = [self.out]
        self.sources = [self.name] if self.out != self.name else []

    def setup(self):
        rwrite(self.p(self.name), self.text)

    def call(self):
        import toughio

        return toughio._cli.save2incon([self.p(self.name), self.p(self.out)] + ([self.flag] if self.reset else []))

    def verify(self, value):
        want = self.text
        if self.reset:
            k = want.find("\n+++")
            want = (want[: k + 1] if k >= 0 else want) + "\n"
        got = rread(self.p(self.out))
        if got != want.encode():
            return "INCON file {} expected {}".format(*byte_diff(got, want.encode()))
        if self.out != self.name and rread(self.p(self.name)) != self.text.encode():
            return "SAVE file changed"
        return None

    def describe(self):
        return "save2incon {} -> {}{}".format(self.p(self.name), self.p(self.out), " --reset" if self.reset else "")


class Co2tab(Op):
    kind = "co2tab"

    def __init__(self, d, name=None):
        super().__init__()
        self.dests = ["CO2TAB"]

    def call(self):
        import toughio

        return toughio._cli.co2tab([self.dir or "."])

    def verify(self, value):
        import toughio

        want = rread(os.path.join(os.path.dirname(toughio.__file__), "data", "CO2TAB"))
        got = rread(self.p("CO2TAB"))
        return None if got == want else "CO2TAB {} expected {}".format(*byte_diff(got, want))

    def describe(self):
        return "co2tab {}".format(self.dir or ".")


class Extract(Op):
    kind = "extract"

    def __init__(self, d, name=None):
        super().__init__()
        self.conn = d.bool(0.25)
        self.fmt = "csv" if self.conn else d.pick(["csv", "csv", "petrasim", "tecplot"])
        self.stub = st = Stub(d, "listing-conn" if self.conn else "listing-elem", extract=True)
        labs = list(st.elabels)
        if not self.conn:
            labs = labs[: st.n] + (labs[st.n:] if d.bool(0.3) else [])
        rng = np.random.RandomState(d.raw(2 ** 31))
        c = np.round(rng.uniform(-999, 999, (len(labs), 3)), d.pick([0, 1]))
        c[:, d.raw(3)] *= d.pick([1.0, 0.0, 1000.0])
        self.centers = {}
        L = st.L
        rec = []
        for lab, xyz in zip(labs, c):
            t = ["{:10.3e}".format(x) for x in xyz]
            self.centers[lab] = np.array([float(x) for x in t])
            w = ELEME[L]
            rec.append(lab + " " * (w[1] + w[2]) + "rock1" + "{:10.4e}".format(rng.rand() + 0.1) + " " * 20 + "".join(t) + "\n")
        rec = d.shuffle(rec) if len(rec) < 60 else rec
        self.meshtext = "ELEME----1----*\n" + "".join(rec) + "\n"
        if d.bool(0.5):
            self.meshtext += "CONNE\n\n"
        self.split = d.bool(0.35)
        self.give_L = d.bool(0.3)
        self.infile, self.mesh = "OUTPUT.out", d.pick(["MESH", "mesh.txt"])
        ext = {"csv": ".csv", "tecplot": ".tec", "petrasim": ".csv"}[self.fmt]
        self.out = name or d.pick(["res", "OUTPUT_ELEME", "out.v1"]) + ext
        self.default = name is None and self.out == "OUTPUT_ELEME" + ext and not self.conn and d.bool(0.6)
        if self.split and st.nt > 1:
            head, e = os.path.splitext(self.out)
            self.dests = ["{}_{}{}".format(head, i + 1, e) for i in range(st.nt)]
        else:
            self.dests = [self.out]
        self.sources = [self.infile, self.mesh]
        head, e = os.path.splitext(self.out)
        self.beside = ["{}_{}{}".format(head, i, e) for i in [0, 1, st.nt + 1, st.nt + 2]] + [self.out]
        # what the tool must write
        self.want = []
        for t, labels, data in st.want:
            if self.conn:
                xyz = np.array([(self.centers[a] + self.centers[b]) / 2.0 for a, b in labels])
            else:
                xyz = np.array([self.centers[a] for a in labels])
            data = dict(data)
            data.update({"X": xyz[:, 0], "Y": xyz[:, 1], "Z": xyz[:, 2]})
            self.want.append((t, labels, data))

    def setup(self):
        rwrite(self.p(self.infile), self.stub.text)
        rwrite(self.p(self.mesh), self.meshtext)

    def call(self):
        import toughio

        argv = [self.p(self.infile), self.p(self.mesh)]
        if not (self.default and self.dir == ""):
            argv += ["-o", self.p(self.out)]
        if self.fmt != "csv":
            argv += ["-f", self.fmt]
        if self.give_L:
            argv += ["-l", str(self.stub.L)]
        if self.split:
            argv += ["--split"]
        if self.conn:
            argv += ["--connection"]
        return toughio._cli.extract(argv)

    def verify(self, value):
        import toughio

        typ = "connection" if self.conn else "element"
        if len(self.dests) > 1:
            parts = [(x, [w]) for x, w in zip(self.dests, self.want)]
        else:
            parts = [(self.dests[0], self.want)]
        for name, want in parts:
            e = compare_steps(toughio.read_output(self.p(name)), want, typ, self.fmt)
            if e:
                return "{}: {}".format(name, e)
        if rread(self.p(self.infile)) != self.stub.text or rread(self.p(self.mesh)) != self.meshtext.encode():
            return "an input file changed"
        return None

    def describe(self):
        return "extract {} ({} steps x {} rows, L={}) -> {} fmt={}{}{}".format(
            self.p(self.infile), self.stub.nt, self.stub.n, self.stub.L, ",".join(self.dests[:3]), self.fmt,
            " --connection" if self.conn else "", " --split" if self.split else "")

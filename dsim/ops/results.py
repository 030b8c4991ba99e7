"""A stub TOUGH simulator: the result files a TOUGH run leaves behind, byte by byte.

The text is produced with Fortran-like edit descriptors from a list of time steps; for every
step the number of bytes after which it is completely written is known, so that a run that is
still writing (or was killed) is any prefix of the text.
"""
import re

import numpy as np

from .base import Op, deep, rwrite, short
from .inputs import labels as gen_labels
from .outputs import compare_steps, near

COLS = ["P", "T", "SG", "SW", "X(WAT1)", "X(AIR)", "PCAP", "DG", "DW", "SL", "XAIRG", "X_nacl(l)", "PAIR", "KRG"]
MORE = ["X(CO2)", "YCO2G", "VIS(LIQ.)", "VIS(GAS)", "K(GAS)", "DIFF"]  # equations of state with many variables
CCOLS = ["FLOH", "FLOH/FLOF", "FLOF", "FLO(GAS)", "FLO(LIQ.)", "VEL(GAS)", "VEL(LIQ.)", "FLO(AQ.)"]


def fnum(v, w, d, style):
    """Fortran Ew.d (style 0), 1PEw.d (style 1): text and the value printed."""
    if v != v:
        return "NaN".rjust(w), float("nan")
    if v == 0.0:
        s = "0.{}E+00".format("0" * d)
        return s.rjust(w), 0.0
    if style == 1:
        m, e = "{:.{}e}".format(v, d).split("e")
        e = int(e)
    else:
        m, e = "{:.{}e}".format(v, d - 1).split("e")
        e = int(e) + 1
        neg = m.startswith("-")
        m = ("-" if neg else "") + "0." + m.lstrip("-").replace(".", "")
    es = "{:+04d}".format(e) if abs(e) > 99 else "E{:+03d}".format(e)
    s = m + es
    if len(s) > w and s.startswith("-0."):
        s = "-" + s[2:]
    return s.rjust(w), float("{}e{}".format(m, e))


EXP = re.compile(r"(?<=[0-9.])([+-][0-9]+)$")


def on_its_way(text, v):
    """v is no number, or what the torn record `text` ends with."""
    if v is None or v != v:
        return True
    t = text.decode("latin-1").replace('"', " ").replace(",", " ").replace("D", "E").split()
    for j in range(len(t[-1]) if t else 0):
        for x in (t[-1][j:], EXP.sub(r"E\1", t[-1][j:])):
            try:
                if near(np.array([v], dtype=float), np.array([float(x)]), 15).all():
                    return True
            except ValueError:
                pass
    return False


def table(d, rng, cols, n, nt):
    """nt arrays of n values per column (values of the model, before printing)."""
    out = []
    for c in cols:
        m = d.raw(6)
        if m == 0:
            f = lambda k: np.arange(1, n + 1) + 10.0 * k
        elif m == 1:
            f = lambda k: rng.uniform(-1, 1, n) * 10.0 ** rng.randint(-8, 9, n)
        elif m == 2:
            f = lambda k: np.where(rng.rand(n) < 0.5, 0.0, rng.rand(n))
        elif m == 3:
            f = lambda k: np.full(n, 1.01325e5 + k)
        elif m == 4:
            f = lambda k: -rng.uniform(1, 9, n) * 1e5
        else:
            f = lambda k: rng.uniform(1, 9, n) * 10.0 ** np.where(rng.rand(n) < 0.1, -120, -3)
        out.append([f(k) for k in range(nt)])
    return out


class Stub(object):
    """text: bytes of the whole file; ends[k]: size at which step k is complete."""

    def __init__(self, d, kind, extract=False, labels=None, pairs=None):
        self.kind = kind
        self.tame = extract  # values another table format can hold, distinct times
        self.L = d.pick([5, 5, 5, 6, 7, 8, 9]) if labels is None else len(labels[0])
        self.rng = np.random.RandomState(d.raw(2 ** 31))
        n = d.size(1, 300 if d.bool(0.15) else 30, (1, 2, 3)) if labels is None else len(labels if pairs is None else pairs)
        nt = d.size(1, 10, (1, 2))
        self.conn = kind in ("listing-conn", "csv-conn")
        labs = gen_labels(d, n + 1, self.L) if labels is None else labels
        self.labels = pairs if pairs is not None else [
            [a, b] for a, b in zip(labs[:-1], labs[1:])] if self.conn else labs[:n]
        self.elabels = labs
        self.n, self.nt = n, nt
        t, self.times = 0.0, []
        for _ in range(nt):
            t += d.int(1, 9999) * 10.0 ** (0 if extract else d.pick([0, 0, 3, 6, -3]))
            self.times.append(t)
        self.buf = []
        self.size = 0
        self.ends = []
        self.rows = []  # (step, row, size when complete)
        self.want = []  # (time, labels, {col: values printed})
        self.nan = d.bool(0.1) and not extract
        getattr(self, kind.split("-")[0])(d)
        self.text = "".join(self.buf).encode("ascii")

    def put(self, s):
        self.buf.append(s)
        self.size += len(s)

    def values(self, d, cols):
        t = table(d, self.rng, cols, self.n, self.nt)
        if self.nan:
            t[-1][0][0] = float("nan")
        return t

    # -- main listing -----------------------------------------------------------------
    def listing(self, d):
        at = " " + "@" * d.pick([5, 40, 130]) + "\n"
        if d.bool(0.5):
            self.put("\n" + at)
        else:
            self.put("1      @@@@@" + "@" * 60 + "\n")
        for _ in range(d.int(0, 5)):
            self.put(d.pick(["\n", " WRITE FILE *VERS* FROM PROGRAM\n", "          SUMMARY OF PROGRAM UNITS USED\n",
                             "          THE TOTAL TIME IS COUNTED IN SECONDS\n", at]))
        width, sep = d.pick([(12, ""), (12, ""), (11, " "), (13, " "), (12, " ")])
        style = d.raw(2)
        digits = 5 if style == 0 else 4
        page = d.pick([0, 0, 5, 45])
        ecols = d.shuffle(COLS + MORE)[: d.int(9, 20)] if d.bool(0.15) else d.shuffle(COLS)[: d.int(1, 8)]
        ccols = d.shuffle(CCOLS)[: d.int(1, 6)]
        both = d.bool(0.6)
        ev = self.values(d, ecols if not self.conn else ccols)
        cols = ccols if self.conn else ecols
        for k in range(self.nt):
            self.put("\n          OUTPUT DATA AFTER (   {},   4)-2-TIME STEPS"
                     "                    THE TIME IS  {:.5E} DAYS\n\n".format(k + 1, self.times[k] / 86400.0))
            self.put(at + "\n")
            self.put(" TOTAL TIME     KCYC   ITER  ITERC   KON            DX1M           DX2M\n")
            ts, tv = fnum(self.times[k], 12, 5, style)
            self.put(" {}      {}      4      4      2        0.21467E+06    0.00000E+00\n\n".format(ts, k + 1))
            self.put(at + "\n")
            if self.conn and both:  # element table first, to be skipped
                self.rows_of(d, self.elabels[: self.n], ["P", "T"], [[np.full(self.n, 1e5)] * self.nt] * 2, k,
                             width, sep, style, digits, page, False)
                self.put(at + "\n")
            printed = self.rows_of(d, self.labels, cols, ev, k, width, sep, style, digits, page, True)
            self.put(at)
            self.ends.append(self.size)
            self.want.append((tv, list(self.labels), {c: np.array(p) for c, p in zip(cols, printed)}))
            if not self.conn and both and len(self.elabels) > 1:
                self.put("\n")
                pairs = [[a, b] for a, b in zip(self.elabels[:-1], self.elabels[1:])]
                self.rows_of(d, pairs, ["FLOH", "FLOF"], [[np.full(self.n, -1.0)] * self.nt] * 2, k,
                             width, sep, style, digits, page, False)
                self.put(at)
            if d.bool(0.3):
                self.put("\n ***** VOLUME- AND MASS-BALANCES *****\n KCYC =  4\n" + at)
        self.put("\n\n END OF TOUGH SIMULATION RUN --- ELAPSED TIME =   0.19E+01 SEC\n" if d.bool(0.7) else "")

    def rows_of(self, d, labs, cols, vals, k, width, sep, style, digits, page, record):
        conn = isinstance(labs[0], list)
        head = (" ELEM1 ELEM2  INDEX   " if conn else " ELEM.  INDEX   ") + "  ".join(
            c.center(width - 2 + len(sep)) for c in cols) + "\n"
        unit = " " * 22 + "  ".join("(X)".center(width - 2 + len(sep)) for _ in cols) + "\n\n"
        printed = [[] for _ in cols]
        self.put(head + unit)
        for i, lab in enumerate(labs):
            if page and i and i % page == 0:
                self.put("\n" + head + unit)
            s = " " + (lab[0] + "  " + lab[1] if conn else lab) + "{:6d}".format(i + 1)
            for j in range(len(cols)):
                txt, v = fnum(float(vals[j][k][i]), width, digits, style)
                s += sep + txt
                printed[j].append(v)
            self.put(s + "\n")
            if record:
                self.rows.append((k, i, self.size))
        return printed

    # -- TOUGH3 CSV ---------------------------------------------------------------------
    def csv(self, d):
        cols = (["X", "Y", "Z"] if d.bool(0.7) else []) + d.shuffle(COLS)[: d.int(1, 8)]
        vals = self.values(d, cols)
        single = self.nt == 1 and d.bool(0.3)
        heads = (["ELEM1", "ELEM2"] if self.conn else ["ELEM"]) + cols
        self.put(",".join('"{:>18}"'.format(h) for h in heads) + "\n")
        self.put(",".join('"{:>18}"'.format("(X)") for h in heads) + "\n")
        style = d.raw(2)
        for k in range(self.nt):
            ts, tv = fnum(self.times[k], 15, 8, style)
            if not single:
                self.put('"TIME [sec]  {}"\n'.format(ts.strip()))
            printed = [[] for _ in cols]
            for i, lab in enumerate(self.labels):
                s = ",".join('"{:>18}"'.format(x) for x in (lab if self.conn else [lab]))
                for j in range(len(cols)):
                    txt, v = fnum(float(vals[j][k][i]), 20, 12, style)
                    s += "," + txt
                    printed[j].append(v)
                self.put(s + "\n")
                self.rows.append((k, i, self.size))
            self.ends.append(self.size)
            self.want.append((None if single else tv, list(self.labels),
                              {c: np.array(p) for c, p in zip(cols, printed)}))

    # -- TOUGH3 Tecplot -------------------------------------------------------------------
    def tecplot(self, d):
        cols = ["X", "Y"] + (["Z"] if d.bool(0.7) else []) + d.shuffle(
            [c for c in COLS if "(" not in c])[: d.int(1, 6)]
        vals = self.values(d, cols)
        if d.bool(0.4):
            self.put('TITLE="TOUGH3 Output"\n')
        self.put("{:>18}".format("VARIABLES       =") + "".join("{:>18}".format(c) for c in cols) + "\n")
        style = d.raw(2)
        for k in range(self.nt):
            ts, tv = fnum(self.times[k], 14, 7, style)
            self.put(' ZONE T="{} SEC"  I = {:8d}\n'.format(ts, self.n))
            printed = [[] for _ in cols]
            for i in range(self.n):
                s = " " * 18
                for j in range(len(cols)):
                    txt, v = fnum(float(vals[j][k][i]), 20, 12, style)
                    s += txt
                    printed[j].append(v)
                self.put(s + "\n")
                self.rows.append((k, i, self.size))
            self.ends.append(self.size)
            self.want.append((tv, None, {c: np.array(p) for c, p in zip(cols, printed)}))

    # -- Petrasim --------------------------------------------------------------------------
    def petrasim(self, d):
        cols = ["X", "Y", "Z"] + d.shuffle(COLS)[: d.int(1, 8)]
        vals = self.values(d, cols)
        self.put(",".join("{:>18}".format(h) for h in ["TIME [sec]", "ELEM", "INDEX"] + cols) + "\n")
        style = d.raw(2)
        for k in range(self.nt):
            ts, tv = fnum(self.times[k], 20, 12, style)
            printed = [[] for _ in cols]
            for i, lab in enumerate(self.labels):
                s = "{},{:>18},{:20d}".format(ts, lab, i + 1)
                for j in range(len(cols)):
                    txt, v = fnum(float(vals[j][k][i]), 20, 12, style)
                    s += "," + txt
                    printed[j].append(v)
                self.put(s + "\n")
                self.rows.append((k, i, self.size))
            self.ends.append(self.size)
            self.want.append((tv, list(self.labels), {c: np.array(p) for c, p in zip(cols, printed)}))

    # -- SAVE ----------------------------------------------------------------------------
    def save(self, d):
        self.nt = 1
        nv = d.pick([1, 2, 3, 4, 4, 5, 6, 8])
        vals = self.values(d, ["X{}".format(i + 1) for i in range(nv)])
        for v in vals:  # SAVE holds 2-digit exponents
            v[0] = np.where(np.abs(v[0]) < 1e-90, 1e-3, v[0])
            v[0] = np.where(np.isnan(v[0]), 1.0, v[0])
        nu = d.pick([0, 0, 0, 1, 3, 5])
        style = d.raw(2)
        self.put("INCON -- INITIAL CONDITIONS FOR{:6d} ELEMENTS AT TIME {:.6E}\n".format(self.n, self.times[0]))
        data = {}
        for i, lab in enumerate(self.labels):
            txt, v = fnum(0.1 + 0.8 * self.rng.rand(), 15, 8, 0)
            data.setdefault("porosity", []).append(v)
            s = lab.ljust(15) + txt
            for _ in range(nu):
                txt, v = fnum(float(self.rng.rand()), 10, 3, 0)
                s += txt
                data.setdefault("userx", []).append(v)
            self.put(s + "\n")
            for a in range(0, nv, 4):
                s = ""
                for j in range(a, min(a + 4, nv)):
                    txt, v = fnum(float(vals[j][0][i]), 20, 13, style)
                    s += txt
                    data.setdefault("X{}".format(j + 1), []).append(v)
                self.put(s + "\n")
            self.rows.append((0, i, self.size))
        self.put("+++\n")
        self.ends.append(self.size)
        self.put("{:5d}{:5d}{:5d}{:15.8E}{:15.8E}\n".format(1, 4, 1, 0.0, self.times[0]))
        data = {k: np.array(v) for k, v in data.items()}
        if nu:
            data["userx"] = data["userx"].reshape(self.n, nu)
        self.want.append((None, list(self.labels), data))

    # -- FOFT / GOFT --------------------------------------------------------------------
    def history(self, d):
        self.nt = d.size(1, 80, (1, 2))
        t, self.times = 0.0, []
        for _ in range(self.nt):
            t += d.int(1, 999)
            self.times.append(t)
        self.n = 1
        cols = d.shuffle(COLS)[: d.int(1, 6)]
        vals = self.values(d, cols)
        quoted = d.bool(0.6)
        if quoted:
            self.put('"{:>18}",'.format("TIME [sec]") + ",".join('"{:>18}"'.format(c) for c in cols) + "\n")
        else:
            self.put("  TIME(S)  " + "  ".join(cols) + "\n")
        data = {c: [] for c in ["TIME"] + cols}
        style = d.raw(2)
        for k in range(self.nt):
            txt, v = fnum(self.times[k], 20, 12, style)
            s = txt
            data["TIME"].append(v)
            for j, c in enumerate(cols):
                txt, v = fnum(float(vals[j][k][0]), 20, 12, style)
                s += ("," if quoted else " ") + txt
                data[c].append(v)
            self.put(s + "\n")
            self.ends.append(self.size)
        self.want = {c: np.array(v) for c, v in data.items()}


KINDS = ["listing-elem", "listing-elem", "listing-conn", "csv-elem", "csv-conn", "tecplot", "petrasim", "save",
         "history"]


class ResultRead(Op):
    """read_output / read_history of a file a TOUGH run wrote (whole, or up to `cut` bytes)."""

    kind = "read_result"

    def __init__(self, d, kind=None, partial=False, name=None):
        super().__init__()
        self.rkind = kind or d.pick(KINDS)
        self.stub = Stub(d, self.rkind)
        self.name = name or {"l": "OUTPUT.out", "c": "OUTPUT_ELEME.csv", "t": "OUTPUT_ELEME.tec",
                             "p": "OUTPUT_ELEME.csv", "s": "SAVE", "h": "FOFT.csv"}[self.rkind[0]]
        self.sources = [self.name]
        self.cut = None
        self.zero = 0
        if partial:
            N = len(self.stub.text)
            self.cut = draw_cut(d, self.stub)
            if self.cut >= N:
                self.cut = None
        self.order = None
        if self.cut is None and self.rkind in ("listing-elem", "csv-elem", "petrasim", "save") and d.bool(0.3):
            o = d.shuffle(self.stub.labels)
            self.order = np.array(o) if d.bool(0.4) else tuple(o) if d.bool(0.3) else o
        self.give_L = self.rkind.startswith("listing") and d.bool(0.3)

    def setup(self):
        t = self.stub.text if self.cut is None else self.stub.text[: self.cut]
        rwrite(self.p(self.name), t)

    def call(self):
        import toughio

        if self.rkind == "history":
            return toughio._io.output.read_history(self.p(self.name)) if not hasattr(
                toughio, "read_history") else toughio.read_history(self.p(self.name))
        kw = {}
        if self.rkind == "listing-conn":
            kw["connection"] = True
        if self.give_L:
            kw["label_length"] = self.stub.L
        if self.order is not None:
            kw["labels_order"] = self.order
        return toughio.read_output(self.p(self.name), **kw)

    def args(self):
        return [self.order]

    def want(self):
        w = self.stub.want
        if self.order is not None:
            out = []
            for t, labs, data in w:
                idx = [labs.index(x) for x in self.order]
                out.append((t, [labs[i] for i in idx], {h: v[idx] for h, v in data.items()}))
            w = out
        return w

    def verify(self, value):
        st = self.stub
        fmt = {"l": "tough", "c": "csv", "t": "tecplot", "p": "petrasim", "s": "save", "h": "history"}[self.rkind[0]]
        typ = "connection" if st.conn else "element"
        if fmt == "history":
            return self.verify_history(value)
        if fmt == "save":
            value = [value] if hasattr(value, "_fields") else value
        if self.cut is None:
            return compare_steps(value, self.want(), typ, fmt, 15, 15)
        done = sum(1 for e in st.ends if e <= self.cut)
        if not isinstance(value, list):
            return "result is {}".format(short(value))
        if len(value) < done:
            return "{} steps were completely written, {} returned".format(done, len(value))
        if len(value) > done + 1:
            return "{} steps were completely written, {} returned".format(done, len(value))
        bad = compare_steps(value[:done], st.want[:done], typ, fmt, 15, 15)
        if bad:
            return "completely written: " + bad
        if len(value) > done:
            return self.verify_partial(value[done], st.want[done], done, typ, fmt)
        return None

    def verify_partial(self, o, w, k, typ, fmt):
        """The step being written: rows that are complete on disk are right, no row is invented."""
        t, labs, data = w
        on_disk = sum(1 for s, i, e in self.stub.rows if s == k and e <= self.cut)
        n = None
        for h, v in o.data.items():
            n = len(v)
            if h not in data:
                return "step being written: unknown column {}".format(h)
            m = min(n, on_disk)
            if n > on_disk + 1:
                return "step being written: {} rows for {} on disk".format(n, on_disk)
            if not near(np.asarray(v, dtype=float)[:m], data[h][:m], 15).all():
                return "step being written: column {} differs in a complete row".format(h)
            if n > on_disk and not self.not_invented(k, on_disk, np.asarray(v, dtype=float)[on_disk], data[h][on_disk]):
                return "step being written: {} = {!r} in the row being written, the file ends with {!r}".format(
                    h, v[on_disk], self.stub.text[: self.cut][-30:])
        if n and fmt != "tecplot":
            m = min(n, on_disk)
            gl = [list(map(str, x)) if typ == "connection" else str(x) for x in o.labels][:m]
            if gl != list(labs)[:m]:
                return "step being written: labels {} expected {}".format(short(gl), short(labs[:m]))
        return None

    def not_invented(self, k, row, v, want):
        """A value of the row being written is the one the simulator was writing, or what has been written of it."""
        if near(np.array([v]), np.array([want]), 15).all():
            return True
        start = max([e for s, i, e in self.stub.rows if e <= self.cut] + [e for e in self.stub.ends if e <= self.cut] + [0])
        return on_its_way(self.stub.text[start: self.cut], v)

    def verify_history(self, value):
        want = self.stub.want
        done = len(self.stub.ends) if self.cut is None else sum(1 for e in self.stub.ends if e <= self.cut)
        extra = 0 if self.cut is None else 1
        if not isinstance(value, dict) or (set(value) != set(want) and self.cut is None):
            return "history columns {} expected {}".format(short(list(value)), short(list(want)))
        for k, v in value.items():
            if k not in want:
                if done:
                    return "history: unknown column {}".format(k)
                continue
            v = np.asarray(v, dtype=float)
            if not done <= len(v) <= done + extra:
                return "history: {} rows of {}, {} were written".format(len(v), k, done)
            if not near(v[:done], want[k][:done], 15).all():
                return "history: {} = {} expected {}".format(k, short(v[:done].tolist()), short(want[k][:done].tolist()))
            if len(v) > done and (done >= len(want[k]) or not self.not_invented(0, done, v[done], want[k][done])):
                return "history: {} = {!r} in the row being written, the file ends with {!r}".format(
                    k, v[done], self.stub.text[: self.cut][-30:])
        if done and set(value) != set(want):
            return "history columns {} expected {}".format(short(list(value)), short(list(want)))
        return None

    def describe(self):
        return "read {} ({} steps x {} rows, L={}{}{})".format(
            self.rkind, self.stub.nt, self.stub.n, self.stub.L,
            "" if self.cut is None else ", first {} of {} bytes".format(self.cut, len(self.stub.text)),
            "" if self.order is None else ", labels_order")


class MeshResults(ResultRead):
    """Mesh.read_output: results of a TOUGH run (a file, or what was read from it) put on the mesh."""

    kind = "mesh_results"

    def __init__(self, d, partial=False, name=None):
        from .meshes import gen_mesh

        Op.__init__(self)
        self.M = M = gen_mesh(d, 3, data=d.bool(0.5))
        labels = [str(x) for x in M.build().labels]
        conns = sorted(M.geometry()[2])
        self.rkind = d.pick(["listing-elem", "csv-elem", "petrasim", "save"] + ["listing-conn", "csv-conn"] * bool(conns))
        pairs = None
        if self.rkind.endswith("conn"):
            pairs = [(labels[i], labels[j]) for i, j in (d.shuffle(conns) if d.bool(0.5) else conns)]
            pairs = [[b, a] if d.bool(0.3) else [a, b] for a, b in pairs]
        self.mlabels = labels
        self.stub = Stub(d, self.rkind, labels=d.shuffle(labels) if d.bool(0.6) else list(labels), pairs=pairs)
        self.name = name or {"l": "OUTPUT.out", "c": "OUTPUT.csv", "p": "OUTPUT_ELEME.csv", "s": "SAVE"}[self.rkind[0]]
        self.sources = [self.name]
        self.cut, self.zero, self.order, self.give_L = None, 0, None, False
        self.step = d.raw(2 * self.stub.nt) - self.stub.nt if d.bool(0.6) else -1
        self.given = d.bool(0.4) and not partial
        # a monitoring script: one mesh, read into again and again while the run goes on
        self.steps = [d.raw(2 * self.stub.nt) - self.stub.nt for _ in range(3)] if partial and d.bool(0.7) else None
        self.mesh, self.before, self.calls = None, dict(self.M.cell_data), 0
        self.out = None
        if self.given:
            from toughio._io.output._common import Output

            self.out = [Output("connection" if self.stub.conn else "element", "csv", t, np.array(labs),
                               {h: v.copy() for h, v in data.items()}) for t, labs, data in self.stub.want]
            if self.stub.nt == 1 and d.bool(0.5):
                self.out = self.out[0]
            elif d.bool(0.3):
                self.out = tuple(self.out)
            self.sources = []

    def setup(self):
        if not self.given:
            super().setup()

    def call(self):
        kw = {}
        if self.rkind == "listing-conn" and not self.given:
            kw["connection"] = True
        if self.steps:
            self.step = self.steps[self.calls % 3]
            self.calls += 1
        if self.step != -1:
            kw["time_step"] = self.step
        if self.steps:
            m = self.mesh = self.mesh or self.M.build()
            self.before = {k: np.array(v) for k, v in m.cell_data.items()}
        else:
            m = self.M.build()
        m.read_output(self.out if self.given else self.p(self.name), **kw)
        return m

    def args(self):
        return [self.out] if self.given else None

    def verify(self, mesh):
        st = self.stub
        got = dict(mesh.cell_data)
        done = st.nt if self.cut is None else sum(1 for e in st.ends if e <= self.cut)
        k = self.step if self.step >= 0 else self.step + st.nt
        if self.cut is not None and (self.step < 0 or k >= done):
            return None  # the last step on disk is whichever was being written
        t, labs, data = st.want[k]
        want = dict(self.before)
        if not st.conn:
            idx = [labs.index(x) for x in self.mlabels]
            want.update({h: v[idx] for h, v in data.items()})
        else:
            centers = self.M.geometry()[0]
            at = {x: i for i, x in enumerate(self.mlabels)}
            for h, v in data.items():
                w = np.zeros((self.M.n_cells, 3))
                for (a, b), x in zip(labs, v):
                    u = centers[at[a]] - centers[at[b]]
                    w[at[a] if x > 0 else at[b]] += x * u / np.linalg.norm(u)
                want[h] = w
        if set(got) != set(want):
            return "cell data {} expected {}".format(sorted(got), sorted(want))
        for h, w in want.items():
            g = np.asarray(got[h])
            if g.shape != w.shape:
                return "cell data {}: shape {} expected {}".format(h, g.shape, w.shape)
            if st.conn and h in data:
                ok = np.isnan(w) | (np.abs(g - w) <= 1e-9 * np.nanmax(np.abs(w))) if not np.isnan(w).all() else [True]
            else:
                ok = near(g, w, 15)
            if not np.all(ok):
                i = tuple(map(int, np.argwhere(~np.asarray(ok))[0]))
                return "cell data {}{}: {!r} expected {!r} (cell {})".format(h, list(i), g[i], w[i], self.mlabels[i[0]])
        if deep(np.asarray(mesh.points)) != deep(self.M.points):
            return "points of the mesh changed"
        return None

    def describe(self):
        return "Mesh.read_output({}, time_step={}) on {} cells: {}".format(
            "Output" if self.given else self.p(self.name), self.step, self.M.n_cells, super().describe())


def draw_cut(d, stub):
    """A byte at which the simulator stopped: near a step end, a row end, or anywhere."""
    N = len(stub.text)
    m = d.raw(4)
    if m == 0:
        c = d.pick(stub.ends) + d.int(-2, 3)
    elif m == 1 and stub.rows:
        c = stub.rows[d.raw(len(stub.rows))][2] + d.int(-2, 2)
    elif m == 2:
        nl = [i + 1 for i, b in enumerate(stub.text) if b == 10]
        c = d.pick(nl)
    else:
        c = d.raw(N + 1)
    return max(0, min(N, c))


class ResultReadPartial(ResultRead):
    def __init__(self, d, **k):
        super().__init__(d, partial=True, **k)

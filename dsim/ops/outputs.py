"""Result tables toughio writes and reads (CSV, Petrasim, Tecplot)."""
import numpy as np

from .base import Op, close_e, short
from .inputs import labels as gen_labels

EXT = {"csv": ".csv", "petrasim": ".csv", "tecplot": ".tec"}
NAMES = ["P", "T", "PRES", "TEMP", "SAT_G", "SAT_L", "PCAP_GL", "DEN_G", "X(WAT1)", "X_nacl(l)", "Pres", "k1",
         "DW", "VOL", "ELEVATION", "ELEM2", "POR", "HEAT", "FLOW", "VEL_G"]


def gen_values(d, rng, n, exp=30):
    """n numbers: smooth, huge, tiny, negative, zero."""
    m = d.raw(6)
    if m == 0:
        v = np.arange(n, dtype=float)
        if d.bool(0.1):  # what a listing gives for asterisks
            v[rng.rand(n) < 0.2] = d.pick([np.nan, np.nan, np.inf, -np.inf])
    elif m == 1:
        v = rng.uniform(-1.0, 1.0, n) * 10.0 ** rng.randint(-exp, exp, n)
    elif m == 2:
        v = rng.uniform(-1.0, 1.0, n)
        v[rng.rand(n) < 0.3] = 0.0
    elif m == 3:
        v = np.full(n, 1.01325e5)
    elif m == 4:
        v = -np.abs(rng.normal(size=n)) * 1e5
    else:
        v = rng.uniform(1.0, 10.0, n)
    return v


def gen_tables(d, fmt, typ, nmax=400, steps_max=12):
    """Time steps (model) in the domain of a format."""
    L = d.pick([5, 5, 5, 6, 7, 8, 9])
    n = d.size(1, nmax if d.bool(0.15) else 25, (1, 2, 3))
    nt = d.size(1, steps_max, (1, 2))
    rng = np.random.RandomState(d.raw(2 ** 31))
    labs = gen_labels(d, n + 1, L)
    if typ == "connection":
        labs = [[a, b] for a, b in zip(labs[:-1], labs[1:])]
    else:
        labs = labs[:n]
    coords = []
    if fmt == "tecplot":
        coords = ["X", "Y"] + (["Z"] if d.bool(0.7) else [])
    elif d.bool(0.6):
        coords = d.pick([["X", "Y", "Z"], ["X"], ["X", "Z"], ["Y", "Z"], ["X", "Y"], ["Z"]])
    names = d.shuffle(NAMES)[: d.int(1, 8)]
    headers = list(coords) + names
    if d.bool(0.3):
        headers = d.shuffle(headers)
    times = []
    t = 0.0
    for _ in range(nt):
        t += d.int(1, 9999) * 10.0 ** d.pick([0, 0, 3, -3, 6])
        times.append(t)
    if fmt != "petrasim" and d.bool(0.2):
        times = d.shuffle(times)
    elif fmt == "petrasim" and d.bool(0.3):
        times = d.shuffle(times)
    if d.bool(0.2):
        times[0] = 0.0 if all(x != 0.0 for x in times[1:]) else times[0]
    if fmt != "petrasim" and nt > 1 and d.bool(0.15):  # before and after an event
        k = d.int(1, nt - 1)
        times[k] = times[k - 1]
    exp = 30
    part = fmt != "csv" and n > 1 and d.bool(0.12)  # not every row at every step
    steps = []
    base = {h: gen_values(d, rng, n, exp) for h in headers}
    for k in range(nt):
        data = {}
        for h in headers:
            data[h] = base[h] if h in coords or k == 0 else base[h] * (1.0 + 0.25 * k) + (
                0.0 if d.bool(0.3) else float(k))
        ll = labs
        if k and part and d.bool(0.5):
            rows = sorted(d.subset(range(n), 0.6)) or [0]
            steps.append((times[k], [labs[i] for i in rows], {h: v[rows] for h, v in data.items()}))
            continue
        if k and typ == "element" and fmt != "tecplot" and d.bool(0.1):
            ll = d.shuffle(labs)
        steps.append((times[k], list(ll), data))
    return steps, headers, L


class OutputWrite(Op):
    kind = "write_output"

    def __init__(self, d, name=None, fmt=None):
        super().__init__()
        import toughio
        from toughio._io.output._common import Output

        self.fmt = fmt or d.pick(["csv", "csv", "petrasim", "tecplot"])
        self.type = "connection" if self.fmt == "csv" and d.bool(0.3) else "element"
        self.steps, self.headers, self.L = gen_tables(d, self.fmt, self.type)
        explicit = d.bool(0.4) or name is not None or self.fmt == "petrasim"
        if name is None:
            name = d.pick(["OUTPUT_ELEME", "res", "out.put"]) + EXT[self.fmt]
            if explicit and d.bool(0.3):
                name = "result"
        self.name = name
        self.explicit = explicit
        self.dests = [name]
        form = d.raw(4)  # arrays, lists, None entries (csv only), single precision
        self.none = {}
        outs = []
        for k, (t, labs, data) in enumerate(self.steps):
            dd = {}
            for h in self.headers:
                v = data[h]
                if form == 1:
                    dd[h] = v.tolist()
                elif form == 3 and h in ("SAT_G", "X"):
                    data[h] = v.astype(np.float32).astype(float)
                    dd[h] = data[h].astype(np.float32)
                elif form == 2 and self.fmt == "csv" and h not in ("X", "Y", "Z") and d.bool(0.2):
                    w = list(v.tolist())
                    j = d.raw(len(w))
                    w[j] = None
                    v = v.copy()
                    v[j] = 0.0
                    data[h] = v
                    dd[h] = w
                else:
                    dd[h] = v.copy()
            if k and d.bool(0.15):
                dd = {h: dd[h] for h in d.shuffle(list(dd))}
            labels = np.array(labs) if d.bool(0.6) else list(labs)
            if self.fmt == "tecplot" and d.bool(0.3):
                labels = None
            outs.append(Output(self.type, d.pick(["csv", "tough", "save"]), t if d.bool(0.8) else np.float64(t),
                               labels, dd))
        self.outputs = outs[0] if len(outs) == 1 and d.bool(0.5) else tuple(outs) if d.bool(0.2) else outs
        self.order = None
        same = len({len(labs) for _, labs, _ in self.steps}) == 1
        if self.type == "element" and self.fmt != "tecplot" and same and d.bool(0.4):
            o = d.shuffle(self.steps[0][1])
            self.order = np.array(o) if d.bool(0.5) else o

    def call(self):
        import toughio

        kw = {"file_format": self.fmt} if self.explicit else {}
        return toughio.write_output(self.p(self.name), self.outputs, **kw)

    def readback(self):
        import toughio

        if self.order is not None:
            return toughio.read_output(self.p(self.name), labels_order=self.order)
        return toughio.read_output(self.p(self.name))

    def expected(self):
        steps = self.steps
        if self.fmt == "petrasim":
            steps = sorted(steps, key=lambda s: s[0])
        if self.order is not None:
            out = []
            for t, labs, data in steps:
                idx = [labs.index(x) for x in self.order]
                out.append((t, [labs[i] for i in idx], {h: v[idx] for h, v in data.items()}))
            steps = out
        return steps

    def verify(self, value):
        return compare_steps(self.readback(), self.expected(), self.type, self.fmt)

    def args(self):
        return [self.outputs, self.order]

    def describe(self):
        return "write_output({!r}, {} x {} {}s, fmt={}, headers={}, labels_order={})".format(
            self.p(self.name), len(self.steps), len(self.steps[0][1]), self.type, self.fmt,
            ",".join(self.headers), "none" if self.order is None else "given")


def compare_steps(got, want, typ, fmt, pt=None, pv=12, partial_ok=False):
    """None or what differs.  partial_ok: `got` may be a prefix of `want` (complete steps only)."""
    pt = pt if pt is not None else {"csv": 8, "petrasim": 12, "tecplot": 7}.get(fmt, 5)
    if not isinstance(got, list):
        return "result is {}".format(short(got))
    if len(got) > len(want) or (len(got) < len(want) and not partial_ok):
        return "{} time steps (times {}), expected {} ({})".format(
            len(got), short([o.time for o in got]), len(want), short([w[0] for w in want]))
    for k, (o, (t, labs, data)) in enumerate(zip(got, want)):
        if o.type != typ or o.format != fmt:
            return "step {}: type/format {}/{}".format(k, o.type, o.format)
        if t is None:
            if o.time is not None:
                return "step {}: time {} for none".format(k, o.time)
        elif not close_e(o.time, t, pt):
            return "step {}: time {} expected {}".format(k, o.time, t)
        if fmt != "tecplot":
            gl = [list(map(str, x)) if typ == "connection" else str(x) for x in o.labels]
            if gl != [list(x) if typ == "connection" else x for x in labs]:
                return "step {}: labels {} expected {}".format(k, short(gl), short(labs))
        if set(o.data) != set(data):
            return "step {}: columns {} expected {}".format(k, short(list(o.data)), short(list(data)))
        for h, v in data.items():
            w = np.asarray(o.data[h], dtype=float)
            if w.shape != v.shape:
                return "step {}: column {} has shape {} expected {}".format(k, h, w.shape, v.shape)
            bad = ~near(w, v, pv)
            if bad.any():
                i = int(np.argwhere(bad)[0][0])
                return "step {}: {}[{}] = {!r} expected {!r}".format(k, h, i, w.tolist()[i], v.tolist()[i])
    return None


def near(g, w, p):
    """Vectorised close_e."""
    g = np.asarray(g, dtype=float)
    w = np.asarray(w, dtype=float)
    a = np.abs(w)
    with np.errstate(all="ignore"):
        e = np.floor(np.log10(np.where((a == 0) | ~np.isfinite(a), 1.0, a)))
        tol = np.where(a == 0, 0.0, 0.50001 * 10.0 ** (e - p) + 1e-15 * a)
        tol = np.where(a < 1e-290, 1e-290, tol)
        ok = np.abs(g - w) <= np.where(a == 0, 0.0, tol)
    return ok | (g == w) | (np.isnan(g) & np.isnan(w))


class OutputRead(Op):
    """read_output of a file toughio wrote in another process."""

    kind = "read_output"

    def __init__(self, d, name=None, fmt=None):
        super().__init__()
        self.w = OutputWrite(d, name=name, fmt=fmt)
        self.sources = [self.w.name]

    def setup(self):
        self.w.dir = self.dir
        self.w.call()

    def call(self):
        self.w.dir = self.dir
        return self.w.readback()

    def verify(self, value):
        return compare_steps(value, self.w.expected(), self.w.type, self.w.fmt)

    def args(self):
        return [self.w.order]

    def describe(self):
        return "read_output of " + self.w.describe()

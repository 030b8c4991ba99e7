"""Operations: one call of toughio's public interface with generated arguments.

An operation knows the files it reads and the files it may write, how to prepare its
sources, how to make the call, and what the result must be (computed from the generated
data, not by toughio).
"""
import io
import math
import os

import numpy as np

from .. import core


def ropen(path, mode="r"):
    return core.REAL_OPEN(path, mode)


def rread(path):
    try:
        with core.REAL_OPEN(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def rwrite(path, data):
    if isinstance(data, str):
        data = data.encode("utf-8")
    with core.REAL_OPEN(path, "wb") as f:
        f.write(data)


class Op(object):
    kind = "?"
    own_format = True  # all I/O by toughio's own code

    def __init__(self):
        self.dir = ""
        self.dests = []  # names of files this call may create or change
        self.sources = []

    def p(self, name):
        return os.path.join(self.dir, name) if self.dir else name

    def dest_paths(self):
        return [self.p(d) for d in self.dests]

    def setup(self):
        """Create the source files (runs with the simulator off)."""

    def prepare(self):
        """Work of the harness before the call (outside the step budget)."""

    def call(self):
        raise NotImplementedError

    def verify(self, value):
        """None, or what is wrong with the result.  Reads through toughio (fault-free)."""
        return None

    def args(self):
        """Objects handed to toughio that it must not change."""
        return None

    def canon(self, value):
        """Comparable form of the returned value."""
        return deep(value)

    def describe(self):
        return self.kind


# -- comparison helpers ------------------------------------------------------------------
def close_e(got, want, p):
    """got equals want printed with %.<p>e (half a unit of the last printed digit)."""
    if want is None or got is None:
        return got is None and want is None
    try:
        g = float(got)
    except (TypeError, ValueError):
        return False
    w = float(want)
    if w == 0.0 or g == w:
        return abs(g - w) == 0.0
    if math.isnan(w) or math.isnan(g):
        return math.isnan(w) and math.isnan(g)
    e = math.floor(math.log10(abs(w)))
    tol = 0.5000001 * 10.0 ** (e - p) + 1e-15 * abs(w)
    if abs(w) < 1e-300:
        return True
    return abs(g - w) <= tol * 1.0000001


def seq_close(got, want, p):
    got = list(got) if got is not None else []
    want = list(want) if want is not None else []
    return len(got) == len(want) and all(close_e(g, w, p) for g, w in zip(got, want))


def strip_none(x):
    x = list(x) if x is not None else []
    while x and x[-1] is None:
        x.pop()
    return x


def deep(x):
    """A hashable/comparable, order-preserving form of any value toughio returns or takes."""
    import toughio

    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("nd-o", x.shape, tuple(deep(v) for v in x.ravel().tolist()))
        return ("nd", x.dtype.str, x.shape, np.ascontiguousarray(x).tobytes())
    if isinstance(x, dict):
        return ("d",) + tuple((deep(k), deep(v)) for k, v in x.items())
    if type(x).__name__ == "Output" and hasattr(x, "_fields"):
        return ("output",) + tuple(deep(v) for v in x)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(deep(v) for v in x)
    if isinstance(x, float):
        return ("f", type(x).__name__, repr(float(x)))
    if isinstance(x, (np.generic,)):
        return ("g", x.dtype.str, repr(x.item()))
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x
    if isinstance(x, toughio.Mesh):
        return (
            "mesh", deep(np.asarray(x.points)),
            tuple((c.type, deep(np.asarray(c.data))) for c in x.cells),
            deep(x.point_data), deep(x.cell_data), deep(x.field_data),
            deep(x.point_sets), deep(x.cell_sets), x.label_length,
        )
    if hasattr(x, "type") and hasattr(x, "data"):
        return ("cb", x.type, deep(np.asarray(x.data)))
    return ("?", repr(type(x)))


def first_diff(a, b, path=""):
    """Where two deep() values differ."""
    if type(a) is not type(b):
        return "{}: {} != {}".format(path, short(a), short(b))
    if isinstance(a, tuple):
        if len(a) != len(b):
            return "{}: length {} != {}: {} != {}".format(path, len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, path + "/" + str(i if not (
                    isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str)) else x[0]))
        return None
    if a != b:
        return "{}: {} != {}".format(path, short(a), short(b))
    return None


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def exc_key(e):
    if isinstance(e, UnicodeDecodeError):  # the position is that in the chunk read, whose size the simulator picks
        return "{}: {}: {}".format(type(e).__name__, e.encoding, e.reason)
    # one line: some libraries put run numbers and option lists of random order after it
    return "{}: {}".format(type(e).__name__, (str(e).split("\n") or [""])[0][:300])

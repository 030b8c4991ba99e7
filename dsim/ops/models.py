"""Relative permeability and capillary pressure models: objects with parameters that may change.

The reference is the published formula evaluated in plain Python for the parameters the model must
have at that moment.
"""
import copy
import math
import os
import pickle

import numpy as np

from .base import Op, deep, rread, rwrite, short

INF = float("inf")


# -- formulas (TOUGH2 user's guide, appendices G and H) ---------------------------------------------
def _span(x, lo, hi):
    return min(max((x - lo) / (hi - lo), 0.0), 1.0)


def k_linear(s, slmin, sgmin, slmax, sgmax):
    return _span(s, slmin, slmax), _span(1.0 - s, sgmin, sgmax)


def k_pickens(s, x):
    return s ** x, 1.0


def k_corey(s, slr, sgr):
    e = _span(s, slr, 1.0 - sgr)
    return e ** 4, (1.0 - e) ** 2 * (1.0 - e ** 2)


def k_grant(s, slr, sgr):
    e = _span(s, slr, 1.0 - sgr)
    return e ** 4, 1.0 - e ** 4


def k_fatt(s, slr):
    e = _span(s, slr, 1.0)
    return e ** 3, (1.0 - e) ** 3


def k_vgm(s, m, slr, sls, sgr):
    if s >= sls:
        return 1.0, 0.0
    e = max((s - slr) / (sls - slr), 0.0)
    kl = math.sqrt(e) * (1.0 - (1.0 - e ** (1.0 / m)) ** m) ** 2
    if sgr <= 0.0:
        return kl, 1.0 - kl
    h = _span(s, slr, 1.0 - sgr)
    return kl, (1.0 - h) ** 2 * (1.0 - h ** 2)


def k_verma(s, slr, sls, a, b, c):
    e = _span(s, slr, sls)
    return e ** 3, min(max(a + e * (b + e * c), 0.0), 1.0)


def _cap(p, pmax, s):
    p = min(p, abs(pmax))
    return -p * ((1.0 - s) / 0.001 if s > 0.999 else 1.0)


def p_linear(s, pmax, smin, smax):
    return -pmax * (1.0 - _span(s, smin, smax))


def p_pickens(s, p0, slr, sl0, x):
    s = min(max(s, 1.001 * slr), 0.999 * sl0)
    r = s / sl0
    a, b = (1.0 + r) * (sl0 - slr) / (sl0 + slr), 1.0 - r
    return -p0 * math.log(a / b * (1.0 + math.sqrt(1.0 - (b / a) ** 2))) ** (1.0 / x)


def p_trust(s, p0, slr, eta, pe, pmax):
    return _cap(pe + p0 * ((1.0 - s) / (s - slr)) ** (1.0 / eta) if s > slr else INF, pmax, s)


def p_milly(s, slr):
    e = max(s, 1.001 * slr) - slr
    return -97.783 * (1.0 if e >= 0.371 else 10.0 ** (2.26 * (0.371 / e - 1.0) ** 0.25 - 2.0))


def p_vg(s, m, slr, alpha, pmax, sls):
    if s >= sls:
        return 0.0
    e = (s - slr) / (sls - slr)
    return _cap(INF if e <= 0.0 else 1.0 / abs(alpha) * (e ** (-1.0 / m) - 1.0) ** (1.0 - m), pmax, s)


# -- the models and their admissible parameters -----------------------------------------------------
def _frac(d, lo, hi):
    """A number of up to four digits in [lo, hi]."""
    k = 100 if d.bool(0.6) else 1000
    lo, hi = int(math.ceil(lo * k - 1e-9)), int(math.floor(hi * k + 1e-9))
    return (lo + d.raw(hi - lo + 1)) / float(k)


def _pressure(d):
    return d.pick([1.0e6, 1.0e7, 5.0e3, 2.5e5, 1.0, 12340.0])


def g_k_linear(d):
    a, b = _frac(d, 0.0, 0.6), _frac(d, 0.0, 0.6)
    return [a, b, a + 0.25 if d.bool(0.3) else _frac(d, a + 0.02, 1.0), _frac(d, b + 0.02, 1.0)]


def g_two(d):
    a = _frac(d, 0.0, 0.9)
    return [a, _frac(d, 0.0, 0.95 - a)]


def g_vgm(d):
    slr = _frac(d, 0.0, 0.6)
    return [_frac(d, 0.2, 0.95), slr, d.pick([1.0, 1.0, _frac(d, slr + 0.1, 1.0)]), d.pick([0.0, _frac(d, 0.0, 0.3)])]


def g_verma(d):
    if d.bool(0.3):
        return [0.2, 0.895, 1.259, -1.7615, 0.5089]
    slr = _frac(d, 0.0, 0.5)
    return [slr, _frac(d, slr + 0.1, 1.0), _frac(d, 0.5, 1.5), -_frac(d, 0.5, 2.0), _frac(d, 0.0, 1.0)]


def g_p_linear(d):
    a = _frac(d, 0.0, 0.7)
    return [_pressure(d), a, _frac(d, a + 0.02, 1.0)]


def g_p_pickens(d):
    return [_pressure(d), _frac(d, 0.01, 0.8), d.pick([1.0, _frac(d, 1.0, 1.5)]), d.pick([1.0, -1.0, _frac(d, 0.3, 3.0)])]


def g_p_trust(d):
    return [_pressure(d), _frac(d, 0.0, 0.8), d.pick([1.0, _frac(d, 0.3, 3.0)]), d.pick([0.0, 0.8, 1000.0]), _pressure(d) * d.pick([1, -1, 1])]


def g_p_vg(d):
    slr = _frac(d, 0.0, 0.6)
    return [_frac(d, 0.2, 0.95), slr, d.pick([5.105e-4, 1.0e-5, 0.1, -0.001]), _pressure(d), d.pick([1.0, 1.0, _frac(d, slr + 0.1, 1.0), 0.999])]


class Kind(object):
    def __init__(self, module, name, number, formula, params, edges, bad=()):
        self.module, self.name, self.number, self.formula = module, name, number, formula
        self.params, self.edges, self.bad = params, edges, bad
        self.perm = module == "relative_permeability"

    def cls(self):
        import toughio

        return getattr(getattr(toughio, self.module), self.name)


R, C = "relative_permeability", "capillarity"
KINDS = [
    Kind(R, "Linear", 1, k_linear, g_k_linear, lambda p: [p[0], p[2], 1.0 - p[1], 1.0 - p[3]],
         [[0.5, 0.1, 0.5, 0.9], [0.1, 0.9, 0.5, 0.2], [0.1, 0.4, 0.5, 0.4], [0.6, 0.1, 0.5, 0.9]]),
    Kind(R, "Pickens", 2, k_pickens, lambda d: [d.pick([1.0, 2.0, 3.5, 0.5])], lambda p: []),
    Kind(R, "Corey", 3, k_corey, g_two, lambda p: [p[0], 1.0 - p[1]], [[0.5, 0.5], [0.7, 0.4]]),
    Kind(R, "Grant", 4, k_grant, g_two, lambda p: [p[0], 1.0 - p[1]], [[0.5, 0.5], [0.7, 0.4]]),
    Kind(R, "FattKlikoff", 6, k_fatt, lambda d: [_frac(d, 0.0, 0.9)], lambda p: [p[0]], [[1.0], [1.5]]),
    Kind(R, "vanGenuchtenMualem", 7, k_vgm, g_vgm, lambda p: [p[1], p[2], 1.0 - p[3]]),
    Kind(R, "Verma", 8, k_verma, g_verma, lambda p: [p[0], p[1]]),
    Kind(C, "Linear", 1, p_linear, g_p_linear, lambda p: [p[1], p[2]], [[1e6, 0.5, 0.5], [1e6, 0.6, 0.2]]),
    Kind(C, "Pickens", 2, p_pickens, g_p_pickens, lambda p: [p[1], 0.999 * p[2]],
         [[1e6, 0.0, 1.3, 0.8], [1e6, 1.0, 1.3, 0.8], [1e6, 0.3, 0.9, 0.8], [1e6, 0.3, 1.3, 0.0]]),
    Kind(C, "TRUST", 3, p_trust, g_p_trust, lambda p: [p[1]], [[1e6, -0.1, 1.3, 0.8, 1e7], [1e6, 0.3, 0.0, 0.8, 1e7]]),
    Kind(C, "Milly", 4, p_milly, lambda d: [_frac(d, 0.01, 0.8)], lambda p: [p[0]], [[-0.1]]),
    Kind(C, "vanGenuchten", 7, p_vg, g_p_vg, lambda p: [p[1], p[4]], [[0.4, 0.1, 1e-4, -1.0, 1.0]]),
]
BY = {(k.module, k.number): k for k in KINDS}


def sat(d, kind, params):
    """A saturation: anywhere, at a threshold, at an end."""
    m = d.raw(6)
    if m == 0:
        s = d.pick([0.0, 1.0, 0.999, 0.9995, 0.99999, 0.5])
    elif m == 1 and kind.edges(params):
        s = d.pick(kind.edges(params))
    else:
        s = d.raw(2 ** 20 + 1) / 2.0 ** 20
    return min(max(s, 0.0), 1.0)


def clear(kind, params, s):
    # at a jump of the curve but for rounding: either side is right
    jumps = {"Milly": [params[0] + 0.371], "TRUST": [params[1]] if len(params) > 1 else [], "vanGenuchtenMualem": params[2:3]}
    for x in jumps.get(kind.name, []):
        if s != x and abs(s - x) < 1e-9 or kind.name == "Milly" and abs(s - x) < 1e-9:
            s = 0.25 if abs(x - 0.25) > 1e-3 else 0.75
    return s


def wrong(kind, params, s, got):
    """None or how the value of a model at a saturation is wrong."""
    want = kind.formula(s, *params)
    if kind.perm:
        got = tuple(got)
        ok = len(got) == 2 and all(abs(g - w) <= 1e-9 for g, w in zip(got, want))
    else:
        tol = 1e-9 * abs(want)
        if kind.name in ("Linear", "vanGenuchten", "TRUST", "Pickens"):
            # nearly full: differences of nearly equal numbers
            tol += 1e-11 * abs(params[0] if kind.name != "vanGenuchten" else params[3])
            if kind.name == "vanGenuchten" and s < params[4]:
                e = max((s - params[1]) / (params[4] - params[1]), 0.0)
                if e > 0.99:
                    tol += abs(want) * 1e-13 / (1.0 - e)
        ok = np.ndim(got) == 0 and abs(got - want) <= tol
    return None if ok else "{} at {!r} with parameters {} expected {}".format(short(got), s, params, want)


# -- steps -----------------------------------------------------------------------------------------
class Step(Op):
    """One step of a thread; its call returns None or what is wrong."""

    def __init__(self, kind, text, call, io=False):
        super().__init__()
        self.kind, self.text, self.io = kind, text, io
        self.call = call

    def describe(self):
        return self.text


def refused(call, what):
    try:
        r = call()
    except (TypeError, ValueError):
        return None
    return "{} was accepted: {}".format(what, short(r))


class Past(object):
    """Parameters and saturations of earlier steps, used again."""

    LIKE = {"Corey": "Corey Grant", "Grant": "Corey Grant", "Pickens": "FattKlikoff"}

    def __init__(self):
        self.params, self.sats, self.many = [], [], []

    def draw_params(self, d, kind):
        like = [kind.name] + self.LIKE.get(kind.name, "").split() if kind.perm else [kind.name]
        old = [p for k, p in self.params if k.module == kind.module and k.name in like]
        p = list(d.pick(old)) if old and d.bool(0.35) else kind.params(d)
        self.params.append((kind, p))
        return p

    def draw_sat(self, d, kind, p):
        s = d.pick(self.sats[-12:]) if self.sats and d.bool(0.3) else sat(d, kind, p)
        s = clear(kind, p, s)
        self.sats.append(s)
        return s


class Bag(object):
    """The models of one thread: real ones in the child, what they must be at drawing time."""

    def __init__(self, tag, root, past):
        self.tag, self.root, self.past = tag, root, past
        self.real = {}
        self.lists = {}
        self.must = {}
        self.saved = {}

    def forget(self):
        """A new process."""
        self.real, self.must, self.lists = {}, {}, {}


NAMES = ["a", "b", "c"]


def formed(d, p):
    return d.pick([list, list, tuple, np.array])(p)


def state(B, n, kind, p):
    """None or how a model differs from what it must be."""
    m = B.real[n]
    got = m.parameters
    if not isinstance(got, list) or [float(x) for x in got] != [float(x) for x in p]:
        return "parameters of {} are {} expected {}".format(n, short(got), p)
    if type(m) is not kind.cls() or m.id != kind.number:
        return "{} is a {} with ID {}, in TOUGH {}".format(n, type(m).__name__, m.id, kind.number)
    return None


def draw_step(d, B, shared, alone):
    """A step in the present state (B.must), which it changes."""
    n = d.pick(NAMES)
    todo = d.weighted([(3, "new"), (4, "set"), (2, "refuse"), (5, "one"), (6, "many"), (2, "range"), (2, "list"), (1, "show"), (2, "copy"),
                       (2, "save"), (2, "load"), (2 if alone else 0, "deck"), (1 if alone else 0, "plot")])
    if shared and d.bool(0.3) and todo in ("one", "many", "show", "range"):
        n = d.pick(sorted(shared))
        kind, p = shared[n]
        return look(d, B, n, kind, p, todo)
    if todo == "load":
        files = sorted(B.saved)
        if not files:
            return None
        f = d.pick(files)
        kind, p = B.saved[f]
        B.must[n] = (kind, p)
        path = os.path.join(B.root, B.tag + f)

        def call():
            B.real[n] = pickle.loads(rread(path))
            return state(B, n, kind, p)

        return Step("load", "{} = pickle of {} in {}".format(n, kind.name, f), call)
    if todo == "new" or n not in B.must:
        kind = d.pick(KINDS)
        p = B.past.draw_params(d, kind)
        B.must[n] = (kind, p)

        def call():
            B.real[n] = kind.cls()(*p)
            return state(B, n, kind, p)

        return Step("new", "{} = {}.{}({})".format(n, kind.module, kind.name, ", ".join(map(repr, p))), call)
    kind, p = B.must[n]
    if todo == "set":
        q = B.past.draw_params(d, kind)
        given = formed(d, q)
        B.must[n] = (kind, q)
        scribble = not isinstance(given, tuple) and d.bool(0.5)

        def call():
            mine = copy.copy(given)
            im = deep(mine)
            B.real[n].parameters = mine
            if deep(mine) != im:
                return "the parameters given were changed"
            if scribble:  # the caller goes on with his list
                mine[0] = 99.0
            return state(B, n, kind, q)

        return Step("set", "{}.parameters = {}{}".format(n, short(given), ", list used again" if scribble else ""), call)
    if todo == "refuse":
        m = d.raw(3)
        if m == 0 and kind.bad:
            q = d.pick(list(kind.bad))

            def call():
                return refused(lambda: kind.cls()(*q), "{}({})".format(kind.name, q)) or state(B, n, kind, p)

            return Step("refuse", "{}.{}({}) refused".format(kind.module, kind.name, ", ".join(map(repr, q))), call)
        if m == 0 or d.bool(0.2):
            k = d.pick([1, 2.5, 0, -3, "20"])

            def call():
                import matplotlib

                matplotlib.use("Agg")
                import matplotlib.pyplot as plt

                show, plt.show = plt.show, lambda *a, **k: None
                try:
                    return refused(lambda: B.real[n].plot(n=k), "plot(n={!r})".format(k)) or state(B, n, kind, p)
                finally:
                    plt.show = show
                    plt.close("all")

            if alone:
                return Step("refuse", "{}.plot(n={!r}) refused".format(n, k), call)
        q = [x + 0.5 for x in p] + [0.1] if m == 1 or len(p) == 1 else [x + 0.5 for x in p[:-1]]

        def call():
            def go():
                B.real[n].parameters = q

            return refused(go, "parameters = {}".format(q)) or state(B, n, kind, p)

        return Step("refuse", "{}.parameters = {} refused".format(n, q), call)
    if todo == "list":
        def call():
            got = B.real[n].parameters
            got[0] = -1.0
            got.append(3.0)
            return state(B, n, kind, p)

        return Step("list", "{}.parameters changed by the caller".format(n), call)
    if todo == "copy":
        to = d.pick([x for x in NAMES if x != n])
        how = d.pick(["copy", "deepcopy", "again"])
        B.must[to] = (kind, p)

        def call():
            m = B.real[n]
            B.real[to] = copy.copy(m) if how == "copy" else copy.deepcopy(m) if how == "deepcopy" else type(m)(*m.parameters)
            return state(B, to, kind, p) or state(B, n, kind, p)

        return Step("copy", "{} = {} of {}".format(to, how, n), call)
    if todo == "save":
        f = d.pick(NAMES) + ".pickle"
        B.saved[f] = (kind, p)
        path = os.path.join(B.root, B.tag + f)

        def call():
            rwrite(path, pickle.dumps(B.real[n]))
            return state(B, n, kind, p)

        return Step("save", "pickle of {} in {}".format(n, f), call)
    if todo == "deck":
        return deck(d, B)
    return look(d, B, n, kind, p, todo)


def look(d, B, n, kind, p, todo):
    if todo == "one":
        s = B.past.draw_sat(d, kind, p)
        form = d.pick([float, float, np.float64])
        arg = int(s) if s in (0.0, 1.0) and d.bool(0.4) else form(s)

        def call():
            return wrong(kind, p, float(s), B.real[n](arg)) or state(B, n, kind, p)

        return Step("one", "{}({!r}): {}".format(n, arg, kind.name), call)
    if todo == "many":
        k = d.pick([1, 2, 3, 7, 30])
        s = list(B.past.many) if B.past.many and d.bool(0.3) else [B.past.draw_sat(d, kind, p) for _ in range(k)]
        s = [clear(kind, p, x) for x in s]
        k, B.past.many = len(s), s
        arg = formed(d, s)

        def call():
            im = deep(arg)
            got = B.real[n](arg)
            if deep(arg) != im:
                return "the saturations given were changed"
            if np.shape(got) != ((2, k) if kind.perm else (k,)):
                return "result of shape {} for {} saturations".format(np.shape(got), k)
            for i in range(k):
                e = wrong(kind, p, s[i], got[:, i] if kind.perm else got[i])
                if e:
                    return e
            return state(B, n, kind, p)

        return Step("many", "{}({} saturations): {}".format(n, k, kind.name), call)
    if todo == "range":
        x = d.pick([-0.001, 1.0000001, 2.0, -1e-300, float("nan")])
        arg = d.pick([x, [0.2, x, 0.3], np.array([x]), (0.5, x)])

        def call():
            return refused(lambda: B.real[n](arg), "saturation {}".format(short(arg))) or state(B, n, kind, p)

        return Step("range", "{}({}) refused: {}".format(n, short(arg), kind.name), call)
    if todo == "plot":
        k = d.pick([2, 10, 50])

        def call():
            import matplotlib

            matplotlib.use("Agg")
            import matplotlib.pyplot as plt

            show, plt.show = plt.show, lambda *a, **k: None
            try:
                ax = B.real[n].plot(n=k)
            finally:
                plt.show = show
                plt.close("all")
            xs = np.linspace(0.0, 1.0, k)
            lines = ax.get_lines()
            if len(lines) != (2 if kind.perm else 1):
                return "{} lines".format(len(lines))
            for i, l in enumerate(lines):
                x, y = l.get_data()
                if not np.allclose(x, xs):
                    return "saturations {}".format(short(x))
                for a, b in zip(xs, y):
                    w = kind.formula(float(a), *p)
                    w = w[i] if kind.perm else abs(w)
                    if abs(b - w) > 1e-6 * max(abs(w), 1.0) and a not in kind.edges(p):
                        return "curve {} at {} expected {}".format(b, a, w)
            return state(B, n, kind, p)

        return Step("plot", "{}.plot(n={}): {}".format(n, k, kind.name), call)

    def call():
        r = repr(B.real[n])
        for i, x in enumerate(p):
            if "P({}) = {}\n".format(i + 1, x) not in r + "\n" and "P({}) = {!r}\n".format(i + 1, np.float64(x)) not in r + "\n":
                return "shown as {!r}".format(r)
        return state(B, n, kind, p)

    return Step("show", "repr({}): {}".format(n, kind.name), call)


def deck(d, B):
    """Models go into an input file by ID and parameters, and are made again from it."""
    perms = sorted(n for n in B.must if B.must[n][0].perm)
    caps = sorted(n for n in B.must if not B.must[n][0].perm)
    if not perms and not caps:
        return None
    a, b = d.pick(perms) if perms else None, d.pick(caps) if caps else None
    must = {"relative_permeability": B.must.get(a), "capillarity": B.must.get(b)}
    fmt = d.pick(["tough", "json"])
    path = os.path.join(B.root, B.tag + "deck." + ("json" if fmt == "json" else "txt"))
    where = d.pick(["rock", "default"])

    def call():
        import toughio

        block = {"density": 2600.0, "porosity": 0.1}
        for k, n in (("relative_permeability", a), ("capillarity", b)):
            if n is not None:
                m = B.real[n]
                block[k] = {"id": m.id, "parameters": m.parameters}
        if where == "rock":
            P = {"title": "models", "rocks": {"ROCK1": block}}
        else:
            P = {"title": "models", "rocks": {"ROCK1": {"density": 2600.0}}, "default": {k: block[k] for k in must if k in block}}
        toughio.write_input(path, P, file_format=fmt)
        got = toughio.read_input(path, file_format=fmt)
        block = got["rocks"]["ROCK1"] if where == "rock" else got["default"]
        for k, want in must.items():
            if want is None:
                continue
            kind, p = want
            if k not in block:
                return "{} is not in the file".format(k)
            i = block[k]["id"]
            if i != kind.number or BY[k, i] is not kind:
                return "{} {} has ID {} in the file, which is not TOUGH's {}".format(k, kind.name, i, kind.number)
            q = [float(x) for x in block[k]["parameters"][:len(p)]]
            if len(q) != len(p) or any(abs(x - y) > 1e-3 * abs(y) + 1e-30 for x, y in zip(q, p)):
                return "parameters of {} in the file are {} expected {}".format(kind.name, q, p)
        return None

    return Step("deck", "input file ({}) with {}".format(fmt, " and ".join(n for n in (a, b) if n)), call, io=True)


class ModelUse(Op):
    """A piece of the life of some models as one call."""

    kind = "models"

    def __init__(self, d):
        super().__init__()
        self.bag = Bag("u", "", Past())
        self.steps = []
        for _ in range(d.int(2, 12)):
            s = draw_step(d, self.bag, {}, False)
            self.bag.saved = {}
            if s is not None and s.kind != "save":
                self.steps.append(s)

    def call(self):
        self.bag.real = {}
        out = []
        for s in self.steps:
            bad = s.call()
            out.append((s.text, bad))
            if bad:
                break
        return out

    def verify(self, value):
        return next(("{}: {}".format(t, bad) for t, bad in value if bad), None)

    def describe(self):
        return "models: " + "; ".join(s.text for s in self.steps)

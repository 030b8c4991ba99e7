"""Mesh sessions: edits, queries, copies, conversions, saves and reloads of a few meshes.

Every edit has a reference in plain numpy (coordinates are dyadic, so that sums are exact).
Where toughio does not promise an order (points of a pruned mesh, cells of an extruded one),
meshes are compared as sets of cells with their coordinates and data.
"""
import collections
import copy
import os

import numpy as np

from ..draw import Draw
from . import meshes
from .base import Op, deep, exc_key, first_diff, rread, short
from .inputs import rock_name
from .meshes import CHECKS, DIM, Model, cmp_arr, gen_mesh, poly

NAMES = ["a", "b", "c"]
DATA = ["T", "pres", "flag", "vel", "tens"]


# -- the reference model --------------------------------------------------------------------------
class Sheet(Model):
    """What a mesh must hold, with sets, and the radii of a cylindric grid."""

    def __init__(self):
        super().__init__()
        self.point_sets = {}
        self.cell_sets = {}
        self.cyl = False

    def build(self):
        m = super().build()
        m.point_sets = {k: v.copy() for k, v in self.point_sets.items()}
        m.cell_sets = {k: [x.copy() for x in v] for k, v in self.cell_sets.items()}
        return m

    def dims(self):
        return [DIM[t] for t, c in self.blocks for _ in range(len(c))]

    def names(self):
        mat = self.cell_data.get("material")
        if mat is None:
            return [1] * self.n_cells
        d = {int(v[0]): k for k, v in self.field_data.items()}
        return [d[x] for x in mat.tolist()] if d and all(x in d for x in mat.tolist()) else mat.tolist()

    def solid(self):
        return self.n_cells > 0 and all(DIM[t] == 3 for t, _ in self.blocks) and self.points.shape[1] == 3

    def centers(self):
        return np.concatenate([self.points[c].mean(axis=1) for _, c in self.blocks])

    def volumes(self):
        if not self.cyl:
            return np.array(self.geometry()[1])
        out = []
        for _, c in self.cell_list():
            lo, hi = self.points[c].min(axis=0), self.points[c].max(axis=0)
            out.append(np.pi * (hi[0] ** 2 - lo[0] ** 2) * (hi[2] - lo[2]))
        return np.array(out)

    def distinct(self):
        """No point or cell twice."""
        return len({tuple(p) for p in self.points.tolist()}) == len(self.points) and self.clean()

    def clean(self):
        return len({(t, frozenset(c)) for t, c in self.cell_list()}) == self.n_cells

    def used(self):
        return len({k for _, c in self.cell_list() for k in c}) == len(self.points)


def adopt(real, M=None, cyl=False):
    """The state of a mesh that was found right."""
    S = Sheet()
    S.points = np.array(real.points)
    S.blocks = [(c.type, np.array(c.data)) for c in real.cells]
    S.point_data = {k: np.array(v) for k, v in real.point_data.items()}
    S.cell_data = {k: np.array(v) for k, v in real.cell_data.items()}
    S.field_data = {k: np.array(v) for k, v in real.field_data.items()}
    S.point_sets = {k: np.array(v) for k, v in real.point_sets.items()}
    S.cell_sets = {k: [np.array(x) for x in v] for k, v in real.cell_sets.items()}
    S.label_length = real.label_length
    S.cyl = cyl
    return S


def rows(data, n):
    """One hashable value per entity."""
    keys = sorted(data)
    out = [[] for _ in range(n)]
    for k in keys:
        v = np.asarray(data[k])
        for i in range(n):
            out[i].append((k, v.dtype.kind, v[i].tobytes() if v.dtype != object else repr(v[i])))
    return [tuple(x) for x in out]


def shape_of(data, n, what):
    for k, v in data.items():
        if len(v) != n:
            return "{}[{}] has {} rows for {} {}".format(what, k, len(v), n, "points" if what[0] == "p" else "cells")
    return None


def point_keys(points, data):
    return [(tuple(p), r) for p, r in zip(np.asarray(points, dtype=float).tolist(), rows(data, len(points)))]


def cell_keys(points, blocks, data):
    xyz = [tuple(p) for p in np.asarray(points, dtype=float).tolist()]
    r = rows(data, sum(len(c) for _, c in blocks))
    out = []
    for t, c in blocks:
        for row in c:
            out.append((t, place(t, row, xyz), r[len(out)]))
    return out


def place(t, row, xyz):
    """A cell by the coordinates of its faces or edges."""
    if DIM[t] < 2:
        return frozenset(xyz[k] for k in row)
    return frozenset(frozenset(xyz[k] for k in f) for f in poly(t, row)[1])


def same_mesh(real, want, ordered):
    """None or how a mesh differs from a model, any order of points (and cells) allowed."""
    pts = np.asarray(real.points)
    if pts.ndim != 2 or pts.shape[1] != want.points.shape[1]:
        return "points of shape {} expected {}".format(pts.shape, want.points.shape)
    blocks = [(c.type, np.asarray(c.data)) for c in real.cells]
    n = sum(len(c) for _, c in blocks)
    e = shape_of(real.point_data, len(pts), "point_data") or shape_of(real.cell_data, n, "cell_data")
    if e:
        return e
    for what, a, b in (("point_data", real.point_data, want.point_data), ("cell_data", real.cell_data, want.cell_data)):
        if set(a) != set(b):
            return "{} {} expected {}".format(what, sorted(a), sorted(b))
        for k in b:
            if np.asarray(a[k]).shape[1:] != b[k].shape[1:]:
                return "{}[{}] of shape {} expected {}".format(what, k, np.asarray(a[k]).shape, b[k].shape)
    a, b = collections.Counter(point_keys(pts, real.point_data)), collections.Counter(point_keys(want.points, want.point_data))
    if a != b:
        xyz = collections.Counter(tuple(p) for p in pts.tolist()), collections.Counter(tuple(p) for p in want.points.tolist())
        if xyz[0] != xyz[1]:
            return "{} points expected {}, not expected e.g. {}".format(
                len(pts), len(want.points), short(list((xyz[0] - xyz[1]) or (xyz[1] - xyz[0]))[0]))
        return "data of point {} is wrong".format(list((a - b))[0][0])
    for _, c in blocks:
        if len(c) and (c.min() < 0 or c.max() >= len(pts)):
            return "cells refer to points that do not exist"
    ca, cb = cell_keys(pts, blocks, real.cell_data), cell_keys(want.points, want.blocks, want.cell_data)
    if [t for t, _, _ in sorted_cells(ca)] != [t for t, _, _ in sorted_cells(cb)]:
        return "cells {} expected {}".format(count_types(ca), count_types(cb))
    if ordered:
        for i, (x, y) in enumerate(zip(ca, cb)):
            if x[:2] != y[:2]:
                return "cell {} is another cell".format(i)
            if x != y:
                return "data of cell {} is wrong".format(i)
    else:
        x, y = collections.Counter(ca), collections.Counter(cb)
        if x != y:
            k = list(x - y)[0]
            if k[:2] in {z[:2] for z in y}:
                return "data of a {} is wrong".format(k[0])
            return "a {} is where none should be".format(k[0])
    if {k: [int(x) for x in v] for k, v in real.field_data.items()} != {k: [int(x) for x in v] for k, v in want.field_data.items()}:
        return "field_data {} expected {}".format(real.field_data, want.field_data)
    return None


def sorted_cells(c):
    return sorted(c, key=lambda x: x[0])


def count_types(c):
    return dict(collections.Counter(x[0] for x in c))


def same_exact(real, want):
    """None or how a mesh differs from a model in any way."""
    a, b = deep(real), deep(want.build())
    return None if a == b else "differs: " + first_diff(b, a)


# -- edits on the model ---------------------------------------------------------------------------
def ref_extrude(M, heights, axis):
    S = Sheet()
    pts = M.points
    if pts.shape[1] == 2:
        z = np.zeros(len(pts))
        pts = {0: np.column_stack([z, pts[:, 1], pts[:, 0]]), 1: np.column_stack([pts[:, 0], z, pts[:, 1]]),
               2: np.column_stack([pts, z])}[axis]
    at = np.concatenate([[0.0], np.cumsum(heights)])
    layers = []
    for h in at:
        q = np.array(pts, dtype=float)
        q[:, axis] += h
        layers.append(q)
    S.points = np.concatenate(layers)
    n = len(pts)
    S.point_data = {k: np.concatenate([v] * len(at)) for k, v in M.point_data.items()}
    keep = []
    first = 0
    parts = {k: [] for k in M.cell_data}
    for t, c in M.blocks:
        new = {"triangle": "wedge", "quad": "hexahedron"}.get(t)
        if new:
            S.blocks.append((new, np.concatenate([np.column_stack([c + i * n, c + (i + 1) * n]) for i in range(len(heights))])))
            for k in parts:
                parts[k] += [M.cell_data[k][first:first + len(c)]] * len(heights)
            keep.append(t)
        first += len(c)
    S.cell_data = {k: np.concatenate(v) for k, v in parts.items()}
    S.field_data = {k: np.array([v[0], 3]) for k, v in M.field_data.items()}
    S.label_length = M.label_length
    return S


def ref_prune(M):
    S = Sheet()
    at, keep, to = {}, [], []
    for i, p in enumerate(M.points.tolist()):
        k = tuple(p)
        if k not in at:
            at[k] = len(keep)
            keep.append(i)
        to.append(at[k])
    S.points = M.points[keep]
    S.point_data = {k: v[keep] for k, v in M.point_data.items()}
    to = np.array(to)
    seen, kept, i = set(), [], 0
    for t, c in M.blocks:
        out = []
        for row in c:
            key = (t, tuple(sorted(int(x) for x in to[row])))
            if key not in seen:
                seen.add(key)
                out.append(to[row])
                kept.append(i)
            i += 1
        if out:
            S.blocks.append((t, np.array(out)))
    S.cell_data = {k: v[kept] for k, v in M.cell_data.items()}
    S.field_data = dict(M.field_data)
    S.label_length, S.cyl = M.label_length, M.cyl
    S.kept = kept
    return S


def named(points, sets):
    return {k: frozenset(tuple(p) for p in points[np.asarray(v, dtype=int)].tolist()) for k, v in sets.items()}


def named_cells(M, sets):
    out = {}
    xyz = [tuple(p) for p in M.points.tolist()]
    for k, v in sets.items():
        s = set()
        for (t, c), idx in zip(M.blocks, v):
            s |= {(t, place(t, c[i], xyz)) for i in idx}
        out[k] = s
    return out


def around(M):
    """For each point the cells that use it."""
    out = [[] for _ in range(len(M.points))]
    for i, (_, c) in enumerate(M.cell_list()):
        for k in c:
            out[k].append(i)
    return out


def wmean(v, idx, w=None):
    w = np.ones(len(idx)) if w is None else w[idx]
    x = np.asarray(v, dtype=float)[idx]
    return np.tensordot(w, x, axes=(0, 0)) / w.sum()


def cmp_mean(where, got, want):
    if set(got) != set(want):
        return "{} {} expected {}".format(where, sorted(got), sorted(want))
    for k, w in want.items():
        g = np.asarray(got[k], dtype=float)
        if g.shape != w.shape:
            return "{}[{}] of shape {} expected {}".format(where, k, g.shape, w.shape)
        if w.size and not np.all(np.abs(g - w) <= 1e-9 * np.abs(w).max()):
            i = tuple(int(x) for x in np.argwhere(~(np.abs(g - w) <= 1e-9 * np.abs(w).max()))[0])
            return "{}[{}]{} is {!r} expected {!r}".format(where, k, list(i), g[i].item(), w[i].item())
    return None


# -- the session -----------------------------------------------------------------------------------
class Item(object):
    def __init__(self, real, M):
        self.real, self.M, self.image = real, M, deep(real)


class World(object):
    """The meshes of one process, what was given to toughio, and what is on disk."""

    def __init__(self, root, saved):
        self.root = root
        self.items = {}
        self.given = []  # (what, object, image)
        self.saved = saved  # file -> model

    def give(self, what, x):
        self.given = (self.given + [(what, x, image(x))])[-12:]
        return x

    def disturbed(self, touched):
        """What changed although nothing was done to it."""
        for n in sorted(self.items):
            it = self.items[n]
            if n != touched and deep(it.real) != it.image:
                return "mesh {} changed too: {}".format(n, first_diff(it.image, deep(it.real)))
        for what, x, im in self.given:
            if image(x) != im:
                return "{} changed: {}".format(what, first_diff(im, image(x)))
        return None


def image(x):
    if type(x).__module__.startswith("meshio"):
        return (deep(np.asarray(x.points)), tuple((c.type, deep(np.asarray(c.data))) for c in x.cells), deep(x.point_data),
                deep(x.cell_data), deep(x.field_data))
    return deep(x)


class Step(Op):
    """One step, resolved against the state of the session."""

    def __init__(self, kind, target, text, call, check=None, refuse=False, io=False, path=None):
        super().__init__()
        self.kind, self.target, self.text, self.check, self.refuse, self.io = kind, target, text, check, refuse, io
        self.call = call
        self.path = path

    def describe(self):
        return "{}: {}".format(self.target or "-", self.text)


class Prepared(Step):
    """A step with a file another process makes first."""

    def setup(self):
        self.make()


def dyadic(d, n, top=16):
    return np.array([(1 + d.raw(8 * top)) / 8.0 for _ in range(n)])


def values(d, n, name):
    """An array of data, and the form it is given in."""
    rng = np.random.RandomState(d.raw(2 ** 31))
    if name == "flag":
        v = rng.randint(-5, 100, n)
    elif name == "vel":
        v = rng.normal(size=(n, 3))
    elif name == "tens":
        v = rng.normal(size=(n, 2, 2))
    else:
        v = rng.uniform(-1, 1, n) * 10.0 ** d.pick([0, 5, -12])
    return v


def formed(d, v):
    return v if d.bool(0.6) else (v.tolist() if d.bool(0.7) else tuple(v.tolist()))


# create ------------------------------------------------------------------------------------------
def s_create(W, d):
    import toughio

    name = d.pick(NAMES)
    how = d.weighted([(4, "build"), (3, "grid"), (2, "cylinder"), (2, "triangulate"), (1, "voxelize"), (3, "twins")])
    mat = d.pick(["dfalt", "ROCK1", "sand"])
    if how in ("build", "twins"):
        S = gen_sheet(d, how == "twins")
        box = {}

        def call():
            share = d_share
            kw = dict(points=S.points.copy(), cells=[(t, c.copy()) for t, c in S.blocks],
                      point_data={k: v.copy() for k, v in S.point_data.items()},
                      cell_data={k: v.copy() for k, v in S.cell_data.items()},
                      field_data={k: v.copy() for k, v in S.field_data.items()},
                      point_sets={k: v.copy() for k, v in S.point_sets.items()},
                      cell_sets={k: [x.copy() for x in v] for k, v in S.cell_sets.items()})
            box["kw"] = kw
            if share:
                box["other"] = toughio.Mesh(**kw)
            m = toughio.Mesh(**kw)
            if S.label_length:
                m.label_length = S.label_length
            return m

        d_share = d.bool(0.3)
        other = d.pick([x for x in NAMES if x != name])

        def check(m):
            e = same_exact(m, S)
            if not e:
                W.items[name] = Item(m, S)
                if d_share:  # two meshes from the same arrays and dictionaries
                    T = copy.deepcopy(S)
                    T.label_length = None
                    e = same_exact(box["other"], T)
                    W.items[other] = Item(box["other"], T)
                for k in ("point_data", "cell_data", "field_data"):
                    W.give("{} given to Mesh".format(k), box["kw"][k])
            return e

        return Step("Mesh", name, "Mesh of {} points, {}{}{}".format(
            len(S.points), "+".join("{}x{}".format(len(c), t) for t, c in S.blocks[:6]), ", with twins" if how == "twins" else "",
            " (and mesh {} from the same arrays)".format(other) if d_share else ""), call, check)
    layer = d.bool(0.5)
    org = None
    if how == "grid":
        dim = d.pick([3, 3, 2])
        n = [d.int(1, 4) for _ in range(dim)]
        dx = [W.give("spacing", formed(d, dyadic(d, k))) for k in n]
        if d.bool(0.5):
            org = W.give("origin", formed(d, np.array([d.raw(100) / 4.0 - 10.0 for _ in range(dim)])
                                        + d.pick([0.0, 0.0, 2.0 ** 16, -2.0 ** 22, 2.0 ** 26])))
        kw = {}
        if org is not None:
            kw["origin"] = org
        if layer:
            kw["layer"] = True
        if mat != "dfalt":
            kw["material"] = mat
        text = "structured_grid({}{})".format("x".join(map(str, n)), "".join(", {}={}".format(k, short(v, 60)) for k, v in kw.items()))

        def call():
            return toughio.meshmaker.structured_grid(*dx, **kw)

        def check(m):
            o = np.asarray(org) if org is not None else np.array([0.0, 0.0, -np.sum(dx[2])] if dim == 3 else [0.0, 0.0])
            axes = [np.concatenate([[0.0], np.cumsum(np.asarray(x))]) + o[i] for i, x in enumerate(dx)]
            if dim == 2:
                axes.append(np.array([0.0]))
            return check_grid(W, name, m, axes, mat, layer, False)

        return Step("structured_grid", name, text, call, check)
    if how == "cylinder":
        nr, nz = d.int(1, 5), d.int(1, 4)
        dr, dz = W.give("dr", formed(d, dyadic(d, nr))), W.give("dz", formed(d, dyadic(d, nz)))
        kw = {}
        if d.bool(0.5):
            kw["origin_z"] = d.pick([0.0, -100.0, 3])
        if layer:
            kw["layer"] = True
        if mat != "dfalt":
            kw["material"] = mat

        def call():
            return toughio.meshmaker.cylindric_grid(dr, dz, **kw)

        def check(m):
            z0 = kw.get("origin_z", -np.sum(dz))
            axes = [np.concatenate([[0.0], np.cumsum(np.asarray(dr))]), np.array([-0.5, 0.5]),
                    np.concatenate([[0.0], np.cumsum(np.asarray(dz))]) + z0]
            return check_grid(W, name, m, axes, mat, layer, True)

        return Step("cylindric_grid", name, "cylindric_grid({}x{}{})".format(nr, nz, "".join(
            ", {}={}".format(*x) for x in kw.items())), call, check)
    if how == "triangulate":
        dim = d.pick([2, 2, 3])
        k = d.int(dim + 2, 14)
        pts = np.unique(np.array([[d.raw(64) / 8.0 for _ in range(dim)] for _ in range(k)]), axis=0)
        if np.linalg.matrix_rank(pts - pts[0]) < dim:
            pts = np.concatenate([np.zeros((1, dim)), np.eye(dim)])
        pts = W.give("points", formed(d, pts))

        def call():
            return toughio.meshmaker.triangulate(pts, **({"material": mat} if mat != "dfalt" else {}))

        def check(m):
            p = np.asarray(pts)
            if not np.array_equal(np.asarray(m.points), p):
                return "points are not those given"
            want = "triangle" if dim == 2 else "tetra"
            if {c.type for c in m.cells} != {want}:
                return "cells of type {}".format({c.type for c in m.cells})
            from scipy.spatial import ConvexHull

            c = np.concatenate([x.data for x in m.cells])
            q = p[c]
            v = np.abs(np.linalg.det(q[:, 1:] - q[:, :1])) / (2.0 if dim == 2 else 6.0)
            hull = ConvexHull(p).volume
            if abs(v.sum() - hull) > 1e-9 * hull:
                return "the cells cover {} of {}".format(v.sum(), hull)
            e = check_mat(m, mat)
            if not e:
                W.items[name] = Item(m, adopt(m))
            return e

        return Step("triangulate", name, "triangulate({} points in {} dimensions)".format(len(pts), dim), call, check)
    # voxelize
    n = [d.int(1, 4) for _ in range(3)]
    axes = []
    for k in n:
        axes.append(np.concatenate([[d.raw(40) / 4.0 - 5.0], dyadic(d, k)]).cumsum())
    mid = [0.5 * (x[1:] + x[:-1]) if len(x) > 2 else np.array([x[0] + 0.5]) for x in axes]
    axes = [x if len(x) > 2 else np.array([x[0], x[0] + 1.0]) for x in axes]
    pts = np.array([[x, y, z] for x in mid[0] for y in mid[1] for z in mid[2]])
    pts = pts[np.random.RandomState(d.raw(2 ** 31)).permutation(len(pts))]
    pts = W.give("points", formed(d, pts))
    org = [float(x[0]) for x in axes]

    def call():
        kw = {"layer": True} if layer else {}
        if mat != "dfalt":
            kw["material"] = mat
        return toughio.meshmaker.voxelize(pts, org, **kw)

    return Step("voxelize", name, "voxelize({} points)".format("x".join(map(str, n))), call,
                lambda m: check_grid(W, name, m, axes, mat, layer, False))


def check_mat(m, mat):
    if [str(x) for x in m.materials] != [mat] * m.n_cells:
        return "materials {} expected {}".format(short(m.materials), mat)
    return None


def check_grid(W, name, m, axes, mat, layer, cyl):
    nx, ny, nz = [len(x) - 1 for x in axes]
    S = Sheet()
    idx = {}
    pts = []
    for k, z in enumerate(axes[2]):
        for j, y in enumerate(axes[1]):
            for i, x in enumerate(axes[0]):
                idx[i, j, k] = len(pts)
                pts.append([x, y, z])
    S.points = np.array(pts)
    cells = []
    for k in range(max(nz, 1)):
        for j in range(ny):
            for i in range(nx):
                q = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
                cells.append([idx[a, b, k] for a, b in q] + ([idx[a, b, k + 1] for a, b in q] if nz else []))
    S.blocks = [("hexahedron" if nz else "quad", np.array(cells))]
    ids = np.asarray(m.cell_data.get("material", []))
    if len(ids) != len(cells) or len(set(ids.tolist())) != 1:
        return "material {}".format(short(ids))
    S.cell_data = {"material": ids}
    S.field_data = {mat: np.array([ids[0], 3])}
    e = same_mesh(m, S, False) or check_mat(m, mat)
    if e:
        return e
    S = adopt(m, cyl=cyl)
    if nz:  # cells run from top to bottom, by columns or by layers
        c = S.centers()
        z = c[:, 2]
        if layer:
            if (np.diff(z) > 0).any():
                return "cells are not ordered by layers from the top"
        else:
            for i in range(0, len(c), nz):
                if len({tuple(x) for x in c[i:i + nz, :2].tolist()}) != 1 or (np.diff(z[i:i + nz]) >= 0).any():
                    return "cells are not ordered by columns from the top"
    W.items[name] = Item(m, S)
    return None


def gen_sheet(d, twins=False):
    dim = d.pick([2, 3])
    M = gen_mesh(d, dim, big=False, faces2d=dim == 3 and d.bool(0.2), lines=d.bool(0.2), exact=True)
    S = Sheet()
    S.points, S.blocks, S.label_length = M.points, M.blocks, M.label_length
    S.point_data, S.cell_data, S.field_data = M.point_data, M.cell_data, M.field_data
    if d.bool(0.4):  # the numbers of materials have gaps, in any order
        codes = sorted({int(v[0]) for v in S.field_data.values()} | set(int(x) for x in S.cell_data.get("material", [])))
        new = dict(zip(codes, d.shuffle(list(range(1, 3 * len(codes) + 2)))))
        S.field_data = {k: np.array([new[int(v[0])], v[1]]) for k, v in S.field_data.items()}
        if "material" in S.cell_data:
            S.cell_data["material"] = np.array([new[int(x)] for x in S.cell_data["material"]], dtype=S.cell_data["material"].dtype)
    if twins:
        rng = np.random.RandomState(d.raw(2 ** 31))
        n, nc = len(S.points), S.n_cells
        # some points exist twice, cells use either; some cells exist twice
        dup = np.flatnonzero(rng.rand(n) < d.pick([0.2, 0.6]))
        to = np.arange(n)
        to[dup] = n + np.arange(len(dup))
        S.points = np.concatenate([S.points, S.points[dup]])
        S.point_data = {k: np.concatenate([v, values(d, len(dup), "T") if k == "T" else v[dup]]) for k, v in S.point_data.items()}
        S.blocks = [(t, np.where(rng.rand(*c.shape) < 0.5, c, to[c])) for t, c in S.blocks]
        parts, first = {k: [] for k in S.cell_data}, 0
        blocks = []
        extra = []
        for t, c in S.blocks:
            again = np.flatnonzero(rng.rand(len(c)) < d.pick([0.0, 0.3]))
            if len(again) and d.bool(0.3):  # in a block of their own
                extra.append((t, c[again], first + again))
                again = again[:0]
            blocks.append((t, np.concatenate([c, c[again]])))
            for k, v in S.cell_data.items():
                parts[k] += [v[first:first + len(c)], v[first + again]]
            first += len(c)
        for t, c, i in extra:
            blocks.append((t, c))
            for k, v in S.cell_data.items():
                parts[k].append(v[i])
        S.blocks = blocks
        S.cell_data = {k: np.concatenate(v) for k, v in parts.items()}
        if "T" in S.cell_data and d.bool(0.5):
            S.cell_data["T"] = values(d, S.n_cells, "T")
    if d.bool(0.25):
        S.point_sets["top"] = np.array([i for i in range(len(S.points)) if d.bool(0.3)], dtype=int)
    if d.bool(0.25):
        S.cell_sets["zone"] = [np.array([i for i in range(len(c)) if d.bool(0.3)], dtype=int) for _, c in S.blocks]
    return S


# edits -------------------------------------------------------------------------------------------
def target(W, d, want=None):
    names = [n for n in sorted(W.items) if want is None or want(W.items[n].M)]
    if not names:
        return None, None
    n = d.pick(names)
    return n, W.items[n]


def updated(W, n, it, S, check=same_exact):
    """A check: the mesh must be S now."""
    def go(value):
        e = ("returned {}".format(short(value)) if value is not None else None) or check(it.real, S)
        if not e:
            it.M = S
        return e

    return go


def s_data(W, d):
    n, it = target(W, d)
    where = d.pick(["point", "cell"])
    label = d.pick(DATA if d.bool(0.9) else ["material"])
    k = len(it.M.points) if where == "point" else it.M.n_cells
    if label == "material":
        where, k = "cell", it.M.n_cells
        v = np.random.RandomState(d.raw(2 ** 31)).randint(1, 4, k)
    else:
        v = values(d, k, label)
    arg = W.give("array given to add_{}_data".format(where), formed(d, v))
    other = d.pick(sorted(W.items))
    both = isinstance(arg, np.ndarray) and other != n and d.bool(0.5) and k == (
        len(W.items[other].M.points) if where == "point" else W.items[other].M.n_cells)
    S = copy.deepcopy(it.M)
    getattr(S, where + "_data")[label] = np.asarray(arg)

    def call():
        return getattr(it.real, "add_{}_data".format(where))(label, arg)

    return Step("add_{}_data".format(where), n, "add_{}_data({!r}, {} of {})".format(where, label, type(arg).__name__, v.shape),
                call, updated(W, n, it, S))


def s_material(W, d):
    n, it = target(W, d, lambda M: "material" in M.cell_data and M.cell_data["material"].dtype.kind in "iu" and M.n_cells)
    if n is None:
        return None
    M = it.M
    known = sorted(M.field_data)
    mat = d.pick(known) if known and d.bool(0.4) else d.pick(["ROCK1", "ROCK2", "sand", "clay", "BND"])
    m = d.raw(4)
    mask = np.random.RandomState(d.raw(2 ** 31)).rand(M.n_cells) < d.pick([0.3, 1.0, 0.1])
    if m != 3 and not mask.any():
        mask[d.raw(M.n_cells)] = True
    idx = np.flatnonzero(mask)
    if m in (0, 1) and d.bool(0.3):
        idx = idx[::-1]
    arg = [idx.tolist(), idx, mask.tolist(), mask][m]
    arg = W.give("cells given to set_material", arg)
    before = M.cell_data["material"]

    def check(value):
        after = np.asarray(it.real.cell_data["material"])
        F = it.real.field_data
        if after.shape != before.shape:
            return "material of shape {}".format(after.shape)
        if (after[~mask] != before[~mask]).any():
            return "material of cell {} changed, which was not selected".format(int(np.flatnonzero((after != before) & ~mask)[0]))
        if mask.any():
            if mat not in F:
                return "field_data does not know {}".format(mat)
            k = int(F[mat][0])
            if (after[mask] != k).any():
                return "cell {} did not get material {}".format(int(np.flatnonzero((after != k) & mask)[0]), mat)
            if mat in M.field_data:
                if k != int(M.field_data[mat][0]):
                    return "the number of {} changed".format(mat)
            elif k in [int(v[0]) for v in M.field_data.values()] or k in before:
                return "{} got number {}, which another material has: {}".format(mat, k, F)
        rest = {x: v for x, v in F.items() if x != mat}
        if deep(rest) != deep({x: v for x, v in M.field_data.items() if x != mat}):
            return "other materials changed: {} was {}".format(F, M.field_data)
        S = copy.deepcopy(M)
        S.cell_data["material"] = np.array(after)
        if mat in F:
            S.field_data[mat] = np.array(F[mat])
        e = same_exact(it.real, S)
        if not e:
            it.M = S
        return e

    return Step("set_material", n, "set_material({!r}, {} of {} cells as {})".format(
        mat, int(mask.sum()), M.n_cells, ["list", "array", "list of bool", "array of bool"][m]),
        lambda: it.real.set_material(mat, arg), check)


def s_extrude(W, d):
    ok = lambda M: any(t in ("quad", "triangle") for t, _ in M.blocks) and all(DIM[t] < 3 for t, _ in M.blocks) and M.n_cells < 150
    n, it = target(W, d, ok)
    if n is None:
        return None
    M = it.M
    if M.points.shape[1] == 2:
        axis = d.raw(3)
    else:
        flat = [a for a in range(3) if len(set(M.points[:, a].tolist())) == 1]
        if not flat:
            return None
        axis = d.pick(flat)
    m = d.raw(3)
    h = dyadic(d, 1 if m == 0 else d.int(1, 4))
    if d.bool(0.15):
        h = -h
    arg = W.give("height", float(h[0]) if m == 0 else h.tolist() if m == 1 else h)
    S = ref_extrude(M, h, axis)
    inplace = d.bool(0.5)
    to = n if inplace else d.pick([x for x in NAMES if x != n])
    kw = {"height": arg, "axis": axis}
    if not inplace:
        kw["inplace"] = False

    def check(value):
        m = it.real if inplace else value
        if inplace and value is not None:
            return "returned {}".format(short(value))
        e = same_mesh(m, S, False)
        if not e and any(len(v) != len(m.cells) for v in m.cell_sets.values()):
            e = "cell sets for other blocks"
        if not e and not (np.array(adopt(m).geometry()[1]) > 0).all():
            e = "cells without volume"
        if not e:
            W.items[to] = Item(m, adopt(m))
        return e

    return Step("extrude_to_3d", n if inplace else to, "extrude_to_3d({}, axis={}){}".format(
        short(np.asarray(arg).tolist(), 60), axis, "" if inplace else " of " + n), lambda: it.real.extrude_to_3d(**kw), check)


def s_prune(W, d):
    n, it = target(W, d)
    S = ref_prune(it.M)
    inplace = d.bool(0.5)
    to = n if inplace else d.pick([x for x in NAMES if x != n])

    def check(value):
        m = it.real if inplace else value
        if inplace and value is not None:
            return "returned {}".format(short(value))
        e = same_mesh(m, S, True)
        if e:
            return e
        A = adopt(m, cyl=S.cyl)
        if named(A.points, A.point_sets) != named(it.M.points, it.M.point_sets):
            return "a point set names other points"
        if named_cells(A, A.cell_sets) != named_cells(it.M, it.M.cell_sets):
            return "a cell set names other cells"
        W.items[to] = Item(m, A)
        return None

    return Step("prune_duplicates", n if inplace else to, "prune_duplicates(){}: {} of {} points, {} of {} cells".format(
        "" if inplace else " of " + n, len(S.points), len(it.M.points), S.n_cells, it.M.n_cells),
        lambda: it.real.prune_duplicates(**({} if inplace else {"inplace": False})), check)


def s_to_points(W, d):
    n, it = target(W, d, lambda M: M.solid() and M.used() and M.clean())
    if n is None:
        return None
    M = it.M
    vol, near = M.volumes(), around(M)
    want = {k: np.array([wmean(v, i, vol) for i in near]) for k, v in M.cell_data.items()}
    want = dict({k: v for k, v in M.point_data.items()}, **want)

    def check(value):
        if it.real.cell_data:
            return "cell data {} left".format(sorted(it.real.cell_data))
        e = cmp_mean("point_data", it.real.point_data, want)
        if not e:
            S = copy.deepcopy(M)
            S.cell_data, S.point_data = {}, {k: np.array(v) for k, v in it.real.point_data.items()}
            e = same_exact(it.real, S)
            it.M = S
        return e

    return Step("cell_data_to_point_data", n, "cell_data_to_point_data()", lambda: it.real.cell_data_to_point_data(), check)


def s_to_cells(W, d):
    n, it = target(W, d, lambda M: M.n_cells)
    if n is None:
        return None
    M = it.M
    want = {k: np.array([wmean(v, c) for _, c in M.cell_list()]) for k, v in M.point_data.items()}
    want = dict({k: v for k, v in M.cell_data.items()}, **want)

    def check(value):
        if it.real.point_data:
            return "point data {} left".format(sorted(it.real.point_data))
        e = cmp_mean("cell_data", it.real.cell_data, want)
        if not e:
            S = copy.deepcopy(M)
            S.point_data, S.cell_data = {}, {k: np.array(v) for k, v in it.real.cell_data.items()}
            e = same_exact(it.real, S)
            it.M = S
        return e

    return Step("point_data_to_cell_data", n, "point_data_to_cell_data()", lambda: it.real.point_data_to_cell_data(), check)


def s_label(W, d):
    n, it = target(W, d)
    k = d.pick([None, 5, 6, 7, 8, 9])
    S = copy.deepcopy(it.M)
    S.label_length = k

    def call():
        it.real.label_length = k

    return Step("label_length", n, "label_length = {}".format(k), call, updated(W, n, it, S))


def s_assign(W, d):
    """An attribute of a mesh is replaced."""
    n, it = target(W, d, lambda M: not M.cyl and M.n_cells)
    if n is None:
        return None
    S = copy.deepcopy(it.M)
    S._geo = None
    what = d.pick(["points", "points", "cells", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets"])
    text = ""
    if what == "points":
        f = d.pick([1.0, 2.0, 0.5, 1024.0])
        new = S.points * f + np.array([d.raw(64) / 4.0 - 8.0 for _ in range(S.points.shape[1])])
        S.points = new.copy()
    elif what == "cells":
        how = d.weighted([(3, "cut"), (3, "order"), (3, "rows"), (1, "same")])
        blocks = [(t, c.copy()) for t, c in S.blocks]
        if how == "cut":
            i = d.raw(len(blocks))
            t, c = blocks[i]
            k = d.raw(len(c) + 1)
            blocks[i:i + 1] = [(t, x) for x in (c[:k], c[k:]) if len(x)]
        elif how in ("order", "rows"):  # all data go with the cells
            order = d.shuffle(range(len(blocks))) if how == "order" else list(range(len(blocks)))
            first = np.concatenate([[0], np.cumsum([len(c) for _, c in blocks])])
            rows = [np.arange(len(c)) for _, c in blocks]
            if how == "rows":
                rows = [np.array(d.shuffle(range(len(c))), dtype=int) for _, c in blocks]
            at = np.concatenate([first[i] + rows[i] for i in order])
            blocks = [(blocks[i][0], blocks[i][1][rows[i]]) for i in order]
            S.cell_data = {k: v[at] for k, v in S.cell_data.items()}
            S.cell_sets = {}
        if len(blocks) != len(S.blocks):
            S.cell_sets = {}
        S.blocks = [(t, c.copy()) for t, c in blocks]
        form = d.weighted([(4, "dict"), (3, "list"), (2, "tuple")])
        if form == "dict" and len({t for t, _ in blocks}) < len(blocks):
            form = "list"
        new = dict(blocks) if form == "dict" else blocks if form == "list" else tuple(blocks)
        text = " ({}, {})".format(how, form)
    elif what in ("point_data", "cell_data"):
        k = len(S.points) if what == "point_data" else S.n_cells
        new = {x: values(d, k, x) for x in d.shuffle(DATA)[:d.int(0, 3)]}
        if what == "cell_data" and "material" in S.cell_data:
            new["material"] = S.cell_data["material"].copy()
        setattr(S, what, {x: v.copy() for x, v in new.items()})
    elif what == "field_data":
        new = dict(S.field_data)
        for x in [x for x in new if d.bool(0.3)]:
            new["N" + x[:4]] = new.pop(x)
        if len(new) < len(S.field_data):
            return None
        S.field_data = {x: v.copy() for x, v in new.items()}
    elif what == "point_sets":
        new = {x: np.array(sorted(d.shuffle(range(len(S.points)))[:d.int(1, 4)])) for x in ["left", "top"][:d.int(0, 2)]}
        S.point_sets = {x: v.copy() for x, v in new.items()}
    else:
        new = {x: [np.array(sorted(d.shuffle(range(len(c)))[:d.int(0, 3)]), dtype=int) for _, c in S.blocks]
               for x in ["soft", "hard"][:d.int(0, 2)]}
        S.cell_sets = {x: [v.copy() for v in vs] for x, vs in new.items()}
    # containers become the mesh's own, arrays stay the caller's
    parts = [new] if isinstance(new, np.ndarray) else list(new.values()) if isinstance(new, dict) else [c for _, c in new]
    for x in parts:
        W.give("array in the value of " + what, x)
    sheet = S

    def call():
        setattr(it.real, what, new)
        if what == "cells":
            if how in ("order", "rows"):
                it.real.cell_data = {k: v.copy() for k, v in sheet.cell_data.items()}
            it.real.cell_sets = {k: [x.copy() for x in v] for k, v in sheet.cell_sets.items()}

    return Step("assign " + what, n, "{} = ...{}".format(what, text), call, updated(W, n, it, S))


def s_output(W, d):
    """Results put on the mesh, from memory or from a file."""
    from toughio._io.output._common import Output

    n, it = target(W, d, lambda M: M.n_cells and (M.label_length is None or M.label_length < 8))
    if n is None:
        return None
    M = it.M
    labels = [str(x) for x in it.real.labels]
    pairs = sorted(M.geometry()[2]) if M.solid() and M.distinct() and not M.cyl else []
    conn = bool(pairs) and d.bool(0.3)
    S = copy.deepcopy(M)
    nt, cols = d.int(1, 3), ["T", "flow"][: d.int(1, 2)]
    step = d.raw(2 * nt) - nt if d.bool(0.6) else -1
    outs = []
    for t in range(nt):
        if conn:
            rows_ = d.shuffle(pairs)
            names = [[labels[b], labels[a]] if d.bool(0.3) else [labels[a], labels[b]] for a, b in rows_]
        else:
            names = d.shuffle(labels)
        data = {k: values(d, len(names), k) for k in cols}
        outs.append((1.0 + t, names, data))
    file = not conn and d.bool(0.5)
    pos = step if step >= 0 else nt + step
    t, names, data = outs[pos]
    p = 15
    if conn:
        at = {x: i for i, x in enumerate(labels)}
        c = M.centers()
        for k, v in data.items():
            w = np.zeros((M.n_cells, 3))
            for (a, b), x in zip(names, v):
                u = c[at[a]] - c[at[b]]
                w[at[a] if x > 0.0 else at[b]] += x * u / np.linalg.norm(u)
            S.cell_data[k] = w
    else:
        idx = [names.index(x) for x in labels]
        for k, v in data.items():
            S.cell_data[k] = v[idx]
    objs = [Output("connection" if conn else "element", "csv", t, np.array(names), {k: v.copy() for k, v in data.items()})
            for t, names, data in outs]
    if not file and nt == 1 and d.bool(0.5):
        objs = objs[0]
    kw = {"time_step": step} if step != -1 else {}
    path = os.path.join(W.root, "results.csv")
    if file:
        arg = path
    else:
        arg = W.give("output given to read_output", objs)

    def make():
        import toughio

        toughio.write_output(path, objs, file_format="csv")

    def check(value):
        e = "returned {}".format(short(value)) if value is not None else None
        got = it.real.cell_data
        if not e and set(got) != set(S.cell_data):
            e = "cell data {} expected {}".format(sorted(got), sorted(S.cell_data))
        for k in data:
            if e:
                break
            g, w = np.asarray(got[k]), S.cell_data[k]
            if g.shape != w.shape:
                e = "cell_data[{}] of shape {} expected {}".format(k, g.shape, w.shape)
            elif conn:
                ok = np.abs(g - w) <= 1e-9 * np.abs(w).max()
            else:
                ok = meshes.near(g, w, 12 if file else 15)
            if not e and not np.all(ok):
                i = tuple(int(x) for x in np.argwhere(~np.asarray(ok))[0])
                e = "cell_data[{}]{} is {!r} expected {!r}".format(k, list(i), g[i].item(), w[i].item())
            if not e:
                S.cell_data[k] = np.array(g)
        e = e or same_exact(it.real, reorder(S, got))
        if not e:
            it.M = reorder(S, got)
        return e

    s = (Prepared if file else Step)("read_output", n, "read_output({} x {} {}s, time_step={}{})".format(
        nt, len(names), "connection" if conn else "element", step, ", from a file" if file else ""),
        lambda: it.real.read_output(arg, **kw), check, io=file)
    s.make = make
    return s


def reorder(S, got):
    S = copy.deepcopy(S)
    S.cell_data = {k: S.cell_data[k] for k in got}
    return S


# copies and conversions --------------------------------------------------------------------------
def s_copy(W, d):
    import meshio
    import toughio

    n, it = target(W, d)
    M = it.M
    to = d.pick([x for x in NAMES if x != n])
    how = d.pick(["deepcopy", "Mesh", "meshio", "meshio", "meshio"])
    mat = d.pick(["dfalt", "base"])
    cyl = M.cyl and how == "deepcopy"
    gmsh = how == "meshio" and "material" in M.cell_data and d.bool(0.5)
    key = d.pick(["gmsh:physical", "medit:ref"])
    bare = how == "meshio" and not gmsh and "material" in M.cell_data and 3 in [int(v[1]) for v in M.field_data.values()] and d.bool(0.5)
    box = {}

    def call():
        if how == "deepcopy":
            return copy.deepcopy(it.real)
        if how == "Mesh":
            m = it.real
            return toughio.Mesh(m.points, m.cells, point_data=m.point_data, cell_data=m.cell_data, field_data=m.field_data,
                                point_sets=m.point_sets, cell_sets=m.cell_sets)
        mm = box["meshio"] = it.real.to_meshio()
        if gmsh:
            mm.cell_data[key] = mm.cell_data.pop("material")
        if bare:
            del mm.cell_data["material"]
        box["image"] = image(mm)
        kw = {"material": mat} if mat != "dfalt" else {}
        box["twice"] = toughio.from_meshio(mm, **kw)
        return toughio.from_meshio(mm, **kw)

    def check(m):
        S = copy.deepcopy(M)
        if how != "deepcopy":
            S.label_length, S.cyl = None, False
        if how != "meshio":
            e = same_exact(m, S)
            if not e:
                W.items[to] = Item(m, S)
            return e
        mm = box["meshio"]
        if not isinstance(mm, meshio.Mesh):
            return "to_meshio returned {}".format(short(type(mm)))
        if image(mm) != box["image"]:
            return "from_meshio changed the meshio mesh: " + first_diff(box["image"], image(mm))
        if deep(np.asarray(mm.points)) != deep(M.points) or [(c.type, deep(np.asarray(c.data))) for c in mm.cells] != [
                (t, deep(c)) for t, c in M.blocks]:
            return "to_meshio: other points or cells"
        k = {"material": key} if gmsh else {}
        if bare:
            del S.cell_data["material"]
        cut = np.cumsum([len(c) for _, c in M.blocks])[:-1]
        want = {k.get(x, x): [deep(y) for y in np.split(v, cut)] for x, v in S.cell_data.items()}
        if {x: [deep(np.asarray(y)) for y in v] for x, v in mm.cell_data.items()} != want:
            return "to_meshio: other cell data"
        if {x: deep(np.asarray(v)) for x, v in mm.point_data.items()} != {x: deep(v) for x, v in M.point_data.items()}:
            return "to_meshio: other point data"
        if deep(m) != deep(box["twice"]):
            return "from_meshio again gave another mesh: " + first_diff(deep(box["twice"]), deep(m))
        if "material" not in S.cell_data:
            if [str(x) for x in m.materials] != [mat] * m.n_cells:
                return "default material is {}".format(short(m.materials))
            S.cell_data["material"] = np.array(m.cell_data["material"])
            S.field_data[mat] = np.array(m.field_data[mat])
            codes = [int(v[0]) for v in S.field_data.values() if int(v[1]) == 3]
            if len(set(codes)) < len(codes):
                return "two materials with one number: {}".format(m.field_data)
        S.cell_data = {x: S.cell_data[x] for x in m.cell_data} if set(m.cell_data) == set(S.cell_data) else S.cell_data
        e = same_exact(m, S)
        if not e:
            W.items[to] = Item(m, S)
            W.give("the meshio mesh", mm)
        return e

    return Step("copy " + how, to, "{} of {}{}".format(
        {"Mesh": "Mesh from the arrays", "meshio": "from_meshio(to_meshio())"}.get(how, how), n,
        " with material as " + key if gmsh else " without material" if bare else ""), call, check)


# queries -----------------------------------------------------------------------------------------
def s_query(W, d):
    n, it = target(W, d, lambda M: M.n_cells)
    if n is None:
        return None
    M, m = it.M, it.real
    what = d.pick(["materials", "labels", "centers", "near", "near", "near", "box", "box", "box", "volumes", "connections", "split", "areas", "qualities", "many labels", "cells_dict"])
    text = what
    if what == "near":
        k = d.int(1, 4)
        P = np.array([[d.raw(200) / 8.0 - 5.0 for _ in range(M.points.shape[1])] for _ in range(k)])
        for i in range(k):  # next to a cell's centre, or half way to another's
            if d.bool(0.6):
                c = M.centers()
                a, b = c[d.raw(len(c))], c[d.raw(len(c))]
                P[i] = a + (b - a) * d.pick([0.0, 0.25, 0.4375, 0.75])
        one = k == 1 and d.bool(0.6)
        arg = formed(d, P[0] if one else P)

        def check(got):
            c = M.centers()
            got = np.asarray(got)
            if got.shape != (() if one else (k,)):
                return "result of shape {}".format(got.shape)
            for p, i in zip(P, np.atleast_1d(got)):
                dist = np.linalg.norm(c - p, axis=1)
                if not 0 <= i < len(c) or dist[i] > dist.min() * (1 + 1e-9) + 1e-14 * np.abs(c).max():
                    return "cell {} is {} away from {}, cell {} only {}".format(i, dist[i], p, dist.argmin(), dist.min())
            return None

        call = lambda: m.near(arg)
    elif what == "box":
        if M.points.shape[1] != 3:
            return None
        c = M.centers()
        lo, hi = [None] * 3, [None] * 3
        for a in range(3):
            if d.bool(0.2):
                lo[a] = 0.0
            elif d.bool(0.6):
                lo[a] = float(d.pick(c[:, a].tolist())) + d.pick([0.0, 0.0625, -0.0625]) if d.bool(0.7) else d.raw(80) / 4.0 - 10.0
            if lo[a] is not None:
                if d.bool(0.6):
                    hi[a] = d.pick([0.0, 0.5, 1.0, 5.0, 40.0])
        kw = {k + "0": v for k, v in zip("xyz", lo) if v is not None}
        kw.update({"d" + k: v for k, v in zip("xyz", hi) if v is not None})
        byname = d.bool(0.3)
        text = "filter.box({})".format(", ".join("{}={}".format(*x) for x in kw.items()))

        def check(got):
            tol = 1e-9 * max(1.0, np.abs(c).max())
            sure, may = np.ones(len(c), bool), np.ones(len(c), bool)
            for a in range(3):
                if lo[a] is not None:
                    sure &= c[:, a] >= lo[a] + tol
                    may &= c[:, a] >= lo[a] - tol
                    if hi[a] is not None:
                        sure &= c[:, a] <= lo[a] + hi[a] - tol
                        may &= c[:, a] <= lo[a] + hi[a] + tol
            g = np.asarray(got).tolist()
            if len(set(g)) != len(g) or not set(np.flatnonzero(sure)) <= set(g) or not set(g) <= set(np.flatnonzero(may)):
                return "cells {} expected {} to {}".format(short(g), short(np.flatnonzero(sure).tolist()),
                                                           short(np.flatnonzero(may).tolist()))
            return None

        call = (lambda: m.filter("box", **kw)) if byname else (lambda: m.filter.box(**kw))
    elif what == "split":
        v = values(d, M.n_cells, d.pick(["T", "vel"]))
        arg = formed(d, v)

        def check(got):
            cut = np.cumsum([len(c) for _, c in M.blocks])[:-1]
            if [deep(np.asarray(x)) for x in got] != [deep(x) for x in np.split(v, cut)]:
                return "other parts"
            return None

        call = lambda: m.split(arg)
    elif what == "cells_dict":
        want = {}
        for t, c in M.blocks:
            want.setdefault(t, []).append(c)
        call = lambda: m.cells_dict
        check = lambda got: None if sorted(got) == sorted(want) and all(
            deep(np.asarray(got[t])) == deep(np.concatenate(want[t])) for t in want) else "other cells: {}".format(
            {t: np.shape(v) for t, v in got.items()})
    elif what == "materials":
        call = lambda: m.materials
        check = lambda got: None if [str(x) for x in got] == [str(x) for x in M.names()] else "{} expected {}".format(
            short(list(got)), short(M.names()))
    elif what == "labels":
        call = lambda: (m.labels, m.n_cells, m.n_points, repr(m))

        def check(got):
            labs, nc, npt, r = got
            if nc != M.n_cells or npt != len(M.points):
                return "{} cells and {} points expected {} and {}".format(nc, npt, M.n_cells, len(M.points))
            if len(labs) != nc or len(set(labs.tolist())) != nc or {len(x) for x in labs} != {M.label_length or 5}:
                return "labels {}".format(short(labs.tolist()))
            return None
    elif what == "many labels":  # as many cells as a real model has
        from toughio import Mesh

        k, length = d.pick([101, 1001, 3501, 10001, 35001, 122501, 200000]), d.pick([None, 5, 5, 6, 7])
        text = "labels of {} cells of length {}".format(k, length)

        def call():
            b = Mesh(np.zeros((1, 3)), [("vertex", np.zeros((k, 1), dtype=int))])
            b.label_length = length
            return b.labels, m.labels

        def check(got):
            labs, own = got[0].tolist(), got[1].tolist()
            if len(labs) != k or len(set(labs)) != k:
                return "{} different labels".format(len(set(labs)))
            if {len(x) for x in labs} != {length or 5}:
                return "labels of length {}".format({len(x) for x in labs})
            if (length or 5) == (M.label_length or 5) and labs[:len(own)] != own[:len(labs)]:
                return "the first labels are not those of a smaller mesh"
            return None
    elif what == "centers":
        call = lambda: m.centers
        check = lambda got: cmp_arr("centers", got, M.centers(), 12)
    else:
        if not M.solid() or not M.clean():
            return None
        if what == "volumes":
            call = lambda: m.volumes

            def check(got):
                v = M.volumes()
                return None if np.shape(got) == v.shape and np.allclose(got, v, rtol=1e-9, atol=1e-12 * v.max()) else \
                    "{} expected {}".format(short(got), short(v))
        elif what == "areas" and M.cyl:
            call = lambda: (m.face_areas, m.faces)

            def check(got):
                areas, faces = got
                if np.shape(areas) != (M.n_cells, 6):
                    return "areas of shape {}".format(np.shape(areas))
                for i, (_, c) in enumerate(M.cell_list()):
                    (r1, _, z1), (r2, _, z2) = M.points[c].min(axis=0), M.points[c].max(axis=0)
                    for j, f in enumerate(faces[i]):
                        q = M.points[f]
                        flat = [a for a in range(3) if len(set(q[:, a].tolist())) == 1]
                        want = {2: np.pi * (r2 ** 2 - r1 ** 2), 1: (r2 - r1) * (z2 - z1), 0: 2 * np.pi * q[0, 0] * (z2 - z1)}[flat[0]]
                        if abs(areas[i][j] - want) > 1e-9 * max(abs(want), 1e-9):
                            return "cell {}: face {} has area {} expected {}".format(i, j, areas[i][j], want)
                return None
        elif what == "qualities":
            if M.cyl or not M.distinct():
                return None
            worst = {}
            c = M.centers()
            for (i, j), face in M.geometry()[2].items():
                u = c[j] - c[i]
                q = abs(np.dot(u, meshes.face_geom(M.points, face)[1])) / np.linalg.norm(u)
                for k in (i, j):
                    worst[k] = min(q, worst.get(k, 2.0))
            if len(worst) < M.n_cells:  # a cell without neighbour has none
                return None
            want = np.array([worst[i] for i in range(M.n_cells)])
            call = lambda: m.qualities
            check = lambda got: None if np.shape(got) == want.shape and np.allclose(got, want, rtol=0, atol=1e-6) else \
                "{} expected {}".format(short(got), short(want))
        elif what == "areas":
            call = lambda: (m.face_areas, m.faces, m.face_normals)

            def check(got):
                areas, faces, normals = got
                c = M.centers()
                vol = M.volumes()
                if len(areas) != M.n_cells or len(faces) != M.n_cells or len(normals) != M.n_cells:
                    return "other number of cells"
                for i in range(M.n_cells):  # divergence theorem over the faces given
                    fs = [[int(x) for x in f if x >= 0] for f in faces[i]]
                    fs = [f for f in fs if f]
                    if len(fs) != len(areas[i]) or len(fs) != len(normals[i]):
                        return "cell {}: {} faces, {} areas".format(i, len(fs), len(areas[i]))
                    s = sum(a * abs(np.dot(nn, M.points[f].mean(axis=0) - c[i])) for f, a, nn in zip(fs, areas[i], normals[i]))
                    if abs(s / 3.0 - vol[i]) > 1e-6 * vol[i]:
                        return "cell {}: faces enclose {} of {}".format(i, s / 3.0, vol[i])
                return None
        else:
            if not M.distinct():
                return None
            call = lambda: m.connections

            def check(got):
                pairs = {(min(i, j), max(i, j)) for i, row in enumerate(np.asarray(got).tolist()) for j in row if j >= 0}
                return None if pairs == set(M.geometry()[2]) else "connections {} expected {}".format(
                    short(sorted(pairs)), short(sorted(M.geometry()[2])))
    return Step("query " + what, n, text, call, lambda got: ((lambda e: "{}: {}".format(text, e) if e else None)(check(got))))


# files -------------------------------------------------------------------------------------------
def s_save(W, d):
    n, it = target(W, d)
    file = d.pick(NAMES) + ".pickle"
    path = os.path.join(W.root, file)
    M = copy.deepcopy(it.M)
    kw = {"protocol": d.int(0, 5)} if d.bool(0.3) else {}

    def check(value):
        W.saved[file] = M
        return None

    s = Step("save", n, "write({!r})".format(file), lambda: it.real.write(path, **kw), check, io=True)
    s.file = file
    return s


def s_load(W, d):
    import toughio

    files = sorted(f for f in W.saved if W.saved[f] is not None)
    if not files:
        return None
    file = d.pick(files)
    n = d.pick(NAMES)
    M = W.saved[file]

    def check(m):
        e = same_exact(m, M)
        if not e:
            W.items[n] = Item(m, copy.deepcopy(M))
        return e

    return Step("load", n, "read_mesh({!r})".format(file), lambda: toughio.read_mesh(os.path.join(W.root, file)), check, io=True)


def s_export(W, d):
    """Written in another format, and what a reader finds in the file."""
    import toughio

    n, it = target(W, d, lambda M: M.n_cells)
    if n is None:
        return None
    M = it.M
    if M.cell_sets or M.point_sets:
        return None
    dims = set(M.dims())
    plain = all(v.ndim < 3 and v.dtype.kind in "if" for v in list(M.point_data.values()) + list(M.cell_data.values()))
    fmts = []
    if plain and "material" not in M.point_data and M.cell_data.get("material", np.zeros(1, int)).dtype.kind == "i":
        fmts.append("avsucd")
        if not dims & {0, 1}:
            fmts += ["vtu", "vtk"]
        if not set(M.point_data) & set(M.cell_data) and max(dims) > 1:
            fmts.append("tecplot")
        if M.points.shape[1] == 3 and 3 in dims and not dims & {0, 1}:
            fmts.append("flac3d")
    tough = M.solid() and M.distinct() and not M.cyl and M.n_cells > 1 and len(M.geometry()[2]) and "boundary_condition" not in M.cell_data
    if tough:
        fmts += ["tough"] * 2
    if not fmts:
        return None
    fmt = d.pick(fmts)
    path = os.path.join(W.root, "export." + fmt)
    if fmt == "tough":
        from .tough import ToughModel

        T = ToughModel.__new__(ToughModel)
        T.M, T.incon, T.labels = M, False, [str(x) for x in it.real.labels]

        def check(value):
            return T.check_mesh(rread(path), {})

        return Step("write tough", n, "write_tough", lambda: it.real.write(path, file_format="tough"), check, io=True)

    def check(value):
        return CHECKS[fmt](M, toughio.read_mesh(path, file_format=fmt))

    kw = {"binary": True} if fmt == "flac3d" and d.bool(0.5) else {}
    return Step("write " + fmt, n, "write in format " + fmt, lambda: it.real.write(path, file_format=fmt, **kw), check, io=True)


# refusals ----------------------------------------------------------------------------------------
def s_refused(W, d):
    import toughio
    from toughio._io.output._common import Output

    n, it = target(W, d, lambda M: M.n_cells > 1)
    if n is None:
        return None
    M, m = it.M, it.real
    nc, npt = M.n_cells, len(M.points)
    dim = M.points.shape[1]
    wrong = lambda k: k + d.pick([1, -1, 5])
    a, b = wrong(nc), wrong(npt)
    labels = [str(x) for x in m.labels]
    alien = labels[:-1] + ["???" + labels[-1][3:]]
    out = lambda labs, typ="element": Output(typ, "csv", 1.0, np.array(labs), {"T": np.arange(len(labs)) * 1.0, "zz": np.arange(len(labs)) * 2.0})
    cases = [
        ("add_cell_data of {} values".format(a), lambda: m.add_cell_data("T", np.zeros(a))),
        ("add_point_data of {} values".format(b), lambda: m.add_point_data("T", [0.0] * b)),
        ("add_cell_data with a number", lambda: m.add_cell_data("T", 1.0)),
        ("add_point_data labelled 3", lambda: m.add_point_data(3, np.zeros(npt))),
        ("near in {} dimensions".format(5 - dim), lambda: m.near([0.0] * (5 - dim))),
        ("extrude_to_3d along axis 3", lambda: m.extrude_to_3d(axis=3)),
        ("split of {} values".format(a), lambda: m.split(np.zeros(a))),
        ("read_output of too many cells", lambda: m.read_output(out(labels + ["ZZZ99"]))),
        ("read_output with an unknown cell", lambda: m.read_output(out(alien))),
        ("read_output of a step that is not there", lambda: m.read_output([out(labels)] * 2, time_step=2)),
        ("read_output of a number", lambda: m.read_output(3.0)),
        ("read_output of connections of an unknown cell", lambda: m.read_output(out([[labels[0], labels[1]], [labels[0], alien[-1]]], "connection"))),
        ("from_meshio of a toughio mesh", lambda: toughio.from_meshio(m)),
        ("read_output of a missing file", lambda: m.read_output(os.path.join(W.root, "missing.csv"))),
    ]
    if "material" in M.cell_data:
        cases += [
            ("set_material beyond the last cell", lambda: m.set_material("ROCK9", [0, nc])),
            ("set_material of cell -1", lambda: m.set_material("ROCK9", np.array([0, -1]))),
            ("set_material with {} booleans".format(a), lambda: m.set_material("ROCK9", np.zeros(a, dtype=bool) | True)),
            ("set_material with real numbers", lambda: m.set_material("ROCK9", [0.0, 1.0])),
        ]
    if dim == 3:
        axis = [k for k in range(3) if len(set(M.points[:, k].tolist())) > 1]
        if axis:
            k = d.pick(axis)
            cases.append(("extrude_to_3d along axis {} of a mesh that is not flat".format(k), lambda: m.extrude_to_3d(axis=k)))
    text, call = d.pick(cases)
    return Step("refused", n, text, call, refuse=True)


STEPS = [(4, s_create), (4, s_data), (5, s_material), (4, s_extrude), (4, s_prune), (2, s_to_points), (2, s_to_cells), (1, s_label), (3, s_assign),
         (3, s_output), (4, s_copy), (10, s_query), (3, s_save), (3, s_load), (3, s_export), (3, s_refused)]
KINDS = [f.__name__ for _, f in STEPS]
BY = {f.__name__: f for _, f in STEPS}


def resolve(W, kind, seed):
    """The step of this kind in the present state, or None."""
    d = Draw(seed=seed)
    if kind not in ("s_create", "s_load") and not W.items:
        kind = "s_create"
    return BY[kind](W, d)


class MeshEdit(Op):
    """A piece of a session in memory as one call; each step is judged where it happens."""

    kind = "mesh_edit"
    PURE = [(w, f.__name__) for w, f in STEPS if f.__name__ not in ("s_save", "s_load", "s_export")]

    def __init__(self, d):
        super().__init__()
        self.steps = [("s_create", d.raw(2 ** 31))] + [(d.weighted(self.PURE), d.raw(2 ** 31)) for _ in range(d.int(1, 5))]

    def call(self):
        W = World(self.dir, {})
        out = []
        for kind, seed in self.steps:
            s = resolve(W, kind, seed)
            if s is None or s.io:
                continue
            try:
                v = s.call()
                bad = "accepted" if s.refuse else s.check and s.check(v)
            except (TypeError, ValueError, AttributeError, KeyError, IndexError) as e:
                v, bad = None, None if s.refuse else exc_key(e)
            bad = bad or W.disturbed(None if s.refuse else s.target)
            out.append((s.describe(), bad))
            if bad:
                break
            for it in W.items.values():
                it.image = deep(it.real)
        return out, {n: W.items[n].real for n in sorted(W.items)}

    def verify(self, value):
        return next(("{}: {}".format(t, bad) for t, bad in value[0] if bad), None)

    def describe(self):
        return "edits of meshes: {}".format(", ".join("{} {}".format(k[2:], s) for k, s in self.steps))

"""Meshes: generation, exact expectations per file format, mesh file operations."""
import collections
import math

import numpy as np

from .base import Op, deep, first_diff, short
from .inputs import rock_name
from .outputs import near

FACES = {
    "tetra": [[1, 2, 3], [0, 3, 2], [0, 1, 3], [0, 2, 1]],
    "pyramid": [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4], [0, 3, 2, 1]],
    "wedge": [[0, 2, 1], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [0, 3, 5, 2]],
    "hexahedron": [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [0, 4, 7, 3]],
}
DIM = {"tetra": 3, "pyramid": 3, "wedge": 3, "hexahedron": 3, "triangle": 2, "quad": 2, "line": 1, "vertex": 0}


class Model(object):
    """A mesh as plain data; `build` makes the toughio object from private copies."""

    def __init__(self):
        self.points = None
        self.blocks = []  # [(type, array)]
        self.point_data = {}
        self.cell_data = {}
        self.field_data = {}
        self.label_length = None
        self._geo = None

    @property
    def n_cells(self):
        return sum(len(b[1]) for b in self.blocks)

    def build(self):
        import toughio

        m = toughio.Mesh(
            points=self.points.copy(),
            cells=[(t, c.copy()) for t, c in self.blocks],
            point_data={k: v.copy() for k, v in self.point_data.items()},
            cell_data={k: v.copy() for k, v in self.cell_data.items()},
            field_data={k: v.copy() for k, v in self.field_data.items()},
        )
        if self.label_length:
            m.label_length = self.label_length
        return m

    def merged(self, order=None):
        """Blocks with consecutive blocks of one type merged."""
        out = []
        for t, c in (self.blocks if order is None else order):
            if out and out[-1][0] == t:
                out[-1] = (t, np.concatenate([out[-1][1], c]))
            else:
                out.append((t, c))
        return out

    def cell_list(self):
        return [(t, [int(x) for x in row]) for t, c in self.blocks for row in c]

    def names(self):
        """Material of each cell as the MESH file shows it: name or number."""
        mat = self.cell_data.get("material")
        if mat is None:
            return [1] * self.n_cells
        if self.field_data:
            d = {int(v[0]): k for k, v in self.field_data.items()}
            if all(int(x) in d for x in mat):
                return [d[int(x)] for x in mat]
        return [int(x) for x in mat]

    # -- geometry, independent of toughio -------------------------------------------------
    def geometry(self):
        if self._geo is None:
            self._geo = self._geometry()
        return self._geo

    def _geometry(self):
        pts = self.points.astype(float)
        cells = self.cell_list()
        centers = [pts[c].mean(axis=0) for _, c in cells]
        vols = [poly_volume(pts, t, c) for t, c in cells]
        owner = collections.OrderedDict()
        for i, (t, c) in enumerate(cells):
            for f in FACES[t]:
                face = [c[j] for j in f]
                owner.setdefault(frozenset(face), []).append((i, face))
        conns = {}
        for fs, l in owner.items():
            if len(l) == 2:
                (i, face), (j, _) = l
                conns[(min(i, j), max(i, j))] = face
        return centers, vols, conns


def cross(a, b):
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def poly_volume(pts, t, c):
    """Volume by the divergence theorem over the faces (planar faces)."""
    p = pts[c]
    p = (p - p[0]).tolist()
    v = 0.0
    for f in FACES[t]:
        a = p[f[0]]
        for k in range(1, len(f) - 1):
            b, g = p[f[k]], p[f[k + 1]]
            v += (a[0] * (b[1] * g[2] - b[2] * g[1]) + a[1] * (b[2] * g[0] - b[0] * g[2])
                  + a[2] * (b[0] * g[1] - b[1] * g[0])) / 6.0
    return abs(v)


def face_geom(pts, face):
    q = pts[face]
    n = np.zeros(3)
    for k in range(1, len(face) - 1):
        n += 0.5 * cross(q[k] - q[0], q[k + 1] - q[0])
    a = float(np.linalg.norm(n))
    return a, n / a, q[0]


def transform(d, pts, exact=False):
    """An affine map with positive determinant and dyadic coefficients."""
    if not d.bool(0.4):
        return pts
    n = pts.shape[1]
    m = d.raw(3)
    A = np.diag([d.pick([0.5, 1.0, 2.0, 4.0] + ([] if exact else [100.0])) for _ in range(n)])
    if d.bool(0.3):  # millimetres or kilometres, not a round number
        A = A * d.pick([2.0 ** -10, 2.0 ** 10] if exact else [2.0 ** -10, 0.001, 0.3, 2.0 ** 10, 7000.0])
    if m == 1:
        for i in range(n):
            for j in range(n):
                if i < j:
                    A[i, j] = A[i, i] * d.pick([0.0, 0.25, -0.5, 2.0 ** -9])
    elif m == 2 and n == 3:
        A = A @ np.array([[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]])
    elif m == 2:
        A = A @ np.array([[0.0, -1.0], [1.0, 0.0]])
    off = np.array([d.pick([0.0, -10.0, 1000.0, 0.125]) for _ in range(n)])
    return pts @ A.T + off


def spacings(d, n):
    return np.concatenate([[0.0], np.cumsum([d.pick([1.0, 0.5, 2.0, 10.0, 0.125]) for _ in range(n)])])


def wiggle(d, pts):
    """Columns of nodes moved sideways: quadrilaterals stay convex, vertical faces plane."""
    if not d.bool(0.25):
        return pts
    rng = np.random.RandomState(d.raw(2 ** 31))
    pts = np.array(pts)
    move = {}
    for p in pts:
        k = (p[0], p[1])
        if k not in move:
            move[k] = rng.randint(-7, 8, 2) / 256.0
        p[:2] += move[k]
    return pts


def gen_mesh(d, dim=3, types=None, big=None, faces2d=False, data=True, lines=False, exact=False):
    """A conforming mesh.  types: allowed cell types; faces2d: add boundary faces as 2D cells; lines: 1D and 0D cells."""
    M = Model()
    types = set(types or (["hexahedron", "wedge", "pyramid", "tetra"] if dim == 3 else ["quad", "triangle"]))
    big = d.bool(0.1) if big is None else big
    mx = 7 if big else 3
    nx, ny, nz = d.int(1, mx), d.int(1, mx), d.int(1, mx)
    X, Y, Z = spacings(d, nx), spacings(d, ny), spacings(d, nz)
    idx = lambda i, j, k=0: (k * (ny + 1) + j) * (nx + 1) + i
    cells = []
    quad_ok = "quad" in types or "hexahedron" in types
    tri_ok = "triangle" in types or "wedge" in types
    if dim == 3 and types == {"tetra"}:
        quad_ok, tri_ok = True, False
    base = []
    for j in range(ny):
        for i in range(nx):
            q = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            if tri_ok and (not quad_ok or d.bool(0.3)):
                base += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
            else:
                base.append(q)
    if dim == 2:
        pts = np.array([[x, y] for y in Y for x in X])
        cells = [("quad" if len(b) == 4 else "triangle", [idx(*v) for v in b]) for b in base]
        pts = wiggle(d, pts)
        if d.bool(0.6):
            pts = np.column_stack([transform(d, pts, exact), np.full(len(pts), d.pick([0.0, 1.5]))])
        else:
            pts = transform(d, pts, exact)
    else:
        pts = [[x, y, z] for z in Z for y in Y for x in X]
        ztop = Z[-1]
        pts = wiggle(d, np.array(pts)).tolist()
        if types == {"tetra"}:
            for k in range(nz):
                for b in base:
                    h = [idx(i, j, k) for i, j in b] + [idx(i, j, k + 1) for i, j in b]
                    # Kuhn decomposition: conforming across boxes
                    a, g = h[0], h[6]
                    for u, v in ((1, 2), (2, 3), (3, 7), (7, 4), (4, 5), (5, 1)):
                        cells.append(("tetra", [a, h[u], h[v], g]))
        else:
            for k in range(nz):
                for b in base:
                    c = [idx(i, j, k) for i, j in b] + [idx(i, j, k + 1) for i, j in b]
                    cells.append(("hexahedron" if len(b) == 4 else "wedge", c))
            for b in base:
                top = [idx(i, j, nz) for i, j in b]
                want = "pyramid" if len(b) == 4 else "tetra"
                if want in types and d.bool(0.3):
                    c = np.mean([pts[v] for v in top], axis=0)
                    h = d.pick([1.0, 0.5, 3.0])
                    pts.append([float(c[0]), float(c[1]), float(ztop + h)])
                    cells.append((want, top + [len(pts) - 1]))
        pts = transform(d, np.array(pts), exact)
        if types == {"tetra"}:
            fixed = []
            for t, c in cells:
                p = pts[c]
                if np.dot(p[1] - p[0], np.cross(p[2] - p[0], p[3] - p[0])) < 0:
                    c = [c[0], c[2], c[1], c[3]]
                fixed.append((t, c))
            cells = fixed
    faces = []
    if faces2d and dim == 3:
        seen = {}
        for t, c in cells:
            for f in FACES[t]:
                face = [c[j] for j in f]
                seen.setdefault(frozenset(face), []).append(face)
        outer = [l[0] for l in seen.values() if len(l) == 1]
        faces = [f for f in outer if d.bool(0.3)]
        cells += [("quad" if len(f) == 4 else "triangle", f) for f in faces]
    if lines:
        for _ in range(d.int(1, 6)):
            k = d.raw(len(pts))
            cells.append(("vertex", [k]) if d.bool(0.3) else ("line", [k, (k + 1 + d.raw(len(pts) - 1)) % len(pts)]))
    # order of the cells, cut in blocks of one type
    mode = d.raw(3)
    if mode == 1:
        cells = d.shuffle(cells)
    if mode != 2:
        cells = sorted(cells, key=lambda c: c[0]) if d.bool(0.7) else cells
    if mode == 2:
        cells = sorted(cells, key=lambda c: (-DIM[c[0]], c[0]))
    blocks = []
    for t, c in cells:
        if blocks and blocks[-1][0] == t and not d.bool(0.03):
            blocks[-1][1].append(c)
        else:
            blocks.append((t, [c]))
    # order of the points
    n = len(pts)
    if d.bool(0.3):
        perm = np.random.RandomState(d.raw(2 ** 31)).permutation(n)
        new = np.empty_like(pts)
        new[perm] = pts
        pts = new
        blocks = [(t, perm[np.array(c)]) for t, c in blocks]
    M.points = np.ascontiguousarray(pts)
    M.blocks = [(t, np.array(c, dtype=np.int64)) for t, c in blocks]
    nc = M.n_cells
    # materials
    if d.bool(0.85):
        nm = d.int(1, 4)
        ids = [d.int(1, 3)]
        for _ in range(nm - 1):
            ids.append(ids[-1] + d.int(1, 3))
        rng = np.random.RandomState(d.raw(2 ** 31))
        mat = np.array(ids)[rng.randint(0, nm, nc)] if d.bool(0.7) else np.array(ids)[
            (np.arange(nc) * nm) // nc]
        if faces:
            shared = d.raw(4)  # faces and zones may have materials, names or numbers in common
            fid = ids[0] if shared == 3 else ids[-1] + 1
            dims = np.concatenate([np.full(len(c), DIM[t]) for t, c in M.blocks])
            mat = mat if shared == 2 else np.where(dims == 2, fid, mat)
        M.cell_data["material"] = mat.astype(np.int64)
        if d.bool(0.8):
            used = set()
            for i in ids:
                M.field_data[rock_name(d, used)] = np.array([i, dim])
            if faces:
                M.field_data[rock_name(d, used)] = np.array([fid, 2])
            if d.bool(0.2):
                M.field_data[rock_name(d, used)] = np.array([ids[-1] + 7, dim])
    if data:
        rng = np.random.RandomState(d.raw(2 ** 31))
        for where, m in ((M.point_data, n), (M.cell_data, nc)):
            for name in d.subset(["Temp", "pres", "k", "flag", "vel"], 0.3):
                if name == "flag":
                    where[name] = rng.randint(-5, 1000, m)
                elif name == "vel":
                    where[name] = rng.normal(size=(m, 3))
                else:
                    where[name] = rng.uniform(-1, 1, m) * 10.0 ** rng.randint(-20, 20, m)
    if d.bool(0.2):
        M.label_length = d.weighted([(40, 5), (30, 6), (20, 7), (7, 8), (2, 9)])
        while d.ALNUM and nc > 10 ** (M.label_length - 3) * 900:
            M.label_length += 1
    return M


# -- expectations -----------------------------------------------------------------------------
def cmp_arr(where, got, want, p=None):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return "{}: shape {} expected {}".format(where, g.shape, w.shape)
    if p is None:
        ok = np.asarray(g == w)
    else:
        ok = near(g, w, p)
    if not np.all(ok):
        i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
        return "{}{}: {!r} expected {!r}".format(where, list(map(int, i)), np.atleast_1d(g)[i].item(),
                                                np.atleast_1d(w)[i].item())
    return None


def cmp_blocks(got, want):
    g = []
    for c in got:
        if g and g[-1][0] == c.type:
            g[-1] = (c.type, np.concatenate([g[-1][1], np.asarray(c.data)]))
        else:
            g.append((c.type, np.asarray(c.data)))
    if [(t, len(c)) for t, c in g] != [(t, len(c)) for t, c in want]:
        return "cells {} expected {}".format([(t, len(c)) for t, c in g], [(t, len(c)) for t, c in want])
    for (t, a), (_, b) in zip(g, want):
        e = cmp_arr("cells " + t, a, b)
        if e:
            return e
    return None


def poly(t, c):
    """A cell as the set of its faces (3D) or edges (2D): what any node order must keep."""
    if t in FACES:
        return (t, frozenset(frozenset(int(c[j]) for j in f) for f in FACES[t]))
    return (t, frozenset(frozenset((int(c[i]), int(c[(i + 1) % len(c)]))) for i in range(len(c))))


def cmp_poly(got, want):
    a = [poly(c.type, row) for c in got for row in np.asarray(c.data)]
    b = [poly(t, row) for t, c in want for row in c]
    if len(a) != len(b):
        return "{} cells expected {}".format(len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "cell {} is {} expected {}".format(i, short((x[0], sorted(map(sorted, x[1])))),
                                                      short((y[0], sorted(map(sorted, y[1])))))
    return None


def cmp_data(where, got, want, p):
    if set(got) != set(want):
        return "{}: {} expected {}".format(where, sorted(got), sorted(want))
    for k in want:
        e = cmp_arr("{}[{}]".format(where, k), got[k], want[k], p)
        if e:
            return e
    return None


def cmp_dtype(where, got, want):
    for k in want:
        if np.asarray(got[k]).dtype.kind != np.asarray(want[k]).dtype.kind:
            return "{}[{}]: kind {} expected {}".format(where, k, np.asarray(got[k]).dtype, np.asarray(want[k]).dtype)
    return None


def pts3(p):
    return p if p.shape[1] == 3 else np.column_stack([p, np.zeros(len(p))])


def check_avsucd(M, got):
    e = cmp_arr("points", got.points, pts3(M.points)) or cmp_blocks(got.cells, M.merged())
    if e:
        return e
    cd = {k: v for k, v in M.cell_data.items()}
    mat = cd.pop("material", np.zeros(M.n_cells, dtype=int))
    gd = dict(got.cell_data)
    gm = gd.pop("material", None)
    if gm is None:
        return "material lost"
    return cmp_arr("material", gm, mat) or cmp_data("point_data", got.point_data, M.point_data, 14) or \
        cmp_data("cell_data", gd, cd, 14)


def check_flac3d(M, got):
    zone = [(t, c) for t, c in M.blocks if DIM[t] == 3]
    face = [(t, c) for t, c in M.blocks if DIM[t] == 2]
    e = cmp_arr("points", got.points, M.points) or cmp_poly(got.cells, zone + face)
    if e:
        return e
    if "material" not in M.cell_data:
        return "invented materials" if got.cell_data.get("material") is not None else None
    dims = np.concatenate([np.full(len(c), DIM[t]) for t, c in M.blocks])
    order = np.concatenate([np.flatnonzero(dims == 3), np.flatnonzero(dims == 2)])
    mat, dims = M.cell_data["material"][order], dims[order]
    fd = {(int(v[0]), int(v[1])): k for k, v in M.field_data.items()}
    want = [fd.get((int(m), int(k))) or fd.get((int(m), 3)) or str(int(m)) for m, k in zip(mat, dims)]
    zones = {n for n, k in zip(want, dims) if k == 3}
    gm = got.cell_data.get("material")
    if gm is None:
        return "materials lost"
    gf = {int(v[0]): k for k, v in got.field_data.items()}
    names = [gf.get(int(m)) for m in gm]
    if names != want:
        i = [a == b for a, b in zip(names, want)].index(False) if len(names) == len(want) else -1
        return "material of cell {}: {!r} expected {!r}".format(i, names[i], want[i])
    gdim = {k: int(v[1]) for k, v in got.field_data.items()}
    for nme, k in zip(want, dims):
        if gdim[nme] != (3 if nme in zones else k):
            return "group {!r} has dimension {} expected {}".format(nme, gdim[nme], k)
    return None


def split_vec(data):
    out = {}
    for k, v in data.items():
        if v.ndim == 1:
            out[k] = v
        else:
            for i in range(v.shape[1]):
                out["{}_{}".format(k, i)] = v[:, i]
    return out


def check_tecplot(M, got):
    dims = np.concatenate([np.full(len(c), DIM[t]) for t, c in M.blocks])
    keep = dims == dims.max()  # a zone has cells of one dimension
    blocks = [(t, c) for t, c in M.blocks if DIM[t] == dims.max()]
    if len({t for t, _ in blocks}) == 1 and blocks[0][0] not in ("wedge", "pyramid"):
        e = cmp_blocks(got.cells, [(blocks[0][0], np.concatenate([c for _, c in blocks]))])
    else:  # as hexahedra or quadrilaterals with repeated nodes
        a = [solid(c.type, row) for c in got.cells for row in np.asarray(c.data)]
        b = [solid(t, row) for t, c in blocks for row in c]
        i = [x == y for x, y in zip(a, b)] + [len(a) == len(b)]
        e = None if all(i) else "{} cells expected {}, differing from cell {}".format(len(a), len(b), i.index(False))
    return cmp_arr("points", got.points, M.points) or e or \
        cmp_data("point_data", got.point_data, split_vec(M.point_data), None) or \
        cmp_data("cell_data", got.cell_data, split_vec({k: v[keep] for k, v in M.cell_data.items()}), None)


def solid(t, c):
    """A cell as the set of its faces or edges, without those that repeated nodes made degenerate."""
    k = 3 if t in FACES else 2
    return frozenset(f for f in poly(t, c)[1] if len(f) >= k)


def check_pickle(M, got):
    a, b = deep(got), deep(M.build())
    return None if a == b else "unpickled mesh differs at " + str(first_diff(a, b))


def check_vtk(M, got):
    e = cmp_arr("points", got.points, pts3(M.points)) or cmp_blocks(got.cells, M.merged())
    if e:
        return e
    cd = dict(M.cell_data)
    gd = dict(got.cell_data)
    if "material" not in cd:
        cd["material"] = gd.get("material", np.zeros(0))
        if len(set(np.asarray(cd["material"]).tolist())) != 1:
            return "default material is not uniform"
    return cmp_data("point_data", got.point_data, M.point_data, None) or cmp_data("cell_data", gd, cd, None) or \
        cmp_dtype("point_data", got.point_data, M.point_data) or cmp_dtype("cell_data", gd, cd)


CHECKS = {"avsucd": check_avsucd, "flac3d": check_flac3d, "tecplot": check_tecplot, "pickle": check_pickle,
          "vtk": check_vtk, "vtu": check_vtk}
EXT = {"avsucd": ".avs", "flac3d": ".f3grid", "tecplot": ".tec", "pickle": ".pickle", "vtk": ".vtk", "vtu": ".vtu"}
OWN = ["avsucd", "avsucd", "flac3d", "flac3d", "flac3d", "tecplot", "pickle"]


def gen_for(d, fmt):
    lines = d.bool(0.1)
    if fmt == "flac3d":
        M = gen_mesh(d, 3, faces2d=d.bool(0.4), data=d.bool(0.3), lines=lines)
        if M.field_data and d.bool(0.25):  # FLAC3D has no limit of five characters
            M.field_data = {k + d.pick(["", " rock", "\u00e9", " \u5ca9\u77f3", "_of_a_long_name" * 3, " a b"]): v
                            for k, v in M.field_data.items()}
        return M
    if fmt == "tecplot":
        if d.bool(0.4):
            dim = d.pick([3, 3, 2])
            M = gen_mesh(d, dim, faces2d=dim == 3 and d.bool(0.5), lines=lines)
        else:
            t = d.pick(["hexahedron", "quad", "triangle", "tetra"])
            M = gen_mesh(d, 3 if t in ("hexahedron", "tetra") else 2, types=[t])
        M.point_data = {"p" + k: v for k, v in M.point_data.items()}
        return M
    if fmt in ("vtk", "vtu"):
        lines = False
    return gen_mesh(d, d.pick([3, 3, 2]), lines=lines)


class MeshWrite(Op):
    kind = "write_mesh"

    def __init__(self, d, name=None, fmt=None, own=False):
        super().__init__()
        self.fmt = fmt or d.pick(OWN if own else OWN + ["vtk", "vtu"])
        self.own_format = self.fmt not in ("vtk", "vtu")
        self.M = gen_for(d, self.fmt)
        self.kw = {}
        if self.fmt == "flac3d":
            self.kw["binary"] = d.bool(0.5)
        if self.fmt == "pickle" and d.bool(0.4):
            self.kw["protocol"] = d.int(0, 5)
        explicit = name is not None or self.fmt == "avsucd" or d.bool(0.3)
        ext = d.pick({"tecplot": [".tec", ".dat", ".TEC"], "pickle": [".pickle", ".pkl"],
                      "flac3d": [".f3grid", ".F3GRID"]}.get(self.fmt, [EXT[self.fmt]]))
        self.name = name or ("grid" if explicit and self.own_format and d.bool(0.3) else "mesh" + ext)
        self.explicit = explicit and (self.own_format or name is not None)
        self.via = d.bool(0.5)
        self.dests = [self.name]
        self.mesh = self.M.build()

    def call(self):
        import toughio

        kw = dict(self.kw)
        if self.explicit:
            kw["file_format"] = self.fmt
        if self.via:
            return self.mesh.write(self.p(self.name), **kw)
        return toughio.write_mesh(self.p(self.name), self.mesh, **kw)

    def readback(self):
        import toughio

        kw = {"file_format": self.fmt} if self.explicit else {}
        return toughio.read_mesh(self.p(self.name), **kw)

    def verify(self, value):
        return self.compare(self.readback())

    def compare(self, got):
        import toughio

        if not isinstance(got, toughio.Mesh):
            return "read_mesh returned {}".format(short(type(got)))
        e = CHECKS[self.fmt](self.M, got)
        return "read back differs: " + e if e else None

    def args(self):
        return [self.mesh, self.kw]

    def canon_bytes(self, data):
        """Bytes with what is allowed to vary removed."""
        if self.fmt == "flac3d" and not self.kw.get("binary"):
            return b"\n".join(l for l in data.split(b"\n") if not l.startswith(b"*"))
        return data

    def describe(self):
        return "Mesh.write({!r}, fmt={}{}, {} points, {})".format(
            self.p(self.name), self.fmt, "".join(", {}={}".format(*x) for x in self.kw.items()),
            len(self.M.points), "+".join("{}x{}".format(len(c), t) for t, c in self.M.blocks[:8]))


class MeshRead(Op):
    kind = "read_mesh"

    def __init__(self, d, name=None, fmt=None, own=False):
        super().__init__()
        self.w = MeshWrite(d, name=name, fmt=fmt, own=own)
        self.own_format = self.w.own_format
        self.sources = [self.w.name]

    def setup(self):
        self.w.dir = self.dir
        self.w.call()

    def call(self):
        self.w.dir = self.dir
        return self.w.readback()

    def verify(self, value):
        return self.w.compare(value)

    def describe(self):
        return "read_mesh of " + self.w.describe()


class MeshCompute(Op):
    """Geometry of a mesh (no files): what write_tough builds on."""

    kind = "mesh_compute"

    def __init__(self, d):
        super().__init__()
        self.M = gen_mesh(d, 3)
        self.mesh = self.M.build()

    def call(self):
        m = self.mesh
        return {"volumes": m.volumes, "centers": m.centers, "connections": m.connections, "labels": m.labels,
                "materials": m.materials, "areas": m.face_areas, "faces": m.faces}

    def verify(self, value):
        centers, vols, conns = self.M.geometry()
        e = cmp_arr("centers", value["centers"], np.array(centers), 12)
        scale = max(vols)
        if not e and not np.allclose(value["volumes"], vols, rtol=1e-9, atol=1e-12 * scale):
            e = "volumes {} expected {}".format(short(value["volumes"]), short(vols))
        got = {(min(i, j), max(i, j)) for i, row in enumerate(value["connections"].tolist()) for j in row if j >= 0}
        if not e and got != set(conns):
            e = "connections {} expected {}".format(short(sorted(got)), short(sorted(conns)))
        if not e and len(set(value["labels"].tolist())) != self.M.n_cells:
            e = "labels not unique"
        return e

    def args(self):
        return self.mesh

    def describe(self):
        return "geometry of mesh of {} cells".format(self.M.n_cells)

"""Time series (XDMF) and toughio-export."""
import itertools
import os

import numpy as np

from ..draw import Draw
from .base import Op, rread, short
from .meshes import cmp_arr, cmp_blocks, gen_mesh, pts3
from .outputs import EXT, near


def times_of(d, nt):
    m = d.raw(5)
    if m == 0:
        return None
    if m == 1:
        t = [float(i) for i in range(nt)]
    elif m == 2:
        t = [i * 3 - 4 for i in range(nt)]
    else:
        t, x = [], d.pick([0.0, -5.5, 1e6])
        for _ in range(nt):
            x += d.pick([0.1, 1.0, 86400.0, 1e-3, 1.0 / 3.0])
            t.append(x)
    if nt > 1 and d.bool(0.15):  # before and after an event
        k = d.int(1, nt - 1)
        t[k] = t[k - 1]
    if d.bool(0.6):
        t = d.shuffle(t)
    return t


def tied(order, t):
    """The orders of the steps in which equal times may stand either way round."""
    groups = [list(g) for _, g in itertools.groupby(order, key=lambda i: t[i])]
    for perm in itertools.islice(itertools.product(*[itertools.permutations(g) for g in groups]), 200):
        yield [i for g in perm for i in g]


class TimeSeries(Op):
    kind = "write_time_series"
    own_format = False

    def __init__(self, d, name=None):
        super().__init__()
        M = gen_mesh(d, d.pick([3, 3, 2]), data=False)
        self.M = M
        rng = np.random.RandomState(d.raw(2 ** 31))
        nt = d.size(1, 8, (1, 2))
        which = d.pick([(0, 1), (1, 0), (1, 1)])
        names = d.pick([["P"], ["P", "T"], ["PRES", "vel", "n"], ["vel"]])
        self.pd = self.cd = None

        def one(n):
            out = {}
            for x in names:
                if x == "vel":
                    out[x] = rng.normal(size=(n, 3))
                elif x == "n":
                    out[x] = rng.randint(-9, 99, n)
                else:
                    out[x] = rng.uniform(-1, 1, n) * 10.0 ** rng.randint(-10, 10)
            return out

        if which[0]:
            self.pd = [one(len(M.points)) for _ in range(nt)]
        if which[1]:
            self.cd = [one(M.n_cells) for _ in range(nt)]
        if which == (1, 1) and nt > 1 and d.bool(0.3):
            self.pd[d.raw(nt)] = {}
        if nt > 1 and d.bool(0.2):  # not every variable at every step
            for steps in (self.pd, self.cd):
                for x in steps or []:
                    for n in sorted(x):
                        if d.bool(0.3):
                            del x[n]
        self.t = times_of(d, nt)
        self.nt = nt
        self.name = name or d.pick(["series.xdmf", "out.xmf", "s"])
        self.dests = [self.name, os.path.splitext(self.name)[0] + ".h5"]
        form = d.raw(3)
        t = None if self.t is None else list(self.t)
        self.a_t = None if t is None else np.array(t) if form == 1 else tuple(t) if form == 2 else t
        cp = lambda l: None if l is None else [{k: v.copy() for k, v in x.items()} for x in l]
        self.a_pd, self.a_cd = cp(self.pd), cp(self.cd)
        self.mesh = M.build()

    def call(self):
        import toughio

        kw = {}
        if self.a_pd is not None:
            kw["point_data"] = self.a_pd
        if self.a_cd is not None:
            kw["cell_data"] = self.a_cd
        if self.a_t is not None:
            kw["time_steps"] = self.a_t
        return toughio.write_time_series(self.p(self.name), self.mesh.points, self.mesh.cells, **kw)

    def verify(self, value):
        import toughio

        return self.compare(toughio.read_time_series(self.p(self.name)))

    def compare(self, got):
        t = list(range(self.nt)) if self.t is None else self.t
        bad = None
        for order in tied(sorted(range(self.nt), key=lambda i: t[i]), t):
            pick = lambda l: [{}] * self.nt if l is None else [l[i] for i in order]
            e = check_series(got, self.M.points, self.M.merged(), pick(self.pd), pick(self.cd), [t[i] for i in order], None)
            if not e:
                return None
            bad = bad or e
        return bad

    def args(self):
        return [self.mesh, self.a_pd, self.a_cd, self.a_t]

    def describe(self):
        return "write_time_series({!r}, {} points, {} cells, times={}, point data {}, cell data {})".format(
            self.p(self.name), len(self.M.points), self.M.n_cells, short(self.t, 80),
            self.pd and [sorted(x) for x in self.pd[:2]], self.cd and [sorted(x) for x in self.cd[:2]])


class SeriesRead(Op):
    kind = "read_time_series"
    own_format = False

    def __init__(self, d):
        super().__init__()
        self.w = TimeSeries(d)
        self.sources = self.w.dests

    def setup(self):
        self.w.dir = self.dir
        self.w.call()

    def call(self):
        import toughio

        return toughio.read_time_series(self.p(self.w.name))

    def verify(self, value):
        return self.w.compare(value)

    def describe(self):
        return "read_time_series of " + self.w.describe()


def check_series(got, points, blocks, pd, cd, times, p, pt=None):
    """blocks None: cells not compared.  p: printed digits of the values, None: exact."""
    if not (isinstance(got, tuple) and len(got) == 5):
        return "read_time_series returned {}".format(short(got))
    gp, gc, gpd, gcd, gt = got
    e = cmp_arr("points", gp, points)
    if not e and blocks is not None:
        e = cmp_blocks(gc, blocks)
    if e:
        return e
    if len(gt) != len(times) or len(gpd) != len(times) or len(gcd) != len(times):
        return "{} time steps {} expected {}".format(len(gt), short(gt), short(times))
    for k, t in enumerate(times):
        if (float(gt[k]) != float(t)) if pt is None else not near([gt[k]], [t], pt).all():
            return "time of step {} is {!r} expected {!r}".format(k, gt[k], t)
        for where, g, w in (("point_data", gpd[k], pd[k]), ("cell_data", gcd[k], cd[k])):
            if set(g) != set(w):
                return "step {} (t={}): {} {} expected {}".format(k, t, where, sorted(g), sorted(w))
            for n in w:
                e = cmp_arr("step {} (t={}): {}[{}]".format(k, t, where, n), g[n], w[n], p)
                if e:
                    return e
    return None


class Export(Op):
    """toughio-export with a pickled mesh, a structured cloud (voxelised) or a triangulation."""

    kind = "export"

    def __init__(self, d, name=None, fmt=None):
        super().__init__()
        from toughio._io.output._common import Output

        self.fmt = fmt or d.pick(["vtk", "vtu", "tecplot", "xdmf", "xdmf"])
        self.own_format = self.fmt == "tecplot"
        self.mode = d.pick(["mesh", "mesh", "mesh", "voxel", "tri"])
        self.src = d.pick(["csv", "csv", "petrasim"] + (["tecplot"] if self.mode != "mesh" else []))
        rng = np.random.RandomState(d.raw(2 ** 31))
        self.M = None
        self.argv = []
        self.drop, self.unused = [], False
        if self.mode == "mesh":
            types = [d.pick(["hexahedron", "tetra"])] if self.fmt == "tecplot" else None
            self.M = gen_mesh(d, 3, types=types, data=d.bool(0.3))
            n = self.M.n_cells
            labels = [str(x) for x in self.M.build().labels]
            xyz = None
        else:
            if self.mode == "voxel":
                self.origin = [d.pick([0.0, -10.0, 100.5]) for _ in range(3)]
                k = d.pick([3, 3, 2, 1])
                N = [d.int(2, 4) if i < k else 1 for i in range(3)]
                N = d.shuffle(N)
                self.edges = []
                cs = []
                for o, m in zip(self.origin, N):
                    # one value along an axis: voxels one unit wide from the origin
                    w = [d.pick([1.0, 2.0, 0.5]) for _ in range(m)] if m > 1 else [1.0]
                    e = o + np.concatenate([[0.0], np.cumsum(w)])
                    self.edges.append(e)
                    cs.append((e[:-1] + e[1:]) / 2.0)
                xyz = np.array([[x, y, z] for z in cs[2] for y in cs[1] for x in cs[0]])
                self.ndim = k
                self.argv = ["--origin"] + ["{:g}".format(x) for x in self.origin]
                if k > 1:
                    self.argv.append("--voxelize")
                if d.bool(0.3):
                    self.argv.append("--layer")
                if len(xyz) > 1:
                    xyz = xyz[rng.permutation(len(xyz))]
            else:
                k = d.pick([2, 3])
                m = d.int(6, 20)
                xyz = np.round(rng.uniform(-50, 50, (m, 3)), 3)
                self.axis = [0, 1, 2]
                if k == 2:
                    a = d.raw(3)
                    xyz[:, a] = d.pick([0.0, 7.5])
                    self.axis = [i for i in range(3) if i != a]
            n = len(xyz)
            labels = ["AA{:03d}".format(i) for i in range(n)]
            # coordinates that do not vary may be left out of the file
            self.drop = [i for i in range(3) if self.src != "tecplot" and (xyz[:, i] == xyz[0, i]).all() and d.bool(0.4)]
            self.unused = self.src == "tecplot" and d.bool(0.3)
        self.xyz = xyz
        nt = d.size(1, 6, (1, 2))
        t, self.times = 0.0, []
        for _ in range(nt):
            t += d.int(1, 999)
            self.times.append(t)
        if nt > 1 and self.src != "petrasim" and d.bool(0.12):
            k = d.int(1, nt - 1)
            self.times[k] = self.times[k - 1]
        names = d.shuffle(["PRES", "TEMP", "SAT_G", "POR", "DEN"])[: d.int(1, 4)]
        self.steps = []
        outs = []
        for k in range(nt):
            lab = d.shuffle(labels) if self.mode == "mesh" and n < 60 else list(labels)
            at = {x: i for i, x in enumerate(labels)}
            idx = [at[x] for x in lab]
            data = {h: rng.uniform(-1, 1, n) * 10.0 ** rng.randint(-9, 9, n) for h in names}
            self.steps.append(data)  # in the order of the mesh / cloud
            cols = {}
            if xyz is not None:
                for i, c in enumerate("XYZ"):
                    if i not in self.drop:
                        cols[c] = xyz[:, i]
            cols.update({h: v[idx] for h, v in data.items()})
            outs.append(Output("element", "csv", self.times[k], lab, cols))
        if self.src == "csv" and d.bool(0.3) and nt > 1:
            o = d.shuffle(range(nt))
            outs = [outs[i] for i in o]
            self.order = o
        else:
            self.order = list(range(nt))
        self.outs = outs
        self.step = None
        if self.fmt != "xdmf" and d.bool(0.5):
            self.step = d.int(-nt, nt - 1)
        self.infile = d.pick(["OUTPUT_ELEME", "res.v1"]) + EXT[self.src]
        ext = {"tecplot": ".dat", "vtk": ".vtk", "vtu": ".vtu", "xdmf": ".xdmf"}[self.fmt]
        self.default = name is None and d.bool(0.4)
        self.name = os.path.splitext(self.infile)[0] + ext if self.default else (name or "exported" + ext)
        self.meshfile = "mesh.pickle"
        self.dests = [self.name] + ([os.path.splitext(self.name)[0] + ".h5"] if self.fmt == "xdmf" else [])
        self.sources = [self.infile] + ([self.meshfile] if self.mode == "mesh" or self.unused else [])

    def setup(self):
        import toughio

        toughio.write_output(self.p(self.infile), self.outs, file_format=self.src)
        if self.mode == "mesh":
            self.M.build().write(self.p(self.meshfile))
        elif self.unused:  # given, but of no use with a Tecplot file
            gen_mesh(Draw(seed=len(self.xyz)), 3).build().write(self.p(self.meshfile))

    def call(self):
        import toughio

        argv = [self.p(self.infile)]
        if self.mode == "mesh" or self.unused:
            argv += ["-m", self.p(self.meshfile)]
        argv += ["-f", self.fmt]
        if not self.default:
            argv += ["-o", self.p(self.name)]
        if self.step is not None:
            argv += ["-t", str(self.step)]
        return toughio._cli.export(argv + self.argv)

    def cell_order(self, points, blocks):
        """For voxels: the row of the cloud each cell is."""
        ctr = np.concatenate([points[c].mean(axis=1) for _, c in blocks])
        out = []
        ref = np.array(self.xyz)
        for i in range(3):
            if len(self.edges[i]) == 2:
                ref[:, i] = 0.0
                ctr = np.array(ctr)
                ctr[:, i] = 0.0
        for c in ctr:
            dist = np.abs(ref - c).max(axis=1)
            j = int(dist.argmin())
            if dist[j] > 1e-6:
                return None
            out.append(j)
        return out if sorted(out) == list(range(len(ref))) else None

    def verify(self, value):
        import toughio

        blocks = None
        if self.fmt == "xdmf":
            got = toughio.read_time_series(self.p(self.name))
            points, cells = got[0], got[1]
            order = sorted(range(len(self.times)), key=lambda i: self.times[i])
            orders = list(tied(order, self.times))
            times = [self.times[i] for i in order]
            steps = self.steps
        else:
            mesh = toughio.read_mesh(self.p(self.name), **(
                {"file_format": "tecplot"} if self.fmt == "tecplot" else {}))
            points, cells = mesh.points, mesh.cells
            k = (self.order if self.src != "petrasim" else sorted(self.order, key=lambda i: self.times[i]))
            steps = [self.steps[k[-1 if self.step is None else self.step]]]
        where = "cell"
        if self.mode == "mesh":
            blocks = self.M.merged()
            want_pts = self.M.points
        elif self.mode == "voxel":
            cb = [(c.type, np.asarray(c.data)) for c in cells]
            if {t for t, _ in cb} != {"hexahedron"}:
                return "voxels are {}".format([t for t, _ in cb])
            order = self.cell_order(points, cb)
            if order is None:
                return "voxels are not centred on the points of the output"
            steps = [{h: v[order] for h, v in s.items()} for s in steps]
            want_pts = points
        else:
            where = "point"
            want_pts = self.xyz[:, self.axis]
            if points.shape[1] == 3 and want_pts.shape[1] == 2:
                want_pts = pts3(want_pts)
        if self.mode == "tri":
            e = cmp_arr("points", points, want_pts, 12)
            if e:
                return e
            want_pts = points
        empty = [{}] * len(steps)
        if self.fmt == "xdmf":
            bad = None
            for order in orders:
                now = [steps[i] for i in order]
                e = check_series(got, want_pts, blocks, now if where == "point" else empty, now if where == "cell" else empty, times,
                                 12, 8 if self.src == "csv" else 12 if self.src == "petrasim" else 7)
                if not e:
                    return None
                bad = bad or e
            return bad
        e = cmp_arr("points", points, want_pts)
        if not e and blocks is not None:
            e = cmp_blocks(cells, blocks)
        data = mesh.point_data if where == "point" else mesh.cell_data
        for h, v in steps[0].items():
            if e:
                break
            if h not in data:
                return "{} data {} lacks {}".format(where, sorted(data), h)
            e = cmp_arr("{}_data[{}]".format(where, h), data[h], v, 12)
        return e

    def describe(self):
        return "export {} ({}, {} steps, t={}) {} -> {} fmt={} {}".format(
            self.p(self.infile), self.src + "".join(" without " + "XYZ"[i] for i in self.drop), len(self.times), self.step,
            self.mode + (" with a mesh" if self.unused else ""), self.p(self.name), self.fmt,
            " ".join(self.argv))

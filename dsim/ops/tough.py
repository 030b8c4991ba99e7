"""Mesh.write_tough / Mesh.write_incon: the MESH and INCON files against the geometry."""
import math

import numpy as np

from .base import Op, close_e, rread, short
from .inputs import rock_name
from .meshes import face_geom, gen_mesh

ELEME = {5: (5, 5, 5), 6: (6, 5, 4), 7: (7, 4, 4), 8: (8, 4, 3), 9: (9, 3, 3)}
CONNE = {5: (10, 5, 5, 5), 6: (12, 5, 4, 4), 7: (14, 5, 3, 3), 8: (16, 3, 3, 3), 9: (18, 3, 2, 2)}


def fields(line, widths):
    out, i = [], 0
    for w in widths:
        out.append(line[i:i + w])
        i += w
    return out, line[i:]


def approx(txt, want, p, scale=0.0):
    """A printed number against a computed one (rounding of the computation allowed)."""
    try:
        g = float(txt)
    except ValueError:
        return False
    want = float(want)
    e = math.floor(math.log10(max(abs(want), abs(g), 1e-300)))
    return abs(g - want) <= 0.50001 * 10.0 ** (e - p) + 1e-10 * (abs(want) + scale)


class ToughModel(object):
    """A mesh with what the TOUGH export looks at."""

    def __init__(self, d, incon=None):
        self.M = M = gen_mesh(d, 3, data=False)
        n = M.n_cells
        rng = np.random.RandomState(d.raw(2 ** 31))
        if d.bool(0.4):
            M.cell_data["boundary_condition"] = (rng.rand(n) < d.pick([0.1, 0.5, 1.0])).astype(
                int if d.bool(0.7) else bool)
        self.incon = d.bool(0.6) if incon is None else incon
        if d.bool(0.85 if self.incon else 0.2):
            k = d.pick([1, 2, 3, 4, 4, 5, 6, 8])
            v = rng.uniform(-1, 1, (n, k)) * 10.0 ** rng.randint(-12, 9, (n, k))
            v[:, 0] = np.abs(v[:, 0])
            m = d.raw(4)
            if m == 1:  # some cells without a state
                v[rng.rand(n) < 0.4] = -1.0e9
            elif m == 2:  # some variables without a value
                v[rng.rand(n, k) < 0.4] = -1.0e9
            elif m == 3 and k > 1:
                v[:, -1] = -1.0e9
            M.cell_data["initial_condition"] = v
        if d.bool(0.3 if self.incon else 0.1):
            M.cell_data["porosity"] = rng.uniform(0, 0.9, n)
        if d.bool(0.3 if self.incon else 0.1):
            M.cell_data["permeability"] = (10.0 ** rng.uniform(-18, -10, n) if d.bool(0.5)
                                           else rng.uniform(0.1, 9.0, (n, 3)))
        self.labels = None

    def writes_incon(self):
        v = self.M.cell_data.get("initial_condition")
        return self.incon and v is not None and not (v == -1.0e9).all()

    # -- checks -------------------------------------------------------------------------
    def get_labels(self):
        if self.labels is None:
            self.labels = [str(x) for x in self.M.build().labels]
        return self.labels

    def check_mesh(self, data, kw):
        M = self.M
        labels = self.get_labels()
        n = M.n_cells
        L = len(labels[0])
        if M.label_length and L != M.label_length:
            return "labels {} for label_length {}".format(labels[0], M.label_length)
        if len(set(labels)) != n or any(len(x) != L for x in labels):
            return "labels not unique or not of one length"
        if data is None:
            return "MESH missing"
        lines = data.decode("ascii").split("\n")
        if lines[-1] != "":
            return "MESH does not end with a line feed"
        lines.pop()
        centers, vols, conns = M.geometry()
        size = max(1.0, float(np.abs(M.points).max()))
        bc = M.cell_data.get("boundary_condition")
        bc = np.zeros(n, dtype=bool) if bc is None else bc.astype(bool)
        names = M.names()
        end = kw.get("material_end") or []
        end = [end] if isinstance(end, str) else list(end)
        end = [x.strip() if isinstance(x, str) else x for x in end]
        ren = {k.strip() if isinstance(k, str) else k: v for k, v in (kw.get("material_name") or {}).items()}
        order = [i for i in range(n) if names[i] not in end] + [i for i in range(n) if names[i] in end]
        blocks = split_blocks(lines)
        want_blocks = ["ELEME"] + (["COORD"] if kw.get("coord") else []) + ["CONNE"]
        if [b[0] for b in blocks] != want_blocks:
            return "blocks {} expected {}".format([b[0] for b in blocks], want_blocks)
        B = dict(blocks)
        # ELEME
        if len(B["ELEME"]) != n:
            return "ELEME: {} records for {} cells".format(len(B["ELEME"]), n)
        byname = {x: i for i, x in enumerate(labels)}
        seen = []
        for line in B["ELEME"]:
            f, rest = fields(line, ELEME[L] + (5, 10, 10, 10, 10, 10, 10))
            if f[0] not in byname:
                return "ELEME: unknown label {!r}".format(f[0])
            i = byname[f[0]]
            seen.append(i)
            if (f[1] + f[2] + f[5] + f[6] + rest).strip():
                return "ELEME {}: unexpected text in {!r}".format(f[0], line)
            mat = ren.get(names[i], names[i])
            if f[3].strip() != str(mat).strip()[:5]:
                return "ELEME {}: material {!r} expected {!r}".format(f[0], f[3], mat)
            v = vols[i] * (1e50 if bc[i] else 1.0)
            if not approx(f[4], v, 4):
                return "ELEME {}: volume {!r} expected {!r}".format(f[0], f[4], v)
            for a in range(3):
                if not approx(f[7 + a], centers[i][a], 3, size):
                    return "ELEME {}: centre {!r} expected {!r}".format(f[0], f[7:10], list(centers[i]))
        if len(set(seen)) != n:
            return "ELEME: a cell is listed twice"
        if seen != order:
            k = [a == b for a, b in zip(seen, order)].index(False)
            return "ELEME: record {} is cell {} expected {} (material_end={})".format(
                k + 1, labels[seen[k]], labels[order[k]], end)
        # COORD, positional
        if kw.get("coord"):
            if len(B["COORD"]) != n:
                return "COORD: {} records for {} cells".format(len(B["COORD"]), n)
            for i, line in zip(order, B["COORD"]):
                f, rest = fields(line, (20, 20, 20))
                for a in range(3):
                    if rest.strip() or not approx(f[a], centers[i][a], 13, size):
                        return "COORD of {}: {!r} expected {!r}".format(labels[i], line, list(centers[i]))
        # CONNE
        todo = dict(conns)
        for line in B["CONNE"]:
            f, rest = fields(line, CONNE[L] + (5, 10, 10, 10, 10, 10))
            a, b = f[0][:L], f[0][L:]
            if a not in byname or b not in byname:
                return "CONNE: unknown label in {!r}".format(f[0])
            i, j = byname[a], byname[b]
            face = todo.pop((min(i, j), max(i, j)), None)
            if face is None:
                return "CONNE: {} and {} {}".format(a, b, "connected twice" if (min(i, j), max(i, j)) in conns
                                                    else "do not share a face")
            if (f[1] + f[2] + f[3] + f[9] + rest).strip():
                return "CONNE {}: unexpected text in {!r}".format(f[0], line)
            area, nrm, p0 = face_geom(M.points, face)
            line_v = centers[j] - centers[i]
            norm = float(np.linalg.norm(line_v))
            big = [k for k in range(3) if abs(line_v[k]) > 1e-9 * norm]
            ok = {big[0] + 1} if len(big) == 1 else {1}
            if len(big) == 1 and any(line_v[k] != 0.0 for k in range(3) if k != big[0]):
                ok.add(1)
            if not f[4].strip().isdigit() or int(f[4]) not in ok:
                return "CONNE {}: direction {!r} expected {}".format(f[0], f[4], sorted(ok))
            want = []
            for c in (i, j):
                if bc[c]:
                    want.append(1e-9)
                elif kw.get("nodal_distance", "line") == "orthogonal":
                    want.append(abs(float(np.dot(centers[c] - p0, nrm))))
                else:
                    t = np.dot(p0 - centers[i], nrm) / np.dot(line_v, nrm)
                    want.append(float(np.linalg.norm(centers[c] - (centers[i] + line_v * t))))
            if not (approx(f[5], want[0], 4) and approx(f[6], want[1], 4)):
                return "CONNE {}: distances {!r} expected {!r} ({})".format(
                    f[0], f[5:7], want, kw.get("nodal_distance", "line"))
            if not approx(f[7], area, 4):
                return "CONNE {}: area {!r} expected {!r}".format(f[0], f[7], area)
            if not approx(f[8], -line_v[2] / norm, 3, 1.0):
                return "CONNE {}: gravity angle {!r} expected {!r}".format(f[0], f[8], -line_v[2] / norm)
        if todo:
            (i, j), _ = sorted(todo.items())[0]
            return "CONNE: {} of {} connections missing, e.g. {}-{}".format(len(todo), len(conns), labels[i], labels[j])
        return None

    def check_incon(self, data):
        M = self.M
        labels = self.get_labels()
        L = len(labels[0])
        if data is None:
            return "INCON missing"
        lines = data.decode("ascii").split("\n")
        if lines[-1] != "":
            return "INCON does not end with a line feed"
        lines.pop()
        blocks = split_blocks(lines, incon=True)
        if [b[0] for b in blocks] != ["INCON"]:
            return "INCON: blocks {}".format([b[0] for b in blocks])
        rec = blocks[0][1]
        v = M.cell_data["initial_condition"]
        phi = M.cell_data.get("porosity")
        per = M.cell_data.get("permeability")
        if per is not None and per.ndim == 1:
            per = per[:, None]
        k = v.shape[1]
        per_cell = 2 if k <= 4 else 3
        cells = [i for i in range(M.n_cells) if phi is not None or per is not None or (v[i] > -1.0e9).any()]
        if len(rec) != per_cell * len(cells):
            return "INCON: {} lines for {} cells of {} variables".format(len(rec), len(cells), k)
        for q, i in enumerate(cells):
            r = rec[per_cell * q: per_cell * (q + 1)]
            f, rest = fields(r[0], ELEME[L] + (15, 10, 10, 10))
            if f[0] != labels[i]:
                return "INCON: record {} is {!r} expected {!r}".format(q + 1, f[0], labels[i])
            want = [None if phi is None else phi[i]] + [None] * 3
            if per is not None:
                want[1:1 + per.shape[1]] = per[i]
            for j in range(4):
                t, w = f[3 + j], want[j]
                if (f[1] + f[2] + rest).strip() or (w is None) != (not t.strip()) or (
                        w is not None and not close_e(t, w, 9 if j == 0 else 3)):
                    return "INCON {}: {!r} expected porosity/permeability {}".format(f[0], r[0], want)
            vals = []
            for a in range(1, per_cell):
                g, rest = fields(r[a], (20,) * 4)
                if rest.strip():
                    return "INCON {}: {!r}".format(f[0], r[a])
                vals += g
            for j, t in enumerate(vals):
                w = v[i][j] if j < k and v[i][j] > -1.0e9 else None
                if (w is None) != (not t.strip()) or (w is not None and not close_e(t, w, 13)):
                    return "INCON {}: variable {} is {!r} expected {!r}".format(f[0], j + 1, t, w)
        return None


def split_blocks(lines, incon=False):
    """[(keyword, records)]: a keyword line, records, an empty line."""
    out = []
    it = iter(lines)
    for line in it:
        key = line[:5]
        if key not in ("ELEME", "COORD", "CONNE", "INCON"):
            out.append(("?" + key, []))
            continue
        rec = []
        for line in it:
            if line == "":
                break
            rec.append(line)
        else:
            out.append((key + " (not ended)", rec))
            break
        out.append((key, rec))
    return out


class ToughWrite(Op):
    kind = "write_tough"

    def __init__(self, d, name=None):
        super().__init__()
        self.T = T = ToughModel(d)
        M = T.M
        self.kw = {}
        if d.bool(0.5):
            self.kw["nodal_distance"] = d.pick(["line", "orthogonal"])
        if T.incon:
            self.kw["incon"] = True
        if d.bool(0.3):
            self.kw["coord"] = True
        names = sorted(set(M.names()), key=str)
        if d.bool(0.3):
            used = set(map(str, names))
            self.kw["material_name"] = {m: rock_name(d, used) for m in d.subset(names, 0.6)}
        if d.bool(0.4):
            e = d.subset(names, 0.5)
            if len(e) == 1 and isinstance(e[0], str) and d.bool(0.6):
                self.kw["material_end"] = e[0]
            else:
                self.kw["material_end"] = tuple(e) if d.bool(0.3) else e
        self.name = name or d.pick(["MESH", "MESH", "mesh.txt"])
        self.via = d.raw(3)
        self.dests = [self.name] + (["INCON"] if T.writes_incon() else [])
        self.mesh = M.build()

    def call(self):
        import toughio

        if self.via == 1:
            return self.mesh.write(self.p(self.name), file_format="tough", **self.kw)
        if self.via == 2:
            return toughio.write_mesh(self.p(self.name), self.mesh, file_format="tough", **self.kw)
        return self.mesh.write_tough(self.p(self.name), **self.kw)

    def verify(self, value):
        e = self.T.check_mesh(rread(self.p(self.name)), self.kw)
        if not e and self.T.writes_incon():
            e = self.T.check_incon(rread(self.p("INCON")))
        return e or self.readback()

    def readback(self):
        """The exported file is a MESH file toughio reads."""
        import toughio

        par = toughio.read_mesh(self.p(self.name), file_format="tough",
                                label_length=len(self.T.get_labels()[0]))
        n = self.T.M.n_cells
        if sorted(par["elements"]) != sorted(self.T.get_labels()):
            return "read_mesh finds elements {}".format(short(sorted(par["elements"])))
        nc = len(self.T.M.geometry()[2])
        if len(par.get("connections", {})) != nc:
            return "read_mesh finds {} connections, {} written".format(len(par.get("connections", {})), nc)
        return None

    def args(self):
        return [self.mesh, self.kw]

    def describe(self):
        return "write_tough({!r}, {} cells, {}{})".format(
            self.p(self.name), self.T.M.n_cells,
            ", ".join("{}={}".format(k, short(v, 60)) for k, v in self.kw.items()),
            ", data: " + ",".join(self.T.M.cell_data))


class InconWrite(Op):
    kind = "write_incon"

    def __init__(self, d, name=None):
        super().__init__()
        self.T = ToughModel(d, incon=True)
        self.name = name or d.pick(["INCON", "INCON", "incon.txt"])
        self.mesh = self.T.M.build()
        self.dests = [self.name] if self.T.writes_incon() else []

    def call(self):
        return self.mesh.write_incon(self.p(self.name))

    def verify(self, value):
        if self.T.writes_incon():
            return self.T.check_incon(rread(self.p(self.name)))
        return None

    def args(self):
        return self.mesh

    def describe(self):
        return "write_incon({!r}, {} cells, data: {})".format(
            self.p(self.name), self.T.M.n_cells, ",".join(self.T.M.cell_data))


class ToughMeshRead(Op):
    """read_mesh of a MESH file written in another process."""

    kind = "read_mesh_tough"

    def __init__(self, d, name=None):
        super().__init__()
        self.w = ToughWrite(d, name=name)
        self.sources = [self.w.name]
        self.give = d.bool(0.5)

    def setup(self):
        self.w.dir = self.dir
        self.w.call()

    def prepare(self):
        self.w.T.get_labels()

    def call(self):
        import toughio

        kw = {"label_length": len(self.w.T.get_labels()[0])} if self.give else {}
        return toughio.read_mesh(self.p(self.w.name), file_format="tough", **kw)

    def verify(self, par):
        T = self.w.T
        labels = T.get_labels()
        centers, vols, conns = T.M.geometry()
        bc = T.M.cell_data.get("boundary_condition")
        size = max(1.0, float(np.abs(T.M.points).max()))
        if sorted(par.get("elements", {})) != sorted(labels):
            return "elements {} expected {}".format(short(sorted(par.get("elements", {}))), short(sorted(labels)))
        for i, lab in enumerate(labels):
            e = par["elements"][lab]
            v = vols[i] * (1e50 if bc is not None and bc[i] else 1.0)
            if not approx(e["volume"], v, 4):
                return "element {}: volume {} expected {}".format(lab, e["volume"], v)
            for a in range(3):
                if not approx(e["center"][a], centers[i][a], 3, size):
                    return "element {}: centre {} expected {}".format(lab, e["center"], list(centers[i]))
        L = len(labels[0])
        got = sorted(tuple(sorted((k[:L], k[L:]))) for k in par.get("connections", {}))
        want = sorted(tuple(sorted((labels[i], labels[j]))) for i, j in conns)
        if got != want:
            return "connections {} expected {}".format(short(got), short(want))
        return None

    def describe(self):
        return "read_mesh of " + self.w.describe()

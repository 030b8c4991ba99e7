"""Every kind of call of the public interface, weighted."""
from . import cli, foreign, inputs, meshes, models, outputs, results, series, session, tough

WRITES = [
    (6, inputs.InputWrite, {}),
    (5, outputs.OutputWrite, {}),
    (6, meshes.MeshWrite, {"own": True}),
    (3, tough.ToughWrite, {}),
    (2, tough.InconWrite, {}),
]
TOOLS = [
    (2, cli.Merge, {}),
    (2, cli.Save2Incon, {}),
    (1, cli.Co2tab, {}),
    (3, cli.Extract, {}),
    (2, series.Export, {"fmt": "tecplot"}),
]
READS = [
    (4, inputs.InputRead, {}),
    (3, outputs.OutputRead, {}),
    (4, meshes.MeshRead, {"own": True}),
    (1, tough.ToughMeshRead, {}),
    (5, results.ResultRead, {}),
    (1, results.MeshResults, {}),
    (1, foreign.DeckRead, {}),
    (1, foreign.ForeignMesh, {}),
    (1, foreign.ForeignResult, {}),
]
# toughio's own code around meshio's and HDF5's I/O
DELEGATED = [
    (1, series.TimeSeries, {}),
    (2, series.Export, {}),
    (1, meshes.MeshWrite, {"fmt": "vtu"}),
    (1, meshes.MeshWrite, {"fmt": "vtk"}),
]
DELEGATED_READS = [
    (2, series.SeriesRead, {}),
    (1, meshes.MeshRead, {"fmt": "vtu"}),
    (1, meshes.MeshRead, {"fmt": "vtk"}),
]
PURE = [(1, meshes.MeshCompute, {}), (2, session.MeshEdit, {}), (1, models.ModelUse, {})]


def draw_op(d, *groups):
    pairs = [x for g in groups for x in g]
    cls, kw = d.weighted([(w, (c, k)) for w, c, k in pairs])
    return cls(d, **kw)

"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "An acknowledged TOUGH/JSON input-file write reads back as the same model",
     "After toughio.write_input returns without an error (TOUGH or JSON format, whole file or only the MESH/INCON/GENER blocks), reading that file, in the same process or in a new one, gives the parameters that were written: every block, key, order and table, numbers to the precision of their fixed-width field. "
     "This holds whatever the destination contained before, however the operating system splits, shortens or interrupts the reads and writes, and whatever other calls, failures or crashes of other writes came before or after, until a later write to the same file.",
     ["inputs", "histories", "fault_sequences", "crash_points"],
     "all parameter dictionaries within the field widths of the format (all label lengths 5-9, all table lengths), all histories of writes/reads/failed writes/process crashes over several files, all short/interrupted I/O patterns",
     "Tests write one freshly generated dictionary per block to a new temporary file in one process with perfect I/O; they never cross blocks, overwrite, fail, crash, restart, or hit table/buffer boundaries.",
     ["toughio/_io/input/_helpers.py", "toughio/_io/input/tough/_write.py", "toughio/_io/input/tough/_read.py", "toughio/_io/input/tough/_helpers.py", "toughio/_io/input/json/_json.py", "toughio/_common.py"],
     [("block writers and readers share block_to_format", "toughio/_common.py"),
      ("rewind with tell/seek on look-ahead records", "toughio/_io/input/tough/_read.py"),
      ("deep copy of the parameters merged over the defaults", "toughio/_io/input/tough/_write.py")],
     ["toughio.write_input", "toughio.read_input", "bytes on disk"],
     [("parameters on disk", "the model as the last acknowledged write stored it", "the destination file")])

prop("C02", "An acknowledged result-table write reads back as the same time steps",
     "After toughio.write_output returns (CSV, Petrasim or Tecplot; element or connection tables; one or many time steps, for CSV all with the same number of rows), toughio.read_output of that file, in this process or a new one, gives the same time steps, times, labels and values in the same order, to the printed precision, and with labels_order it gives exactly the rows asked for in the order asked for. "
     "This holds whatever the destination contained before and however I/O was split, interrupted or preceded by failed or crashed operations, until a later write to the same file.",
     ["inputs", "histories", "fault_sequences", "crash_points"],
     "all lists of outputs within the printed widths (step counts, label lengths, variable sets and column orders, missing values), all histories over several files with failures and crashes, all short/interrupted I/O patterns",
     "Tests write one sample of fixed shape per format to a new file and read it back once; no boundary sizes, reordered steps, overwrites, faults or restarts.",
     ["toughio/_io/output/_helpers.py", "toughio/_io/output/_common.py", "toughio/_io/output/csv/_csv.py", "toughio/_io/output/petrasim/_petrasim.py", "toughio/_io/output/tecplot/_tecplot.py"],
     [("format detection from the first line", "toughio/_io/output/_helpers.py"),
      ("to_output / reorder_labels", "toughio/_io/output/_common.py")],
     ["toughio.write_output", "toughio.read_output", "bytes on disk"])

prop("C03", "An acknowledged mesh write reads back as the same mesh",
     "After Mesh.write returns in a format toughio implements itself (AVS-UCD, FLAC3D text and binary, Tecplot, pickle) or delegates to meshio (VTK, VTU), toughio.read_mesh, in this process or a new one, gives the same points, cells, connectivity (for FLAC3D the same solid, whose node order may be mirrored), materials (by name, or by number where the format stores numbers) and the point and cell data the format can store, to the precision the format stores. "
     "This holds whatever the destination contained before and however I/O was split, interrupted or preceded by failed or crashed operations, until a later write to the same file.",
     ["inputs", "histories", "fault_sequences", "crash_points"],
     "all meshes of triangles/quads/tetrahedra/pyramids/wedges/hexahedra a format can represent, with several cell blocks, materials, scalar and vector data, any block and table size; all histories with failures and crashes; all short/interrupted I/O patterns",
     "Tests write two or three hard-coded meshes per format to a new file; no several materials per dimension, block-order variation, boundary table sizes, overwrites, faults or restarts.",
     ["toughio/_mesh/_helpers.py", "toughio/_mesh/_mesh.py", "toughio/_mesh/_common.py", "toughio/_mesh/avsucd/_avsucd.py", "toughio/_mesh/flac3d/_flac3d.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/pickle/_pickle.py"],
     [("per-format node orderings and their inverses", "toughio/_mesh/flac3d/_flac3d.py, toughio/_mesh/avsucd/_avsucd.py"),
      ("material groups <-> field_data", "toughio/_mesh/flac3d/_flac3d.py"),
      ("to_meshio / from_meshio", "toughio/_mesh/_mesh.py")],
     ["Mesh.write", "toughio.read_mesh", "bytes on disk"])

prop("C04", "Exported MESH and INCON describe exactly the mesh, both complete on return",
     "When Mesh.write_tough (and Mesh.write_incon, or write_tough with incon=True) returns, the MESH file lists every cell exactly once with its label, material (after renaming), volume (times 1e50 for a boundary-condition cell) and centre, cells of the materials named in material_end coming last, every pair of cells sharing a face exactly once as a connection with the right direction, distances, area and gravity angle, and the INCON file in the same directory the initial state of every cell that has one. "
     "This holds whatever stood in these files before, for every mesh and option, and for any split, interrupted, failed or crashed earlier I/O.",
     ["inputs", "configurations", "histories", "fault_sequences", "crash_points"],
     "all conformal meshes of the supported cell types (oriented and not axis-aligned), all label lengths, material maps, boundary cells, nodal-distance methods, coord/incon options and partial initial states, within histories of overwrites, failures and crashes",
     "Tests check a few numbers of one structured grid (and one sample mesh with a missing data file); conservation of cells and faces, option combinations and partially defined states are never checked, nor are overwrites and faults.",
     ["toughio/_mesh/_mesh.py", "toughio/_mesh/tough/_tough.py", "toughio/_mesh/tough/_helpers.py", "toughio/_mesh/_properties.py", "toughio/_mesh/_common.py"],
     [("connection enumeration over faces, each pair once", "toughio/_mesh/tough/_tough.py"),
      ("record formatting by label length", "toughio/_mesh/tough/_helpers.py")],
     ["Mesh.write_tough", "Mesh.write_incon", "files MESH and INCON"])

prop("C05", "The command-line file tools produce exactly the documented file",
     "When toughio-merge, toughio-save2incon, toughio-co2tab or toughio-extract ends without an error, its output file is exactly the documented transformation of its inputs (input file with MESH and INCON inserted before the end record; SAVE as INCON, up to the counters with --reset; the shipped CO2TAB; every time step of the listing with cell coordinates in the format asked for, in one file or one per step), and its input files are unchanged. "
     "This holds whatever the output file contained before, including when the output is one of the inputs where the tool allows it, and under any split or interrupted I/O and any earlier failure or crash.",
     ["inputs", "configurations", "histories", "fault_sequences", "crash_points"],
     "all valid input/MESH/INCON/SAVE/listing files and option combinations, in-place use, histories of repeated and failed or crashed runs",
     "Tests run each tool once on one sample (several of which are unavailable here), mostly checking that a file exists; they never check content for all options, in-place runs, or faults.",
     ["toughio/_cli/_merge.py", "toughio/_cli/_save2incon.py", "toughio/_cli/_co2tab.py", "toughio/_cli/_extract.py"],
     [("sources read before the destination is opened", "toughio/_cli/_merge.py, toughio/_cli/_save2incon.py"),
      ("label-keyed lookup of centres", "toughio/_cli/_extract.py")],
     ["toughio._cli.merge/save2incon/co2tab/extract", "output files"])

prop("C06", "A written time series or export carries every time step, in time order",
     "After toughio.write_time_series or toughio-export to XDMF returns, reading the series gives the mesh and every time step exactly once in increasing time (steps of equal time in any order among themselves), each with its own point and cell data unchanged; toughio-export to a single-step format gives the requested step's data on the given mesh. "
     "This holds for any order of the given steps, any earlier content of the destination, and any failed or crashed earlier operation.",
     ["inputs", "configurations", "histories", "fault_sequences", "crash_points"],
     "all numbers and orders of time steps (also unsorted, negative, equal spacing or not), point and/or cell data, several cell blocks, time_steps given or not, all export formats, histories with overwrites and failures",
     "Tests write one fixed, sorted series with one data shape; the export tests need sample files and only check that a file appears.",
     ["toughio/_mesh/_helpers.py", "toughio/_cli/_export.py", "toughio/_mesh/_mesh.py"],
     [("argsort of the time steps applied to data", "toughio/_mesh/_helpers.py"),
      ("split/concatenate of cell data per block", "toughio/_mesh/_helpers.py")],
     ["toughio.write_time_series", "toughio.read_time_series", "toughio._cli.export"])

prop("C07", "A failed read or write is never reported as success",
     "If the operating system reports an error (cannot open, no space, I/O error on read, write or close), an allocation fails, or the user interrupts, while a toughio read, write or command-line tool runs, the call raises an error, or else its result (returned value and files) is complete and correct all the same. "
     "A call never returns normally with a truncated, stale, partial or missing result.",
     ["fault_sequences", "inputs"],
     "all operations and inputs, with an error at any system call the operation makes (first, last, in the middle, on close), once or persistently, or a MemoryError or KeyboardInterrupt at any line of toughio or inside any I/O step",
     "Tests run on a healthy file system only; no error path of any I/O is ever taken.",
     ["toughio/_io", "toughio/_mesh", "toughio/_cli"],
     [("with-blocks, no handler that swallows OSError", "all readers and writers")],
     ["every public read/write function and CLI tool"])

prop("C08", "A refused operation leaves the existing destination untouched",
     "When write_input, write_output, Mesh.write in a format of toughio's own (AVS-UCD, FLAC3D, Tecplot, pickle), Mesh.write_tough/write_incon or a command-line tool raises because its arguments are invalid or a source file is missing, invalid or unreadable (write_time_series: because of the arguments it checks itself; co2tab: because its own file cannot be opened), the destination keeps exactly the bytes it had, or stays absent if it was absent. "
     "A good file is never destroyed by a call that could not do its work.",
     ["inputs", "histories", "fault_sequences"],
     "all invalid arguments and sources that the call refuses (wrong types, values or sizes anywhere in the data, unserialisable values, bad source files, read errors), all earlier contents, output equal to an input",
     "Tests assert that an error is raised for a few wrong arguments but never look at the destination afterwards, and never make a source unreadable.",
     ["toughio/_io/input/tough/_write.py", "toughio/_io/input/json/_json.py", "toughio/_io/output/_helpers.py", "toughio/_io/output/csv/_csv.py", "toughio/_io/output/petrasim/_petrasim.py", "toughio/_io/output/tecplot/_tecplot.py", "toughio/_mesh/tough/_tough.py", "toughio/_mesh/_helpers.py", "toughio/_mesh/avsucd/_avsucd.py", "toughio/_mesh/flac3d/_flac3d.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/pickle/_pickle.py", "toughio/_cli"],
     [("records are prepared before the destination is opened", "writers")],
     ["destination bytes before and after a refused call"])

prop("C09", "Reading a torn or damaged file ends: a result or an ordinary error",
     "Reading any file that a crash or power loss can leave behind (cut at any byte, with a zeroed or stale tail or hole, or empty) with read_input, read_mesh or read_output in the format it was written in, or read_history, ends in a number of steps bounded by the file size, with a value or an ordinary error. "
     "It never hangs, never leaks StopIteration, and never disturbs later calls.",
     ["crash_points", "inputs"],
     "every byte position at which a file of every own format can be cut, every residue kind, every valid content",
     "Tests only read complete files.",
     ["toughio/_io/input/tough/_read.py", "toughio/_io/output", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/flac3d/_flac3d.py", "toughio/_mesh/avsucd/_avsucd.py"],
     [("end-of-file detection in every record loop", "readers")],
     ["toughio.read_input", "toughio.read_mesh", "toughio.read_output", "toughio.read_history"])

prop("C10", "Result files of a TOUGH run read right, finished or still being written",
     "Reading a finished TOUGH result file (main listing for elements or connections, SAVE, TOUGH3 CSV, Tecplot, Petrasim, or a FOFT/GOFT history) gives every time step with exactly the times, labels and values the simulator printed, and Mesh.read_output of one gives each cell (or connection) of the mesh the values printed for its own label, whatever the order in the file. "
     "Reading one that TOUGH is still writing, or was killed while writing, either raises an error or gives every completely written time step exactly as printed, in order; only the step being written may be incomplete or absent, and nothing is invented.",
     ["inputs", "crash_points", "schedules"],
     "all result files within the printed formats (label lengths, column counts, pages, times, exponent forms), cut at any byte by the progress or death of the writing process, read at any moment between its writes",
     "Tests read a few complete samples (unavailable here as LFS pointers) and compare a sum; unfinished files are never read.",
     ["toughio/_io/output/tough/_tough.py", "toughio/_io/output/save/_save.py", "toughio/_io/output/csv/_csv.py", "toughio/_io/output/petrasim/_petrasim.py", "toughio/_io/output/tecplot/_tecplot.py", "toughio/_io/output/_helpers.py"],
     [("table detection and column parsing from the first row", "toughio/_io/output/tough/_tough.py"),
      ("format detection", "toughio/_io/output/_helpers.py")],
     ["toughio.read_output", "toughio.read_history", "toughio.Mesh.read_output"])

prop("C11", "Calls on separate data from different threads do not disturb each other",
     "When several threads call toughio functions at once, each on its own objects and files, every call returns the same value, writes the same bytes and raises the same error as it would alone. ",
     ["schedules", "inputs"],
     "all interleavings, at the granularity of a line of toughio code, of two to four threads running any mix of reads, writes, mesh properties and command-line tools on disjoint data",
     "Tests are single-threaded.",
     ["toughio/_io", "toughio/_mesh", "toughio/_common.py"],
     [("no mutable module-level state is written by a call (defaults are deep-copied)", "toughio/_io/input/tough/_common.py, toughio/_io/input/tough/_write.py"),
      ("format registries are written at import only", "toughio/_common.py")],
     ["results and files of concurrent calls"])

prop("C12", "A call's result depends only on its arguments and the files, not on history",
     "The result of a toughio read, write, mesh computation or tool run (value, bytes written or error) is the same in a fresh process and after any sequence of earlier calls in the same process, including failed and interrupted ones and calls on the same file name before another process rewrote it, even with the same size and time stamp.",
     ["histories", "inputs"],
     "all sequences of earlier calls, successful or failed, on the same or other names and objects, with files replaced behind the process's back between calls",
     "Each test looks at one call; leakage from one call into a later one (shared defaults, caches) needs sequences the tests do not form.",
     ["toughio/_io/input/tough/_common.py", "toughio/_io/input/tough/_write.py", "toughio/_io", "toughio/_mesh", "toughio/_cli"],
     [("deep copies of default dictionaries; no cache keyed by file name", "toughio/_io/input/tough/_write.py")],
     ["results in a fresh process against results after a history"])

prop("C13", "No call changes the caller's data, even when it fails",
     "write_input, write_output, Mesh.write in every format, write_tough, write_incon and write_time_series leave the parameters, outputs, mesh, arrays and option containers passed to them (read_output the labels_order, Mesh.read_output the output) exactly as they were, whether the call succeeds, is refused, or is ended by an I/O error, a failed allocation or Ctrl-C at any point.",
     ["inputs", "fault_sequences"],
     "all writers and arguments, every I/O failure point, and MemoryError or KeyboardInterrupt at any line",
     "Tests do not compare arguments before and after, and never fail a write.",
     ["toughio/_io/input/tough/_write.py", "toughio/_io/input/json/_json.py", "toughio/_io/output", "toughio/_mesh/_helpers.py", "toughio/_mesh/_mesh.py", "toughio/_mesh/tough/_tough.py"],
     [("deep copies before the data are adapted to a format", "toughio/_io/input/tough/_write.py, toughio/_mesh/_helpers.py")],
     ["arguments before and after a call"])

prop("C14", "Every call closes its files, and touches only the files it was told to",
     "When a toughio call on its own formats returns or raises, at any I/O failure point, every file it opened is closed; a read leaves every file on disk as it was; a write creates or changes only its destination files (also no leftovers next to them when it succeeds).",
     ["fault_sequences", "inputs"],
     "all operations, arguments and I/O failure points",
     "Tests never count handles, look at other files, or fail an operation half-way.",
     ["toughio/_io", "toughio/_mesh", "toughio/_cli"],
     [("with-statements around every handle", "all readers and writers")],
     ["open handles and directory contents before and after a call"])

prop("C15", "The bytes written depend only on the data",
     "Writing the same data twice gives byte-identical files, whatever the clock (also jumping backwards), the process, PYTHONHASHSEED, user, host, environment variables, numpy print options (other than its legacy modes), current directory, form of the path, buffer sizes, short writes or earlier content of the destination, except for the comment lines (starting with '*') of a FLAC3D text grid.",
     ["configurations", "schedules", "inputs"],
     "all writers and data, under varied clock, hash seed, working directory, path form, buffering and write splitting",
     "Tests write once in one environment.",
     ["toughio/_io", "toughio/_mesh", "toughio/_cli"],
     [("dictionaries keep insertion order; no set is iterated for output", "writers"),
      ("only FLAC3D text headers read the clock", "toughio/_mesh/flac3d/_flac3d.py")],
     ["bytes of files written under different environments"])

prop("C16", "Mesh geometry is right for every mesh",
     "For every mesh, volumes, face areas, unit face normals, centres, qualities and face neighbours computed by toughio.Mesh are those of the geometry: volumes add up to the domain's, and every face is shared by at most two cells.",
     ["inputs"],
     "all meshes of supported cell types",
     "Tests check the values of hard-coded small meshes.",
     ["toughio/_mesh/_properties.py", "toughio/_mesh/_common.py", "toughio/_mesh/_mesh.py"],
     [("vectorised geometry per cell type", "toughio/_mesh/_properties.py")],
     ["Mesh properties"])

prop("C17", "A constitutive model answers for its present parameters, in any history",
     "A relative permeability or capillary pressure model gives, for one saturation or an array in [0, 1], the values of TOUGH's formula for the parameters it has at that moment, and refuses others; after any sequence of construction, parameter changes, refused changes, copies, pickling, plots and evaluations, in any threads, no other model, no list given or returned is affected. Its ID and parameters put in an input file, written and read, name the same model in TOUGH.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "all histories of models of every kind, admissible parameters and saturations (also at the thresholds and ends), interleavings of threads that share models or own them, and I/O faults of the input file",
     "Tests evaluate one model each at fixed saturations against a sample file (an LFS pointer here); parameters never change, no model meets another thread or an input file.",
     ["toughio/relative_permeability", "toughio/capillarity", "toughio/_io/input"],
     [("parameters are kept per object and unpacked at every evaluation", "toughio/relative_permeability/_base.py, toughio/capillarity/_base.py"),
      ("closed formulas with limits", "toughio/relative_permeability, toughio/capillarity")],
     ["model(sl)", "model.parameters", "model.id", "toughio.write_input and read_input"])

prop("C18", "A mesh is what its whole editing history says, saved and reloaded or not",
     "A mesh built by structured_grid, cylindric_grid, triangulate, voxelize, Mesh or read from a file has, after any sequence of edits (add_*_data, set_material, extrude_to_3d, prune_duplicates, cell/point conversion, read_output, copies, conversions, saves and reloads), exactly the points, cells, data and materials the edits say; near, filters, split, materials, labels and geometry answer for that state. Refused or failed calls change nothing. Edits never reach another mesh or the arrays given. A saved mesh survives a crash and goes on the same.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "all histories of construction, edits, queries, saves and reloads over several meshes and process lifetimes, with I/O errors and crashes, and all grids, data shapes and cell types",
     "Tests apply one edit to one small fixed mesh and mostly compare sums; no sequence of edits, no sharing between meshes, no reload in the middle.",
     ["toughio/meshmaker", "toughio/_mesh/_mesh.py", "toughio/_mesh/_filter", "toughio/_mesh/_common.py", "toughio/_mesh/_properties.py", "toughio/_mesh/pickle/_pickle.py"],
     [("copies of the dictionaries and arrays given, material codes in field_data", "toughio/_mesh/_mesh.py"),
      ("array constructions of grids and extrusions", "toughio/meshmaker, toughio/_mesh/_mesh.py")],
     ["Mesh attributes and methods", "toughio.meshmaker", "Mesh.write and toughio.read_mesh"])

prop("C19", "Files written by other programs are read as what they say",
     "read_input, read_mesh and read_output return exactly what a valid file says, whoever wrote it: TOUGH decks with any Fortran number form (D or two-digit exponents, bare points), justification, block order, comments, short records, CRLF line ends, \"+++\" or ENDFI/ENDCY ends; JSON decks; AVS-UCD, FLAC3D and Tecplot meshes with arbitrary ids, groups, headers and zone records; result files with blank lines, other headers or quoting. Faults and split reads give an error or the right value.",
     ["inputs", "fault_sequences", "histories"],
     "all files the formats allow within the supported features, whatever program wrote them, under any I/O behaviour of the system",
     "Tests read back what toughio wrote, or a handful of sample files; the dialects of a format are a combinatorial space of independent choices.",
     ["toughio/_io/input", "toughio/_io/output", "toughio/_mesh/avsucd", "toughio/_mesh/flac3d", "toughio/_mesh/tecplot", "toughio/_io/_common.py"],
     [("fixed-width records parsed by format descriptors, Fortran floats converted", "toughio/_io/_common.py"),
      ("blocks dispatched by their first five characters, ended by blank lines or +++", "toughio/_io/input/tough/_read.py"),
      ("ids mapped to indices, groups to cell data", "toughio/_mesh/avsucd/_avsucd.py, toughio/_mesh/flac3d/_flac3d.py"),
      ("zone headers parsed as key = value records", "toughio/_mesh/tecplot/_tecplot.py, toughio/_io/output/tecplot/_tecplot.py")],
     ["values returned by read_input, read_mesh and read_output"])

prop("C20", "A registered format is used exactly as registered last",
     "After any sequence of register_input, register_output and register_mesh (new formats, further extensions, functions registered again, taken-over built-in formats, material keys), every read_/write_ call by extension or file_format reaches the function registered last, with the caller's file name, data and options, and brings back its value or error; formats not touched go on working. This also holds for calls of one thread while other threads register their own formats.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of registrations and calls, and all interleavings of threads with formats of their own",
     "No test registers a format; the guarantee is about sequences of registrations and calls.",
     ["toughio/_common.py", "toughio/_io/input/_helpers.py", "toughio/_io/output/_helpers.py", "toughio/_mesh/_helpers.py"],
     [("registries are dictionaries looked up at every call", "toughio/_common.py: register_format, filetype_from_filename")],
     ["function reached, its arguments, result or error"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))

From 003f08734daf5f0bc268dac2047d343edb9b4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 01/62] fix: reading a TOUGH input file without block ROCKS
 does not hang

The title loop never noticed the end of the file.
---
 toughio/_io/input/tough/_read.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index b813cfe..40a3ac8 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -45,7 +45,12 @@ def read_buffer(f, label_length):
     if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
         title = [line]
         while True:
-            line = f.readline().strip()
+            line = f.readline()
+            if not line:
+                # No block ROCKS in file, only the first line can be a title
+                title = title[:1]
+                break
+            line = line.strip()
             if not line.startswith("ROCKS"):
                 title.append(line)
             else:
-- 
2.43.0


From 1c431ae0e78811fbb3cab64d7819f389dc8d9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 02/62] fix: truncated TOUGH input file raises ValueError
 instead of StopIteration

StopIteration silently ends an enclosing generator of the caller.
---
 toughio/_io/input/tough/_read.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 40a3ac8..7be00ac 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -31,7 +31,10 @@ def read(filename, label_length=None):
         raise ValueError()
 
     with open(filename, "r") as f:
-        out = read_buffer(f, label_length)
+        try:
+            out = read_buffer(f, label_length)
+        except StopIteration:
+            raise ValueError("Unexpected end of file in '{}'.".format(filename))
 
     return out
 
-- 
2.43.0


From 33b0a785e43c663f92a16e6457dc4de46af6589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 03/62] fix: truncated TOUGH output file raises ValueError
 instead of StopIteration

---
 toughio/_io/output/tough/_tough.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 3e2d216..4f20217 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -16,7 +16,10 @@ __all__ = [
 def read(filename, file_type, file_format, labels_order, label_length=None):
     """Read standard TOUGH OUTPUT."""
     with open(filename, "r") as f:
-        headers, times, variables = _read_table(f, file_type, label_length)
+        try:
+            headers, times, variables = _read_table(f, file_type, label_length)
+        except StopIteration:
+            raise ValueError("Unexpected end of file in '{}'.".format(filename))
 
         ilab = 1 if file_type == "element" else 2
         headers = headers[ilab + 1 :]
-- 
2.43.0


From 9d3a46fc7b5ea2e1c0b2b7337d8b853d6be0a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 04/62] fix: reading a TOUGH output file with an explicit
 label_length

Variable iend was only defined when the label length was guessed.
---
 toughio/_io/output/tough/_tough.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 4f20217..e6539e4 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -80,11 +80,12 @@ def _read_table(f, file_type, label_length):
 
                     if first and not label_length:
                         label_length = get_label_length(line[:9])
-                        iend = (
-                            label_length
-                            if file_type == "element"
-                            else 2 * label_length + 2
-                        )
+
+                    iend = (
+                        label_length
+                        if file_type == "element"
+                        else 2 * label_length + 2
+                    )
 
                     tmp = (
                         [line[:label_length]]
-- 
2.43.0


From 029fb932fc1bac9b4a4cfb2792e9eb6285caadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 05/62] fix: Tecplot output reader detects the end of the file

It looped forever when the record VARIABLES was missing (truncated file).
---
 toughio/_io/output/tecplot/_tecplot.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ff2fefa..ac720ad 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -16,7 +16,10 @@ def read(filename, file_type, file_format, labels_order):
     with open(filename, "r") as f:
         # Look for header (VARIABLES)
         while True:
-            line = f.readline().strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("Record 'VARIABLES' not found.")
+            line = line.strip()
             if line.upper().startswith("VARIABLES"):
                 break
 
@@ -37,7 +40,9 @@ def read(filename, file_type, file_format, labels_order):
             # Read data
             data = []
             for _ in range(zone["I"]):
-                line = f.readline().strip()
+                line = f.readline()
+                if not line:
+                    raise ValueError("Unexpected end of file.")
                 data.append([float(x) for x in line.split()])
             data = numpy.array(data)
 
-- 
2.43.0


From d4e268802dfa59139c9e38edffe2402cc976df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 06/62] fix: Tecplot mesh reader detects the end of the file

It looped forever on a truncated zone.
---
 toughio/_mesh/tecplot/_tecplot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 17d020e..12e3f84 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -304,14 +304,20 @@ def _parse_fezone(zone, variables):
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+        line = line.split()
         if line:
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = f.readline().strip().split()
+        line = f.readline()
+        if not line:
+            raise ValueError("Unexpected end of file")
+        line = line.split()
         if line:
             cells += [[[int(x) for x in line]]]
             count += 1
-- 
2.43.0


From 2aec8fea0d55b5ed5cf2a0b5fe457b67a60815b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 07/62] fix: Tecplot mesh reader accepts data starting with a
 negative number

The first data line was taken for a continuation of the ZONE record.
---
 toughio/_mesh/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 12e3f84..7764330 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -110,7 +110,7 @@ def read_buffer(f):
             i = f.tell()
             line = f.readline().strip().upper()
             while True:
-                if line and not line[0].isdigit():
+                if line and line[0] not in "+-.0123456789":
                     lines += [line]
                     i = f.tell()
                     line = f.readline().strip().upper()
-- 
2.43.0


From ad90d892ed31eb15026132daf8bc25fba0c1307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 08/62] fix: JSON writer serializes parameters before opening
 the file

Parameters that cannot be serialized destroyed an existing file.
---
 toughio/_io/input/json/_json.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 46d7cc1..39a9bdb 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -74,7 +74,8 @@ def write(filename, parameters):
         else:
             return x
 
+    parameters = deepcopy(parameters)
+    parameters = jsonify(parameters)
+    buffer = json.dumps(parameters, indent=4)
     with open(filename, "w") as f:
-        parameters = deepcopy(parameters)
-        parameters = jsonify(parameters)
-        json.dump(parameters, f, indent=4)
+        f.write(buffer)
-- 
2.43.0


From 959c8cdf92fa73173ab95593d18ddac2414d2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 09/62] fix: save2incon reads the SAVE file before opening the
 INCON file

An invalid or unreadable SAVE file, or converting in place, destroyed the
existing output file.
---
 toughio/_cli/_save2incon.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/toughio/_cli/_save2incon.py b/toughio/_cli/_save2incon.py
index bfc54c8..f3ef932 100644
--- a/toughio/_cli/_save2incon.py
+++ b/toughio/_cli/_save2incon.py
@@ -13,22 +13,27 @@ def save2incon(argv=None):
     if not os.path.isfile(args.infile):
         raise ValueError("SAVE file '{}' not found.".format(args.infile))
 
+    # Buffer SAVE file
+    incon_file = []
+    first = True
+    with open(args.infile, "r") as fsave:
+        for line in fsave:
+            if first:
+                if not line.startswith("INCON"):
+                    raise ValueError("Invalid SAVE file.")
+                else:
+                    first = False
+            if args.reset and line.startswith("+++"):
+                break
+            incon_file.append(line)
+
+    if args.reset:
+        incon_file.append("\n")
+
     # Write INCON file
     with open(args.outfile, "w") as f:
-        first = True
-        with open(args.infile, "r") as fsave:
-            for line in fsave:
-                if first:
-                    if not line.startswith("INCON"):
-                        raise ValueError("Invalid SAVE file.")
-                    else:
-                        first = False
-                if args.reset and line.startswith("+++"):
-                    break
-                f.write(line)
-
-        if args.reset:
-            f.write("\n")
+        for line in incon_file:
+            f.write(line)
 
 
 def _get_parser():
-- 
2.43.0


From 0c9b2a4cb7d18b41881b867a680ee37d8a36ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 10/62] fix: extract --split honors option --file-format

---
 toughio/_cli/_extract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index a1fc63a..8acfc0f 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -85,7 +85,9 @@ def extract(argv=None):
     else:
         head, ext = os.path.splitext(filename)
         for i, out in enumerate(output):
-            write_output("{}_{}{}".format(head, i + 1, ext), out, file_format="csv")
+            write_output(
+                "{}_{}{}".format(head, i + 1, ext), out, file_format=args.file_format
+            )
 
 
 def _get_parser():
-- 
2.43.0


From 4487650bad4935e6593da76d0deab6f94aec0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 11/62] fix: block SELEC without floats can be read and written
 again

Reading failed with KeyError when IE(1) is blank, and what was read could not
be written.
---
 toughio/_io/input/tough/_read.py  | 2 +-
 toughio/_io/input/tough/_write.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 7be00ac..17a1daa 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -371,7 +371,7 @@ def _read_selec(f):
             selec["selections"]["floats"].append(prune_nones_list(data))
 
     selec["selections"]["integers"] = prune_nones_dict(selec["selections"]["integers"])
-    if selec["selections"]["integers"][1] == 1:
+    if selec["selections"]["integers"].get(1) == 1:
         selec["selections"]["floats"] = selec["selections"]["floats"][0]
 
     return selec
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 1caba5a..6bfd629 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -486,9 +486,9 @@ def _write_selec(parameters):
     from ._common import selections
 
     data = deepcopy(selections)
-    if parameters["selections"]["integers"]:
+    if parameters["selections"].get("integers"):
         data["integers"].update(parameters["selections"]["integers"])
-    if len(parameters["selections"]["floats"]):
+    if parameters["selections"].get("floats") is not None:
         data["floats"] = parameters["selections"]["floats"]
 
     # Check floats and overwrite IE(1)
-- 
2.43.0


From 32bca4070a2e7888b65542dc462261b3ae22dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 12/62] fix: default of solver method is stored under the key
 the writer uses

---
 toughio/_io/input/tough/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_common.py b/toughio/_io/input/tough/_common.py
index 32e4ab1..14cb8d1 100644
--- a/toughio/_io/input/tough/_common.py
+++ b/toughio/_io/input/tough/_common.py
@@ -72,7 +72,7 @@ extra_options = {k + 1: None for k in range(24)}
 more_options = {k + 1: None for k in range(40)}
 
 solver = {
-    "id": 3,
+    "method": 3,
     "z_precond": "Z0",
     "o_precond": "O0",
     "rel_iter_max": 0.1,
-- 
2.43.0


From 01cfdfc170f895edbbf6968c545f928c984406ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 13/62] fix: block OUTPU with only a format does not swallow
 the next block

---
 toughio/_io/input/tough/_read.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 17a1daa..3c132fc 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -115,7 +115,7 @@ def read_buffer(f, label_length):
         elif line.startswith("DIFFU"):
             parameters.update(_read_diffu(fiter, f))
         elif line.startswith("OUTPU"):
-            parameters.update(_read_outpu(fiter))
+            parameters.update(_read_outpu(fiter, f))
         elif line.startswith("ELEME"):
             parameters.update(_read_eleme(fiter, label_length))
             parameters["coordinates"] = False
@@ -558,7 +558,7 @@ def _read_diffu(f, fh):
     return diffu
 
 
-def _read_outpu(f):
+def _read_outpu(f, fh):
     """Read OUTPU block data."""
     fmt = block_to_format["OUTPU"]
     outpu = {"output": {}}
@@ -567,7 +567,10 @@ def _read_outpu(f):
     line = next(f).strip()
     if line and not line.isdigit():
         outpu["output"]["format"] = line if line else None
+        i = fh.tell()
         line = next(f).strip()
+        if not line.isdigit():
+            fh.seek(i)
 
     # Variables
     names = {}
-- 
2.43.0


From beae76603f40ae253f99723fd9112f903c9839d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:40 +0000
Subject: [PATCH 14/62] fix: reading an element without material

---
 toughio/_io/input/tough/_read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 3c132fc..38c2252 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -619,11 +619,11 @@ def _read_eleme(f, label_length):
         if line.strip():
             data = read_record(line, fmt[label_length])
             label = data[0]
-            rock = data[3].strip()
+            rock = data[3] if data[3] else ""
             eleme["elements"][label] = {
                 "nseq": data[1],
                 "nadd": data[2],
-                "material": int(rock) if all(r.isdigit() for r in rock) else rock,
+                "material": int(rock) if rock.isdigit() else rock,
                 "volume": data[4],
                 "heat_exchange_area": data[5],
                 "permeability_modifier": data[6],
-- 
2.43.0


From 694ccc32dfb53ba70f9c431ac26bc9861040acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 15/62] fix: reading several generators of one element with and
 without enthalpy table

---
 toughio/_io/input/tough/_read.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 38c2252..5e68cc4 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -503,6 +503,9 @@ def _read_gener(f, label_length):
                         table += prune_nones_list(data)
 
                     tmp[key] = [table]
+
+                if not itab:
+                    tmp["specific_enthalpy"] = [None]
             else:
                 tmp.update(
                     {
-- 
2.43.0


From d3369ab1095d55b0fc993f346293c47cfa3bae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 16/62] fix: material_name and material_end match names shorter
 than 5 characters

Cell materials were padded before they were compared.
---
 toughio/_mesh/tough/_tough.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 4fc41ad..93c433f 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -176,13 +176,15 @@ def write_mesh(
 ):
     """Write MESH file."""
     # Check materials
-    materials = [
-        "{:5}".format(material.strip()) if isinstance(material, str) else material
-        for material in materials
-    ]
+    def strip(material):
+        return material.strip() if isinstance(material, str) else material
+
+    materials = [strip(material) for material in materials]
     material_name = material_name if material_name else {}
+    material_name = {strip(k): v for k, v in material_name.items()}
     material_end = material_end if material_end else []
     material_end = [material_end] if isinstance(material_end, str) else material_end
+    material_end = [strip(material) for material in material_end]
 
     with open(filename, "w") as f:
         _write_eleme(
-- 
2.43.0


From cdd79286501378f6b3590908c9f8e14ab87abe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 17/62] fix: INCON includes cells whose primary variables are
 all negative

The value that marks an undefined variable is -1.0e9.
---
 toughio/_mesh/tough/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 8092ce1..9af9a41 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -90,7 +90,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
 
     iterables = zip(labels, values, porosity, userx)
     for label, value, phi, usrx in iterables:
-        cond1 = any(v > -1.0e-9 for v in value)
+        cond1 = any(v > -1.0e9 for v in value)
         cond2 = phi is not None
         cond3 = usrx is not None
         if cond1 or cond2 or cond3:
-- 
2.43.0


From b6e132621779177b4d17c8ab15e220dda1a2164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 18/62] fix: FLAC3D groups of a mesh whose 2D cells come before
 3D cells

Groups referred to the position of cells in the mesh, but zones are always
numbered before faces.
---
 toughio/_mesh/flac3d/_flac3d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 439ae99..19a89e7 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -489,6 +489,11 @@ def _translate_groups(cells, cell_data, field_data, flag):
     num_dims = numpy.concatenate(
         [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
     )
+
+    # Zones are numbered before faces
+    idx = numpy.argsort(num_dims != flag_to_numdim["zone"], kind="mergesort")
+    cell_data, num_dims = cell_data[idx], num_dims[idx]
+
     groups = {
         k: numpy.nonzero(
             numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])
-- 
2.43.0


From ca7b11533d819abc55a8d66620e4fa32287a1040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 19/62] fix: reading several face groups in a FLAC3D text file

---
 toughio/_mesh/flac3d/_flac3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 19a89e7..0998ef7 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -266,7 +266,7 @@ def _read_group(buf_or_line, binary, line=None):
         line = buf_or_line.readline()
         while True:
             line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP"}):
+            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
-- 
2.43.0


From c8b720bf37bbb3166912549455b3355134edc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:41 +0000
Subject: [PATCH 20/62] fix: reading FLAC3D text groups with blanks in their
 names

---
 toughio/_mesh/flac3d/_flac3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 0998ef7..fdbd77b 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -258,7 +258,8 @@ def _read_group(buf_or_line, binary, line=None):
         (num_zones,) = struct.unpack("<I", buf_or_line.read(4))
         data = struct.unpack("<{}I".format(num_zones), buf_or_line.read(4 * num_zones))
     else:
-        name = line[1].replace('"', "")
+        name = " ".join(line)
+        name = name.split('"')[1] if '"' in name else line[1]
         data = []
         slot = "" if "SLOT" not in line else line[-1]
 
-- 
2.43.0


From 3fd7ab0e42acbac0f2cf5e91cc53f5f4343b4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:09 +0000
Subject: [PATCH 21/62] fix: output writers format all records before opening
 the file

Inconsistent outputs (no time, missing variable or label, wrong length)
destroyed an existing file.
---
 toughio/_io/output/csv/_csv.py           | 20 +++++++----
 toughio/_io/output/petrasim/_petrasim.py | 43 +++++++++++++-----------
 toughio/_io/output/tecplot/_tecplot.py   | 38 +++++++++++----------
 3 files changed, 57 insertions(+), 44 deletions(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 4353c1a..08f4b68 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -105,19 +105,23 @@ def write(filename, output):
     headers += ["Z"] if "Z" in out.data.keys() else []
     headers += [k for k in out.data.keys() if k not in {"X", "Y", "Z"}]
 
+    buffer = _write_csv(output, headers)
     with open(filename, "w") as f:
-        _write_csv(f, output, headers)
+        for record in buffer:
+            f.write(record)
+
 
+def _write_csv(output, headers):
+    """Write CSV table as a list of records."""
+    buffer = []
 
-def _write_csv(f, output, headers):
-    """Write CSV table."""
     # Headers
     units = [
         header_to_unit[header] if header in header_to_unit.keys() else " (-)"
         for header in headers
     ]
-    f.write(",".join('"{:>18}"'.format(header) for header in headers) + "\n")
-    f.write(",".join('"{:>18}"'.format(unit) for unit in units) + "\n")
+    buffer.append(",".join('"{:>18}"'.format(header) for header in headers) + "\n")
+    buffer.append(",".join('"{:>18}"'.format(unit) for unit in units) + "\n")
 
     # Data
     formats = [
@@ -125,7 +129,7 @@ def _write_csv(f, output, headers):
     ]
     for out in output:
         # Time step
-        f.write('"TIME [sec]  {:.8e}"\n'.format(out.time))
+        buffer.append('"TIME [sec]  {:.8e}"\n'.format(out.time))
 
         # Table
         for i, label in enumerate(out.labels):
@@ -138,4 +142,6 @@ def _write_csv(f, output, headers):
                 )
                 + "\n"
             )
-            f.write(record)
+            buffer.append(record)
+
+    return buffer
diff --git a/toughio/_io/output/petrasim/_petrasim.py b/toughio/_io/output/petrasim/_petrasim.py
index 1f22584..765b3dd 100644
--- a/toughio/_io/output/petrasim/_petrasim.py
+++ b/toughio/_io/output/petrasim/_petrasim.py
@@ -55,24 +55,27 @@ def write(filename, output):
     headers += ["Z"] if "Z" in out.data.keys() else []
     headers += [k for k in out.data.keys() if k not in {"X", "Y", "Z"}]
 
-    with open(filename, "w") as f:
-        # Headers
-        record = ",".join(
-            "{:>18}".format(header)
-            for header in ["TIME [sec]", "ELEM", "INDEX"] + headers
-        )
-        f.write("{}\n".format(record))
+    # Headers
+    buffer = []
+    record = ",".join(
+        "{:>18}".format(header) for header in ["TIME [sec]", "ELEM", "INDEX"] + headers
+    )
+    buffer.append("{}\n".format(record))
 
-        # Data
-        for out in output:
-            data = numpy.transpose([out.data[k] for k in headers])
-            formats = ["{:20.12e}", "{:>18}", "{:20d}"]
-            formats += ["{:20.12e}"] * len(out.data)
-
-            i = 0
-            for d in data:
-                tmp = [out.time, out.labels[i], i + 1]
-                tmp += [x for x in d]
-                record = ",".join(fmt.format(x) for fmt, x in zip(formats, tmp))
-                f.write("{}\n".format(record))
-                i += 1
+    # Data
+    for out in output:
+        data = numpy.transpose([out.data[k] for k in headers])
+        formats = ["{:20.12e}", "{:>18}", "{:20d}"]
+        formats += ["{:20.12e}"] * len(out.data)
+
+        i = 0
+        for d in data:
+            tmp = [out.time, out.labels[i], i + 1]
+            tmp += [x for x in d]
+            record = ",".join(fmt.format(x) for fmt, x in zip(formats, tmp))
+            buffer.append("{}\n".format(record))
+            i += 1
+
+    with open(filename, "w") as f:
+        for record in buffer:
+            f.write(record)
diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ac720ad..743b39a 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -75,21 +75,25 @@ def write(filename, output):
     headers += ["Z"] if "Z" in out.data.keys() else []
     headers += [k for k in out.data.keys() if k not in {"X", "Y", "Z"}]
 
+    # Headers
+    buffer = []
+    record = "".join("{:>18}".format(header) for header in headers)
+    buffer.append("{}{}\n".format("{:>18}".format("VARIABLES       ="), record))
+
+    # Data
+    for out in output:
+        # Zone
+        record = ' ZONE T="{:14.7e} SEC"  I = {:8d}'.format(
+            out.time, len(out.data["X"])
+        )
+        buffer.append("{}\n".format(record))
+
+        # Table
+        data = numpy.transpose([out.data[k] for k in headers])
+        for d in data:
+            record = "".join("{:20.12e}".format(x) for x in d)
+            buffer.append("{}{}\n".format("{:18}".format(""), record))
+
     with open(filename, "w") as f:
-        # Headers
-        record = "".join("{:>18}".format(header) for header in headers)
-        f.write("{}{}\n".format("{:>18}".format("VARIABLES       ="), record))
-
-        # Data
-        for out in output:
-            # Zone
-            record = ' ZONE T="{:14.7e} SEC"  I = {:8d}'.format(
-                out.time, len(out.data["X"])
-            )
-            f.write("{}\n".format(record))
-
-            # Table
-            data = numpy.transpose([out.data[k] for k in headers])
-            for d in data:
-                record = "".join("{:20.12e}".format(x) for x in d)
-                f.write("{}{}\n".format("{:18}".format(""), record))
+        for record in buffer:
+            f.write(record)
-- 
2.43.0


From b0fb0224792a224c2a50b1743f5f00e38902ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:26 +0000
Subject: [PATCH 22/62] fix: write_tough of a mesh without any connection

It failed after having destroyed the existing MESH file.
---
 toughio/_mesh/tough/_tough.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 93c433f..0499526 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -341,6 +341,10 @@ def _write_conne(
             )
         cell_list.add(i)
 
+    # Nothing to write if no cell is connected
+    if not clabels:
+        return
+
     centers = numpy.array(centers)
     int_points = numpy.array(int_points)
     int_normals = numpy.array(int_normals)
-- 
2.43.0


From d372bfa108aa247b5da38a93599e6471dbfbe1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:45 +0000
Subject: [PATCH 23/62] fix: TOUGH output tables with columns glued by a minus
 sign

---
 toughio/_io/output/tough/_tough.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index e6539e4..7cd0ca4 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -1,5 +1,6 @@
 from __future__ import with_statement
 
+import re
 from functools import partial
 
 import numpy
@@ -97,7 +98,9 @@ def _read_table(f, file_type, label_length):
                     if first:
                         try:
                             # Set line parser and try parsing first line
-                            reader = lambda line: [_str2float(x) for x in line.split()]
+                            reader = lambda line: [
+                                _str2float(x) for x in _split_columns(line)
+                            ]
                             _ = reader(line)
 
                         except ValueError:
@@ -136,6 +139,11 @@ def _read_table(f, file_type, label_length):
     return headers, times, variables
 
 
+def _split_columns(line):
+    """Split a record, including columns glued by a minus sign."""
+    return re.sub(r"(?<=[\d.])-(?=\d*\.)", " -", line).split()
+
+
 def _str2float(x):
     """Return numpy.nan if x cannot be converted."""
     try:
-- 
2.43.0


From 587e2804135439d31e2374ce56c944420955b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:02 +0000
Subject: [PATCH 24/62] fix: labels_order given as an array to read a SAVE file

---
 toughio/_io/output/save/_save.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index a99b2f2..27c7e95 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -32,7 +32,9 @@ def read(filename, file_type, file_format, labels_order):
         data["userx"] = numpy.array(userx)
 
     labels_order = (
-        labels_order if labels_order else parameters["initial_conditions_order"]
+        labels_order
+        if labels_order is not None
+        else parameters["initial_conditions_order"]
     )
     output = Output(file_type, file_format, None, numpy.array(labels), data)
     return reorder_labels(output, labels_order)
-- 
2.43.0


From 0602ab85595c0686392649e303f3b709fe0c11ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:13 +0000
Subject: [PATCH 25/62] fix: result files with three-digit Fortran exponents

---
 toughio/_io/output/_helpers.py           | 3 ++-
 toughio/_io/output/csv/_csv.py           | 3 ++-
 toughio/_io/output/petrasim/_petrasim.py | 3 ++-
 toughio/_io/output/tecplot/_tecplot.py   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/output/_helpers.py b/toughio/_io/output/_helpers.py
index cb6c0dd..72f5e39 100644
--- a/toughio/_io/output/_helpers.py
+++ b/toughio/_io/output/_helpers.py
@@ -3,6 +3,7 @@ from __future__ import with_statement
 import numpy
 
 from ..._common import filetype_from_filename, register_format
+from ..input.tough._helpers import str2float
 from ._common import Output
 
 __all__ = [
@@ -177,7 +178,7 @@ def read_history(filename):
         data = []
         line = f.readline().strip()
         while line:
-            data += [[float(x) for x in line.split(sep)]]
+            data += [[str2float(x.strip()) for x in line.split(sep)]]
             line = f.readline().strip()
         data = numpy.transpose(data)
 
diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index 08f4b68..b0830d4 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -2,6 +2,7 @@ from __future__ import with_statement
 
 import numpy
 
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -88,7 +89,7 @@ def _read_csv(f, file_type):
         # Output
         else:
             tmp = [l.strip() for l in line[:ilab]]
-            tmp += [float(l.strip()) for l in line[ilab:]]
+            tmp += [str2float(l.strip()) for l in line[ilab:]]
             variables[-1].append(tmp)
 
         line = f.readline().strip().replace('"', "")
diff --git a/toughio/_io/output/petrasim/_petrasim.py b/toughio/_io/output/petrasim/_petrasim.py
index 765b3dd..8d92615 100644
--- a/toughio/_io/output/petrasim/_petrasim.py
+++ b/toughio/_io/output/petrasim/_petrasim.py
@@ -2,6 +2,7 @@ from __future__ import with_statement
 
 import numpy
 
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -26,7 +27,7 @@ def read(filename, file_type, file_format, labels_order):
                 line = line.split(",")
                 times.append(float(line[0]))
                 elements.append(line[1].strip())
-                data.append([float(x) for x in line[3:]])
+                data.append([str2float(x.strip()) for x in line[3:]])
             else:
                 break
 
diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index 743b39a..876f4e9 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -3,6 +3,7 @@ from __future__ import with_statement
 import numpy
 
 from ...._mesh.tecplot._tecplot import _read_variables, _read_zone
+from ...input.tough._helpers import str2float
 from .._common import to_output
 
 __all__ = [
@@ -43,7 +44,7 @@ def read(filename, file_type, file_format, labels_order):
                 line = f.readline()
                 if not line:
                     raise ValueError("Unexpected end of file.")
-                data.append([float(x) for x in line.split()])
+                data.append([str2float(x) for x in line.split()])
             data = numpy.array(data)
 
             # Output
-- 
2.43.0


From 7e7a87d85fa7b98923b108309335d6c80843e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:20 +0000
Subject: [PATCH 26/62] fix: data of exported voxelized meshes attached to the
 wrong cells

---
 toughio/_cli/_export.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index ae07897..d4ea6d3 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -104,15 +104,9 @@ def export(argv=None):
             mesh = voxelize(points, args.origin, layer=args.layer)
             mesh.cell_dada = {}
 
-            idx = numpy.arange(len(points))
-            idx = numpy.array(
-                [
-                    x
-                    for x, _ in sorted(
-                        zip(idx, points), key=lambda x: (x[1][2], x[1][1], x[1][0])
-                    )
-                ]
-            )
+            # Sort data points in the order of the cells of the voxelized mesh
+            x, y, z = points.T
+            idx = numpy.lexsort((x, y, -z) if args.layer else (-z, y, x))
 
             if args.file_format != "xdmf":
                 for label, data in output.data.items():
-- 
2.43.0


From 092ee4d32524cd4694ab8afa6182276d489c743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 27/62] fix: write_tough formats all records before opening
 MESH and INCON

---
 toughio/_mesh/tough/_tough.py | 50 +++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 0499526..eaee3ab 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -2,6 +2,7 @@ from __future__ import division, unicode_literals, with_statement
 
 import logging
 import os
+from io import StringIO
 
 import numpy
 
@@ -77,9 +78,8 @@ def write(
     primary_variables, porosities, permeabilities = init_incon(mesh)
     incon = check_incon(incon, primary_variables, porosities, permeabilities, num_cells)
 
-    # Write MESH file
-    write_mesh(
-        filename,
+    # Format all records before writing the files
+    mesh_file = format_mesh(
         num_cells,
         labels,
         nodes,
@@ -98,17 +98,24 @@ def write(
         coord,
     )
 
-    # Write INCON file
     if incon:
-        head = os.path.split(filename)[0]
-        write_incon(
-            os.path.join(head, "INCON") if head else "INCON",
+        incon_file = format_incon(
             labels,
             primary_variables,
             porosities,
             permeabilities,
         )
 
+    # Write MESH file
+    with open(filename, "w") as f:
+        f.write(mesh_file)
+
+    # Write INCON file
+    if incon:
+        head = os.path.split(filename)[0]
+        with open(os.path.join(head, "INCON") if head else "INCON", "w") as f:
+            f.write(incon_file)
+
 
 def check_incon(
     incon,
@@ -155,8 +162,7 @@ def check_incon(
     return do_incon
 
 
-def write_mesh(
-    filename,
+def format_mesh(
     num_cells,
     labels,
     nodes,
@@ -174,7 +180,7 @@ def write_mesh(
     material_end,
     coord,
 ):
-    """Write MESH file."""
+    """Format MESH file."""
     # Check materials
     def strip(material):
         return material.strip() if isinstance(material, str) else material
@@ -186,7 +192,7 @@ def write_mesh(
     material_end = [material_end] if isinstance(material_end, str) else material_end
     material_end = [strip(material) for material in material_end]
 
-    with open(filename, "w") as f:
+    with StringIO() as f:
         _write_eleme(
             f,
             labels,
@@ -220,6 +226,8 @@ def write_mesh(
             nodal_distance,
         )
 
+        return f.getvalue()
+
 
 def write_incon(
     filename,
@@ -229,7 +237,25 @@ def write_incon(
     permeabilities,
 ):
     """Write INCON file."""
+    incon_file = format_incon(
+        labels,
+        primary_variables,
+        porosities,
+        permeabilities,
+    )
+
     with open(filename, "w") as f:
+        f.write(incon_file)
+
+
+def format_incon(
+    labels,
+    primary_variables,
+    porosities,
+    permeabilities,
+):
+    """Format INCON file."""
+    with StringIO() as f:
         _write_incon(
             f,
             labels,
@@ -238,6 +264,8 @@ def write_incon(
             permeabilities,
         )
 
+        return f.getvalue()
+
 
 @block("ELEME")
 def _write_eleme(
-- 
2.43.0


From 8651d6efcf3dbc5b30e090bb6c6631362cb9daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 28/62] fix: AVS-UCD reader does not return uninitialized
 memory for missing data

---
 toughio/_mesh/avsucd/_avsucd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/avsucd/_avsucd.py b/toughio/_mesh/avsucd/_avsucd.py
index baf2a78..4fcafcd 100644
--- a/toughio/_mesh/avsucd/_avsucd.py
+++ b/toughio/_mesh/avsucd/_avsucd.py
@@ -135,9 +135,9 @@ def _read_data(f, num_entities, entity_ids):
         line = f.readline().strip().split(",")
         labels[i] = line[0].strip().replace(" ", "_")
         data[labels[i]] = (
-            numpy.empty(num_entities)
+            numpy.full(num_entities, numpy.nan)
             if dsize == 1
-            else numpy.empty((num_entities, dsize))
+            else numpy.full((num_entities, dsize), numpy.nan)
         )
 
     for _ in range(num_entities):
-- 
2.43.0


From a31b9f77befa413c0199818c1450f011937ffda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 29/62] fix: reading block MULTI keeps the number of mass
 components

---
 toughio/_io/input/tough/_read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 5e68cc4..30509ce 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -247,6 +247,8 @@ def _read_multi(f):
     multi["n_component"] = data[0]
     multi["isothermal"] = data[1] == data[0]
     multi["n_phase"] = data[2]
+    if data[4] is not None:
+        multi["n_component_mass"] = data[4]
 
     return multi
 
-- 
2.43.0


From 3fc99ede96f7fec52be7425947555505b5e2f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 30/62] fix: names of FLAC3D binary groups are sized in bytes

---
 toughio/_mesh/flac3d/_flac3d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index fdbd77b..a93b4aa 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -409,11 +409,12 @@ def _write_groups(f, cells, cell_data, field_data, flag, binary):
 
             f.write(struct.pack("<I", len(groups)))
             for k in sorted(groups.keys()):
-                num_chars, num_zones = len(labels[k]), len(groups[k])
+                label = labels[k].encode("utf-8")
+                num_chars, num_zones = len(label), len(groups[k])
                 fmt = "<H{}sH7sI{}I".format(num_chars, num_zones)
                 tmp = [
                     num_chars,
-                    labels[k].encode("utf-8"),
+                    label,
                     7,
                     slot,
                     num_zones,
-- 
2.43.0


From aad1c807f3432560b8af62b4c1b2e869677bd558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 31/62] fix: Tecplot zone type of a mesh whose 2D cells come
 before 3D cells

---
 toughio/_mesh/tecplot/_tecplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 7764330..5bd1576 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -362,6 +362,7 @@ def write(filename, mesh):
         if len(numpy.unique(num_dims)) == 2:
             logging.warning("Mesh contains 2D and 3D cells. Skipping 2D cells.")
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
+            num_dims = [3 for _ in cell_blocks]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
         zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
-- 
2.43.0


From 3e71062fe523909d1e4e15062e3437524b9614d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 32/62] fix: Mesh.read_output does not reorder the output given
 by the caller

---
 toughio/_io/output/_common.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/_common.py b/toughio/_io/output/_common.py
index eaa3b18..4c5fb06 100644
--- a/toughio/_io/output/_common.py
+++ b/toughio/_io/output/_common.py
@@ -36,9 +36,8 @@ def reorder_labels(data, labels):
 
     mapper = {k: v for v, k in enumerate(data.labels)}
     idx = [mapper[label] for label in labels]
-    data.labels[:] = data.labels[idx]
 
-    for k, v in data.data.items():
-        data.data[k] = v[idx]
-
-    return data
+    return data._replace(
+        labels=data.labels[idx],
+        data={k: v[idx] for k, v in data.data.items()},
+    )
-- 
2.43.0


From f2c053f24de0c28d42311e72eae7c53791792a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 33/62] fix: CSV output keeps variables whose names start with
 ELEM

---
 toughio/_io/output/csv/_csv.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index b0830d4..a776b22 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -125,9 +125,8 @@ def _write_csv(output, headers):
     buffer.append(",".join('"{:>18}"'.format(unit) for unit in units) + "\n")
 
     # Data
-    formats = [
-        '"{:>18}"' if header.startswith("ELEM") else "{:20.12e}" for header in headers
-    ]
+    ilab = 1 if output[-1].type == "element" else 2
+    formats = ilab * ['"{:>18}"'] + ["{:20.12e}"] * len(headers[ilab:])
     for out in output:
         # Time step
         buffer.append('"TIME [sec]  {:.8e}"\n'.format(out.time))
@@ -135,7 +134,7 @@ def _write_csv(output, headers):
         # Table
         for i, label in enumerate(out.labels):
             record = [label] if isinstance(label, str) else [l for l in label]
-            record += [out.data[k][i] for k in headers if not k.startswith("ELEM")]
+            record += [out.data[k][i] for k in headers[ilab:]]
             record = (
                 ",".join(
                     fmt.format(rec) if rec is not None else fmt.format(0.0)
-- 
2.43.0


From 02f7d81c5533391befb0930da920fa030908d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 34/62] fix: mesh writers format the whole mesh before opening
 the file

---
 toughio/_mesh/avsucd/_avsucd.py |  9 ++++++++-
 toughio/_mesh/flac3d/_flac3d.py | 11 +++++++++--
 toughio/_mesh/pickle/_pickle.py |  3 ++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/avsucd/_avsucd.py b/toughio/_mesh/avsucd/_avsucd.py
index 4fcafcd..09939f5 100644
--- a/toughio/_mesh/avsucd/_avsucd.py
+++ b/toughio/_mesh/avsucd/_avsucd.py
@@ -1,6 +1,7 @@
 from __future__ import division, unicode_literals, with_statement
 
 import logging
+from io import StringIO
 
 import numpy
 
@@ -166,7 +167,8 @@ def write(filename, mesh):
             [mesh.points[:, 0], mesh.points[:, 1], numpy.zeros(mesh.points.shape[0])]
         )
 
-    with open(filename, "w") as f:
+    # Format everything before opening the file
+    with StringIO() as f:
         # Write meshio version
         f.write("# Written by toughio v{}\n".format(version))
 
@@ -217,6 +219,11 @@ def write(filename, mesh):
                 f, labels, data_array, num_cells, num_cell_data, num_cell_data_sum
             )
 
+        buffer = f.getvalue()
+
+    with open(filename, "w") as f:
+        f.write(buffer)
+
 
 def _write_nodes(f, points):
     for i, (x, y, z) in enumerate(points):
diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index a93b4aa..e342b25 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -2,6 +2,7 @@ from __future__ import division, unicode_literals, with_statement
 
 import struct
 import time
+from io import BytesIO, StringIO
 
 import numpy
 
@@ -324,8 +325,8 @@ def write(filename, mesh, float_fmt=".16e", binary=False):
         if key:
             material = numpy.concatenate(mesh.cell_data[key])
 
-    mode = "wb" if binary else "w"
-    with open(filename, mode) as f:
+    # Format everything before opening the file
+    with BytesIO() if binary else StringIO() as f:
         if binary:
             f.write(
                 struct.pack("<2I", 1375135718, 3)
@@ -339,6 +340,12 @@ def write(filename, mesh, float_fmt=".16e", binary=False):
             _write_cells(f, mesh.points, mesh.cells, flag, binary)
             _write_groups(f, mesh.cells, material, mesh.field_data, flag, binary)
 
+        buffer = f.getvalue()
+
+    mode = "wb" if binary else "w"
+    with open(filename, mode) as f:
+        f.write(buffer)
+
 
 def _write_points(f, points, binary, float_fmt=None):
     """Write points coordinates."""
diff --git a/toughio/_mesh/pickle/_pickle.py b/toughio/_mesh/pickle/_pickle.py
index aa71e95..56d73ba 100644
--- a/toughio/_mesh/pickle/_pickle.py
+++ b/toughio/_mesh/pickle/_pickle.py
@@ -46,5 +46,6 @@ def write(filename, mesh, protocol=pickle.HIGHEST_PROTOCOL):
         :mod:`pickle` protocol version.
 
     """
+    buffer = pickle.dumps(mesh, protocol=protocol)
     with open(filename, "wb") as f:
-        pickle.dump(mesh, f, protocol=protocol)
+        f.write(buffer)
-- 
2.43.0


From b7ebe2e20f5d2fb98651a7fb88ca28bd7a0b5d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:58 +0000
Subject: [PATCH 35/62] fix: FLAC3D groups of a mesh with cells that are
 neither zones nor faces

---
 toughio/_mesh/flac3d/_flac3d.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index e342b25..5a05626 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -496,9 +496,23 @@ def _translate_faces(cells):
 def _translate_groups(cells, cell_data, field_data, flag):
     """Convert toughio cell_data to FLAC3D groups."""
     num_dims = numpy.concatenate(
-        [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
+        [
+            numpy.full(
+                len(c[1]),
+                2
+                if c[0] in meshio_only["face"]
+                else 3
+                if c[0] in meshio_only["zone"]
+                else 0,
+            )
+            for c in cells
+        ]
     )
 
+    # Cells that are neither zones nor faces are not written
+    idx = num_dims > 0
+    cell_data, num_dims = cell_data[idx], num_dims[idx]
+
     # Zones are numbered before faces
     idx = numpy.argsort(num_dims != flag_to_numdim["zone"], kind="mergesort")
     cell_data, num_dims = cell_data[idx], num_dims[idx]
-- 
2.43.0


From 3ecc76b282a455c5d546b226c10918ea16aee919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 36/62] fix: title lines of an input file that begin like a
 block

---
 toughio/_io/input/tough/_read.py | 73 +++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 16 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 30509ce..4167de4 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -7,6 +7,32 @@ __all__ = [
     "read",
 ]
 
+blocks = (
+    "RPCAP",
+    "FLAC",
+    "MULTI",
+    "SOLVR",
+    "START",
+    "PARAM",
+    "SELEC",
+    "INDOM",
+    "MOMOP",
+    "TIMES",
+    "FOFT",
+    "COFT",
+    "GOFT",
+    "GENER",
+    "DIFFU",
+    "OUTPU",
+    "ELEME",
+    "COORD",
+    "CONNE",
+    "INCON",
+    "NOVER",
+    "ENDCY",
+    "ENDFI",
+)
+
 
 def read(filename, label_length=None):
     """
@@ -44,23 +70,9 @@ def read_buffer(f, label_length):
     parameters = {}
 
     # Title
-    line = f.readline().strip()
-    if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
-        title = [line]
-        while True:
-            line = f.readline()
-            if not line:
-                # No block ROCKS in file, only the first line can be a title
-                title = title[:1]
-                break
-            line = line.strip()
-            if not line.startswith("ROCKS"):
-                title.append(line)
-            else:
-                break
-
+    title = _read_title(f)
+    if title:
         parameters["title"] = title[0] if len(title) == 1 else title
-    f.seek(0)
 
     # Loop over blocks
     # Some blocks (INCON, INDOM, PARAM) need to rewind to previous line but tell and seek are disabled by next
@@ -136,6 +148,35 @@ def read_buffer(f, label_length):
     return parameters
 
 
+def _read_title(f):
+    """Read lines before the first block."""
+    # Files MESH, INCON and GENER have no title
+    line = f.readline().strip()
+    if line[:5] in {"ROCKS", "ELEME", "INCON", "GENER"} and not line[5:6].isalpha():
+        f.seek(0)
+        return []
+
+    title = [line]
+    i1 = i2 = f.tell()
+    while True:
+        line = f.readline()
+        if not line:
+            # No block in file, only the first line can be a title
+            f.seek(i1)
+            return title[:1]
+
+        line = line.strip()
+        if line.startswith("ROCKS") and not line[5:6].isalpha():
+            break
+        if line.startswith(blocks) and not any(x.isalpha() for x in line[5:]):
+            break
+        title.append(line)
+        i2 = f.tell()
+
+    f.seek(i2)
+    return title
+
+
 def _read_rocks(f):
     """Read ROCKS block data."""
     fmt = block_to_format["ROCKS"]
-- 
2.43.0


From c25fcd3147f68d0671ff5591bf1c1c194cdb718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 37/62] fix: input files closed by ENDFI

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 4167de4..8503910 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -142,7 +142,7 @@ def read_buffer(f, label_length):
             parameters.update(_read_incon(fiter, label_length, f))
         elif line.startswith("NOVER"):
             parameters["nover"] = True
-        elif line.startswith("ENDCY"):
+        elif line.startswith(("ENDCY", "ENDFI")):
             break
 
     return parameters
-- 
2.43.0


From fb452e3a970f36b84eab561e961cf59124cbad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 38/62] fix: rock types with NAD = 0 have no second record

---
 toughio/_io/input/tough/_read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 8503910..0d47ba9 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -198,7 +198,7 @@ def _read_rocks(f):
             }
 
             nad = data[1]
-            if nad is not None:
+            if nad:
                 # Record 2
                 line = next(f)
                 data = read_record(line, fmt[2])
-- 
2.43.0


From 50bfe40fbfb597d964cd2f866dd1812367df5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 39/62] fix: input files with short PARAM and MOMOP records

---
 toughio/_io/input/tough/_read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 0d47ba9..a797f9b 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -330,7 +330,7 @@ def _read_param(f, fh):
         "effective_strength_vapor": data[8],
     }
     param["extra_options"] = {
-        i + 1: int(x) for i, x in enumerate(data[5]) if x.isdigit()
+        i + 1: int(x) for i, x in enumerate(data[5] or "") if x.isdigit()
     }
 
     # Record 2
@@ -467,7 +467,7 @@ def _read_momop(f):
     line = next(f)
     data = read_record(line, fmt)
     momop = {
-        "more_options": {i + 1: int(x) for i, x in enumerate(data[0]) if x.isdigit()}
+        "more_options": {i + 1: int(x) for i, x in enumerate(data[0] or "") if x.isdigit()}
     }
 
     return momop
-- 
2.43.0


From 82fc5f2e9c54a7e912eeec3097f928a163614289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 40/62] fix: blank or fractional time step in PARAM record

---
 toughio/_io/input/tough/_read.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index a797f9b..96ce196 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -348,12 +348,10 @@ def _read_param(f, fh):
         }
     )
 
-    t_steps = int(data[2])
-    if t_steps >= 0.0:
-        param["options"]["t_steps"] = t_steps
-    else:
+    t_steps = data[2]
+    if t_steps is not None and t_steps < 0.0:
         param["options"]["t_steps"] = []
-        for _ in range(-t_steps):
+        for _ in range(-int(t_steps)):
             line = next(f)
             data = read_record(line, fmt[3])
             param["options"]["t_steps"] += prune_nones_list(data)
-- 
2.43.0


From 735f1fef5e44a505e04b087b2864ed690aa2abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:56 +0000
Subject: [PATCH 41/62] fix: generator tables with any ITAB and GENER closed by
 +++

---
 toughio/_io/input/tough/_read.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 96ce196..44fbb20 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -517,9 +517,12 @@ def _read_gener(f, label_length):
     if not label_length:
         label_length = get_label_length(line[:9])
 
+    # ITAB can be any character
+    fmt1 = fmt[label_length].replace(",1d,", ",1s,")
+
     while True:
-        if line.strip():
-            data = read_record(line, fmt[label_length])
+        if line.strip() and not line.startswith("+++"):
+            data = read_record(line, fmt1)
             label = data[0]
             tmp = {
                 "name": [data[1]],
-- 
2.43.0


From 78489562ce6470c11a8aad2147084b2532d8e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 42/62] fix: OUTPU block with blank format

---
 toughio/_io/input/tough/_read.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 44fbb20..682f191 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -612,10 +612,11 @@ def _read_outpu(f, fh):
 
     # Format
     line = next(f).strip()
-    if line and not line.isdigit():
-        outpu["output"]["format"] = line if line else None
+    if not line.isdigit():
+        if line:
+            outpu["output"]["format"] = line
         i = fh.tell()
-        line = next(f).strip()
+        line = next(f, "").strip()
         if not line.isdigit():
             fh.seek(i)
 
-- 
2.43.0


From 5d015df3a22d12a29fe6cd52fb69dfc134e2e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 43/62] fix: Fortran real numbers with D or two-digit exponents

---
 toughio/_io/input/tough/_helpers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index fca829e..7a74444 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -1,11 +1,15 @@
 from __future__ import division
 
 import logging
+import re
 from copy import deepcopy
 from functools import wraps
 
 import numpy
 
+fortran_float = re.compile(r"([+-]?[0-9.]+)(?:[dD](?=[+-]?[0-9])|(?=[+-]))([+-]?[0-9]+)$")
+
+
 dtypes = {
     "PARAMETERS": {
         "title": "str_array_like",
@@ -289,9 +293,11 @@ def str2float(s):
     try:
         return float(s)
     except ValueError:
-        # It's probably something like "0.0001-001"
-        significand, exponent = s[:-4], s[-4:]
-        return float("{}e{}".format(significand, exponent))
+        # It's probably something like "0.0001-001" or "1.0D-05"
+        match = fortran_float.match(s)
+        if not match:
+            raise
+        return float("{}e{}".format(*match.groups()))
 
 
 def prune_nones_dict(data):
-- 
2.43.0


From 0817c6998acfa8e19d234610ba20bdfeaef9b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 44/62] fix: FLAC3D reader stopped at blank lines

---
 toughio/_mesh/flac3d/_flac3d.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 5a05626..956e242 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -162,8 +162,11 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
     else:
-        line = f.readline().rstrip().split()
-        while line:
+        for line in iter(f.readline, ""):
+            line = line.split()
+            if not line:
+                continue
+
             if line[0] == "G":
                 pid, point = _read_point(line, binary)
                 points.append(point)
@@ -189,8 +192,6 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
 
-            line = f.readline().rstrip().split()
-
     if field_data:
         num_cells = numpy.cumsum([len(c[1]) for c in cells])
         cell_data = numpy.zeros(num_cells[-1], dtype=int)
@@ -264,17 +265,17 @@ def _read_group(buf_or_line, binary, line=None):
         data = []
         slot = "" if "SLOT" not in line else line[-1]
 
-        i = buf_or_line.tell()
-        line = buf_or_line.readline()
         while True:
-            line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
-                data += [int(l) for l in line]
-            else:
-                buf_or_line.seek(i)
-                break
             i = buf_or_line.tell()
             line = buf_or_line.readline()
+            if not line:
+                break
+
+            line = line.split()
+            if line and not line[0].isdigit():
+                buf_or_line.seek(i)
+                break
+            data += [int(l) for l in line]
 
     return name, slot, data
 
-- 
2.43.0


From f92fed30afb672a7fb7ec9fd7bcb40886d9fc014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 45/62] fix: FLAC3D meshes with cells in no group

---
 toughio/_mesh/flac3d/_flac3d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 956e242..1880cc6 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -199,8 +199,10 @@ def read_buffer(f, binary):
             if not slots[k]:
                 continue
 
-            for cid, zid in v.values():
-                cell_data[cid] = zid
+            # Cells that do not belong to any group keep 0
+            for ids in v.values():
+                if len(ids) > 1:
+                    cell_data[ids[0]] = ids[-1]
         cell_data = {"flac3d:group": numpy.split(cell_data, num_cells[:-1])}
     else:
         cell_data = {}
-- 
2.43.0


From 1768d9981b3e99039fe1108aeed9eaaaabdbb908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 46/62] fix: Tecplot headers with comments, blank lines, and
 lists of variables on several lines

---
 toughio/_mesh/tecplot/_tecplot.py | 40 ++++++++++++++++---------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 5bd1576..a9214fb 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -1,4 +1,5 @@
 import logging
+import re
 
 import numpy
 
@@ -92,11 +93,21 @@ def read(filename):
 
 
 def read_buffer(f):
-    while True:
-        line = f.readline().strip()
+    for line in iter(f.readline, ""):
+        line = line.strip()
 
         if line.upper().startswith("VARIABLES"):
-            variables = _read_variables(line)
+            # Quoted variables can be defined on several lines
+            lines = [line]
+            i = f.tell()
+            line = f.readline().strip()
+            while line.startswith('"'):
+                lines += [line]
+                i = f.tell()
+                line = f.readline().strip()
+            f.seek(i)
+
+            variables = _read_variables(" ".join(lines))
 
         elif line.upper().startswith("ZONE"):
             # ZONE can be defined on several lines e.g.
@@ -138,8 +149,8 @@ def read_buffer(f):
 
             break  # Only support one zone, no need to read the rest
 
-        elif not line:
-            break
+    else:
+        raise ValueError("Record 'ZONE' not found")
 
     data = (
         numpy.split(numpy.concatenate(data), numpy.cumsum(num_data[:-1]))
@@ -168,20 +179,11 @@ def read_buffer(f):
 
 def _read_variables(line):
     # Gather variables in a list
-    line = line.split("=")[1]
-    line = [x for x in line.replace(",", " ").split()]
-    variables = []
-
-    i = 0
-    while i < len(line):
-        if '"' in line[i] and not (line[i].startswith('"') and line[i].endswith('"')):
-            var = "{}_{}".format(line[i], line[i + 1])
-            i += 1
-        else:
-            var = line[i]
-
-        variables.append(var.replace('"', ""))
-        i += 1
+    line = line.split("=", 1)[1]
+    variables = [
+        "_".join((x or y).replace(",", " ").split())
+        for x, y in re.findall(r'"([^"]*)"|([^",\s]+)', line)
+    ]
 
     # Check that at least X and Y are defined
     if "X" not in variables and "x" not in variables:
-- 
2.43.0


From 3428df817ee5efc63aaa72ce2b367d5b3b4ebc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 47/62] fix: Tecplot zone records in any letter case and order,
 with lists of variable locations

---
 toughio/_mesh/tecplot/_tecplot.py | 45 ++++++++++---------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index a9214fb..7e0db31 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -128,7 +128,7 @@ def read_buffer(f):
                 else:
                     f.seek(i)
                     break
-            line = " ".join(lines)
+            line = " ".join(lines).upper()
 
             zone = _read_zone(line)
             (
@@ -215,28 +215,14 @@ def _read_zone(line):
 
     # If zone contains VARLOCATION, process it and remove the key/value pair
     if ivar >= 0:
-        i1, i2 = line.find("("), line.find(")")
+        i1, i2 = line.find("(", ivar), line.find(")", ivar)
         zone["VARLOCATION"] = line[i1 : i2 + 1].replace(" ", "")
         line = line[:ivar] + line[i2 + 1 :]
 
     # Split remaining key/value pairs separated by '='
-    line = [x for x in line.replace(",", " ").split() if x != "="]
-    i = 0
-    while i < len(line) - 1:
-        if "=" in line[i]:
-            if not (line[i].startswith("=") or line[i].endswith("=")):
-                key, value = line[i].split("=")
-            else:
-                key = line[i].replace("=", "")
-                value = line[i + 1]
-                i += 1
-        else:
-            key = line[i]
-            value = line[i + 1].replace("=", "")
-            i += 1
-
-        zone[key] = zone_key_to_type[key](value)
-        i += 1
+    for key, value in re.findall(r"(\w+)\s*=\s*([^\s,=]+)", line):
+        if key in zone_key_to_type.keys():
+            zone[key] = zone_key_to_type[key](value)
 
     # Add zone title to zone dict
     if zone_title:
@@ -285,19 +271,16 @@ def _parse_fezone(zone, variables):
             node_value = zone.pop("NV")
             is_cell_centered[node_value:] = 1
         elif "VARLOCATION" in zone.keys():
-            varlocation = zone.pop("VARLOCATION")[1:-1].split(",")
-            for location in varlocation:
-                varrange, varloc = location.split("=")
-                varloc = varloc.strip()
+            varlocation = zone.pop("VARLOCATION")[1:-1]
+            if "[" not in varlocation:
+                # One location per variable
+                for i, varloc in enumerate(varlocation.split(",")):
+                    is_cell_centered[i] = varloc == "CELLCENTERED"
+            for varrange, varloc in re.findall(r"\[([^\]]*)\]=(\w+)", varlocation):
                 if varloc == "CELLCENTERED":
-                    varrange = varrange[1:-1].split("-")
-                    if len(varrange) == 1:
-                        i = int(varrange[0]) - 1
-                        is_cell_centered[i] = 1
-                    else:
-                        imin = int(varrange[0]) - 1
-                        imax = int(varrange[1]) - 1
-                        for i in range(imin, imax + 1):
+                    for x in varrange.split(","):
+                        imin, _, imax = x.partition("-")
+                        for i in range(int(imin) - 1, int(imax or imin)):
                             is_cell_centered[i] = 1
 
     return num_nodes, num_cells, zone_format, zone_type, is_cell_centered
-- 
2.43.0


From be1bf8d5fd2334ad023ceaea747807918e1ae157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 48/62] fix: blank lines in result files ended reading,
 unquoted CSV

---
 toughio/_io/output/_helpers.py           |  8 +++----
 toughio/_io/output/csv/_csv.py           | 29 +++++++++++-------------
 toughio/_io/output/petrasim/_petrasim.py |  6 ++---
 toughio/_io/output/tecplot/_tecplot.py   | 22 ++++++++++--------
 4 files changed, 31 insertions(+), 34 deletions(-)

diff --git a/toughio/_io/output/_helpers.py b/toughio/_io/output/_helpers.py
index 72f5e39..deccac2 100644
--- a/toughio/_io/output/_helpers.py
+++ b/toughio/_io/output/_helpers.py
@@ -176,10 +176,10 @@ def read_history(filename):
         headers = [x.strip() for x in line.split(sep)[1:]]
 
         data = []
-        line = f.readline().strip()
-        while line:
-            data += [[str2float(x.strip()) for x in line.split(sep)]]
-            line = f.readline().strip()
+        for line in iter(f.readline, ""):
+            line = line.strip()
+            if line:
+                data += [[str2float(x.strip()) for x in line.split(sep)]]
         data = numpy.transpose(data)
 
         out = {"TIME": data[0]}
diff --git a/toughio/_io/output/csv/_csv.py b/toughio/_io/output/csv/_csv.py
index a776b22..d005d6e 100644
--- a/toughio/_io/output/csv/_csv.py
+++ b/toughio/_io/output/csv/_csv.py
@@ -65,20 +65,11 @@ def _read_csv(f, file_type):
     # Skip second line (unit)
     line = f.readline()
 
-    # Check third line (does it start with TIME?)
-    line = f.readline()
-    single = not line.startswith('"TIME')
-
     # Read data
-    if single:
-        times, variables = [None], [[]]
-    else:
-        times, variables = [], []
-
-    line = line.replace('"', "").strip()
+    times, variables = [], []
     ilab = 1 if file_type == "element" else 2
-    while line:
-        line = line.split(",")
+    for line in iter(f.readline, ""):
+        line = [l.strip() for l in line.replace('"', "").split(",")]
 
         # Time step
         if line[0].startswith("TIME"):
@@ -87,12 +78,18 @@ def _read_csv(f, file_type):
             variables.append([])
 
         # Output
-        else:
-            tmp = [l.strip() for l in line[:ilab]]
-            tmp += [str2float(l.strip()) for l in line[ilab:]]
+        elif any(line):
+            # Single time step (first line does not start with TIME)
+            if not times:
+                times.append(None)
+                variables.append([])
+
+            tmp = line[:ilab]
+            tmp += [str2float(l) for l in line[ilab:]]
             variables[-1].append(tmp)
 
-        line = f.readline().strip().replace('"', "")
+    if not times:
+        times, variables = [None], [[]]
 
     return headers, times, variables
 
diff --git a/toughio/_io/output/petrasim/_petrasim.py b/toughio/_io/output/petrasim/_petrasim.py
index 8d92615..19e03a7 100644
--- a/toughio/_io/output/petrasim/_petrasim.py
+++ b/toughio/_io/output/petrasim/_petrasim.py
@@ -20,16 +20,14 @@ def read(filename, file_type, file_format, labels_order):
 
         # Data
         times, elements, data = [], [], []
-        while True:
-            line = f.readline().strip()
+        for line in iter(f.readline, ""):
+            line = line.strip()
 
             if line:
                 line = line.split(",")
                 times.append(float(line[0]))
                 elements.append(line[1].strip())
                 data.append([str2float(x.strip()) for x in line[3:]])
-            else:
-                break
 
     times = numpy.array(times)
     elements = numpy.array(elements)
diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index 876f4e9..fd6998c 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -29,14 +29,20 @@ def read(filename, file_type, file_format, labels_order):
 
         # Loop until end of file
         times, labels, variables = [], [], []
-        line = f.readline().upper().strip()
         while True:
+            # Look for zone
+            line = f.readline()
+            if not line:
+                break
+            line = line.upper().strip()
+            if not line.startswith("ZONE"):
+                continue
+
             # Read zone
-            if line.startswith("ZONE"):
-                zone = _read_zone(line)
-                zone["T"] = float(zone["T"].split()[0]) if "T" in zone.keys() else None
-                if "I" not in zone.keys():
-                    raise ValueError()
+            zone = _read_zone(line)
+            zone["T"] = float(zone["T"].split()[0]) if "T" in zone.keys() else None
+            if "I" not in zone.keys():
+                raise ValueError()
 
             # Read data
             data = []
@@ -52,10 +58,6 @@ def read(filename, file_type, file_format, labels_order):
             labels.append(None)
             variables.append(data)
 
-            line = f.readline().upper().strip()
-            if not line:
-                break
-
     return to_output(
         file_type, file_format, labels_order, headers, times, labels, variables
     )
-- 
2.43.0


From 753218da4cd8acfccd3b9eabe3b0fe4ba7e7fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:58 +0000
Subject: [PATCH 49/62] fix: editing a mesh changed meshes and dictionaries it
 was made from

---
 toughio/_mesh/_mesh.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c009903..f326419 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -64,11 +64,11 @@ class Mesh(object):
         """
         self.points = points
         self.cells = cells
-        self.point_data = point_data if point_data else {}
-        self.cell_data = cell_data if cell_data else {}
-        self.field_data = field_data if field_data else {}
-        self.point_sets = point_sets if point_sets else {}
-        self.cell_sets = cell_sets if cell_sets else {}
+        self.point_data = dict(point_data) if point_data else {}
+        self.cell_data = dict(cell_data) if cell_data else {}
+        self.field_data = dict(field_data) if field_data else {}
+        self.point_sets = dict(point_sets) if point_sets else {}
+        self.cell_sets = dict(cell_sets) if cell_sets else {}
         self.label_length = None
 
     def __repr__(self):
@@ -254,8 +254,11 @@ class Mesh(object):
             Output mesh.
 
         """
-        keys = ["points", "point_data", "field_data"]
-        kwargs = {key: getattr(self, key) for key in keys}
+        kwargs = {
+            "points": self.points,
+            "point_data": dict(self.point_data),
+            "field_data": dict(self.field_data),
+        }
 
         version = get_meshio_version()
         cell_data = {k: self.split(v) for k, v in self.cell_data.items()}
@@ -264,8 +267,8 @@ class Mesh(object):
                 {
                     "cells": self.cells,
                     "cell_data": cell_data,
-                    "point_sets": self.point_sets,
-                    "cell_sets": self.cell_sets,
+                    "point_sets": dict(self.point_sets),
+                    "cell_sets": dict(self.cell_sets),
                 }
             )
         else:
@@ -274,7 +277,7 @@ class Mesh(object):
                 {
                     "cells": cells,
                     "cell_data": cell_data,
-                    "node_sets": self.point_sets,
+                    "node_sets": dict(self.point_sets),
                 }
             )
 
-- 
2.43.0


From c70e3c475291fd9a138a475db7b7672c5c875b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:58 +0000
Subject: [PATCH 50/62] fix: from_meshio renamed the material data of the
 meshio mesh

---
 toughio/_mesh/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index f326419..c28d522 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -873,6 +873,7 @@ def from_meshio(mesh, material="dfalt"):
 
         key = get_material_key(cell_data)
         if key:
+            cell_data = dict(cell_data)
             cell_data["material"] = cell_data.pop(key)
         cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
     else:
-- 
2.43.0


From 5cea8ccd17fca87d53ae4eeacb20331c07e45507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:58 +0000
Subject: [PATCH 51/62] fix: set_material took a list of booleans for indices
 of cells

---
 toughio/_mesh/_mesh.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c28d522..9ed774e 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -564,8 +564,11 @@ class Mesh(object):
 
         """
         ints = (int, numpy.int8, numpy.int16, numpy.int32, numpy.int64)
-        cond_int = all(isinstance(c, ints) for c in cells)
-        cond_bool = all(isinstance(c, (bool, numpy.bool_)) for c in cells)
+        bools = (bool, numpy.bool_)
+        cond_int = all(
+            isinstance(c, ints) and not isinstance(c, bools) for c in cells
+        )
+        cond_bool = all(isinstance(c, bools) for c in cells)
 
         if cond_int:
             if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
@@ -573,7 +576,7 @@ class Mesh(object):
         elif cond_bool:
             if len(cells) != self.n_cells:
                 raise ValueError()
-            cells = numpy.arange(self.n_cells)[cells]
+            cells = numpy.flatnonzero(cells)
         else:
             raise TypeError()
 
-- 
2.43.0


From aec9a2041cd3e5badf09e987426132c2b8df7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:58 +0000
Subject: [PATCH 52/62] fix: set_material gave a new material the number of
 another one, and changed shared arrays

---
 toughio/_mesh/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 9ed774e..99d2736 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -581,11 +581,11 @@ class Mesh(object):
             raise TypeError()
 
         if len(cells):
-            data = self.cell_data["material"]
+            data = numpy.array(self.cell_data["material"])
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
-                else data.max() + 1
+                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
             )
             data[cells] = imat
             self.add_cell_data("material", data)
-- 
2.43.0


From 7c3a141670825fac402ac79700df0f9c86d6c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:59 +0000
Subject: [PATCH 53/62] fix: extrude_to_3d kept data of cells it drops, and
 mixed up tensor data

---
 toughio/_mesh/_mesh.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 99d2736..a23598c 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -133,18 +133,15 @@ class Mesh(object):
             extra_points[:, axis] += h
             mesh.points = numpy.vstack((mesh.points, extra_points))
         for k, v in mesh.point_data.items():
-            mesh.point_data[k] = (
-                numpy.tile(v, nh + 1)
-                if numpy.ndim(v) == 1
-                else numpy.tile(v, (nh + 1, 1))
-            )
+            mesh.point_data[k] = numpy.concatenate([v] * (nh + 1))
 
         extruded_types = {
             "triangle": "wedge",
             "quad": "hexahedron",
         }
         cells = []
-        cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
+        split_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
+        cell_data = {k: [] for k in split_data}
         for ic, c in enumerate(mesh.cells):
             if c.type in extruded_types.keys():
                 extruded_type = extruded_types[c.type]
@@ -156,19 +153,18 @@ class Mesh(object):
                     cell.data[ibeg:iend, nc:] += (i + 1) * npts
                 cells.append(cell)
 
-                for k, v in cell_data.items():
-                    v[ic] = (
-                        numpy.tile(v[ic], nh)
-                        if numpy.ndim(v[ic]) == 1
-                        else numpy.tile(v[ic], (nh, 1))
-                    )
+                for k, v in split_data.items():
+                    cell_data[k] += [v[ic]] * nh
 
+        for k, v in mesh.cell_sets.items():
+            mesh.cell_sets[k] = [
+                x for x, c in zip(v, mesh.cells) if c.type in extruded_types.keys()
+            ]
         mesh.cells = cells
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
 
-        if mesh.field_data:
-            for k in mesh.field_data.keys():
-                mesh.field_data[k][1] = 3
+        for k, v in mesh.field_data.items():
+            mesh.field_data[k] = numpy.array([v[0], 3])
 
         if not inplace:
             return mesh
-- 
2.43.0


From 4aa8d31cb53c62e0cae1c84a5e3c22664aa1d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:59 +0000
Subject: [PATCH 54/62] fix: prune_duplicates shuffled cells, left sets behind
 and twins in other blocks

---
 toughio/_mesh/_mesh.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index a23598c..510136c 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -189,7 +189,7 @@ class Mesh(object):
 
         """
         mesh = self if inplace else deepcopy(self)
-        cells = [[c.type, c.data] for c in mesh.cells]
+        cells = [[c.type, numpy.asarray(c.data)] for c in mesh.cells]
 
         # Prune duplicate points
         unique_points, pind, pinv = numpy.unique(
@@ -202,19 +202,36 @@ class Mesh(object):
             mesh.points = unique_points
             for k, v in mesh.point_data.items():
                 mesh.point_data[k] = v[pind]
+            for k, v in mesh.point_sets.items():
+                mesh.point_sets[k] = numpy.unique(pinv[numpy.asarray(v, dtype=int)])
             for ic, (k, v) in enumerate(cells):
                 cells[ic][1] = pinv[v]
 
-        # Prune duplicate cells
-        cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
+        # Prune duplicate cells (the first one is kept)
+        kept, new_index = {}, []
+        order = [[] for _ in cells]
         for ic, (k, v) in enumerate(cells):
-            vsort = numpy.sort(v, axis=1)
-            _, order = numpy.unique(vsort, axis=0, return_index=True)
-            cells[ic][1] = v[order]
-            for kk, vv in cell_data.items():
-                cell_data[kk][ic] = vv[ic][order]
+            for i, cell in enumerate(numpy.sort(v, axis=1).tolist()):
+                key = (k, tuple(cell))
+                if key not in kept:
+                    kept[key] = (ic, len(order[ic]))
+                    order[ic].append(i)
+                new_index.append(kept[key])
+
+        if len(kept) < len(new_index):
+            blocks = [ic for ic, idx in enumerate(order) if idx]
+            for k, v in mesh.cell_sets.items():
+                offset = numpy.cumsum([0] + [len(c) for _, c in cells])
+                idx = {new_index[n + i] for n, arr in zip(offset, v) for i in arr}
+                mesh.cell_sets[k] = [
+                    numpy.array(sorted(i for ib, i in idx if ib == ic), dtype=int)
+                    for ic in blocks
+                ]
+            for k, v in mesh.cell_data.items():
+                v = mesh.split(v)
+                mesh.cell_data[k] = numpy.concatenate([v[ic][order[ic]] for ic in blocks])
+            cells = [[cells[ic][0], cells[ic][1][order[ic]]] for ic in blocks]
         mesh.cells = cells
-        mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
 
         if not inplace:
             return mesh
-- 
2.43.0


From 217e7ad90153505ed48363df1fe6953d8d9617e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:59 +0000
Subject: [PATCH 55/62] fix: interpolation of vector data between points and
 cells

---
 toughio/_mesh/_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index 349ca89..ab39272 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -226,10 +226,13 @@ def interpolate_data(data, entities, weights=None):
     """Interpolate input data."""
     return {
         k: (
-            numpy.array([numpy.mean(v[e]) for e in entities])
+            numpy.array([numpy.mean(v[e], axis=0) for e in entities])
             if not weights
             else numpy.array(
-                [numpy.average(v[e], weights=w) for e, w in zip(entities, weights)]
+                [
+                    numpy.average(v[e], axis=0, weights=w)
+                    for e, w in zip(entities, weights)
+                ]
             )
         )
         for k, v in data.items()
-- 
2.43.0


From 840c872d5e31d9762d85b4aad68412bafbfb80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:59 +0000
Subject: [PATCH 56/62] fix: box filter with a length of zero

---
 toughio/_mesh/_filter/box/_box.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_filter/box/_box.py b/toughio/_mesh/_filter/box/_box.py
index 32b7441..d0e0065 100644
--- a/toughio/_mesh/_filter/box/_box.py
+++ b/toughio/_mesh/_filter/box/_box.py
@@ -13,9 +13,9 @@ def filter_(mesh, x0=None, y0=None, z0=None, dx=None, dy=None, dz=None):
     ymin = y0 if y0 is not None else -numpy.inf
     zmin = z0 if z0 is not None else -numpy.inf
 
-    xmax = xmin + dx if dx else numpy.inf
-    ymax = ymin + dy if dy else numpy.inf
-    zmax = zmin + dz if dz else numpy.inf
+    xmax = xmin + dx if dx is not None else numpy.inf
+    ymax = ymin + dy if dy is not None else numpy.inf
+    zmax = zmin + dz if dz is not None else numpy.inf
 
     x, y, z = mesh.centers.T
     mask_x = numpy.logical_and(x >= xmin, x <= xmax)
-- 
2.43.0


From f707c6f826e99dda5ae1a4c27f8d9fc4e855f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 57/62] fix: ID of Fatt and Klikoff's function in TOUGH

---
 toughio/relative_permeability/_fatt_klikoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/relative_permeability/_fatt_klikoff.py b/toughio/relative_permeability/_fatt_klikoff.py
index 0737d40..b3f9498 100644
--- a/toughio/relative_permeability/_fatt_klikoff.py
+++ b/toughio/relative_permeability/_fatt_klikoff.py
@@ -7,7 +7,7 @@ __all__ = [
 
 class FattKlikoff(BaseRelativePermeability):
 
-    _id = 7
+    _id = 6
     _name = "Fatt-Klikoff"
 
     def __init__(self, slr):
-- 
2.43.0


From 44d2a8d56886df34aa0cc3fa4f917eff9c2acbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:55 +0000
Subject: [PATCH 58/62] fix: van Genuchten capillary pressure above the maximum
 liquid saturation

---
 toughio/capillarity/_van_genuchten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/capillarity/_van_genuchten.py b/toughio/capillarity/_van_genuchten.py
index 7e6b16e..926f654 100644
--- a/toughio/capillarity/_van_genuchten.py
+++ b/toughio/capillarity/_van_genuchten.py
@@ -37,7 +37,7 @@ class vanGenuchten(BaseCapillarity):
     def _eval(self, sl, *args):
         """Van Genuchten function."""
         m, slr, alpha, pmax, sls = args
-        if sl == 1.0:
+        if sl >= sls:
             pcap = 0.0
         else:
             if sl > slr:
-- 
2.43.0


From 4489776ea37b711e91a497e9fc0b7fc4a36d18bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:15 +0000
Subject: [PATCH 59/62] fix: FLAC3D groups of zones and faces with the same
 name

---
 toughio/_mesh/flac3d/_flac3d.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 1880cc6..a0ab9ff 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -295,9 +295,13 @@ def _update_cells(cells, cell, flag):
 
 def _update_field_data(field_data, mapper, data, name, gidx, flag):
     """Update field data dict."""
+    # Groups of zones and faces can have the same name
+    if name in field_data.keys():
+        gidx = int(field_data[name][0])
+    if name not in field_data.keys() or flag == "zone":
+        field_data[name] = numpy.array([gidx, flag_to_numdim[flag]])
     for cid in data:
         mapper[cid].append(gidx)
-    field_data[name] = numpy.array([gidx, flag_to_numdim[flag]])
 
     return field_data, mapper
 
@@ -532,9 +536,8 @@ def _translate_groups(cells, cell_data, field_data, flag):
     labels = {k: str(k) for k in groups.keys()}
     labels[0] = "None"
     if field_data:
-        labels.update(
-            {v[0]: k for k, v in field_data.items() if v[1] == flag_to_numdim[flag]}
-        )
+        for num_dim in [flag_to_numdim["zone"], flag_to_numdim[flag]]:
+            labels.update({v[0]: k for k, v in field_data.items() if v[1] == num_dim})
 
     return groups, labels
 
-- 
2.43.0


From c80afdef07bb29369b794f165469bed399eb2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:21 +0000
Subject: [PATCH 60/62] fix: write element, connection and generator histories
 of more than five characters

The labels of FOFT, COFT and GOFT were cut to five (ten) characters, so that
histories of meshes with longer labels named cells that do not exist.
---
 toughio/_common.py                | 6 +++---
 toughio/_io/input/tough/_write.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index a58d8e6..57ecd15 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -24,9 +24,9 @@ block_to_format = {
     "INDOM": {0: ",".join(4 * ["20.13e"]), 5: "5s"},
     "MOMOP": "40S",
     "TIMES": {1: "5d,5d,10.4e,10.4e", 2: ",".join(8 * ["10.4e"])},
-    "FOFT": {5: "5s"},
-    "COFT": {5: "10s"},
-    "GOFT": {5: "5s"},
+    "FOFT": "80s",
+    "COFT": "80s",
+    "GOFT": "80s",
     "GENER": {
         0: ",".join(4 * ["14.7e"]),
         5: "5s,5s,5d,5d,5d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 6bfd629..55c1706 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -611,7 +611,7 @@ def _write_foft(parameters):
     """Write FOFT block data."""
     # Formats
     fmt = block_to_format["FOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt)
 
     values = [x for x in parameters["element_history"]]
     out = write_record(values, fmt, multi=True)
@@ -624,7 +624,7 @@ def _write_coft(parameters):
     """Write COFT block data."""
     # Format
     fmt = block_to_format["COFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt)
 
     values = [x for x in parameters["connection_history"]]
     out = write_record(values, fmt, multi=True)
@@ -637,7 +637,7 @@ def _write_goft(parameters):
     """Write GOFT block data."""
     # Format
     fmt = block_to_format["GOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt)
 
     values = [x for x in parameters["generator_history"]]
     out = write_record(values, fmt, multi=True)
-- 
2.43.0


From 3fea2a28b3ba25fe2f2be4745d10e596ffb54724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:21 +0000
Subject: [PATCH 61/62] fix: write INDOM when only primary variables after the
 fourth are set

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 55c1706..dd6890a 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -90,7 +90,7 @@ def write_buffer(parameters, block):
     indom = False
     for rock in parameters["rocks"].values():
         if "initial_condition" in rock.keys():
-            if any(x is not None for x in rock["initial_condition"][:4]):
+            if any(x is not None for x in rock["initial_condition"]):
                 indom = True
                 break
 
-- 
2.43.0


From 0ea2aeed8c157bc57160baa0c0c229f977d7b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:03 +0000
Subject: [PATCH 62/62] fix: read INDOM and INCON records whose last primary
 variables are all unset

A blank third record was taken as the end of the block, so that the rocks or
elements after it were lost.
---
 toughio/_io/input/tough/_read.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 682f191..5550ad9 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -445,7 +445,7 @@ def _read_indom(f, fh):
                     except ValueError:
                         two_lines = False
                         fh.seek(i)
-                else:
+                elif not _is_next_record(fh, "5s,75e", fmt[0]):
                     fh.seek(i)
 
             data = prune_nones_list(data)
@@ -458,6 +458,24 @@ def _read_indom(f, fh):
     return indom
 
 
+def _is_next_record(fh, fmt1, fmt2):
+    """Check if the lines after a blank record 3 belong to the same block."""
+    i = fh.tell()
+    line1, line2 = fh.readline(), fh.readline()
+    fh.seek(i)
+
+    if not line1.strip() or line1.startswith(("ROCKS", "+++") + blocks):
+        return False
+
+    try:
+        read_record(line1, fmt1)
+        read_record(line2, fmt2)
+    except ValueError:
+        return False
+
+    return True
+
+
 def _read_momop(f):
     """Read MOMOP block data."""
     fmt = block_to_format["MOMOP"]
@@ -779,7 +797,7 @@ def _read_incon(f, label_length, fh):
                     except ValueError:
                         two_lines = False
                         fh.seek(i)
-                else:
+                elif line.strip() or not _is_next_record(fh, fmt[label_length], fmt[0]):
                     fh.seek(i)
 
             incon["initial_conditions"][label]["values"] = prune_nones_list(data)
-- 
2.43.0


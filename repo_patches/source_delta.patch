From 79197c5480e92496a56a2384e38d9626dbd2390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:41 +0000
Subject: [PATCH 01/51] fix: Fatt-Klikoff relative permeability is IRP = 6 in
 TOUGH

---
 toughio/relative_permeability/_fatt_klikoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/relative_permeability/_fatt_klikoff.py b/toughio/relative_permeability/_fatt_klikoff.py
index 0737d40..b3f9498 100644
--- a/toughio/relative_permeability/_fatt_klikoff.py
+++ b/toughio/relative_permeability/_fatt_klikoff.py
@@ -7,7 +7,7 @@ __all__ = [
 
 class FattKlikoff(BaseRelativePermeability):
 
-    _id = 7
+    _id = 6
     _name = "Fatt-Klikoff"
 
     def __init__(self, slr):
-- 
2.43.0


From c9ac1b8d9a09e51dee099ed2a5cd93bd7a00a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:09 +0000
Subject: [PATCH 02/51] fix: van Genuchten capillary pressure is zero at and
 above the maximum liquid saturation

---
 toughio/capillarity/_van_genuchten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/capillarity/_van_genuchten.py b/toughio/capillarity/_van_genuchten.py
index 7e6b16e..1564504 100644
--- a/toughio/capillarity/_van_genuchten.py
+++ b/toughio/capillarity/_van_genuchten.py
@@ -37,7 +37,7 @@ class vanGenuchten(BaseCapillarity):
     def _eval(self, sl, *args):
         """Van Genuchten function."""
         m, slr, alpha, pmax, sls = args
-        if sl == 1.0:
+        if sl == 1.0 or sl >= sls:
             pcap = 0.0
         else:
             if sl > slr:
-- 
2.43.0


From e308f58fca9fa33d34969d51fc650551d9767034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:32 +0000
Subject: [PATCH 03/51] fix: numbers too long for their column drop digits
 instead of shifting the record

---
 toughio/_common.py                  | 12 ++++++++++
 toughio/_io/input/tough/_helpers.py |  4 +++-
 toughio/_mesh/tough/_helpers.py     | 37 +++++++++++++++--------------
 3 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index a58d8e6..195b67d 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -89,6 +89,18 @@ def str2format(fmt, ignore_types=None):
     return out
 
 
+def format_value(x, fmt):
+    """Format a value, dropping the digits of a number that overflow its column."""
+    out = fmt.format(x)
+    if fmt[-2] == "e":
+        width, precision = [int(n) for n in fmt[3:-2].split(".")]
+        while len(out) > width and precision > 0:
+            precision -= 1
+            out = "{{:>{}.{}e}}".format(width, precision).format(x)
+
+    return out
+
+
 def get_label_length(label):
     """Get length of cell label."""
     label_length = 5
diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index fca829e..c9298e2 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -6,6 +6,8 @@ from functools import wraps
 
 import numpy
 
+from ...._common import format_value
+
 dtypes = {
     "PARAMETERS": {
         "title": "str_array_like",
@@ -260,7 +262,7 @@ def write_record(data, fmt, multi=False):
     def to_str(x, fmt):
         x = "" if x is None else x
         return (
-            fmt.format(x)
+            format_value(x, fmt)
             if not isinstance(x, str)
             else fmt.replace("g", "").replace("e", "").format(x)
         )
diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 8092ce1..14f258d 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -1,4 +1,4 @@
-from ..._common import block_to_format, str2format
+from ..._common import block_to_format, format_value, str2format
 
 
 def block(keyword):
@@ -20,11 +20,16 @@ def block(keyword):
     return decorator
 
 
+def _to_record(values, fmt):
+    """Return a record where every value is written in its own columns."""
+    return "{}\n".format("".join(format_value(x, f) for x, f in zip(values, fmt)))
+
+
 def _write_eleme(labels, materials, volumes, nodes, material_name=None):
     """Return a generator that iterates over the records of block ELEME."""
     label_length = len(labels[0])
     fmt = block_to_format["ELEME"][label_length]
-    fmt = "{}\n".format("".join(str2format(fmt, ignore_types=[1, 2, 5, 6])))
+    fmt = str2format(fmt, ignore_types=[1, 2, 5, 6])
 
     iterables = zip(labels, materials, volumes, nodes)
     for label, material, volume, node in iterables:
@@ -34,7 +39,7 @@ def _write_eleme(labels, materials, volumes, nodes, material_name=None):
             else material
         )
         mat = mat if isinstance(mat, str) else "{:>5}".format(str(mat))
-        record = fmt.format(
+        values = [
             label,  # ID
             "",  # NSEQ
             "",  # NADD
@@ -45,28 +50,27 @@ def _write_eleme(labels, materials, volumes, nodes, material_name=None):
             node[0],  # X
             node[1],  # Y
             node[2],  # Z
-        )
-        yield record
+        ]
+        yield _to_record(values, fmt)
 
 
 def _write_coord(nodes):
     """Return a generator that iterates over the records of block COORD."""
-    fmt = "{:20.13e}{:20.13e}{:20.13e}\n"
+    fmt = str2format(block_to_format["COORD"])
 
     for node in nodes:
-        record = fmt.format(*node)
-        yield record
+        yield _to_record(node, fmt)
 
 
 def _write_conne(clabels, isot, d1, d2, areas, angles):
     """Return a generator that iterates over the records of block CONNE."""
     label_length = len(clabels[0][0])
     fmt = block_to_format["CONNE"][label_length]
-    fmt = "{}\n".format("".join(str2format(fmt, ignore_types=[1, 2, 3, 9])))
+    fmt = str2format(fmt, ignore_types=[1, 2, 3, 9])
 
     iterables = zip(clabels, isot, d1, d2, areas, angles)
     for label, isot, d1, d2, area, angle in iterables:
-        record = fmt.format(
+        values = [
             "".join(label),  # ID1-ID2
             "",  # NSEQ
             "",  # NAD1
@@ -77,8 +81,8 @@ def _write_conne(clabels, isot, d1, d2, areas, angles):
             area,  # AREAX
             angle,  # BETAX
             "",  # SIGX
-        )
-        yield record
+        ]
+        yield _to_record(values, fmt)
 
 
 def _write_incon(labels, values, porosity=None, userx=None):
@@ -111,8 +115,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                 ignore_types += [4, 5, 6]
 
             fmt1 = str2format(fmt[label_length], ignore_types=ignore_types)
-            fmt1 = "{}\n".format("".join(fmt1[: len(values)]))
-            record = fmt1.format(*values)
+            record = _to_record(values, fmt1)
 
             # Record 2
             n = min(4, len(value))
@@ -126,8 +129,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                     ignore_types.append(i)
 
             fmt2 = str2format(fmt[0], ignore_types=ignore_types)
-            fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
-            record += fmt2.format(*values)
+            record += _to_record(values, fmt2)
 
             # Record 3 (EOS7R)
             if len(value) > 4:
@@ -141,8 +143,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
                         ignore_types.append(i)
 
                 fmt2 = str2format(fmt[0], ignore_types=ignore_types)
-                fmt2 = "{}\n".format("".join(fmt2[: len(values)]))
-                record += fmt2.format(*values)
+                record += _to_record(values, fmt2)
 
             yield record
         else:
-- 
2.43.0


From 0306a10d30c04fe75ca71276e37ad9307b0d29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 04/51] fix: default linear solver parameters use the key
 "method" that is written

---
 toughio/_io/input/tough/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_common.py b/toughio/_io/input/tough/_common.py
index 32e4ab1..14cb8d1 100644
--- a/toughio/_io/input/tough/_common.py
+++ b/toughio/_io/input/tough/_common.py
@@ -72,7 +72,7 @@ extra_options = {k + 1: None for k in range(24)}
 more_options = {k + 1: None for k in range(40)}
 
 solver = {
-    "id": 3,
+    "method": 3,
     "z_precond": "Z0",
     "o_precond": "O0",
     "rel_iter_max": 0.1,
-- 
2.43.0


From c954673816ed9d26730e9912a0e0c966d6caab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 05/51] fix: rocks_order may be any array_like and is never
 modified

---
 toughio/_io/input/tough/_write.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 1caba5a..15d1ae9 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -162,7 +162,7 @@ def _write_rocks(parameters):
     """Write ROCKS block data."""
     # Reorder rocks
     if parameters["rocks_order"] is not None:
-        order = parameters["rocks_order"]
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -290,8 +290,8 @@ def _write_flac(parameters):
     data.update(parameters["flac"])
 
     # Reorder rocks
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
@@ -532,8 +532,8 @@ def _write_selec(parameters):
 @block("INDOM", multi=True)
 def _write_indom(parameters):
     """Write INDOM block data."""
-    if parameters["rocks_order"]:
-        order = parameters["rocks_order"]
+    if parameters["rocks_order"] is not None:
+        order = list(parameters["rocks_order"])
         for rock in parameters["rocks"].keys():
             if rock not in order:
                 order.append(rock)
-- 
2.43.0


From b369509460d215fb076be1a6210d63b0489e6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 06/51] fix: unknown switches of MOP, MOMOP and SELEC do not
 shift the others

---
 toughio/_io/input/tough/_write.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 15d1ae9..a345abf 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -422,7 +422,9 @@ def _write_param(parameters):
     # Record 1
     _mop = deepcopy(extra_options)
     _mop.update(parameters["extra_options"])
-    mop = [" " if _mop[k] is None else str(_mop[k]) for k in sorted(_mop.keys())]
+    mop = [
+        " " if _mop[k] is None else str(_mop[k]) for k in sorted(extra_options.keys())
+    ]
 
     values = [
         data["n_iteration"],
@@ -516,7 +518,7 @@ def _write_selec(parameters):
     fmt2 = str2format(fmt[2])
 
     # Record 1
-    values = [data["integers"][k] for k in sorted(data["integers"].keys())]
+    values = [data["integers"][k] for k in sorted(selections["integers"].keys())]
     out = write_record(values, fmt1)
 
     # Record 2
@@ -580,7 +582,10 @@ def _write_momop(parameters):
     _momop = deepcopy(more_options)
     _momop.update(parameters["more_options"])
 
-    tmp = [" " if _momop[k] is None else str(_momop[k]) for k in sorted(_momop.keys())]
+    tmp = [
+        " " if _momop[k] is None else str(_momop[k])
+        for k in sorted(more_options.keys())
+    ]
     out = write_record(["".join(tmp)], fmt)
 
     return out
-- 
2.43.0


From f879294e6279253daddd9c31a502e9915ccaacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 07/51] fix: block SELEC may come without integers or without
 floats

---
 toughio/_io/input/tough/_read.py  | 2 +-
 toughio/_io/input/tough/_write.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index b813cfe..718d306 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -363,7 +363,7 @@ def _read_selec(f):
             selec["selections"]["floats"].append(prune_nones_list(data))
 
     selec["selections"]["integers"] = prune_nones_dict(selec["selections"]["integers"])
-    if selec["selections"]["integers"][1] == 1:
+    if selec["selections"]["integers"].get(1) == 1:
         selec["selections"]["floats"] = selec["selections"]["floats"][0]
 
     return selec
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index a345abf..0f6cbeb 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -488,9 +488,9 @@ def _write_selec(parameters):
     from ._common import selections
 
     data = deepcopy(selections)
-    if parameters["selections"]["integers"]:
+    if parameters["selections"].get("integers"):
         data["integers"].update(parameters["selections"]["integers"])
-    if len(parameters["selections"]["floats"]):
+    if parameters["selections"].get("floats") is not None:
         data["floats"] = parameters["selections"]["floats"]
 
     # Check floats and overwrite IE(1)
-- 
2.43.0


From ea1867b190cc1a200bac7500a1fdc33f4c6d801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 08/51] fix: elements and connections with unset values can be
 written and read

---
 toughio/_io/input/tough/_read.py  |  4 ++--
 toughio/_io/input/tough/_write.py | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 718d306..9d2af91 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -608,11 +608,11 @@ def _read_eleme(f, label_length):
         if line.strip():
             data = read_record(line, fmt[label_length])
             label = data[0]
-            rock = data[3].strip()
+            rock = data[3]
             eleme["elements"][label] = {
                 "nseq": data[1],
                 "nadd": data[2],
-                "material": int(rock) if all(r.isdigit() for r in rock) else rock,
+                "material": int(rock) if rock and rock.isdigit() else rock,
                 "volume": data[4],
                 "heat_exchange_area": data[5],
                 "permeability_modifier": data[6],
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 0f6cbeb..c36735e 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -851,9 +851,10 @@ def _write_eleme(parameters):
 
         material = (
             "{:>5}".format(data["material"])
-            if isinstance(data["material"], int)
+            if isinstance(data["material"], (int, numpy.integer))
             else data["material"]
         )
+        center = data["center"] if data["center"] is not None else [None] * 3
         values = [
             k,
             data["nseq"],
@@ -862,9 +863,9 @@ def _write_eleme(parameters):
             data["volume"],
             data["heat_exchange_area"],
             data["permeability_modifier"],
-            data["center"][0],
-            data["center"][1],
-            data["center"][2],
+            center[0],
+            center[1],
+            center[2],
         ]
         out += write_record(values, fmt)
 
@@ -914,14 +915,16 @@ def _write_conne(parameters):
         data = deepcopy(connections)
         data.update(parameters["connections"][k])
 
+        distances = data["nodal_distances"]
+        distances = distances if distances is not None else [None] * 2
         values = [
             k,
             data["nseq"],
             data["nadd"][0] if data["nadd"] is not None else None,
             data["nadd"][1] if data["nadd"] is not None else None,
             data["permeability_direction"],
-            data["nodal_distances"][0],
-            data["nodal_distances"][1],
+            distances[0],
+            distances[1],
             data["interface_area"],
             data["gravity_cosine_angle"],
             data["radiant_emittance_factor"],
-- 
2.43.0


From 815431d930a3bbbc9f904ef4e8c53e15ab190d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 09/51] fix: enthalpy of tabulated generators is flagged when
 written and optional when read

---
 toughio/_io/input/tough/_read.py  | 1 +
 toughio/_io/input/tough/_write.py | 6 +-----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 9d2af91..2e4feb7 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -484,6 +484,7 @@ def _read_gener(f, label_length):
             ltab = data[5]
             if ltab and ltab > 1:
                 itab = data[8]
+                tmp["specific_enthalpy"] = [None]
                 keys = ["times", "rates"]
                 keys += ["specific_enthalpy"] if itab else []
                 for key in keys:
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index c36735e..8d4ba17 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -723,11 +723,7 @@ def _write_gener(parameters):
                 if v[key] is not None and numpy.ndim(v[key]) != 0:
                     raise ValueError()
 
-        itab = (
-            1
-            if isinstance(v["specific_enthalpy"], (list, tuple, numpy.ndarray))
-            else None
-        )
+        itab = 1 if ltab and v["specific_enthalpy"] is not None else None
 
         # Record 1
         values = [
-- 
2.43.0


From cde574c77f78a46b54d7f5a99a90f35b34c3fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 10/51] fix: unset time steps stay unset when reading block
 PARAM

---
 toughio/_io/input/tough/_read.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 2e4feb7..11fad1b 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -306,7 +306,9 @@ def _read_param(f, fh):
             line = next(f)
             data = read_record(line, fmt[3])
             param["options"]["t_steps"] += prune_nones_list(data)
-        if len(param["options"]["t_steps"]) == 1:
+        if not param["options"]["t_steps"]:
+            param["options"]["t_steps"] = None
+        elif len(param["options"]["t_steps"]) == 1:
             param["options"]["t_steps"] = param["options"]["t_steps"][0]
 
     # Record 3
-- 
2.43.0


From 6cdd18cb59d307eb45919bc43f9e6e2d2906b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 11/51] fix: read the number of mass components of block MULTI

---
 toughio/_io/input/tough/_read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 11fad1b..b7024d0 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -239,6 +239,8 @@ def _read_multi(f):
     multi["n_component"] = data[0]
     multi["isothermal"] = data[1] == data[0]
     multi["n_phase"] = data[2]
+    if data[4] is not None:
+        multi["n_component_mass"] = data[4]
 
     return multi
 
-- 
2.43.0


From 76bf37d8058b580c3bac9e017695110e341de28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 12/51] fix: diffusion may be an array

---
 toughio/_io/input/tough/_write.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 8d4ba17..a3c03c0 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -347,7 +347,7 @@ def _write_multi(parameters):
     values[2] = parameters["n_phase"] if parameters["n_phase"] else values[2]
 
     # Handle diffusion
-    if parameters["diffusion"]:
+    if parameters["diffusion"] is not None and len(parameters["diffusion"]):
         values[3] = 8
         parameters["n_phase"] = values[2]  # Save for later check
 
-- 
2.43.0


From e0128691491e9b4d501fb851759c3320d967d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 13/51] fix: block OUTPU without variables does not swallow the
 next block

---
 toughio/_io/input/tough/_read.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index b7024d0..2d13f18 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -107,7 +107,7 @@ def read_buffer(f, label_length):
         elif line.startswith("DIFFU"):
             parameters.update(_read_diffu(fiter, f))
         elif line.startswith("OUTPU"):
-            parameters.update(_read_outpu(fiter))
+            parameters.update(_read_outpu(fiter, f))
         elif line.startswith("ELEME"):
             parameters.update(_read_eleme(fiter, label_length))
             parameters["coordinates"] = False
@@ -555,7 +555,7 @@ def _read_diffu(f, fh):
     return diffu
 
 
-def _read_outpu(f):
+def _read_outpu(f, fh):
     """Read OUTPU block data."""
     fmt = block_to_format["OUTPU"]
     outpu = {"output": {}}
@@ -564,7 +564,10 @@ def _read_outpu(f):
     line = next(f).strip()
     if line and not line.isdigit():
         outpu["output"]["format"] = line if line else None
+        i = fh.tell()
         line = next(f).strip()
+        if not line.isdigit():
+            fh.seek(i)
 
     # Variables
     names = {}
-- 
2.43.0


From ddd5ce26fa8ea1c92a2f67f9f4a1b89f0f173bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 14/51] fix: reading a file without block ROCKS terminates

---
 toughio/_io/input/tough/_read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 2d13f18..be194e4 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -45,9 +45,9 @@ def read_buffer(f, label_length):
     if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
         title = [line]
         while True:
-            line = f.readline().strip()
-            if not line.startswith("ROCKS"):
-                title.append(line)
+            line = f.readline()
+            if line and not line.strip().startswith("ROCKS"):
+                title.append(line.strip())
             else:
                 break
 
-- 
2.43.0


From 626724468a36d72d3fd00e57e36ec14efd11eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 15/51] fix: initial conditions may have different numbers of
 variables

---
 toughio/_io/input/tough/_read.py  | 38 +++++++++++++------------------
 toughio/_io/input/tough/_write.py |  6 ++---
 2 files changed, 19 insertions(+), 25 deletions(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index be194e4..70839c4 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -379,7 +379,6 @@ def _read_indom(f, fh):
     indom = {"rocks": {}}
 
     line = next(f)
-    two_lines = True
     while True:
         if line.strip():
             # Record 1
@@ -390,18 +389,16 @@ def _read_indom(f, fh):
             data = read_record(line, fmt[0])
 
             # Record 3 (EOS7R)
-            if two_lines:
-                i = fh.tell()
-                line = next(f)
+            i = fh.tell()
+            line = next(f)
 
-                if line.strip():
-                    try:
-                        data += read_record(line, fmt[0])
-                    except ValueError:
-                        two_lines = False
-                        fh.seek(i)
-                else:
+            if line.strip():
+                try:
+                    data += read_record(line, fmt[0])
+                except ValueError:
                     fh.seek(i)
+            else:
+                fh.seek(i)
 
             data = prune_nones_list(data)
             indom["rocks"][rock] = {"initial_condition": data}
@@ -701,7 +698,6 @@ def _read_incon(f, label_length, fh):
     if not label_length:
         label_length = get_label_length(line[:9])
 
-    two_lines = True
     while True:
         if line.strip() and not line.startswith("+++"):
             # Record 1
@@ -718,18 +714,16 @@ def _read_incon(f, label_length, fh):
             data = read_record(line, fmt[0])
 
             # Record 3 (EOS7R)
-            if two_lines:
-                i = fh.tell()
-                line = next(f)
+            i = fh.tell()
+            line = next(f)
 
-                if line.strip() and not line.startswith("+++"):
-                    try:
-                        data += read_record(line, fmt[0])
-                    except ValueError:
-                        two_lines = False
-                        fh.seek(i)
-                else:
+            if line.strip() and not line.startswith("+++"):
+                try:
+                    data += read_record(line, fmt[0])
+                except ValueError:
                     fh.seek(i)
+            else:
+                fh.seek(i)
 
             incon["initial_conditions"][label]["values"] = prune_nones_list(data)
             incon["initial_conditions_order"].append(label)
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index a3c03c0..fa4b1a8 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -90,7 +90,7 @@ def write_buffer(parameters, block):
     indom = False
     for rock in parameters["rocks"].values():
         if "initial_condition" in rock.keys():
-            if any(x is not None for x in rock["initial_condition"][:4]):
+            if any(x is not None for x in rock["initial_condition"]):
                 indom = True
                 break
 
@@ -562,7 +562,7 @@ def _write_indom(parameters):
                 out += write_record(values, fmt2)
 
                 # Record 3
-                if len(data) > 4:
+                if any(x is not None for x in data[4:]):
                     values = list(data[4:])
                     out += write_record(values, fmt2)
 
@@ -968,7 +968,7 @@ def _write_incon(parameters):
         out += write_record(data["values"][:n], fmt2)
 
         # Record 3 (EOS7R)
-        if len(data["values"]) > 4:
+        if any(x is not None for x in data["values"][4:]):
             out += write_record(data["values"][4:], fmt2)
 
     return out
-- 
2.43.0


From 1cf7b43fbf6dc5e41ff740dee0d25a605326d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 16/51] fix: histories accept labels of more than 5 characters

---
 toughio/_common.py                |  6 +++---
 toughio/_io/input/tough/_write.py | 15 +++++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/toughio/_common.py b/toughio/_common.py
index 195b67d..f1066b1 100644
--- a/toughio/_common.py
+++ b/toughio/_common.py
@@ -24,9 +24,9 @@ block_to_format = {
     "INDOM": {0: ",".join(4 * ["20.13e"]), 5: "5s"},
     "MOMOP": "40S",
     "TIMES": {1: "5d,5d,10.4e,10.4e", 2: ",".join(8 * ["10.4e"])},
-    "FOFT": {5: "5s"},
-    "COFT": {5: "10s"},
-    "GOFT": {5: "5s"},
+    "FOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
+    "COFT": {5: "10s", 6: "12s", 7: "14s", 8: "16s", 9: "18s"},
+    "GOFT": {5: "5s", 6: "6s", 7: "7s", 8: "8s", 9: "9s"},
     "GENER": {
         0: ",".join(4 * ["14.7e"]),
         5: "5s,5s,5d,5d,5d,5d,5s,4s,1d,10.3e,10.3e,10.3e",
diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index fa4b1a8..3d00c5b 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -615,10 +615,11 @@ def _write_times(parameters):
 def _write_foft(parameters):
     """Write FOFT block data."""
     # Formats
+    values = [x for x in parameters["element_history"]]
+    label_length = max([5] + [len(x) for x in values])
     fmt = block_to_format["FOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["element_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -628,10 +629,11 @@ def _write_foft(parameters):
 def _write_coft(parameters):
     """Write COFT block data."""
     # Format
+    values = [x for x in parameters["connection_history"]]
+    label_length = max([5] + [len(x) // 2 for x in values])
     fmt = block_to_format["COFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["connection_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
@@ -641,10 +643,11 @@ def _write_coft(parameters):
 def _write_goft(parameters):
     """Write GOFT block data."""
     # Format
+    values = [x for x in parameters["generator_history"]]
+    label_length = max([5] + [len(x) for x in values])
     fmt = block_to_format["GOFT"]
-    fmt = str2format(fmt[5])
+    fmt = str2format(fmt[label_length])
 
-    values = [x for x in parameters["generator_history"]]
     out = write_record(values, fmt, multi=True)
 
     return out
-- 
2.43.0


From 71c866f1fc9623e14b043ac29a9d63aaf3198ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 17/51] fix: JSON writer accepts every numpy scalar, also as
 key

---
 toughio/_io/input/json/_json.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 46d7cc1..e6eb008 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -63,14 +63,14 @@ def write(filename, parameters):
 
     def jsonify(x):
         """JSON serialize data."""
-        if isinstance(x, (numpy.int32, numpy.int64)):
-            return int(x)
+        if isinstance(x, numpy.generic):
+            return x.item()
         elif isinstance(x, (list, tuple)):
             return [jsonify(xx) for xx in x]
         elif isinstance(x, numpy.ndarray):
-            return x.tolist()
+            return jsonify(x.tolist())
         elif isinstance(x, dict):
-            return {k: jsonify(v) for k, v in x.items()}
+            return {jsonify(k): jsonify(v) for k, v in x.items()}
         else:
             return x
 
-- 
2.43.0


From ab01b8632386965f9925c77e946512bcaa258d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:29 +0000
Subject: [PATCH 18/51] fix: JSON reader accepts selections without integers

---
 toughio/_io/input/json/_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index e6eb008..69c0d73 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -39,7 +39,7 @@ def read(filename):
     if "more_options" in parameters.keys():
         parameters["more_options"] = to_int(parameters["more_options"])
 
-    if "selections" in parameters.keys():
+    if "integers" in parameters.get("selections", {}).keys():
         parameters["selections"]["integers"] = to_int(
             parameters["selections"]["integers"]
         )
-- 
2.43.0


From db5c639de3fac897f6d90c3fe91b742703949d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 19/51] fix: title lines are never taken for blocks when
 reading

---
 toughio/_io/input/tough/_read.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_read.py b/toughio/_io/input/tough/_read.py
index 70839c4..014fc7f 100644
--- a/toughio/_io/input/tough/_read.py
+++ b/toughio/_io/input/tough/_read.py
@@ -45,6 +45,7 @@ def read_buffer(f, label_length):
     if line[:5] not in {"ROCKS", "ELEME", "INCON", "GENER"}:
         title = [line]
         while True:
+            i = f.tell()
             line = f.readline()
             if line and not line.strip().startswith("ROCKS"):
                 title.append(line.strip())
@@ -52,7 +53,11 @@ def read_buffer(f, label_length):
                 break
 
         parameters["title"] = title[0] if len(title) == 1 else title
-    f.seek(0)
+
+        # Title lines may start with a block keyword
+        f.seek(i if line else 0)
+    else:
+        f.seek(0)
 
     # Loop over blocks
     # Some blocks (INCON, INDOM, PARAM) need to rewind to previous line but tell and seek are disabled by next
-- 
2.43.0


From 162a531a38d92a72acdb7dda9f036aa6f2a1dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 20/51] fix: output variables may be given with different
 numbers of options

---
 toughio/_io/input/tough/_write.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index 3d00c5b..fbbacad 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -805,12 +805,12 @@ def _write_outpu(parameters):
         for k, v in data["variables"].items():
             values = [k.upper()]
 
-            if numpy.ndim(v) == 0:
+            if not isinstance(v, (list, tuple, numpy.ndarray)):
                 values += [v]
                 buffer += write_record(values, fmt3)
                 num_vars += 1
             else:
-                if numpy.ndim(v[0]) == 0:
+                if not isinstance(v[0], (list, tuple, numpy.ndarray)):
                     values += list(v)
                     buffer += write_record(values, fmt3)
                     num_vars += 1
-- 
2.43.0


From 6fb93b5dbd45ff1fbae9e44028b2ae8908766e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 21/51] fix: initial conditions with unset values can be
 written

---
 toughio/_io/input/tough/_write.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/input/tough/_write.py b/toughio/_io/input/tough/_write.py
index fbbacad..5db9262 100644
--- a/toughio/_io/input/tough/_write.py
+++ b/toughio/_io/input/tough/_write.py
@@ -963,16 +963,17 @@ def _write_incon(parameters):
             None,
             data["porosity"],
         ]
-        values += list(data["userx"])
+        values += list(data["userx"]) if data["userx"] is not None else []
         out += write_record(values, fmt1)
 
         # Record 2
-        n = min(4, len(data["values"]))
-        out += write_record(data["values"][:n], fmt2)
+        values = data["values"] if data["values"] is not None else []
+        n = min(4, len(values))
+        out += write_record(values[:n], fmt2)
 
         # Record 3 (EOS7R)
-        if any(x is not None for x in data["values"][4:]):
-            out += write_record(data["values"][4:], fmt2)
+        if any(x is not None for x in values[4:]):
+            out += write_record(values[4:], fmt2)
 
     return out
 
-- 
2.43.0


From 33846e469cd3cb31fb1cc6ec62c8289582eb6448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 22/51] fix: JSON writer leaves an existing file untouched when
 it fails

---
 toughio/_io/input/json/_json.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index 69c0d73..e52784a 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -74,7 +74,8 @@ def write(filename, parameters):
         else:
             return x
 
+    parameters = deepcopy(parameters)
+    parameters = jsonify(parameters)
+    buffer = json.dumps(parameters, indent=4)
     with open(filename, "w") as f:
-        parameters = deepcopy(parameters)
-        parameters = jsonify(parameters)
-        json.dump(parameters, f, indent=4)
+        f.write(buffer)
-- 
2.43.0


From eadf79a7ca7a7887da60612cbda48d228d80695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 23/51] fix: JSON reader accepts options that are unset

---
 toughio/_io/input/json/_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_io/input/json/_json.py b/toughio/_io/input/json/_json.py
index e52784a..2c9dcc0 100644
--- a/toughio/_io/input/json/_json.py
+++ b/toughio/_io/input/json/_json.py
@@ -33,13 +33,13 @@ def read(filename):
     with open(filename, "r") as f:
         parameters = json.load(f)
 
-    if "extra_options" in parameters.keys():
+    if parameters.get("extra_options"):
         parameters["extra_options"] = to_int(parameters["extra_options"])
 
-    if "more_options" in parameters.keys():
+    if parameters.get("more_options"):
         parameters["more_options"] = to_int(parameters["more_options"])
 
-    if "integers" in parameters.get("selections", {}).keys():
+    if parameters.get("selections") and parameters["selections"].get("integers"):
         parameters["selections"]["integers"] = to_int(
             parameters["selections"]["integers"]
         )
-- 
2.43.0


From c9bd0b4b629ac6b8013f17b2b26abc73ea3aeaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 24/51] fix: initial conditions that are zero or negative are
 exported

---
 toughio/_mesh/tough/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/tough/_helpers.py b/toughio/_mesh/tough/_helpers.py
index 14f258d..a047f45 100644
--- a/toughio/_mesh/tough/_helpers.py
+++ b/toughio/_mesh/tough/_helpers.py
@@ -94,7 +94,7 @@ def _write_incon(labels, values, porosity=None, userx=None):
 
     iterables = zip(labels, values, porosity, userx)
     for label, value, phi, usrx in iterables:
-        cond1 = any(v > -1.0e-9 for v in value)
+        cond1 = any(v > -1.0e9 for v in value)
         cond2 = phi is not None
         cond3 = usrx is not None
         if cond1 or cond2 or cond3:
-- 
2.43.0


From ebaea95d99e681dc857923c34946bc439e43232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 25/51] fix: materials with short names can be renamed and
 moved to the end of block ELEME

---
 toughio/_mesh/tough/_tough.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index 4fc41ad..fdc8d72 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -176,13 +176,12 @@ def write_mesh(
 ):
     """Write MESH file."""
     # Check materials
-    materials = [
-        "{:5}".format(material.strip()) if isinstance(material, str) else material
-        for material in materials
-    ]
+    materials = [_pad(material) for material in materials]
     material_name = material_name if material_name else {}
+    material_name = {_pad(k): v for k, v in material_name.items()}
     material_end = material_end if material_end else []
     material_end = [material_end] if isinstance(material_end, str) else material_end
+    material_end = [_pad(material) for material in material_end]
 
     with open(filename, "w") as f:
         _write_eleme(
@@ -439,6 +438,11 @@ def _isot(lines):
     return numpy.where(mask.sum(axis=1) == 1, mask.argmax(axis=1) + 1, 1)
 
 
+def _pad(material):
+    """Return material name padded to 5 characters."""
+    return "{:5}".format(material.strip()) if isinstance(material, str) else material
+
+
 def _dot(A, B):
     """Calculate dot product when arrays A and B have the same shape."""
     return (A * B).sum(axis=1)
-- 
2.43.0


From d428197474100978c2883dfe289e845f799606b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 26/51] fix: meshes without connections can be written

---
 toughio/_mesh/tough/_tough.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toughio/_mesh/tough/_tough.py b/toughio/_mesh/tough/_tough.py
index fdc8d72..e20671d 100644
--- a/toughio/_mesh/tough/_tough.py
+++ b/toughio/_mesh/tough/_tough.py
@@ -338,6 +338,10 @@ def _write_conne(
             )
         cell_list.add(i)
 
+    # Nothing to write if no cell is connected (e.g., single cell)
+    if not clabels:
+        return
+
     centers = numpy.array(centers)
     int_points = numpy.array(int_points)
     int_normals = numpy.array(int_normals)
-- 
2.43.0


From 68268738f01f83cc43f2c752f52b2878209504b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:24 +0000
Subject: [PATCH 27/51] fix: cells duplicated in several blocks are pruned

---
 toughio/_mesh/_mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index c009903..3520feb 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -211,13 +211,18 @@ class Mesh(object):
 
         # Prune duplicate cells
         cell_data = {k: mesh.split(v) for k, v in mesh.cell_data.items()}
+        seen = set()
         for ic, (k, v) in enumerate(cells):
             vsort = numpy.sort(v, axis=1)
             _, order = numpy.unique(vsort, axis=0, return_index=True)
+            # Discard cells that already belong to a previous block
+            order = [i for i in order if (k, tuple(vsort[i])) not in seen]
+            order = numpy.array(order, dtype=int)
+            seen.update((k, tuple(vsort[i])) for i in order)
             cells[ic][1] = v[order]
             for kk, vv in cell_data.items():
                 cell_data[kk][ic] = vv[ic][order]
-        mesh.cells = cells
+        mesh.cells = [c for c in cells if len(c[1])]
         mesh.cell_data = {k: numpy.concatenate(v) for k, v in cell_data.items()}
 
         if not inplace:
-- 
2.43.0


From 8b72854d873f6ebcf3dc7ffb97533bfaecbbb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:24 +0000
Subject: [PATCH 28/51] fix: meshes with integer coordinates can be extruded

---
 toughio/_mesh/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 3520feb..2401a34 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -128,7 +128,7 @@ class Mesh(object):
             if axis != 2:
                 mesh.points[:, [axis, 2]] = mesh.points[:, [2, axis]]
 
-        extra_points = numpy.array(mesh.points)
+        extra_points = numpy.array(mesh.points, dtype=float)
         for h in height:
             extra_points[:, axis] += h
             mesh.points = numpy.vstack((mesh.points, extra_points))
-- 
2.43.0


From 487e765739ab43ecc3794ca663df89ace64379ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:03 +0000
Subject: [PATCH 29/51] fix: materials assigned to cells do not collide with
 unused names; empty and boolean selections

---
 toughio/_mesh/_mesh.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 2401a34..94893b2 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -569,22 +569,25 @@ class Mesh(object):
         cond_int = all(isinstance(c, ints) for c in cells)
         cond_bool = all(isinstance(c, (bool, numpy.bool_)) for c in cells)
 
-        if cond_int:
-            if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
-                raise ValueError()
+        if not len(cells):
+            return
         elif cond_bool:
             if len(cells) != self.n_cells:
                 raise ValueError()
-            cells = numpy.arange(self.n_cells)[cells]
+            cells = numpy.flatnonzero(cells)
+        elif cond_int:
+            if numpy.min(cells) < 0 or numpy.max(cells) >= self.n_cells:
+                raise ValueError()
+            cells = numpy.asarray(cells)
         else:
             raise TypeError()
 
         if len(cells):
-            data = self.cell_data["material"]
+            data = numpy.array(self.cell_data["material"])
             imat = (
                 self.field_data[material][0]
                 if material in self.field_data.keys()
-                else data.max() + 1
+                else max([data.max()] + [v[0] for v in self.field_data.values()]) + 1
             )
             data[cells] = imat
             self.add_cell_data("material", data)
-- 
2.43.0


From dfda8f1ea5436acb54cf39464241928fa26ae309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 30/51] fix: vector data are interpolated component by
 component

---
 toughio/_mesh/_common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_common.py b/toughio/_mesh/_common.py
index 349ca89..ab39272 100644
--- a/toughio/_mesh/_common.py
+++ b/toughio/_mesh/_common.py
@@ -226,10 +226,13 @@ def interpolate_data(data, entities, weights=None):
     """Interpolate input data."""
     return {
         k: (
-            numpy.array([numpy.mean(v[e]) for e in entities])
+            numpy.array([numpy.mean(v[e], axis=0) for e in entities])
             if not weights
             else numpy.array(
-                [numpy.average(v[e], weights=w) for e, w in zip(entities, weights)]
+                [
+                    numpy.average(v[e], axis=0, weights=w)
+                    for e, w in zip(entities, weights)
+                ]
             )
         )
         for k, v in data.items()
-- 
2.43.0


From bc0df3aa2d0855b063b0ad8e46e2eb519ba0ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 31/51] fix: a box filter of zero length is not unbounded

---
 toughio/_mesh/_filter/box/_box.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_filter/box/_box.py b/toughio/_mesh/_filter/box/_box.py
index 32b7441..d0e0065 100644
--- a/toughio/_mesh/_filter/box/_box.py
+++ b/toughio/_mesh/_filter/box/_box.py
@@ -13,9 +13,9 @@ def filter_(mesh, x0=None, y0=None, z0=None, dx=None, dy=None, dz=None):
     ymin = y0 if y0 is not None else -numpy.inf
     zmin = z0 if z0 is not None else -numpy.inf
 
-    xmax = xmin + dx if dx else numpy.inf
-    ymax = ymin + dy if dy else numpy.inf
-    zmax = zmin + dz if dz else numpy.inf
+    xmax = xmin + dx if dx is not None else numpy.inf
+    ymax = ymin + dy if dy is not None else numpy.inf
+    zmax = zmin + dz if dz is not None else numpy.inf
 
     x, y, z = mesh.centers.T
     mask_x = numpy.logical_and(x >= xmin, x <= xmax)
-- 
2.43.0


From 9d36cc7b462827803973644f0b2b30cdef4fdb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:14 +0000
Subject: [PATCH 32/51] fix: a list of labels that does not cover the output is
 rejected

---
 toughio/_io/output/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/output/_common.py b/toughio/_io/output/_common.py
index eaa3b18..01262e0 100644
--- a/toughio/_io/output/_common.py
+++ b/toughio/_io/output/_common.py
@@ -31,7 +31,7 @@ def to_output(file_type, file_format, labels_order, headers, times, labels, vari
 
 def reorder_labels(data, labels):
     """Reorder output or save cell data according to input labels."""
-    if len(data.labels) != len(labels):
+    if len(data.labels) != len(labels) or set(data.labels) != set(labels):
         raise ValueError()
 
     mapper = {k: v for v, k in enumerate(data.labels)}
-- 
2.43.0


From 99cd0f369c786b7a860adc44de1afd9ab67ebf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:20 +0000
Subject: [PATCH 33/51] fix: Tecplot output of negative values with three-digit
 exponents can be read back

---
 toughio/_io/output/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/output/tecplot/_tecplot.py b/toughio/_io/output/tecplot/_tecplot.py
index ff2fefa..3338df9 100644
--- a/toughio/_io/output/tecplot/_tecplot.py
+++ b/toughio/_io/output/tecplot/_tecplot.py
@@ -86,5 +86,5 @@ def write(filename, output):
             # Table
             data = numpy.transpose([out.data[k] for k in headers])
             for d in data:
-                record = "".join("{:20.12e}".format(x) for x in d)
+                record = "".join(" {:19.12e}".format(x) for x in d)
                 f.write("{}{}\n".format("{:18}".format(""), record))
-- 
2.43.0


From 7bb79ff8d4ad0dcfc24248baa538f69c3c30cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:26 +0000
Subject: [PATCH 34/51] fix: reordering an output does not modify it

---
 toughio/_io/output/_common.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/toughio/_io/output/_common.py b/toughio/_io/output/_common.py
index 01262e0..e17acb7 100644
--- a/toughio/_io/output/_common.py
+++ b/toughio/_io/output/_common.py
@@ -36,9 +36,8 @@ def reorder_labels(data, labels):
 
     mapper = {k: v for v, k in enumerate(data.labels)}
     idx = [mapper[label] for label in labels]
-    data.labels[:] = data.labels[idx]
 
-    for k, v in data.data.items():
-        data.data[k] = v[idx]
-
-    return data
+    return data._replace(
+        labels=data.labels[idx],
+        data={k: v[idx] for k, v in data.data.items()},
+    )
-- 
2.43.0


From 8c8d82d42112635fc6df8ff2a95fd88b25781ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:51 +0000
Subject: [PATCH 35/51] fix: SAVE files without porosity or with user values on
 some elements only

---
 toughio/_io/output/save/_save.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/toughio/_io/output/save/_save.py b/toughio/_io/output/save/_save.py
index a99b2f2..005943e 100644
--- a/toughio/_io/output/save/_save.py
+++ b/toughio/_io/output/save/_save.py
@@ -15,24 +15,30 @@ def read(filename, file_type, file_format, labels_order):
     parameters = tough.read(filename)
 
     labels = list(parameters["initial_conditions"].keys())
-    variables = [v["values"] for v in parameters["initial_conditions"].values()]
+    incon = parameters["initial_conditions"].values()
 
+    variables = _to_array([v["values"] for v in incon])
     data = {"X{}".format(i + 1): x for i, x in enumerate(numpy.transpose(variables))}
 
-    data["porosity"] = numpy.array(
-        [v["porosity"] for v in parameters["initial_conditions"].values()]
-    )
+    if any("porosity" in v.keys() for v in incon):
+        data["porosity"] = _to_array([[v.get("porosity")] for v in incon])[:, 0]
 
-    userx = [
-        v["userx"]
-        for v in parameters["initial_conditions"].values()
-        if "userx" in v.keys()
-    ]
-    if userx:
-        data["userx"] = numpy.array(userx)
+    if any("userx" in v.keys() for v in incon):
+        data["userx"] = _to_array([v.get("userx", []) for v in incon])
 
     labels_order = (
-        labels_order if labels_order else parameters["initial_conditions_order"]
+        labels_order
+        if labels_order is not None
+        else parameters["initial_conditions_order"]
     )
     output = Output(file_type, file_format, None, numpy.array(labels), data)
     return reorder_labels(output, labels_order)
+
+
+def _to_array(values):
+    """Convert lists of different sizes to an array (undefined values are NaN)."""
+    n = max([0] + [len(value) for value in values])
+
+    return numpy.array(
+        [value + [None] * (n - len(value)) for value in values], dtype=float
+    )
-- 
2.43.0


From 36826b8bfe1fb4c59c486c455cd36f61a5bb16d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 36/51] fix: FLAC3D group names with blanks or non-ASCII
 characters are kept

---
 toughio/_mesh/flac3d/_flac3d.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index 439ae99..ab64c0b 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -161,7 +161,8 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
     else:
-        line = f.readline().rstrip().split()
+        text = f.readline()
+        line = text.split()
         while line:
             if line[0] == "G":
                 pid, point = _read_point(line, binary)
@@ -176,7 +177,7 @@ def read_buffer(f, binary):
                 cidx += 1
             elif line[0] in {"ZGROUP", "FGROUP"}:
                 flag = flags[line[0]]
-                name, slot, data = _read_group(f, binary, line)
+                name, slot, data = _read_group(f, binary, text)
                 field_data, mapper[flag] = _update_field_data(
                     field_data,
                     mapper[flag],
@@ -188,7 +189,8 @@ def read_buffer(f, binary):
                 slots[flag] = _update_slots(slots[flag], slot)
                 gidx += 1
 
-            line = f.readline().rstrip().split()
+            text = f.readline()
+            line = text.split()
 
     if field_data:
         num_cells = numpy.cumsum([len(c[1]) for c in cells])
@@ -258,7 +260,13 @@ def _read_group(buf_or_line, binary, line=None):
         (num_zones,) = struct.unpack("<I", buf_or_line.read(4))
         data = struct.unpack("<{}I".format(num_zones), buf_or_line.read(4 * num_zones))
     else:
-        name = line[1].replace('"', "")
+        # Group name can contain blanks if it is quoted
+        line = line.split(None, 1)[1].strip()
+        if line.startswith('"'):
+            name, _, line = line[1:].partition('"')
+        else:
+            name, _, line = line.partition(" ")
+        line = line.split()
         data = []
         slot = "" if "SLOT" not in line else line[-1]
 
@@ -408,11 +416,12 @@ def _write_groups(f, cells, cell_data, field_data, flag, binary):
 
             f.write(struct.pack("<I", len(groups)))
             for k in sorted(groups.keys()):
-                num_chars, num_zones = len(labels[k]), len(groups[k])
+                label = labels[k].encode("utf-8")
+                num_chars, num_zones = len(label), len(groups[k])
                 fmt = "<H{}sH7sI{}I".format(num_chars, num_zones)
                 tmp = [
                     num_chars,
-                    labels[k].encode("utf-8"),
+                    label,
                     7,
                     slot,
                     num_zones,
-- 
2.43.0


From f20a731dddcd081c140a51f7106cd298b351fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 37/51] fix: FLAC3D groups refer to the numbers of the zones
 and faces written

---
 toughio/_mesh/flac3d/_flac3d.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/toughio/_mesh/flac3d/_flac3d.py b/toughio/_mesh/flac3d/_flac3d.py
index ab64c0b..ff1215c 100644
--- a/toughio/_mesh/flac3d/_flac3d.py
+++ b/toughio/_mesh/flac3d/_flac3d.py
@@ -274,7 +274,7 @@ def _read_group(buf_or_line, binary, line=None):
         line = buf_or_line.readline()
         while True:
             line = line.rstrip().split()
-            if line and (line[0] not in {"*", "ZGROUP"}):
+            if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
                 data += [int(l) for l in line]
             else:
                 buf_or_line.seek(i)
@@ -498,11 +498,13 @@ def _translate_groups(cells, cell_data, field_data, flag):
     num_dims = numpy.concatenate(
         [numpy.full(len(c[1]), 2 if c[0] in meshio_only["face"] else 3) for c in cells]
     )
+
+    # Cells are numbered in the order they are written (i.e. zones then faces)
+    ids = numpy.empty(len(num_dims), dtype=int)
+    ids[numpy.argsort(-num_dims, kind="stable")] = numpy.arange(len(num_dims)) + 1
+
     groups = {
-        k: numpy.nonzero(
-            numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])
-        )[0]
-        + 1
+        k: ids[numpy.logical_and(cell_data == k, num_dims == flag_to_numdim[flag])]
         for k in numpy.unique(cell_data)
     }
     groups = {k: v for k, v in groups.items() if v.size}
-- 
2.43.0


From 2b35c2bdace727a87724623503f0f35506a03882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 38/51] fix: Tecplot meshes with negative first coordinates,
 arrays of the same name or surface cells first

---
 toughio/_mesh/tecplot/_tecplot.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 17d020e..0e574d7 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -110,7 +110,7 @@ def read_buffer(f):
             i = f.tell()
             line = f.readline().strip().upper()
             while True:
-                if line and not line[0].isdigit():
+                if line and not _is_number(line.split()[0]):
                     lines += [line]
                     i = f.tell()
                     line = f.readline().strip().upper()
@@ -146,14 +146,13 @@ def read_buffer(f):
         if zone_format == "FEBLOCK"
         else numpy.transpose(data)
     )
-    data = {k: v for k, v in zip(variables, data)}
 
     point_data, cell_data = {}, {}
-    for i, variable in zip(is_cell_centered, variables):
+    for i, variable, values in zip(is_cell_centered, variables, data):
         if i:
-            cell_data[variable] = [data[variable]]
+            cell_data[variable] = [values]
         else:
-            point_data[variable] = data[variable]
+            point_data[variable] = values
 
     x = "X" if "X" in point_data.keys() else "x"
     y = "Y" if "Y" in point_data.keys() else "y"
@@ -166,6 +165,14 @@ def read_buffer(f):
     return Mesh(points, cells, point_data, cell_data)
 
 
+def _is_number(x):
+    try:
+        float(x)
+        return True
+    except ValueError:
+        return False
+
+
 def _read_variables(line):
     # Gather variables in a list
     line = line.split("=")[1]
@@ -358,7 +365,7 @@ def write(filename, mesh):
             cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
 
         # Convert 2D cells to quads / 3D cells to hexahedra
-        zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
+        zone_type = "FEQUADRILATERAL" if max(num_dims) == 2 else "FEBRICK"
         cells = numpy.concatenate(
             [
                 mesh.cells[ic].data[:, meshio_to_tecplot_order_2[mesh.cells[ic].type]]
-- 
2.43.0


From e0b06176bfb09e8a81fd0095fb9e3a62d7bf2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 39/51] fix: converting from meshio does not modify the meshio
 mesh

---
 toughio/_mesh/_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 94893b2..0edb3eb 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -872,7 +872,7 @@ def from_meshio(mesh, material="dfalt"):
     if mesh.cell_data:
         if version[0] >= 4:
             cells = mesh.cells
-            cell_data = mesh.cell_data
+            cell_data = dict(mesh.cell_data)
         else:
             cells, cell_data = get_new_meshio_cells(mesh.cells, mesh.cell_data)
 
@@ -889,7 +889,7 @@ def from_meshio(mesh, material="dfalt"):
         cells=cells,
         point_data=mesh.point_data,
         cell_data=cell_data,
-        field_data=mesh.field_data,
+        field_data=dict(mesh.field_data) if mesh.field_data else None,
         point_sets=(
             mesh.point_sets
             if hasattr(mesh, "point_sets")
@@ -902,7 +902,7 @@ def from_meshio(mesh, material="dfalt"):
 
     if "material" not in out.cell_data.keys():
         imat = (
-            numpy.max([v[0] for v in mesh.field_data.values() if v[1] == 3]) + 1
+            numpy.max([v[0] for v in mesh.field_data.values()]) + 1
             if mesh.field_data
             else 1
         )
-- 
2.43.0


From 077a0b740188486249c58a8a0560dfd918b6c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 40/51] fix: save2incon checks the SAVE file before writing

---
 toughio/_cli/_save2incon.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/toughio/_cli/_save2incon.py b/toughio/_cli/_save2incon.py
index bfc54c8..50eeed0 100644
--- a/toughio/_cli/_save2incon.py
+++ b/toughio/_cli/_save2incon.py
@@ -13,19 +13,18 @@ def save2incon(argv=None):
     if not os.path.isfile(args.infile):
         raise ValueError("SAVE file '{}' not found.".format(args.infile))
 
+    # Buffer SAVE file
+    with open(args.infile, "r") as f:
+        save_file = list(f)
+    if not save_file or not save_file[0].startswith("INCON"):
+        raise ValueError("Invalid SAVE file.")
+
     # Write INCON file
     with open(args.outfile, "w") as f:
-        first = True
-        with open(args.infile, "r") as fsave:
-            for line in fsave:
-                if first:
-                    if not line.startswith("INCON"):
-                        raise ValueError("Invalid SAVE file.")
-                    else:
-                        first = False
-                if args.reset and line.startswith("+++"):
-                    break
-                f.write(line)
+        for line in save_file:
+            if args.reset and line.startswith("+++"):
+                break
+            f.write(line)
 
         if args.reset:
             f.write("\n")
-- 
2.43.0


From c74c57f3e2e59f85ffc8f6f8875a44cc4b996ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 41/51] fix: merge rejects input files without ROCKS, PARAM or
 end of input

---
 toughio/_cli/_merge.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index dceffa5..bef7d12 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -25,10 +25,8 @@ def merge(argv=None):
         input_file = list(f)
 
     # Check that input file has at least blocks ROCKS, PARAM, ENDFI or ENDCY
-    count = 0
-    for line in input_file:
-        count += int(line.upper()[:5] in {"ROCKS", "PARAM", "ENDFI", "ENDCY"})
-    if count < 3:
+    blocks = {line.upper()[:5] for line in input_file}
+    if not ({"ROCKS", "PARAM"} <= blocks and blocks & {"ENDFI", "ENDCY"}):
         raise ValueError("Invalid input file '{}'.".format(args.infile))
 
     # Buffer MESH
-- 
2.43.0


From af5cb30c066d4778377b976eb24f333f08250cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 42/51] fix: merge does not join the last line of MESH or INCON
 with the next one

---
 toughio/_cli/_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_cli/_merge.py b/toughio/_cli/_merge.py
index bef7d12..55fc3e1 100644
--- a/toughio/_cli/_merge.py
+++ b/toughio/_cli/_merge.py
@@ -48,10 +48,11 @@ def merge(argv=None):
             break
 
     # Buffer output file
+    # The last line of MESH and INCON may not be terminated
     output_file = input_file[:i]
-    output_file += mesh_file
+    output_file += mesh_file[:-1] + [mesh_file[-1].rstrip("\n") + "\n"]
     if incon_exists:
-        output_file += incon_file
+        output_file += incon_file[:-1] + [incon_file[-1].rstrip("\n") + "\n"]
     output_file += input_file[i:]
 
     # Write output file
-- 
2.43.0


From 3157c4079851f042dc5ca6330e31e0ae00371834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 43/51] fix: extract splits files in the requested format

---
 toughio/_cli/_extract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toughio/_cli/_extract.py b/toughio/_cli/_extract.py
index a1fc63a..8acfc0f 100644
--- a/toughio/_cli/_extract.py
+++ b/toughio/_cli/_extract.py
@@ -85,7 +85,9 @@ def extract(argv=None):
     else:
         head, ext = os.path.splitext(filename)
         for i, out in enumerate(output):
-            write_output("{}_{}{}".format(head, i + 1, ext), out, file_format="csv")
+            write_output(
+                "{}_{}{}".format(head, i + 1, ext), out, file_format=args.file_format
+            )
 
 
 def _get_parser():
-- 
2.43.0


From 287932bca95542f09be8d8d27d46603e93184ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 44/51] fix: standard TOUGH output can be read with a given
 label length

---
 toughio/_io/output/tough/_tough.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 3e2d216..4c65e40 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -75,8 +75,9 @@ def _read_table(f, file_type, label_length):
                 if line[:10].strip() and not line.strip().startswith("ELEM"):
                     line = line.lstrip()
 
-                    if first and not label_length:
-                        label_length = get_label_length(line[:9])
+                    if first:
+                        if not label_length:
+                            label_length = get_label_length(line[:9])
                         iend = (
                             label_length
                             if file_type == "element"
-- 
2.43.0


From 7c3a057cf889b314ae5b8c59153ae79f9a79d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:20 +0000
Subject: [PATCH 45/51] fix: put voxelized values in their own cells when
 exporting results

structured_grid orders cells from top to bottom, column by column or layer by
layer, while the exported data were always sorted layer by layer from bottom to
top.
---
 toughio/_cli/_export.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/toughio/_cli/_export.py b/toughio/_cli/_export.py
index ae07897..a2940fb 100644
--- a/toughio/_cli/_export.py
+++ b/toughio/_cli/_export.py
@@ -104,15 +104,9 @@ def export(argv=None):
             mesh = voxelize(points, args.origin, layer=args.layer)
             mesh.cell_dada = {}
 
-            idx = numpy.arange(len(points))
-            idx = numpy.array(
-                [
-                    x
-                    for x, _ in sorted(
-                        zip(idx, points), key=lambda x: (x[1][2], x[1][1], x[1][0])
-                    )
-                ]
-            )
+            # Sort data in the order of the cells in mesh (i.e., from top to bottom)
+            x, y, z = numpy.transpose(points)
+            idx = numpy.lexsort((x, y, -z) if args.layer else (-z, y, x))
 
             if args.file_format != "xdmf":
                 for label, data in output.data.items():
-- 
2.43.0


From 85903a6b92ac9005604b5661a939b101cadeaa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:54 +0000
Subject: [PATCH 46/51] fix: converting to meshio shares no dictionary with the
 meshio mesh, writers of which pad vectors in place

---
 toughio/_mesh/_mesh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 0edb3eb..798d868 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -259,8 +259,11 @@ class Mesh(object):
             Output mesh.
 
         """
-        keys = ["points", "point_data", "field_data"]
-        kwargs = {key: getattr(self, key) for key in keys}
+        kwargs = {
+            "points": self.points,
+            "point_data": dict(self.point_data),
+            "field_data": dict(self.field_data),
+        }
 
         version = get_meshio_version()
         cell_data = {k: self.split(v) for k, v in self.cell_data.items()}
-- 
2.43.0


From c4a2d6d730abe17d547fb0997e1baf9bae5c7bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:59 +0000
Subject: [PATCH 47/51] fix: from_pyvista reads the number of nodes of each
 cell where VTK 9 puts it

---
 toughio/_mesh/_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toughio/_mesh/_mesh.py b/toughio/_mesh/_mesh.py
index 798d868..8dc493d 100644
--- a/toughio/_mesh/_mesh.py
+++ b/toughio/_mesh/_mesh.py
@@ -964,11 +964,12 @@ def from_pyvista(mesh, material="dfalt"):
     cells = []
     c = 0
     for offset, cell_type in zip(vtk_offset, vtk_cell_type):
-        numnodes = vtk_cells[offset]
         if VTK9:
+            numnodes = vtk_cells[offset + c]
             cell = vtk_cells[offset + 1 + c : offset + 1 + c + numnodes]
             c += 1
         else:
+            numnodes = vtk_cells[offset]
             cell = vtk_cells[offset + 1 : offset + 1 + numnodes]
         cell = (
             cell
-- 
2.43.0


From 53049b50abfe48515cb52c1df520c8f1b17ebcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:04 +0000
Subject: [PATCH 48/51] fix: tables of standard TOUGH output can be read when
 their columns touch

---
 toughio/_io/output/tough/_tough.py | 68 ++++++++++++++----------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/toughio/_io/output/tough/_tough.py b/toughio/_io/output/tough/_tough.py
index 4c65e40..fc2af30 100644
--- a/toughio/_io/output/tough/_tough.py
+++ b/toughio/_io/output/tough/_tough.py
@@ -1,7 +1,5 @@
 from __future__ import with_statement
 
-from functools import partial
-
 import numpy
 
 from ...._common import get_label_length
@@ -91,39 +89,34 @@ def _read_table(f, file_type, label_length):
                     )
 
                     line = line[iend:]
-                    if first:
-                        try:
-                            # Set line parser and try parsing first line
-                            reader = lambda line: [_str2float(x) for x in line.split()]
-                            _ = reader(line)
-
-                        except ValueError:
-                            # Determine number of characters for index
-                            idx = line.replace("-", " ").split()[0]
-                            nidx = line.index(idx) + len(idx)
-                            ifmt = "{}s".format(nidx)
-
-                            # Determine number of characters between two Es
-                            i1 = line.find("E")
-                            i2 = line.find("E", i1 + 1)
-
-                            # Initialize data format
-                            fmt = [ifmt]
-                            if i2 >= 0:
-                                di = i2 - i1
-                                dfmt = "{}.{}e".format(di, di - 7)
-                                fmt += 20 * [dfmt]  # Read 20 data columns at most
-                            else:
-                                fmt += ["12.5e"]
-                            fmt = ",".join(fmt)
-
-                            # Set line parser
-                            reader = partial(read_record, fmt=fmt)
-
-                        finally:
-                            first = False
-
-                    tmp += reader(line)
+                    first = False
+
+                    try:
+                        tmp += [_str2float(x) for x in line.split()]
+
+                    except ValueError:
+                        # Columns are not separated by blanks
+                        # Determine number of characters for index
+                        idx = line.replace("-", " ").split()[0]
+                        nidx = line.index(idx) + len(idx)
+                        ifmt = "{}s".format(nidx)
+
+                        # Determine number of characters between two Es
+                        i1 = line.find("E")
+                        i2 = line.find("E", i1 + 1)
+
+                        # Initialize data format
+                        fmt = [ifmt]
+                        if i2 >= 0:
+                            di = i2 - i1
+                            dfmt = "{}.{}e".format(di, di - 7)
+                            fmt += 20 * [dfmt]  # Read 20 data columns at most
+                        else:
+                            fmt += ["12.5e"]
+                        fmt = ",".join(fmt)
+
+                        tmp += read_record(line, fmt)
+
                     variables[-1].append([x for x in tmp if x is not None])
 
                 line = next(f)
@@ -134,9 +127,12 @@ def _read_table(f, file_type, label_length):
 
 
 def _str2float(x):
-    """Return numpy.nan if x cannot be converted."""
+    """Return numpy.nan if x is not a number (e.g. asterisks)."""
     try:
         return str2float(x)
 
     except ValueError:
+        if any(c.isdigit() for c in x):
+            raise
+
         return numpy.nan
-- 
2.43.0


From 938ad817535748a757f4f63c266ec3ac9c34e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:44 +0000
Subject: [PATCH 49/51] fix: voxelize refuses points of which some are given
 twice and others are missing

---
 toughio/meshmaker/_voxelize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toughio/meshmaker/_voxelize.py b/toughio/meshmaker/_voxelize.py
index 60677f0..6f8c7ff 100644
--- a/toughio/meshmaker/_voxelize.py
+++ b/toughio/meshmaker/_voxelize.py
@@ -56,10 +56,10 @@ def voxelize(points, origin, layer=False, material="dfalt"):
         raise ValueError()
 
     x, y, z = numpy.transpose(points)
-    x = numpy.unique(x)
-    y = numpy.unique(y)
-    z = numpy.unique(z)
-    if x.size * y.size * z.size != len(points):
+    x, ix = numpy.unique(x, return_inverse=True)
+    y, iy = numpy.unique(y, return_inverse=True)
+    z, iz = numpy.unique(z, return_inverse=True)
+    if not x.size * y.size * z.size == len(set(zip(ix, iy, iz))) == len(points):
         raise ValueError("Input points do not form a structured grid.")
 
     x0, y0, z0 = origin
-- 
2.43.0


From 74baf286e214a21a19932870eca27f59ce3836c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:24 +0000
Subject: [PATCH 50/51] fix: read Tecplot zones whose last entry has no blanks
 around its equal sign

---
 toughio/_mesh/tecplot/_tecplot.py | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/toughio/_mesh/tecplot/_tecplot.py b/toughio/_mesh/tecplot/_tecplot.py
index 0e574d7..15d5fb6 100644
--- a/toughio/_mesh/tecplot/_tecplot.py
+++ b/toughio/_mesh/tecplot/_tecplot.py
@@ -225,23 +225,9 @@ def _read_zone(line):
         line = line[:ivar] + line[i2 + 1 :]
 
     # Split remaining key/value pairs separated by '='
-    line = [x for x in line.replace(",", " ").split() if x != "="]
-    i = 0
-    while i < len(line) - 1:
-        if "=" in line[i]:
-            if not (line[i].startswith("=") or line[i].endswith("=")):
-                key, value = line[i].split("=")
-            else:
-                key = line[i].replace("=", "")
-                value = line[i + 1]
-                i += 1
-        else:
-            key = line[i]
-            value = line[i + 1].replace("=", "")
-            i += 1
-
+    line = line.replace(",", " ").replace("=", " ").split()
+    for key, value in zip(line[::2], line[1::2]):
         zone[key] = zone_key_to_type[key](value)
-        i += 1
 
     # Add zone title to zone dict
     if zone_title:
-- 
2.43.0


From 728351f77a5ab7ae1bedeeac59066b8e9478d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:20 +0000
Subject: [PATCH 51/51] fix: read records of digits that are cut short by
 missing trailing blanks

---
 toughio/_io/input/tough/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toughio/_io/input/tough/_helpers.py b/toughio/_io/input/tough/_helpers.py
index c9298e2..908e0f0 100644
--- a/toughio/_io/input/tough/_helpers.py
+++ b/toughio/_io/input/tough/_helpers.py
@@ -250,7 +250,7 @@ def read_record(data, fmt):
         n = int(token[:-1].split(".")[0])
         tmp = data[i : i + n]
         tmp = tmp if token[-1] == "S" else tmp.strip()
-        out.append(token_to_type[token[-1]](tmp) if tmp else None)
+        out.append(token_to_type[token[-1]](tmp) if tmp or token[-1] == "S" else None)
         i += n
 
     return out
-- 
2.43.0


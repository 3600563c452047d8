From a07580c843918e3d14f3e9a69e0bbfd3e0783b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:34 +0000
Subject: [PATCH 01/27] fix: honour signed when a read is served from buffered
 bits

---
 dustmaker/bitio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 534cc32..eda3d5f 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -113,6 +113,8 @@ class BitIOReader(BitIO):
             self._bits = self._bits >> bits
             self._bits_left -= bits
             self._tell += bits
+            if signed and (result & (1 << bits >> 1)):
+                result -= 1 << bits
             return result
 
         # Read in needed data from underlying stream.
-- 
2.43.0


From 0461959bbe163d23f433127d42098f66a4a11e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:10 +0000
Subject: [PATCH 02/27] fix: align past the lead byte after an unaligned seek

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index eda3d5f..4ca2fa8 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -57,6 +57,9 @@ class BitIO:
         not require :attr:`data` to support seek itself.
         """
         self._tell += self._bits_left
+        if self._bits == -1:
+            # We did a seek mid-byte and have not consumed the lead byte.
+            self.data.seek(self._tell // 8)
         self._bits = 0
         self._bits_left = 0
 
-- 
2.43.0


From 86b0e88093c3449b80e016bec96071893fbf941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:10 +0000
Subject: [PATCH 03/27] fix: flush emits trailing bits only once

---
 dustmaker/bitio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 4ca2fa8..025751f 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -240,6 +240,7 @@ class BitIOWriter(BitIO):
         """
         if self._bits_left != 0 and self._bits != -1:
             self.data.write(bytes((self._bits,)))
+            super().align()
 
     def align(self) -> None:
         """Seeks the stream forward to the nearest byte boundary. This does
-- 
2.43.0


From a637722972abfa036d88218c90050ce0cacd05ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:24 +0000
Subject: [PATCH 04/27] fix: use the left matrix's y offset in TxMatrix
 products

---
 dustmaker/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/transform.py b/dustmaker/transform.py
index c2f8891..83f4fa8 100644
--- a/dustmaker/transform.py
+++ b/dustmaker/transform.py
@@ -85,7 +85,7 @@ class TxMatrix(tuple):
                 (
                     ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                     ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
-                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[0][2],
+                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                 ),
                 (0, 0, 1),
             )
-- 
2.43.0


From 6d00d9c5734444556b8bfceec85ba5dc3457e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:32 +0000
Subject: [PATCH 05/27] fix: move tiles by their center when transforming a
 level

---
 dustmaker/level.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cfd88d0..11257f6 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -302,7 +302,10 @@ class Level:
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-                tx, ty = mat.sample(x * 48, y * 48)
+                # Transform the center of the tile and then find the top left
+                # corner of the square it now covers.
+                tx, ty = mat.sample(x * 48 + 24, y * 48 + 24)
+                tx, ty = tx - 24 * mat.scale, ty - 24 * mat.scale
 
                 yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
 
-- 
2.43.0


From d5ddc493195edd9be9863ab79b1916c345549ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:18 +0000
Subject: [PATCH 06/27] fix: round edge join angles down as documented

---
 dustmaker/level.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 11257f6..4997f93 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -567,7 +567,8 @@ class Level:
                     if delta_angle > math.pi:
                         delta_angle -= 2 * math.pi
 
-                    angle = -int(round(delta_angle * 180 / math.pi / 2))
+                    # Drop the fraction, the inner round just cancels float error
+                    angle = -int(round(delta_angle * 180 / math.pi / 2, 6))
 
                     # Set caps and angles based on joiner
                     caps[dr] = False
-- 
2.43.0


From 254a46c43cb845cba21856d1465e6c1c20076ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:54 +0000
Subject: [PATCH 07/27] fix: prefer the joining edge that leads away from the
 tile

---
 dustmaker/level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 4997f93..c4e239a 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -531,7 +531,7 @@ class Level:
                     else:  # Slants
                         # No caps allowed on slant half edges
                         continue
-                    if dr:
+                    if not dr:
                         ddirs = ddirs[::-1]
 
                     for dx, dy in ddirs:
-- 
2.43.0


From fecf21785f3f3a9f03b77e86e0577bd31423f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:41 +0000
Subject: [PATCH 08/27] fix: honor the minimum in calculate_max_id when props
 and entities exist

---
 dustmaker/level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index c4e239a..14a0817 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -252,8 +252,7 @@ class Level:
         """
         init = 100 if reset else self._next_id - 1
 
-        # pylint: disable=nested-min-max
-        mx_id = max(max(self.props, default=init), max(self.entities, default=init))
+        mx_id = max([init, *self.props, *self.entities])
 
         if self.backdrop is not None:
             mx_id = max(mx_id, self.backdrop.calculate_max_id())
-- 
2.43.0


From d7ece94cd9a7690e8cd612b5cff0a7e8f9771315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:13 +0000
Subject: [PATCH 09/27] fix: never reallocate ids taken over by a merge

---
 dustmaker/level.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 14a0817..a144f15 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -274,6 +274,7 @@ class Level:
         self.tiles.update(copy.deepcopy(other_level.tiles))
         self.props.update(copy.deepcopy(other_level.props))
         self.entities.update(copy.deepcopy(other_level.entities))
+        self._note_id(max([0, *other_level.props, *other_level.entities]))
         if self.backdrop is not None and other_level.backdrop is not None:
             self.backdrop.merge(other_level.backdrop, remap_ids=False)
 
-- 
2.43.0


From 4b8fe3a01a21bcc6a3105d3bd38a4d155885cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:51 +0000
Subject: [PATCH 10/27] fix: remap the string list id of custom score books

---
 dustmaker/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 683fdb1..7e50546 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -845,6 +845,11 @@ class CustomScoreBook(Entity):
 
     TYPE_IDENTIFIER = "custom_score_book"
 
+    def remap_ids(self, id_map: Dict[int, int]) -> None:
+        """Remap the string list ID."""
+        super().remap_ids(id_map)
+        self.level_list = id_map.get(self.level_list, 0)
+
     level_list = bind_prop("level_list_id", VariableInt, 0, "ID of StringList entity")
 
 
-- 
2.43.0


From 627c202fccbd39f062674548913efccec04b4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 11/27] fix: make tiles hashable as documented

---
 dustmaker/tile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 13b18f6..f8eda2c 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -173,10 +173,11 @@ class Tile:
         return self._vals() == oth._vals()
 
     def __hash__(self):
-        return hash(self._vals())
+        # Edge data is mutable and so not hashable, leave it out.
+        return hash((self.shape, self.tile_flags, self.get_sprite_tuple()))
 
     def _vals(self):
-        """Values used for __eq__ and __hash__"""
+        """Values used for __eq__"""
         return (
             self.shape,
             self.tile_flags,
-- 
2.43.0


From df96743f546ef4766b9ca5387991f8cf092ecbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 12/27] fix: make struct and array variables hashable as
 documented

---
 dustmaker/variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index fac7d69..5f1c392 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -172,6 +172,9 @@ class VariableStruct(Variable):
     def __init__(self, value: Optional[Dict[str, Variable]] = None) -> None:
         super().__init__(dict(value or {}))
 
+    def __hash__(self):
+        return hash((self._vtype, frozenset(self.value.items())))
+
     def _assert_types(self) -> None:
         """Ensure value is dictionary of strs to Variables."""
         assert isinstance(self.value, dict)
@@ -209,6 +212,9 @@ class VariableArray(Variable, collections.abc.MutableSequence):
     ) -> None:
         super().__init__((element_type, list(values or [])))
 
+    def __hash__(self):
+        return hash((self._vtype, self.value[0], tuple(self.value[1])))
+
     @property
     def element_type(self) -> Type[Variable]:
         """Element type of this array"""
-- 
2.43.0


From ee100d25b8722a56ee0ae04e0bf205c528ce37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:20 +0000
Subject: [PATCH 13/27] fix: default trigger speeds to floats

---
 dustmaker/entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 7e50546..f454a50 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -361,7 +361,7 @@ class AmbienceTrigger(Trigger):
 
     TYPE_IDENTIFIER = "ambience_trigger"
 
-    speed = bind_prop("ambience_speed", VariableFloat, 5)
+    speed = bind_prop("ambience_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_ambience_names", VariableString)
     sound_vols = bind_prop_arr("sound_ambience_vol", VariableFloat)
 
@@ -371,7 +371,7 @@ class MusicTrigger(Trigger):
 
     TYPE_IDENTIFIER = "music_trigger"
 
-    speed = bind_prop("music_speed", VariableFloat, 5)
+    speed = bind_prop("music_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_music_names", VariableString)
     sound_vols = bind_prop_arr("sound_music_vol", VariableFloat)
 
-- 
2.43.0


From 960597545e9df10cdfac8ecaa4da9884bfb6419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:21 +0000
Subject: [PATCH 14/27] fix: accept all sublayers in FogTrigger.get_layer_index

---
 dustmaker/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index f454a50..033559c 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -329,7 +329,7 @@ class FogTrigger(Trigger):
         assert 0 <= layer <= 20
         if sublayer is None:
             return layer
-        assert 0 <= sublayer <= 20
+        assert 0 <= sublayer <= 24
         return (sublayer + 1) * 21 + layer
 
     speed = bind_prop("fog_speed", VariableFloat, 5.0)
-- 
2.43.0


From db28d4855cc845e16871385d36811a17a29b9aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:37 +0000
Subject: [PATCH 15/27] fix: merge JSON schemas of nested arrays

---
 dustmaker/cmd/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6c35489..70c5f15 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -54,6 +54,9 @@ def merge_schema(lhs: Any, rhs: Any) -> Any:
                 result[subkey] = merge_schema(r_subschema, subschema)
         return result
     if isinstance(lhs, list) and isinstance(rhs, list):
+        # An empty list stands for an array with an unknown element type.
+        if not lhs or not rhs:
+            return lhs or rhs
         return [merge_schema(lhs[0], rhs[0])]
     if not isinstance(lhs, str) or not isinstance(rhs, str):
         raise ValueError("unmergable schemas")
-- 
2.43.0


From 5e62439638556c1bd29a485fcb9e62486b423dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:59 +0000
Subject: [PATCH 16/27] fix: update variables of levels without regions

---
 dustmaker/cmd/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 70c5f15..2f472c6 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -210,7 +210,7 @@ class Variables(CliUtility):
 
         with DFWriter(open(args.object, "wb")) as writer:
             if header == b"DF_LVL":
-                assert level and region_offsets and region_data
+                assert level is not None and region_data is not None
                 level.variables = variables.value
                 writer.write_level_ex(level, region_offsets, region_data)
             else:
-- 
2.43.0


From 297b4c24345d2259ad1096b2655b4e85cdd5b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:14 +0000
Subject: [PATCH 17/27] fix: do not destroy a file when updating its variables
 fails

---
 dustmaker/cmd/variables.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 2f472c6..c709898 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -3,6 +3,7 @@
 Sample script to manipulate level variables.
 """
 import argparse
+import io
 import json
 import sys
 from typing import Any, Dict, Tuple, Type
@@ -208,7 +209,10 @@ class Variables(CliUtility):
 
         variables = json_to_variables(jdata["schema"], jdata["vars"])
 
-        with DFWriter(open(args.object, "wb")) as writer:
+        # Serialize everything before opening the object for writing so that a
+        # failure does not destroy it.
+        data = io.BytesIO()
+        with DFWriter(data, noclose=True) as writer:
             if header == b"DF_LVL":
                 assert level is not None and region_data is not None
                 level.variables = variables.value
@@ -216,6 +220,9 @@ class Variables(CliUtility):
             else:
                 writer.write_var_file(header, variables.value)
 
+        with open(args.object, "wb") as fobj:
+            fobj.write(data.getvalue())
+
         return 0
 
     @staticmethod
-- 
2.43.0


From d29f4f8323886793c50c2bb60958e502082dac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:55 +0000
Subject: [PATCH 18/27] fix: do not upscale the translation in the transform
 utility

---
 dustmaker/cmd/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 96fb739..5b8f650 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -81,9 +81,6 @@ class Transform(CliUtility):
         if args.hflip:
             mat = TxMatrix.HFLIP * mat
 
-        # Add in the translations
-        mat = mat.translate(args.translate_x, args.translate_y)
-
         if args.upscale > 1:
             # Need dustmod level type for proper scaling of entities/props
             if level.level_type == LevelType.NORMAL:
@@ -92,6 +89,9 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
+        # Shift last so that the translation itself isn't upscaled
+        level.translate(args.translate_x, args.translate_y)
+
         with DFWriter(open(args.output_level, "wb")) as writer:
             writer.write_level(level)
 
-- 
2.43.0


From 20fd957398da154b1b7a64e513e53b796876139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:05 +0000
Subject: [PATCH 19/27] fix: upscale backdrop tiles along with the level

---
 dustmaker/level.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index a144f15..f869331 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -365,11 +365,14 @@ class Level:
                 to :meth:`transform` along with the upscaling.
         """
         self.transform(mat * factor)
-        self.tiles = {
-            (layer, x + dx, y + dy): ntile
-            for (layer, x, y), tile in self.tiles.items()
-            for dx, dy, ntile in tile.upscale(factor)
-        }
+        for level in (self, self.backdrop):
+            if level is None:
+                continue
+            level.tiles = {
+                (layer, x + dx, y + dy): ntile
+                for (layer, x, y), tile in level.tiles.items()
+                for dx, dy, ntile in tile.upscale(factor)
+            }
 
     def calculate_edge_visibility(
         self,
-- 
2.43.0


From 1915732095557c2d8db730d8ef1df89577454c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:00 +0000
Subject: [PATCH 20/27] fix: report unknown variable types as
 LevelParseException

---
 dustmaker/dfreader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 6a754df..01584fa 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -73,6 +73,17 @@ class DFReader(BitIOReader):
                 chrs.append("{")
         return "".join(chrs)
 
+    def _read_variable_type(self) -> VariableType:
+        """Read the type of a variable
+
+        Raises:
+            LevelParseException: If there is no such type.
+        """
+        try:
+            return VariableType(self.read(4))
+        except ValueError as exc:
+            raise LevelParseException("unknown var type") from exc
+
     def read_variable(self, vtype: VariableType) -> Variable:
         """Read a variable of a given type.
 
@@ -101,7 +112,7 @@ class DFReader(BitIOReader):
             return VariableVec2((f0, f1))
 
         if vtype == VariableType.ARRAY:
-            atype = VariableType(self.read(4))
+            atype = self._read_variable_type()
             alen = self.read(16)
             val: List[Variable] = []
 
@@ -124,7 +135,7 @@ class DFReader(BitIOReader):
         if vtype == VariableType.STRUCT:
             result: Dict[str, Variable] = {}
             while True:
-                vtype = VariableType(self.read(4))
+                vtype = self._read_variable_type()
                 if vtype == VariableType.NULL:
                     break
 
-- 
2.43.0


From 6c31aa5268525683d330f4f2756322fea47341da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:00 +0000
Subject: [PATCH 21/27] fix: report null array element types as
 LevelParseException

---
 dustmaker/dfreader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 01584fa..b071c67 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -113,6 +113,8 @@ class DFReader(BitIOReader):
 
         if vtype == VariableType.ARRAY:
             atype = self._read_variable_type()
+            if atype == VariableType.NULL:
+                raise LevelParseException("unexpected null variable")
             alen = self.read(16)
             val: List[Variable] = []
 
-- 
2.43.0


From 2d833e00fcc9de4fea1cb9a1775ba98028cc0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:02 +0000
Subject: [PATCH 22/27] fix: stop reading a truncated replay at its end

---
 dustmaker/dfreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index b071c67..4001402 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -526,7 +526,10 @@ class DFReader(BitIOReader):
             input_data = bytearray()
             decomp = zlib.decompressobj()
             while not decomp.eof:
-                input_data += decomp.decompress(self.read_bytes(1))
+                data = self.read_bytes(1)
+                if not data:
+                    raise LevelParseException("unexpected end of replay")
+                input_data += decomp.decompress(data)
 
         with DFReader(io.BytesIO(input_data)) as sub_reader:
             inputs_len = sub_reader.read(32)  # pylint: disable=unused-variable
-- 
2.43.0


From e66af4988ab95577a5b2b5e2c424ac0480630081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:02 +0000
Subject: [PATCH 23/27] fix: stop reading replay intents at the end of the data

---
 dustmaker/dfreader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 4001402..74a6113 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -548,6 +548,8 @@ class DFReader(BitIOReader):
                     first = True
                     state = intent_meta.default
                     while True:
+                        if sub_reader.bit_tell() >= len(input_data) * 8:
+                            raise LevelParseException("unexpected end of intent data")
                         count = sub_reader.read(8)
                         if count == 0xFF:
                             break
-- 
2.43.0


From c24964925a7f569b434ef29c1f74ab1d8d07e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:59 +0000
Subject: [PATCH 24/27] fix: do not destroy a level when updating its thumbnail
 fails

---
 dustmaker/cmd/thumbnail.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustmaker/cmd/thumbnail.py b/dustmaker/cmd/thumbnail.py
index bdb487d..6088b40 100755
--- a/dustmaker/cmd/thumbnail.py
+++ b/dustmaker/cmd/thumbnail.py
@@ -97,9 +97,16 @@ class Thumbnail(CliUtility):
                 level.sshot = fimg.read()
 
         level.variables["icon_taken"] = VariableBool(True)
-        with DFWriter(open(args.level, "wb")) as writer:
+
+        # Serialize everything before opening the level for writing so that a
+        # failure does not destroy it.
+        data = io.BytesIO()
+        with DFWriter(data, noclose=True) as writer:
             writer.write_level_ex(level, region_offsets, region_data)
 
+        with open(args.level, "wb") as fobj:
+            fobj.write(data.getvalue())
+
         return 0
 
 
-- 
2.43.0


From 09a20503bce7bb21c1951320d5974ae96d5a8a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:07 +0000
Subject: [PATCH 25/27] fix: do not destroy a level when transforming it in
 place fails

---
 dustmaker/cmd/transform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 5b8f650..a8637be 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -5,7 +5,7 @@ Sample script to perform level transforms
 import argparse
 import sys
 
-from dustmaker import DFReader, DFWriter
+from dustmaker import DFReader, write_level
 from dustmaker.cmd.common import CliUtility, run_utility
 from dustmaker.level import LevelType
 from dustmaker.transform import TxMatrix
@@ -92,8 +92,11 @@ class Transform(CliUtility):
         # Shift last so that the translation itself isn't upscaled
         level.translate(args.translate_x, args.translate_y)
 
-        with DFWriter(open(args.output_level, "wb")) as writer:
-            writer.write_level(level)
+        # Serialize everything before opening the output for writing so that a
+        # failure does not destroy a level transformed in place.
+        data = write_level(level)
+        with open(args.output_level, "wb") as fobj:
+            fobj.write(data)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From a0b15a345b55112c924b4fc4f6959b72bc9dd084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:17 +0000
Subject: [PATCH 26/27] fix: translating by half a tile moves all tiles alike

---
 dustmaker/level.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index f869331..bfa3075 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -307,7 +307,10 @@ class Level:
                 tx, ty = mat.sample(x * 48 + 24, y * 48 + 24)
                 tx, ty = tx - 24 * mat.scale, ty - 24 * mat.scale
 
-                yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
+                # Always round half a tile the same way, otherwise neighboring
+                # tiles could end up at the same place.
+                nx, ny = math.floor(tx / 48.0 + 0.5), math.floor(ty / 48.0 + 0.5)
+                yield (layer, nx, ny), tile
 
         def _transform_props():
             for id_num, (layer, x, y, prop) in self.props.items():
-- 
2.43.0


From f832f4e576da7171ad093a656831ab8619964bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:18 +0000
Subject: [PATCH 27/27] fix: never allocate reserved ids after reading a level

---
 dustmaker/dfreader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 74a6113..64974ae 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -449,7 +449,7 @@ class DFReader(BitIOReader):
             sshot_data = self.read_bytes(sshot_len)
 
         level = Level()
-        level._next_id = meta["entityUid"]
+        level._note_id(meta["entityUid"] - 1)
         level.variables = self.read_variable_map()
         level.sshot = sshot_data
 
-- 
2.43.0


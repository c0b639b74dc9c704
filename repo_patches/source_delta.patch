From a1e627697755943b30f7a8232de87cc62b87580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 01/86] fix: leading color breaks must not consume a thread
 change index

---
 pyembroidery/EmbEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 90ae252..0967a3d 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -118,6 +118,8 @@ class Transcoder:
                 yield flags, thread, needle, order, None
             elif flags == NEEDLE_SET or flags == COLOR_CHANGE or flags == COLOR_BREAK:
                 yield flags, thread, needle, order, current_index
+                if flags == COLOR_BREAK and current_index == 0:
+                    continue  # Ignored before the start, the index is not consumed.
                 current_index += 1
 
     def build_thread_change_sequence(self):
-- 
2.43.0


From a0ab88dabfec1bd49b20854650b848c963d084b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 02/86] fix: plan thread changes in change order, not in
 insertion order

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 0967a3d..1238fbc 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -168,7 +168,7 @@ class Transcoder:
         needle_limit = self.needle_count
         thread_index = 0
         needle_index = 1
-        for order, s in change_sequence.items():
+        for order, s in sorted(change_sequence.items()):
             if s[0] is None:
                 s[0] = self.thread_change_command
             if s[1] is None:
-- 
2.43.0


From 25a0e7bb4f43eefe7a20552898fe82a246bd13cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 03/86] fix: encoder lookahead and tie checks must ignore
 command attribute bits

---
 pyembroidery/EmbEncoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 1238fbc..c982fc8 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -381,7 +381,7 @@ class Transcoder:
         source = self.source_pattern.stitches
         for pos in range(self.position, len(source)):
             stitch = source[pos]
-            flags = stitch[2]
+            flags = stitch[2] & COMMAND_MASK
             if flags == STITCH:
                 return True
             elif flags == NEEDLE_AT:
@@ -431,7 +431,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position - 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
@@ -450,7 +450,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position + 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
-- 
2.43.0


From d02a61062830c59acb792443a64d52cfa3f4320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 04/86] fix: a tie-off as first command must not lock toward
 the last stitch

---
 pyembroidery/EmbEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index c982fc8..8bf029e 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -427,6 +427,8 @@ class Transcoder:
 
     def tie_off(self):
         if self.tie_off_contingency == CONTINGENCY_TIE_OFF_THREE_SMALL:
+            if self.position == 0:
+                return  # Nothing precedes the first command.
             try:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position - 1]
-- 
2.43.0


From e7558a9af5ddf0d83e49ba9cdf9882a678b6ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 05/86] fix: Barudan DAT needle records call a method that does
 not exist

---
 pyembroidery/DatReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/DatReader.py b/pyembroidery/DatReader.py
index 4494278..1ed8e88 100644
--- a/pyembroidery/DatReader.py
+++ b/pyembroidery/DatReader.py
@@ -74,7 +74,7 @@ def read_barudan_dat(f, out):
         if 0x09 <= command <= 0x17:
             # C01 - C14
             needle = command - 0x08
-            out.needle_out(needle)
+            out.needle_change(needle)
             if dx != 0 or dy != 0:
                 out.move(dx, dy)
             continue
-- 
2.43.0


From e4d66f42c34232b83e3a928ed573c598ad6511ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 06/86] fix: XXX reader must stop at a truncated record

---
 pyembroidery/XxxReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyembroidery/XxxReader.py b/pyembroidery/XxxReader.py
index f6c8a6b..3aeb3b2 100644
--- a/pyembroidery/XxxReader.py
+++ b/pyembroidery/XxxReader.py
@@ -15,14 +15,20 @@ def read(f, out, settings=None):
         if b1 == 0x7D or b1 == 0x7E:  # not seen a 7E big jump code
             x = read_int_16le(f)
             y = read_int_16le(f)
+            if y is None:
+                break
             out.move(signed16(x), -signed16(y))
             continue
         b2 = read_int_8(f)
+        if b2 is None:
+            break
         if b1 != 0x7F:
             out.stitch(signed8(b1), -signed8(b2))
             continue
         b3 = read_int_8(f)
         b4 = read_int_8(f)
+        if b4 is None and b2 != 0x7F and b2 != 0x18:
+            break
         if b2 == 0x01:
             out.move(signed8(b3), -signed8(b4))
             continue
-- 
2.43.0


From 01feef766956c4f50cae1b1def089f3a46f573dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 07/86] fix: BRO reader must stop at a truncated record

---
 pyembroidery/BroReader.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pyembroidery/BroReader.py b/pyembroidery/BroReader.py
index cc232fb..9b9d530 100644
--- a/pyembroidery/BroReader.py
+++ b/pyembroidery/BroReader.py
@@ -14,6 +14,8 @@ def read_bro_stitches(f, out):
             out.stitch(signed8(b[0]), -signed8(b[1]))
             continue
         control = read_int_8(f)
+        if control is None:
+            break
         if control == 0x00:
             continue
         if control == 0x02:
@@ -21,21 +23,27 @@ def read_bro_stitches(f, out):
         if control == 0xE0:
             break
         if control == 0x7E:
-            x = signed16(read_int_16le(f))
-            y = signed16(read_int_16le(f))
-            out.move(x, -y)
+            x = read_int_16le(f)
+            y = read_int_16le(f)
+            if y is None:
+                break
+            out.move(signed16(x), -signed16(y))
             continue
         if control == 0x03:
-            x = signed16(read_int_16le(f))
-            y = signed16(read_int_16le(f))
-            out.move(x, -y)
+            x = read_int_16le(f)
+            y = read_int_16le(f)
+            if y is None:
+                break
+            out.move(signed16(x), -signed16(y))
             continue
         if 0xE0 < control < 0xF0:
             needle = control - 0xE0
+            x = read_int_16le(f)
+            y = read_int_16le(f)
+            if y is None:
+                break
             out.needle_change(needle)
-            x = signed16(read_int_16le(f))
-            y = signed16(read_int_16le(f))
-            out.move(x, -y)
+            out.move(signed16(x), -signed16(y))
             continue
         break  # Uncaught Control
     out.end()
-- 
2.43.0


From 3a46bc94f5bb69347440ffcf5e38a068df5f23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 08/86] fix: SPX reader must stop at a truncated record

---
 pyembroidery/SpxReader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/SpxReader.py b/pyembroidery/SpxReader.py
index b0bf437..d0e1577 100644
--- a/pyembroidery/SpxReader.py
+++ b/pyembroidery/SpxReader.py
@@ -7,11 +7,12 @@ def read(f, out, settings=None):
         b = bytearray(f.read(2))
         if len(b) != 2:
             break
-        dy = -signed16(read_int_16be(f))
-        dx = signed16(read_int_16be(f))
-        c = signed8(read_int_8(f))
-        dy -= c
+        dy = read_int_16be(f)
+        dx = read_int_16be(f)
+        c = read_int_8(f)
         b = bytearray(f.read(2))
         if len(b) != 2:
             break
+        dx = signed16(dx)
+        dy = -signed16(dy) - signed8(c)
         out.stitch(dx, dy)
-- 
2.43.0


From af3cac0fef06fe1239b534a98f31fddc5fed8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 09/86] fix: PMV reader must stop at a truncated record

---
 pyembroidery/PmvReader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/PmvReader.py b/pyembroidery/PmvReader.py
index d1443d9..2c4aa8b 100644
--- a/pyembroidery/PmvReader.py
+++ b/pyembroidery/PmvReader.py
@@ -27,7 +27,7 @@ def read_pmv_stitches(f, out, settings=None):
         stitch_count = read_int_16le(f)
         block_length = read_int_16le(f)
         if block_length is None:
-            return
+            break
         if block_length >= 256:
             break
         if stitch_count == 0:
@@ -35,6 +35,8 @@ def read_pmv_stitches(f, out, settings=None):
         for i in range(0, stitch_count):
             x = read_int_8(f)
             y = read_int_8(f)
+            if y is None:
+                break
             if y > 16:
                 y = -(32 - y)  # This is 5 bit signed number.
             if x > 32:
-- 
2.43.0


From 7227ecb7aa154954c07569fb115ab7a864ec86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 10/86] fix: MAX reader must stop at a truncated record

---
 pyembroidery/MaxReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/MaxReader.py b/pyembroidery/MaxReader.py
index c8d5a57..ab7e605 100644
--- a/pyembroidery/MaxReader.py
+++ b/pyembroidery/MaxReader.py
@@ -11,11 +11,11 @@ def read(f, out, settings=None):
         c0 = read_int_8(f)
         y = read_int_24le(f)
         c1 = read_int_8(f)
+        if c1 is None:
+            break
         x = signed24(x)
         y = signed24(y)
         x *= MAX_SIZE_CONVERSION_RATIO
         y *= MAX_SIZE_CONVERSION_RATIO
-        if c1 is None:
-            break
         out.stitch_abs(x, y)
     out.end()
-- 
2.43.0


From df031efa862fea1857d31c8d9bc95aca53aafd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 11/86] fix: SHV reader must stop at a truncated record

---
 pyembroidery/ShvReader.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/ShvReader.py b/pyembroidery/ShvReader.py
index 04d93c1..0d5b988 100644
--- a/pyembroidery/ShvReader.py
+++ b/pyembroidery/ShvReader.py
@@ -40,7 +40,7 @@ def read(f, out, settings=None):
     current_color_index = 0
     try:
         max_stitches = stitch_per_color[current_color_index]
-    except IndexError:
+    except KeyError:
         max_stitches = 0
     while True:
         flags = STITCH
@@ -67,10 +67,12 @@ def read(f, out, settings=None):
                 continue
             elif b1 == 1:
                 stitches_since_stop += 2
-                sx = signed16(read_int_16be(f))
-                sy = signed16(read_int_16be(f))
+                sx = read_int_16be(f)
+                sy = read_int_16be(f)
+                if sy is None:
+                    break
                 in_jump = True
-                out.move(sx, sy)
+                out.move(signed16(sx), signed16(sy))
                 continue
         dx = signed8(b0)
         dy = signed8(b1)
-- 
2.43.0


From 449002a4024bd4d9efa5badf10080f39096bddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 12/86] fix: PEC reader must stop at a truncated record

---
 pyembroidery/PecReader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/PecReader.py b/pyembroidery/PecReader.py
index 8d24360..28ce764 100644
--- a/pyembroidery/PecReader.py
+++ b/pyembroidery/PecReader.py
@@ -117,7 +117,8 @@ def read_pec_stitches(f, out):
         if (val1 == 0xFF and val2 == 0x00) or val2 is None:
             break
         if val1 == 0xFE and val2 == 0xB0:
-            f.seek(1, 1)
+            if read_int_8(f) is None:
+                break
             out.color_change(0, 0)
             continue
         jump = False
-- 
2.43.0


From 21808353226760d9a7d09346d9a5377b4a7d3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 13/86] fix: duplicate colors as stops must follow every
 change, also unsewn ones

---
 pyembroidery/EmbPattern.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 7b4e7e0..0df8f8c 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -654,29 +654,23 @@ class EmbPattern:
     def interpolate_duplicate_color_as_stop(self):
         """Processes a pattern replacing any duplicate colors in the threadlist as a stop."""
         thread_index = 0
-        init_color = True
-        last_change = None
-        for position, stitch in enumerate(self.stitches):
+        sewn = False
+        for stitch in self.stitches:
             data = stitch[2] & COMMAND_MASK
             if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
-                if init_color:
-                    try:
-                        if (
-                            last_change is not None
-                            and thread_index != 0
-                            and self.threadlist[thread_index - 1]
-                            == self.threadlist[thread_index]
-                        ):
-                            del self.threadlist[thread_index]
-                            self.stitches[last_change][2] = STOP
-                        else:
-                            thread_index += 1
-                    except IndexError:  # Non-existent threads cannot double
-                        return
-                    init_color = False
-            elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
-                init_color = True
-                last_change = position
+                sewn = True
+            elif data == COLOR_CHANGE or (
+                sewn and (data == COLOR_BREAK or data == NEEDLE_SET)
+            ):
+                # Every change moves to the next thread, whether it is sewn or not.
+                try:
+                    if self.threadlist[thread_index] == self.threadlist[thread_index + 1]:
+                        del self.threadlist[thread_index + 1]
+                        stitch[2] = STOP
+                    else:
+                        thread_index += 1
+                except IndexError:  # Non-existent threads cannot double
+                    return
 
     def interpolate_stop_as_duplicate_color(self, thread_change_command=COLOR_CHANGE):
         """Processes a pattern replacing any stop as a duplicate color, and color_change
-- 
2.43.0


From 4746ffe04dc1ed8aef69c00c87900e26bd3595b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 14/86] fix: a leading needle set or color break does not
 change the thread a stop duplicates

---
 pyembroidery/EmbPattern.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 0df8f8c..24c86e5 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -676,11 +676,14 @@ class EmbPattern:
         """Processes a pattern replacing any stop as a duplicate color, and color_change
         or another specified thread_change_command"""
         thread_index = 0
+        sewn = False
         for position, stitch in enumerate(self.stitches):
             data = stitch[2] & COMMAND_MASK
             if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
-                continue
-            elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
+                sewn = True
+            elif data == COLOR_CHANGE or (
+                sewn and (data == COLOR_BREAK or data == NEEDLE_SET)
+            ):
                 thread_index += 1
             elif data == STOP:
                 try:
-- 
2.43.0


From 2b6ea3c95dd94fb470187921f6b11de1dfdb9ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 15/86] fix: any command other than a jump ends a run of jumps

---
 pyembroidery/EmbPattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 24c86e5..21d7499 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -760,11 +760,11 @@ class EmbPattern:
             command = stitch[2] & COMMAND_MASK
             if command == STITCH or command == SEQUIN_EJECT:
                 trimmed = False
-                jumping = False
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
-                jumping = False
-            if command == JUMP:
+            if command != JUMP:
+                jumping = False  # Any other command ends the run of jumps.
+            else:
                 if not jumping:
                     jump_dx = 0
                     jump_dy = 0
-- 
2.43.0


From 8ae0672e20d96572dca169ecdeccdb8e614dbed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 16/86] fix: JEF reader left stops as missing threads and
 failed on missing colors

---
 pyembroidery/JefReader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/JefReader.py b/pyembroidery/JefReader.py
index dd884d5..3b8855c 100644
--- a/pyembroidery/JefReader.py
+++ b/pyembroidery/JefReader.py
@@ -24,7 +24,10 @@ def read_jef_stitches(f, out, settings=None):
             continue
         if ctrl == 0x01:
             # PATCH: None means stop since it was color #0
-            if out.threadlist[color_index] is None:
+            if (
+                color_index < len(out.threadlist)
+                and out.threadlist[color_index] is None
+            ):
                 out.stop(0, 0)
                 del out.threadlist[color_index]
             else:
@@ -35,6 +38,8 @@ def read_jef_stitches(f, out, settings=None):
             break
         break  # Uncaught Control
     out.end(0, 0)
+    # Stops not reached by the stitches are not threads.
+    out.threadlist[:] = [t for t in out.threadlist if t is not None]
 
     clipping = True
     trims = False
-- 
2.43.0


From 5bd54b5d3b3f236f736471a00d5f86ee42e24f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 17/86] fix: JPX color change displacement along one axis was
 dropped

---
 pyembroidery/JpxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JpxReader.py b/pyembroidery/JpxReader.py
index 86e1d42..dec6405 100644
--- a/pyembroidery/JpxReader.py
+++ b/pyembroidery/JpxReader.py
@@ -22,7 +22,7 @@ def read_jpx_stitches(f, out):
             continue
         if ctrl == 0x01:  # Colorchange
             out.color_change()
-            if x != 0 and y != 0:
+            if x != 0 or y != 0:
                 out.move(x, y)
             continue
         if ctrl == 0x10:
-- 
2.43.0


From c03a17354c4f717ab17d006de775c94036d0a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 18/86] fix: XXX stitch of the maximum length must stay a
 stitch

---
 pyembroidery/XxxWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 913a533..bc6b97b 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -82,7 +82,7 @@ def write_xxx_stitches(pattern, f):
         if data == END:
             break
         if data == STITCH:
-            if -124 < dx < 124 and -124 < dy < 124:
+            if -125 < dx < 125 and -125 < dy < 125:
                 write_int_8(f, dx)
                 write_int_8(f, -dy)
                 continue
-- 
2.43.0


From 5926cdc30f7030a7e6c9cab7c4b131361392b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 19/86] fix: U01 speed commands must not turn into trims,
 swallow a stitch or change places

---
 pyembroidery/U01Writer.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index cb8a57f..f4d5d3a 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -31,8 +31,7 @@ def write(pattern, f, settings=None):
         f.write(b"\x00")
     xx = 0
     yy = 0
-    trigger_fast = False
-    trigger_slow = False
+    speed = 0  # speed command waiting for its record
     for stitch in stitches:
         x = stitch[0]
         y = stitch[1]
@@ -41,11 +40,16 @@ def write(pattern, f, settings=None):
         dy = int(round(y - yy))
         xx += dx
         yy += dy
+        moves = (data == STITCH or data == JUMP) and (dx != 0 or dy != 0)
+        if speed != 0 and not moves:
+            # Only a move can carry the speed command.
+            f.write(bytes(bytearray([0xE0 | speed, 0, 0])))
+            speed = 0
         if data == SLOW:
-            trigger_slow = True
+            speed = 0x04
             continue
         if data == FAST:
-            trigger_fast = True
+            speed = 0x02
             continue
         cmd = 0x80
         if dy >= 0:
@@ -55,20 +59,12 @@ def write(pattern, f, settings=None):
         delta_x = abs(dx)
         delta_y = abs(dy)
         if data == STITCH:
-            if trigger_fast:
-                trigger_fast = False
-                cmd |= 0x02
-            if trigger_slow:
-                trigger_slow = False
-                cmd |= 0x04
+            cmd |= speed
+            speed = 0
             f.write(bytes(bytearray([cmd, delta_y, delta_x])))
-        elif data == JUMP:  # If you did both FAST, SLOW, and JUMP, you'd get a trim.
-            if trigger_fast:
-                trigger_fast = False
-                cmd |= 0x02
-            if trigger_slow:
-                trigger_slow = False
-                cmd |= 0x04
+        elif data == JUMP:
+            cmd |= speed
+            speed = 0
             cmd |= 0x01
             f.write(bytes(bytearray([cmd, delta_y, delta_x])))
         elif data == STOP:
-- 
2.43.0


From 154298824c1f7c24bd3a13d2fb90c5965d43ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 20/86] fix: DST commands without a record must not add a
 stitch

---
 pyembroidery/DstWriter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 0084404..a011bf3 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -9,6 +9,16 @@ MAX_STITCH_DISTANCE = 121
 
 PPMM = 10
 DSTHEADERSIZE = 512
+DST_COMMANDS = (
+    STITCH,
+    JUMP,
+    TRIM,
+    STOP,
+    END,
+    COLOR_CHANGE,
+    SEQUIN_MODE,
+    SEQUIN_EJECT,
+)
 
 
 def bit(b):
@@ -169,6 +179,8 @@ def write(pattern, f, settings=None):
         x = stitch[0]
         y = stitch[1]
         data = stitch[2] & COMMAND_MASK
+        if data not in DST_COMMANDS:
+            continue  # DST has no record for this command.
         dx = int(round(x - xx))
         dy = int(round(y - yy))
 
-- 
2.43.0


From 0ef1d8299db57e3d2eac5801045c009bf8fa5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 21/86] fix: G-code writer must not stop at a command it has no
 code for

---
 pyembroidery/GcodeWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index b049aac..d2b88cd 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -98,4 +98,4 @@ def write(pattern, f, settings=None):
         elif command == END:
             write_string_utf8(f, "M30\n")
             continue
-        break  # Code shouldn't reach this point.
+        # Other commands have no code and are not written.
-- 
2.43.0


From 2c863c2b61a78c37ac60626e4993c0155c821dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 22/86] fix: VP3 positions must be rounded, not truncated

---
 pyembroidery/Vp3Writer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 43e62fd..3e10401 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -123,8 +123,8 @@ def write_design_block(f, extends, colorblocks):
     center_x = extends[2] - half_width
     center_y = extends[3] - half_height
 
-    write_int_32be(f, int(center_x) * 100)  # initial x
-    write_int_32be(f, int(center_y) * -100)  # initial y
+    write_int_32be(f, int(round(center_x * 100)))  # initial x
+    write_int_32be(f, int(round(center_y * -100)))  # initial y
     write_int_8(f, 0)
     write_int_8(f, 0)
     write_int_8(f, 0)
@@ -181,8 +181,8 @@ def write_vp3_colorblock(f, first, center_x, center_y, stitches, thread):
         last_pos_y = 0
     start_position_from_center_x = first_pos_x - center_x
     start_position_from_center_y = -(first_pos_y - center_y)
-    write_int_32be(f, int(start_position_from_center_x) * 100)
-    write_int_32be(f, int(start_position_from_center_y) * 100)
+    write_int_32be(f, int(round(start_position_from_center_x * 100)))
+    write_int_32be(f, int(round(start_position_from_center_y * 100)))
 
     vp3_write_thread(f, thread)
 
@@ -252,8 +252,8 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
             # VP3 has no jump commands. These are skipped.
             # It moves to the relevant location without needing to block the needlebar.
             continue
-        dx = int(x - last_x)
-        dy = int(y - last_y)
+        dx = int(round(x - last_x))
+        dy = int(round(y - last_y))
         last_x += dx
         last_y += dy
         if flags == STITCH:
-- 
2.43.0


From a16bce96d4a8fdf10cb9dd15184109ed4a03b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 23/86] fix: VP3 colour block starting on an axis must still
 start there

---
 pyembroidery/Vp3Reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index 3f973f6..8a15554 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -76,7 +76,7 @@ def vp3_read_colorblock(f, out, center_x, center_y):
     start_position_y = -(signed32(read_int_32be(f)) / 100)
     abs_x = start_position_x + center_x
     abs_y = start_position_y + center_y
-    if abs_x != 0 and abs_y != 0:
+    if abs_x != out._previousX or abs_y != out._previousY:
         out.move_abs(abs_x, abs_y)
     thread = vp3_read_thread(f)
     out.add_thread(thread)
-- 
2.43.0


From 08a482bf4520b5597542eaad46b10491d48f1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 24/86] fix: TBF jump of no length must not be written as a
 trim

---
 pyembroidery/TbfWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index bf47301..2985254 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -103,6 +103,8 @@ def write(pattern, f, settings=None):
             cmd = 0x80
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
         elif data == JUMP:
+            if dx == 0 and dy == 0:
+                continue  # 00 00 90 is a trim.
             cmd = 0x90
             f.write(bytes(bytearray([dx & 0xFF, -dy & 0xFF, cmd])))
         elif data == STOP:
-- 
2.43.0


From 22977f2954995d5504d711a6fe22d76402257e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 25/86] fix: merging jumps to trims must count every run to its
 end

---
 pyembroidery/EmbPattern.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 21d7499..ec642a5 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -803,7 +803,6 @@ class EmbPattern:
         new_pattern = EmbPattern()
         i = -1
         ie = len(self.stitches) - 1
-        count = 0
         trimmed = True
         while i < ie:
             i += 1
@@ -813,20 +812,17 @@ class EmbPattern:
                 trimmed = False
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
-            if trimmed or stitch[2] != JUMP:
+            if trimmed or command != JUMP:
                 new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
                 continue
-            while i < ie and command == JUMP:
+            count = 1
+            while i < ie and self.stitches[i + 1][2] & COMMAND_MASK == JUMP:
                 i += 1
-                stitch = self.stitches[i]
-                command = stitch[2]
                 count += 1
-            if command != JUMP:
-                i -= 1
             stitch = self.stitches[i]
             if count >= jumps_to_require_trim:
                 new_pattern.trim()
-            count = 0
+                trimmed = True
             new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
         new_pattern.threadlist.extend(self.threadlist)
         new_pattern.extras.update(self.extras)
-- 
2.43.0


From f3ae6c33b6a998e52708b1811b80dc96e501c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 26/86] fix: every run of jumps must be merged to its own
 stitch break

---
 pyembroidery/EmbPattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index ec642a5..60f9713 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -844,6 +844,7 @@ class EmbPattern:
                 new_pattern.add_command(STITCH_BREAK)
                 stitch_break = True
                 continue
+            stitch_break = False
             new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
         new_pattern.threadlist.extend(self.threadlist)
         new_pattern.extras.update(self.extras)
-- 
2.43.0


From bbbb0f919170f129c6b2d8f824a1ba47b1a37d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 27/86] fix: frame ejects must not swallow other commands

---
 pyembroidery/EmbPattern.py | 46 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 60f9713..8346202 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -700,40 +700,30 @@ class EmbPattern:
         stop_y = None
         sequence_start_position = None
         position = 0
-        ie = len(self.stitches)
-        while position < ie:
-            stitch = self.stitches[position]
-            data = stitch[2] & COMMAND_MASK
-            if (
-                data == STITCH
-                or data == SEW_TO
-                or data == NEEDLE_AT
-                or data == COLOR_CHANGE
-                or data == COLOR_BREAK
-                or data == NEEDLE_SET
-            ):
-                if mode == 3:
-                    del self.stitches[sequence_start_position:position]
-                    position = sequence_start_position
-                    self.stitches.insert(position, [stop_x, stop_y, FRAME_EJECT])
-                    ie = len(self.stitches)
-                mode = 0
-            elif data == JUMP:
+        while position <= len(self.stitches):
+            if position < len(self.stitches):
+                stitch = self.stitches[position]
+                data = stitch[2] & COMMAND_MASK
+            else:
+                data = END
+            if data == JUMP:
                 if mode == 2:
                     mode = 3
                 if mode == 0:
                     sequence_start_position = position
                     mode = 1
-            elif data == STOP:
-                if mode == 1:
-                    mode = 2
-                    stop_x = stitch[0]
-                    stop_y = stitch[1]
+            elif data == STOP and mode == 1:
+                mode = 2
+                stop_x = stitch[0]
+                stop_y = stitch[1]
+            else:  # Any other command ends the sequence and stays.
+                if mode == 3 or (mode == 2 and data == END):
+                    del self.stitches[sequence_start_position:position]
+                    position = sequence_start_position
+                    self.stitches.insert(position, [stop_x, stop_y, FRAME_EJECT])
+                    position += 1
+                mode = 0
             position += 1
-        if mode >= 2:  # Frame_eject at end.
-            del self.stitches[sequence_start_position:position]
-            position = sequence_start_position
-            self.stitches.insert(position, [stop_x, stop_y, FRAME_EJECT])
 
     def interpolate_trims(
         self, jumps_to_require_trim=None, distance_to_require_trim=None, clipping=True
-- 
2.43.0


From c8de2bee130ceab01d49bc55f76d43954b5573c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 28/86] fix: VP3 commands without a record must not move the
 needle

---
 pyembroidery/Vp3Writer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 3e10401..72508c8 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -252,11 +252,11 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
             # VP3 has no jump commands. These are skipped.
             # It moves to the relevant location without needing to block the needlebar.
             continue
-        dx = int(round(x - last_x))
-        dy = int(round(y - last_y))
-        last_x += dx
-        last_y += dy
         if flags == STITCH:
+            dx = int(round(x - last_x))
+            dy = int(round(y - last_y))
+            last_x += dx
+            last_y += dy
             if -127 <= dx <= 127 and -127 <= dy <= 127 and alt == 0:
                 write_int_8(f, dx)
                 write_int_8(f, dy)
-- 
2.43.0


From 01f2a917312a1aa3e82b126d221c3bb204755db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 29/86] fix: bounds of a design without commands are not
 infinite

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 8346202..6e89877 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -325,6 +325,8 @@ class EmbPattern:
     def bounds(self):
         """Returns the bounds of the stitch data:
         min_x, min_y, max_x, max_y"""
+        if len(self.stitches) == 0:
+            return 0, 0, 0, 0
         min_x = float("inf")
         min_y = float("inf")
         max_x = -float("inf")
-- 
2.43.0


From 1075ddf02944d7bfc2bd3a0c4f7e009272f3b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 30/86] fix: JEF palette has the initial colour and one entry
 per change

---
 pyembroidery/JefWriter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 0fdace4..38e1596 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -42,9 +42,13 @@ def write(pattern, f, settings=None):
     for stitch in pattern.stitches:
         # Iterate all stitches.
         flags = stitch[2] & COMMAND_MASK
-        if flags == COLOR_CHANGE or index_in_threadlist == 0:
-            # If color change *or* initial color unset.
-            thread = pattern.threadlist[index_in_threadlist]
+        entries = 0
+        if index_in_threadlist == 0:
+            entries += 1  # initial color unset.
+        if flags == COLOR_CHANGE:
+            entries += 1
+        for entry in range(entries):
+            thread = pattern.get_thread_or_filler(index_in_threadlist)
             index_in_threadlist += 1
             color_count += 1
             index_of_jefthread = thread.find_nearest_color_index(jef_threads)
-- 
2.43.0


From 57cf75c7b735799ccafd6d4fe6e54d03cb79c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 31/86] fix: DST header never grows beyond its 512 bytes

---
 pyembroidery/DstReader.py | 10 ++++++++--
 pyembroidery/DstWriter.py | 32 ++++++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/pyembroidery/DstReader.py b/pyembroidery/DstReader.py
index 31bca02..adccc51 100644
--- a/pyembroidery/DstReader.py
+++ b/pyembroidery/DstReader.py
@@ -40,8 +40,14 @@ def process_header_info(out, prefix, value):
     elif prefix == "CP":
         out.metadata("copyright", value)
     elif prefix == "TC":
-        values = [x.strip() for x in value.split(",")]
-        out.add_thread({"hex": values[0], "description": values[1], "catalog": values[2]})
+        color, _, text = value.partition(",")
+        description, _, catalog = text.rpartition(",")
+        thread = {"hex": color.strip()}
+        if description.strip():
+            thread["description"] = description.strip()
+        if catalog.strip():
+            thread["catalog"] = catalog.strip()
+        out.add_thread(thread)
     else:
         out.metadata(prefix, value)
 
diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index a011bf3..5813701 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -114,6 +114,15 @@ def encode_record(x, y, flags):
     return bytes(bytearray([b0, b1, b2]))
 
 
+def header_text(value, size):
+    """Text for the header: one line of at most size bytes."""
+    text = " ".join(("%s" % value).split("\x1a"))
+    text = " ".join(text.splitlines())
+    while len(text.encode("utf8")) > size:
+        text = text[:-1]
+    return text
+
+
 def write(pattern, f, settings=None):
     extended_header = False
     trim_at = 3
@@ -129,7 +138,9 @@ def write(pattern, f, settings=None):
 
     name = pattern.get_metadata("name", "Untitled")
 
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    name = header_text(name, 16)
+    name += " " * (16 - len(name.encode("utf8")))
+    write_string_utf8(f, "LA:%s\r" % name)
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_color_changes())
 
@@ -157,17 +168,26 @@ def write(pattern, f, settings=None):
     if extended_header:
         author = pattern.get_metadata("author")
         if author is not None:
+            author = header_text(author, DSTHEADERSIZE - f.tell() - 5)
             write_string_utf8(f, "AU:%s\r" % author)
         meta_copyright = pattern.get_metadata("copyright")
         if meta_copyright is not None:
-            write_string_utf8(f, "CP:%s\r" % meta_copyright)
+            space = DSTHEADERSIZE - f.tell() - 5
+            if space > 0:
+                meta_copyright = header_text(meta_copyright, space)
+                write_string_utf8(f, "CP:%s\r" % meta_copyright)
         if len(pattern.threadlist) > 0:
             for thread in pattern.threadlist:
-                write_string_utf8(
-                    f,
-                    "TC:%s,%s,%s\r"
-                    % (thread.hex_color(), thread.description, thread.catalog_number),
+                line = "TC:%s,%s,%s" % (
+                    thread.hex_color(),
+                    "" if thread.description is None else thread.description,
+                    "" if thread.catalog_number is None else thread.catalog_number,
                 )
+                space = DSTHEADERSIZE - f.tell() - 2
+                line = header_text(line, 3 * DSTHEADERSIZE)
+                if len(line.encode("utf8")) > space:
+                    break  # the header is full.
+                write_string_utf8(f, "%s\r" % line)
     f.write(b"\x1a")
     for i in range(f.tell(), DSTHEADERSIZE):
         f.write(b"\x20")  # space
-- 
2.43.0


From f741c5e0b3830c2750f242a99688648a0cb7cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 32/86] fix: fix_color_count must count the changes that are
 not sewn

---
 pyembroidery/EmbPattern.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 6e89877..d66cdcb 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -495,16 +495,19 @@ class EmbPattern:
     def fix_color_count(self):
         """Ensure that there are threads for all color blocks."""
         thread_index = 0
-        init_color = True
+        thread_count = 0
+        sewn = False
         for stitch in self.stitches:
             data = stitch[2] & COMMAND_MASK
             if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
-                if init_color:
-                    thread_index += 1
-                    init_color = False
-            elif data == COLOR_CHANGE or data == COLOR_BREAK or data == NEEDLE_SET:
-                init_color = True
-        while len(self.threadlist) < thread_index:
+                sewn = True
+                thread_count = thread_index + 1
+            elif data == COLOR_CHANGE or (
+                sewn and (data == COLOR_BREAK or data == NEEDLE_SET)
+            ):
+                # Every change moves to the next thread, whether it is sewn or not.
+                thread_index += 1
+        while len(self.threadlist) < thread_count:
             self.add_thread(self.get_thread_or_filler(len(self.threadlist)))
 
     def add_stitch_absolute(self, cmd, x=0, y=0):
-- 
2.43.0


From 305f800c44941092872d9a64d2bfeb5b6f046aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 33/86] fix: PES version 6 of a design in which nothing is sewn

---
 pyembroidery/PesWriter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 7a48c58..f52abe7 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -315,11 +315,18 @@ def write_pes_sewsegheader(f, left, top, right, bottom):
     return placeholder_needs_section_data
 
 
+def get_color_code(thread, chart):
+    color_code = thread.find_nearest_color_index(chart)
+    if color_code is None:
+        color_code = 0  # There are no colors, because nothing is sewn.
+    return color_code
+
+
 def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
     color_index = 0
     current_thread = pattern.get_thread_or_filler(color_index)
     color_index += 1
-    color_code = current_thread.find_nearest_color_index(chart)
+    color_code = get_color_code(current_thread, chart)
     stitched_x = 0
     stitched_y = 0
     for command_block in pattern.get_as_command_blocks():
@@ -333,7 +340,7 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
         elif command == COLOR_CHANGE:
             current_thread = pattern.get_thread_or_filler(color_index)
             color_index += 1
-            color_code = current_thread.find_nearest_color_index(chart)
+            color_code = get_color_code(current_thread, chart)
             flag = 1
             continue
         elif command == STITCH:
-- 
2.43.0


From f98331aa0f32226f69e25e77ade3fb411a59f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 34/86] fix: a copied pattern does not share its commands and
 threads with the original

---
 pyembroidery/EmbPattern.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index d66cdcb..66bfcd4 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1,4 +1,5 @@
 import os
+from copy import deepcopy
 
 import pyembroidery.A10oReader as A10oReader
 import pyembroidery.A100Reader as A100Reader
@@ -87,8 +88,8 @@ class EmbPattern:
         if len_args >= 1:
             arg0 = args[0]
             if isinstance(arg0, EmbPattern):
-                self.stitches = arg0.stitches[:]
-                self.threadlist = arg0.threadlist[:]
+                self.stitches = [stitch[:] for stitch in arg0.stitches]
+                self.threadlist = deepcopy(arg0.threadlist)
                 self.extras.update(arg0.extras)
                 self._previousX = arg0._previousX
                 self._previousY = arg0._previousY
@@ -145,7 +146,7 @@ class EmbPattern:
     def __copy__(self):
         return self.copy()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo=None):
         return self.copy()
 
     def __iadd__(self, other):
@@ -206,8 +207,8 @@ class EmbPattern:
 
     def copy(self):
         emb_pattern = EmbPattern()
-        emb_pattern.stitches = self.stitches[:]
-        emb_pattern.threadlist = self.threadlist[:]
+        emb_pattern.stitches = [stitch[:] for stitch in self.stitches]
+        emb_pattern.threadlist = deepcopy(self.threadlist)
         emb_pattern.extras.update(self.extras)
         emb_pattern._previousX = self._previousX
         emb_pattern._previousY = self._previousY
-- 
2.43.0


From 70e516e0e5a77859ad90fea12daf8d947a0c3ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 35/86] fix: adding an empty list leaves the pattern

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 66bfcd4..df0f825 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -163,7 +163,7 @@ class EmbPattern:
             self.add_command(other)
         elif isinstance(other, list) or isinstance(other, tuple):  # tuple or list
             if len(other) == 0:
-                return
+                return self
             v = other[0]
             if isinstance(v, list) or isinstance(
                 v, tuple
-- 
2.43.0


From 40c31831dab460ccf87d106b74661aacfe70c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 36/86] fix: in-place matrix multiplication gives the matrix

---
 pyembroidery/EmbMatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index a8c69ab..363768d 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -22,6 +22,7 @@ class EmbMatrix:
 
     def __imatmul__(self, other):
         self.m = EmbMatrix.matrix_multiply(self.m, other.m)
+        return self
 
     def __str__(self):
         return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
-- 
2.43.0


From 6637d4da3d67736a88770029ec936869fd25dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 37/86] fix: no command block in a pattern without commands

---
 pyembroidery/EmbPattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index df0f825..bb2294f 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -418,7 +418,8 @@ class EmbPattern:
             last_command = command
             yield self.stitches[last_pos:pos]
             last_pos = pos
-        yield self.stitches[last_pos:]
+        if last_pos < len(self.stitches):
+            yield self.stitches[last_pos:]
 
     def get_as_colorblocks(self):
         """
-- 
2.43.0


From 45879dceaac7d061b31ce2ff987a0adef6840db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 38/86] fix: stitch blocks have the thread of their color block

---
 pyembroidery/EmbPattern.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index bb2294f..405ffff 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -390,22 +390,17 @@ class EmbPattern:
                 yield stitch
 
     def get_as_stitchblock(self):
-        stitchblock = []
-        thread = self.get_thread_or_filler(0)
-        thread_index = 1
-        for stitch in self.stitches:
-            flags = stitch[2] & COMMAND_MASK
-            if flags == STITCH:
-                stitchblock.append(stitch)
-            else:
-                if len(stitchblock) > 0:
+        for colorblock, thread in self.get_as_colorblocks():
+            stitchblock = []
+            for stitch in colorblock:
+                flags = stitch[2] & COMMAND_MASK
+                if flags == STITCH:
+                    stitchblock.append(stitch)
+                elif len(stitchblock) > 0:
                     yield (stitchblock, thread)
                     stitchblock = []
-                if flags == COLOR_CHANGE:
-                    thread = self.get_thread_or_filler(thread_index)
-                    thread_index += 1
-        if len(stitchblock) > 0:
-            yield (stitchblock, thread)
+            if len(stitchblock) > 0:
+                yield (stitchblock, thread)
 
     def get_as_command_blocks(self):
         last_pos = 0
-- 
2.43.0


From b95e403e41409c645d0fc43500e83dcc7b428f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 39/86] fix: add_pattern scales when only the y scale is given

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 405ffff..249bf46 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -625,7 +625,7 @@ class EmbPattern:
             if dy is None:
                 dy = 0
             self.add_command(MATRIX_TRANSLATE, dx, dy)
-        if sx is not None or sx is not None:
+        if sx is not None or sy is not None:
             if sx is None:
                 sx = sy
             if sy is None:
-- 
2.43.0


From d9f6702cc9d7e902fa842b4fdaf57d1c1550e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 40/86] fix: add_pattern leaves the added pattern alone

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 249bf46..f211b85 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -643,7 +643,7 @@ class EmbPattern:
                 self.threadlist.extend(pattern.threadlist)
                 self.color_change()
         join_position = len(self.stitches)
-        self.stitches.extend(pattern.stitches)
+        self.stitches.extend([stitch[:] for stitch in pattern.stitches])
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-- 
2.43.0


From 0359f2e9add67e6df6bf0104946b2903bffea223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 41/86] fix: add_pattern to a pattern without commands or
 threads

---
 pyembroidery/EmbPattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index f211b85..e366658 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -617,7 +617,7 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if self.stitches[-1][2] == END:
+        if len(self.stitches) > 0 and self.stitches[-1][2] & COMMAND_MASK == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
@@ -637,7 +637,9 @@ class EmbPattern:
         self.fix_color_count()
 
         if len(pattern.threadlist) > 0:
-            if pattern.threadlist[0] == self.threadlist[-1]:
+            if len(self.threadlist) == 0:
+                self.threadlist.extend(pattern.threadlist)
+            elif pattern.threadlist[0] == self.threadlist[-1]:
                 self.threadlist.extend(pattern.threadlist[1:])
             else:
                 self.threadlist.extend(pattern.threadlist)
-- 
2.43.0


From 91e993c451f47b11145fb3a062f869467ecba01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 42/86] fix: add_pattern keeps the thread of every block

---
 pyembroidery/EmbPattern.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index e366658..01bdfda 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -617,7 +617,10 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if len(self.stitches) > 0 and self.stitches[-1][2] & COMMAND_MASK == END:
+        while len(self.stitches) > 0 and self.stitches[-1][2] & COMMAND_MASK in (
+            END,
+            COLOR_BREAK,
+        ):
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
@@ -635,15 +638,29 @@ class EmbPattern:
             self.add_command(MATRIX_ROTATE, rotate)
         # Add the new thread only if it's different from the last one
         self.fix_color_count()
+        thread_index = 0  # The thread in force at the end of the current pattern.
+        sewn = False
+        for stitch in self.stitches:
+            data = stitch[2] & COMMAND_MASK
+            if data == STITCH or data == SEW_TO or data == NEEDLE_AT:
+                sewn = True
+            elif data == COLOR_CHANGE or (
+                sewn and (data == COLOR_BREAK or data == NEEDLE_SET)
+            ):
+                thread_index += 1
 
         if len(pattern.threadlist) > 0:
-            if len(self.threadlist) == 0:
-                self.threadlist.extend(pattern.threadlist)
-            elif pattern.threadlist[0] == self.threadlist[-1]:
-                self.threadlist.extend(pattern.threadlist[1:])
+            while len(self.threadlist) < thread_index:
+                self.add_thread(self.get_thread_or_filler(len(self.threadlist)))
+            position = thread_index + 1
+            threads = pattern.threadlist[:]
+            if not sewn or len(self.threadlist) == thread_index:
+                position = thread_index  # Nothing is sewn with that thread yet.
+            elif threads[0] == self.threadlist[thread_index]:
+                threads = threads[1:]
             else:
-                self.threadlist.extend(pattern.threadlist)
                 self.color_change()
+            self.threadlist[position:position] = threads
         join_position = len(self.stitches)
         self.stitches.extend([stitch[:] for stitch in pattern.stitches])
 
-- 
2.43.0


From bd89143ca22128abca0a7530a83fa2736dc0b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 43/86] fix: equal threads keep the JEF palette entry

---
 pyembroidery/EmbThread.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 995789d..0c1d9df 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -29,7 +29,9 @@ def build_nonrepeat_palette(thread_palette, threadlist):
     palette = []
     for thread in threadlist:  # for each thread, return the index.
         index = thread.find_nearest_color_index(thread_palette)
-        if last_index == index and last_thread != thread:
+        if last_thread == thread:
+            index = last_index  # The same thread keeps its entry.
+        elif last_index == index:
             repeated_thread = thread_palette[index]
             repeated_index = index
             thread_palette[index] = None
-- 
2.43.0


From 4b9ac50d185591cd019c62f7879ba8052268907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 44/86] fix: PES string lengths count bytes

---
 pyembroidery/PesWriter.py   | 8 ++++----
 pyembroidery/WriteHelper.py | 8 ++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index f52abe7..8800fbd 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -2,6 +2,7 @@ from .EmbConstant import *
 from .EmbThreadPec import get_thread_set
 from .PecWriter import write_pec
 from .WriteHelper import (
+    fit_utf8,
     write_float_32le,
     write_int_8,
     write_int_16le,
@@ -219,10 +220,9 @@ def write_pes_string_8(f, string):
     if string is None:
         write_int_8(f, 0)
         return
-    if len(string) > 255:
-        string = string[:255]
-    write_int_8(f, len(string))
-    write_string_utf8(f, string)
+    data = fit_utf8(string, 255)
+    write_int_8(f, len(data))
+    f.write(data)
 
 
 def write_pes_string_16(f, string):
diff --git a/pyembroidery/WriteHelper.py b/pyembroidery/WriteHelper.py
index e9648c0..d9ce75f 100644
--- a/pyembroidery/WriteHelper.py
+++ b/pyembroidery/WriteHelper.py
@@ -114,6 +114,14 @@ def write_string(stream, string, encoding="utf8"):
         stream.write(bytes(string, encoding))
 
 
+def fit_utf8(string, length):
+    """The utf8 bytes of the string, as many whole characters as fit the length."""
+    data = string.encode("utf8")
+    if len(data) > length:
+        data = data[:length].decode("utf8", "ignore").encode("utf8")
+    return data
+
+
 def write_string_utf8(stream, string):
     # python 2,3 code
     try:
-- 
2.43.0


From 107c634b9344e1d53cd3621e256052e195f7ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 45/86] fix: VP3 string lengths count bytes

---
 pyembroidery/Vp3Writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 72508c8..f441511 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -1,5 +1,6 @@
 from .EmbConstant import *
 from .WriteHelper import (
+    fit_utf8,
     write_int_8,
     write_int_16be,
     write_int_24be,
@@ -18,8 +19,9 @@ MAX_STITCH_DISTANCE = 255
 
 
 def vp3_write_string_8(stream, string):
-    write_int_16be(stream, len(string))
-    write_string_utf8(stream, string)
+    data = fit_utf8(string, 0xFFFF)
+    write_int_16be(stream, len(data))
+    stream.write(data)
     # vp3_write_length_and_bytes(stream, bytestring)
 
 
-- 
2.43.0


From 43306ee9329bd118311f8b72803d5cd02cba953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 46/86] fix: INF record lengths count bytes

---
 pyembroidery/InfWriter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/InfWriter.py b/pyembroidery/InfWriter.py
index b5ebf49..b315408 100644
--- a/pyembroidery/InfWriter.py
+++ b/pyembroidery/InfWriter.py
@@ -1,4 +1,4 @@
-from .WriteHelper import write_int_8, write_int_16be, write_int_32be, write_string_utf8
+from .WriteHelper import write_int_8, write_int_16be, write_int_32be
 
 ENCODE = False
 
@@ -25,6 +25,8 @@ def write(pattern, f, settings=None):
         chart = thread.chart
         if chart is None:
             chart = "Unknown"
+        details = details.encode("utf8")
+        chart = chart.encode("utf8")
         write_int_16be(
             f, 11 + len(details) + len(chart)
         )  # 2 + 2 + 1 + 1 + 1 + 2 + d + 1 + c + 1 = 11 + d + c
@@ -34,8 +36,8 @@ def write(pattern, f, settings=None):
         write_int_8(f, thread.get_green())
         write_int_8(f, thread.get_blue())
         write_int_16be(f, index)  # needle number
-        write_string_utf8(f, details)
+        f.write(details)
         write_int_8(f, 0)
-        write_string_utf8(f, chart)
+        f.write(chart)
         write_int_8(f, 0)
     patch_byte_offset(f, placeholder)
-- 
2.43.0


From 1f01cb49278d33a9507f07c5cd6cb27ea61586bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 47/86] fix: the PEC label is 16 bytes

---
 pyembroidery/PecWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 3feae2b..06fd07c 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -3,6 +3,7 @@ from .EmbThread import build_unique_palette
 from .EmbThreadPec import get_thread_set
 from .PecGraphics import draw_scaled, get_blank
 from .WriteHelper import (
+    fit_utf8,
     write_int_8,
     write_int_16le,
     write_int_24le,
@@ -45,7 +46,8 @@ def write_pec(pattern, f, threadlist=None):
 
 def write_pec_header(pattern, f, threadlist):
     name = pattern.get_metadata("name", "Untitled")
-    write_string_utf8(f, "LA:%-16s\r" % name[:8])
+    label = fit_utf8(name[:8], 16)
+    f.write(b"LA:" + label + b" " * (16 - len(label)) + b"\r")
     f.write(b"\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\xFF\x00")
     write_int_8(f, int(PEC_ICON_WIDTH / 8))  # PEC BYTE STRIDE
     write_int_8(f, int(PEC_ICON_HEIGHT))  # PEC ICON HEIGHT
-- 
2.43.0


From 496c7e32c3397f505ee8383a023036db6b4190a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 48/86] fix: TBF header fields keep their places

---
 pyembroidery/TbfWriter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index 2985254..a0c3a70 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -1,6 +1,6 @@
 from . import decode_embroidery_command
 from .EmbConstant import *
-from .WriteHelper import write_string_utf8, write_int_8
+from .WriteHelper import fit_utf8, write_string_utf8, write_int_8
 
 FULL_JUMP = False
 ROUND = True
@@ -20,7 +20,8 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "3.00")
     for i in range(f.tell(), 0x80):
         f.write(b"\x20")  # space
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    label = fit_utf8(name, 16)
+    f.write(b"LA:" + label + b" " * (16 - len(label)) + b"\r")
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_needle_sets())
 
@@ -45,7 +46,8 @@ def write(pattern, f, settings=None):
 
     # TP is unknown.
     tp = pattern.get_metadata("tp", "EG/")
-    write_string_utf8(f, "TP:%-32s\r" % tp)
+    tp = fit_utf8(tp, 32)
+    f.write(b"TP:" + tp + b" " * (32 - len(tp)) + b"\r")
 
     # JC is unknown.
     jc = "3"
@@ -68,7 +70,8 @@ def write(pattern, f, settings=None):
     # DA is the threadlist. This is not *only* the used threads but any threads in the set.
     write_string_utf8(f, "DA:")
     if len(pattern.threadlist) > 0:
-        for thread in pattern.threadlist:
+        # The header has room for 201 threads.
+        for thread in pattern.threadlist[:201]:
             write_int_8(f, 0x45)
             write_int_8(f, thread.get_red())
             write_int_8(f, thread.get_green())
-- 
2.43.0


From ca9554d16235b0518bcc7adb217199ec5a4828d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:03 +0000
Subject: [PATCH 49/86] fix: writing without encoding leaves the pattern alone

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 01bdfda..93e4ca2 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1635,6 +1635,8 @@ class EmbPattern:
                 except AttributeError:
                     pass
             pattern = pattern.get_normalized_pattern(settings)
+        else:
+            pattern = pattern.copy()  # Writers may adjust colors and stops.
 
         if EmbPattern.is_str(stream):
             text_mode = False
-- 
2.43.0


From 4d8adb058a35b73efe754cc38a6600b30b1bf619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 50/86] fix: G01 moves without both coordinates are no stitches

---
 pyembroidery/GcodeReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index 9c20dc1..dec231b 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -77,7 +77,7 @@ def read(f, out, settings=None):
                 out.add_thread(split[1])
 
         if "g" in gc:
-            if "x" in gc and "y" in gc and gc["g"] == 0.0 or gc["g"] == 1.0:
+            if "x" in gc and "y" in gc and (gc["g"] == 0.0 or gc["g"] == 1.0):
                 if absolute_mode:
                     out.stitch_abs(gc["x"] * scale * flip_x, gc["y"] * scale * flip_y)
                 else:
-- 
2.43.0


From b655688c55f9b44450ab864042993f7dcbd7301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 51/86] fix: only thread comments give threads in G-code

---
 pyembroidery/GcodeReader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index dec231b..df4bc3c 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -64,6 +64,11 @@ def parse(f):
             continue
 
 
+def is_thread_label(label):
+    """Thread comments are labeled Thread0:, Thread1:, ..."""
+    return label[:6] == "Thread" and label[-1:] == ":" and label[6:-1].isdigit()
+
+
 def read(f, out, settings=None):
     absolute_mode = True
     flip_x = -1  # Assumes the GCode is flip_x, -1 is flip, 1 is normal
@@ -72,8 +77,8 @@ def read(f, out, settings=None):
     for gc in parse(f):
         if "comment" in gc:
             comment = gc["comment"]
-            if "Thread" in comment:
-                split = comment.split(" ")
+            split = comment.split(" ")
+            if len(split) > 1 and is_thread_label(split[0]):
                 out.add_thread(split[1])
 
         if "g" in gc:
-- 
2.43.0


From 805dfd451cb670d9adc69c26f92f397b569d6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 52/86] fix: G-code comments hold any text

---
 pyembroidery/GcodeWriter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyembroidery/GcodeWriter.py b/pyembroidery/GcodeWriter.py
index d2b88cd..05efc98 100644
--- a/pyembroidery/GcodeWriter.py
+++ b/pyembroidery/GcodeWriter.py
@@ -40,23 +40,29 @@ def write_data(pattern, f):
             write_string_utf8(f, "(%s: %d)\n" % (name, the_value))
 
 
+def write_comment(f, text):
+    """Writes a comment, text which would end it is replaced."""
+    text = text.replace(")", "]").replace("\n", " ").replace("\r", " ")
+    write_string_utf8(f, "(%s)\n" % text)
+
+
 def write_metadata(pattern, f):
     if len(pattern.extras) > 0:
         for the_key, the_value in pattern.extras.items():
             try:
                 if isinstance(the_value, basestring):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_comment(f, "%s: %s" % (the_key, the_value))
             except NameError:
                 if isinstance(the_value, str):
-                    write_string_utf8(f, "(%s: %s)\n" % (the_key, the_value))
+                    write_comment(f, "%s: %s" % (the_key, the_value))
 
 
 def write_threads(pattern, f):
     if len(pattern.threadlist) > 0:
         for i, thread in enumerate(pattern.threadlist):
-            write_string_utf8(
+            write_comment(
                 f,
-                "(Thread%d: %s %s %s %s)\n"
+                "Thread%d: %s %s %s %s"
                 % (
                     i,
                     thread.hex_color(),
-- 
2.43.0


From 9fdfb2f01b4cae5b4fed65320e8e809bc2c2ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 53/86] fix: PMV writes as many points as it counts

---
 pyembroidery/PmvWriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/PmvWriter.py b/pyembroidery/PmvWriter.py
index 1c4fbb3..5af2e0c 100644
--- a/pyembroidery/PmvWriter.py
+++ b/pyembroidery/PmvWriter.py
@@ -12,7 +12,7 @@ def write(pattern, f, settings=None):
     min_y = +200000000
     point_count = 0
     for stitch in pattern.stitches:
-        data = stitch[2]
+        data = stitch[2] & COMMAND_MASK
         x = stitch[0]
         y = -stitch[1]
         if data == STITCH or data == JUMP:
@@ -47,14 +47,13 @@ def write(pattern, f, settings=None):
 
     write_int_16le(f, point_count)
     write_int_16le(f, point_count * 2)
-    point_index = -1
+    point_index = 0
     max_x = -200000000
     min_x = +200000000
     max_y = -200000000
     min_y = +200000000
     xx = 0
     for stitch in pattern.stitches:
-        point_index += 1
         if point_index >= point_count:
             break
         data = stitch[2] & COMMAND_MASK
@@ -67,6 +66,7 @@ def write(pattern, f, settings=None):
         x = int(round(x - xx))
         xx += x
         if data == STITCH or data == JUMP:
+            point_index += 1
             if xx > max_x:
                 max_x = xx
             if xx < min_x:
-- 
2.43.0


From cc994cda74930e89d1f81eb8a5894f2c8575e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 54/86] fix: CSV text with quotes and absent text

---
 pyembroidery/CsvWriter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 05e0d23..34f2022 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,7 +14,9 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
-        string += '"%s"' % v
+        if v is None:
+            v = ""
+        string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
 
@@ -78,7 +80,7 @@ def write_metadata(pattern, f):
         for the_key, the_value in pattern.extras.items():
             if isinstance(the_value, tuple):
                 the_value = "\n" + get_graphic_as_string(the_value)
-            csv(f, ("@", str(the_key), str(the_value)))
+            csv(f, ("@", the_key, the_value))
         write_string_utf8(f, "\n")
 
 
-- 
2.43.0


From 14695b0958f06823a92d6e346d7cdb66c8e68467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 55/86] fix: CSV keeps the details, weight and chart of threads

---
 pyembroidery/CsvReader.py | 24 ++++--------------------
 pyembroidery/CsvWriter.py |  2 ++
 pyembroidery/EmbThread.py |  6 ++++++
 3 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 4cf33d3..936f461 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -52,24 +52,8 @@ def read(f, out, settings=None):
                     thread_add["rgb"] = row[2]
                 except IndexError:
                     pass
-                try:
-                    thread_add["name"] = row[3]
-                except IndexError:
-                    pass
-                try:
-                    thread_add["brand"] = row[4]
-                except IndexError:
-                    pass
-                try:
-                    thread_add["catalog"] = row[5]
-                except IndexError:
-                    pass
-                try:
-                    thread_add["details"] = row[6]
-                except IndexError:
-                    pass
-                try:
-                    thread_add["weight"] = row[7]
-                except IndexError:
-                    pass
+                fields = ("name", "brand", "catalog", "details", "weight", "chart")
+                for field, value in zip(fields, row[3:]):
+                    if len(value) > 0:  # Absent text is written as empty.
+                        thread_add[field] = value
             out.add_thread(thread_add)
diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 34f2022..376e3eb 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -97,6 +97,7 @@ def write_threads(pattern, f):
                 "[CATALOG_NUMBER]",
                 "[DETAILS]",
                 "[WEIGHT]",
+                "[CHART]",
             ),
         )
         for i, thread in enumerate(pattern.threadlist):
@@ -111,6 +112,7 @@ def write_threads(pattern, f):
                     thread.catalog_number,
                     thread.details,
                     thread.weight,
+                    thread.chart,
                 ),
             )
         write_string_utf8(f, "\n")
diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 0c1d9df..aec90d9 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -253,6 +253,12 @@ class EmbThread:
                 self.catalog_number = thread["id"]
             if "catalog" in thread:
                 self.catalog_number = thread["catalog"]
+            if "details" in thread:
+                self.details = thread["details"]
+            if "chart" in thread:
+                self.chart = thread["chart"]
+            if "weight" in thread:
+                self.weight = thread["weight"]
         else:
             try:
                 if isinstance(thread, basestring):
-- 
2.43.0


From 8a33136045d3c5c896766c6d2f91438f2b9b56ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 56/86] fix: CSV and JSON read every command they write

---
 pyembroidery/CsvReader.py    | 25 ++++++++++++++-----------
 pyembroidery/EmbFunctions.py |  8 ++++++++
 pyembroidery/JsonReader.py   |  2 ++
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 936f461..4b86dd6 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -13,17 +13,20 @@ def read(f, out, settings=None):
             continue
         if "*" in row[0]:
             split = row[2].split(" ")
-            command = command_dict[split[0]]
-            for sp in split[1:]:
-                if sp[0] == "n":
-                    needle = int(sp[1:])
-                    command |= (needle + 1) << 16
-                if sp[0] == "o":
-                    order = int(sp[1:])
-                    command |= (order + 1) << 24
-                if sp[0] == "t":
-                    thread = int(sp[1:])
-                    command |= (thread + 1) << 8
+            if split[0] == "UNKNOWN":
+                command = int(split[1])
+            else:
+                command = command_dict[split[0]]
+                for sp in split[1:]:
+                    if sp[0] == "n":
+                        needle = int(sp[1:])
+                        command |= (needle + 1) << 16
+                    if sp[0] == "o":
+                        order = int(sp[1:])
+                        command |= (order + 1) << 24
+                    if sp[0] == "t":
+                        thread = int(sp[1:])
+                        command |= (thread + 1) << 8
             if len(row) == 3:
                 out.add_command(command)
             else:
diff --git a/pyembroidery/EmbFunctions.py b/pyembroidery/EmbFunctions.py
index f535b4e..9485c38 100644
--- a/pyembroidery/EmbFunctions.py
+++ b/pyembroidery/EmbFunctions.py
@@ -81,6 +81,10 @@ def get_command_dictionary():
         "CONTINGENCY_LONG_STITCH_NONE": CONTINGENCY_LONG_STITCH_NONE,
         "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE": CONTINGENCY_LONG_STITCH_JUMP_NEEDLE,
         "CONTINGENCY_LONG_STITCH_SEW_TO": CONTINGENCY_LONG_STITCH_SEW_TO,
+        "CONTINGENCY_SEQUIN_UTILIZE": CONTINGENCY_SEQUIN_UTILIZE,
+        "CONTINGENCY_SEQUIN_JUMP": CONTINGENCY_SEQUIN_JUMP,
+        "CONTINGENCY_SEQUIN_STITCH": CONTINGENCY_SEQUIN_STITCH,
+        "CONTINGENCY_SEQUIN_REMOVE": CONTINGENCY_SEQUIN_REMOVE,
     }
 
 
@@ -124,4 +128,8 @@ def get_common_name_dictionary():
         CONTINGENCY_LONG_STITCH_NONE: "CONTINGENCY_LONG_STITCH_NONE",
         CONTINGENCY_LONG_STITCH_JUMP_NEEDLE: "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE",
         CONTINGENCY_LONG_STITCH_SEW_TO: "CONTINGENCY_LONG_STITCH_SEW_TO",
+        CONTINGENCY_SEQUIN_UTILIZE: "CONTINGENCY_SEQUIN_UTILIZE",
+        CONTINGENCY_SEQUIN_JUMP: "CONTINGENCY_SEQUIN_JUMP",
+        CONTINGENCY_SEQUIN_STITCH: "CONTINGENCY_SEQUIN_STITCH",
+        CONTINGENCY_SEQUIN_REMOVE: "CONTINGENCY_SEQUIN_REMOVE",
     }
diff --git a/pyembroidery/JsonReader.py b/pyembroidery/JsonReader.py
index f0ba0d9..ef751bc 100644
--- a/pyembroidery/JsonReader.py
+++ b/pyembroidery/JsonReader.py
@@ -4,6 +4,8 @@ from .EmbThread import EmbThread
 
 def decoded_command(command_dict, name):
     split = name.split(" ")
+    if split[0] == "UNKNOWN":
+        return int(split[1])
     command = command_dict[split[0]]
     for sp in split[1:]:
         if sp[0] == "n":
-- 
2.43.0


From 8710d450550bb38363655fe35f26f2c703ba23cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 57/86] fix: a design read from JSON continues at its last
 position

---
 pyembroidery/JsonReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JsonReader.py b/pyembroidery/JsonReader.py
index ef751bc..71d896a 100644
--- a/pyembroidery/JsonReader.py
+++ b/pyembroidery/JsonReader.py
@@ -39,5 +39,5 @@ def read(f, out, settings=None):
         thread.weight = t["weight"]
         out.add_thread(thread)
     for s in stitches:
-        out.stitches.append([s[0], s[1], decoded_command(command_dict, s[2])])
+        out.add_stitch_absolute(decoded_command(command_dict, s[2]), s[0], s[1])
     out.extras.update(extras)
-- 
2.43.0


From 5a87ee6543d2dc79637dadfd15b0171bfa9323b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 58/86] fix: text files are read as they were written

---
 pyembroidery/EmbPattern.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 93e4ca2..f33da76 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1484,7 +1484,11 @@ class EmbPattern:
             except AttributeError:
                 pass
             if text_mode:
-                with open(f, "r") as stream:
+                try:
+                    stream = open(f, "r", newline="", encoding="utf8")
+                except TypeError:  # python 2
+                    stream = open(f, "r")
+                with stream:
                     reader.read(stream, pattern, settings)
             else:
                 with open(f, "rb") as stream:
-- 
2.43.0


From 2c6faca23e02b9011788447b866e353e00a3a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 59/86] fix: TXT changes the color at every color change

---
 pyembroidery/TxtWriter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index 362b907..f400faf 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -40,13 +40,14 @@ def write_mimic(pattern, f):
 def write_normal(pattern, f):
     names = get_common_name_dictionary()
     color_index = 0
-    color = pattern.get_thread_or_filler(color_index).color
+    color = pattern.get_thread_or_filler(color_index).color & 0xFFFFFF
     for i, stitch in enumerate(pattern.stitches):
         xx = stitch[0]
         yy = stitch[1]
         flags = stitch[2] & COMMAND_MASK
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
-            color = pattern.get_thread_or_filler(color_index).color
+            color_index += 1
+            color = pattern.get_thread_or_filler(color_index).color & 0xFFFFFF
         named_command = names[(flags & COMMAND_MASK)]
         txt_line = "%.1f,%.1f color:%i command:%s flags:%i\n" % (
             xx,
-- 
2.43.0


From cdf120bd37a7151106a1f2b56551610b7221ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 60/86] fix: TXT of designs with speed or middle-level commands

---
 pyembroidery/TxtWriter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/TxtWriter.py b/pyembroidery/TxtWriter.py
index f400faf..c9dc991 100644
--- a/pyembroidery/TxtWriter.py
+++ b/pyembroidery/TxtWriter.py
@@ -27,7 +27,9 @@ def write_mimic(pattern, f):
         flags = stitch[2]
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
             color += 1
-        flags = emb_mod_convert[(flags & COMMAND_MASK)]
+        flags = emb_mod_convert.get(flags & COMMAND_MASK)
+        if flags is None:
+            continue  # The format has no code for this command.
         txt_line = "%.1f,%.1f color:%i flags:%s\n" % (
             xx / 10.0,
             yy / 10.0,
@@ -48,7 +50,7 @@ def write_normal(pattern, f):
         if (flags & COMMAND_MASK) == COLOR_CHANGE:
             color_index += 1
             color = pattern.get_thread_or_filler(color_index).color & 0xFFFFFF
-        named_command = names[(flags & COMMAND_MASK)]
+        named_command = names.get(flags, "UNKNOWN")
         txt_line = "%.1f,%.1f color:%i command:%s flags:%i\n" % (
             xx,
             yy,
-- 
2.43.0


From 8606c5a61c408168721bc00109946fe0cf3bf8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:18 +0000
Subject: [PATCH 61/86] fix: different threads of one color keep their own
 palette entries

---
 pyembroidery/EmbThread.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index aec90d9..285d00c 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -1,6 +1,7 @@
 def build_unique_palette(thread_palette, threadlist):
     """Turns a threadlist into a unique index list with the thread palette"""
     chart = [None] * len(thread_palette)  # Create a lookup chart.
+    assigned = {}
     for thread in set(
         threadlist
     ):  # for each unique color, move closest remaining thread to lookup chart.
@@ -9,10 +10,14 @@ def build_unique_palette(thread_palette, threadlist):
             break  # No more threads remain in palette
         thread_palette[index] = None  # entries may not be reused.
         chart[index] = thread  # assign the given index to the lookup.
+        assigned[thread] = index
 
     palette = []
     for thread in threadlist:  # for each thread, return the index.
-        palette.append(thread.find_nearest_color_index(chart))
+        index = assigned.get(thread)
+        if index is None:
+            index = thread.find_nearest_color_index(chart)
+        palette.append(index)
     return palette
 
 
-- 
2.43.0


From e2ce761fd69f5485e78514e7718213d27e52322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 62/86] fix: JEF: the same thread keeps its entry in the next
 block

---
 pyembroidery/JefWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 38e1596..1274580 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -52,7 +52,9 @@ def write(pattern, f, settings=None):
             index_in_threadlist += 1
             color_count += 1
             index_of_jefthread = thread.find_nearest_color_index(jef_threads)
-            if last_index == index_of_jefthread and last_thread != thread:
+            if last_thread == thread:
+                index_of_jefthread = last_index  # The same thread keeps its entry.
+            elif last_index == index_of_jefthread:
                 # Last thread and current thread pigeonhole to same jefcolor.
                 # We set that thread to None. And get the second closest color.
                 repeated_thread = jef_threads[index_of_jefthread]
-- 
2.43.0


From b64c84a51a1489e780d3d06bf81422734c004916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 63/86] fix: append_translation translated by the cursor
 position plus the amount asked for

---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index f33da76..e0a6870 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -880,7 +880,7 @@ class EmbPattern:
         """Appends translation to the pattern.
         All commands will be translated by the given amount,
         including absolute location commands."""
-        self.add_stitch_relative(MATRIX_TRANSLATE, x, y)
+        self.add_command(MATRIX_TRANSLATE, x, y)
 
     @staticmethod
     def supported_formats():
-- 
2.43.0


From 822fdd721052d26dd55b3670be895e1f7d8d1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 64/86] fix: the generic writer closes what is open at the end

---
 pyembroidery/GenericWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 22686c1..2867cc8 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -571,4 +571,5 @@ class GenericWriter:
         self.close_block()
         self.close_color()
         self.close_document()
+        self.write_closes()
         self.close_pattern()
-- 
2.43.0


From 0991e39931b5cecfb8f8dd07f597d624a2f8102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 65/86] fix: the generic writer joins colors and blocks, not
 what precedes the first

---
 pyembroidery/GenericWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 2867cc8..b1a2bb9 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -319,7 +319,7 @@ class GenericWriter:
             self.document_established = True
             self.document_index += 1
             self.document_opening = True
-            self.color_index = 0
+            self.color_index = -1
 
             self.format_dictionary.update(
                 {
@@ -340,7 +340,7 @@ class GenericWriter:
             self.color_opening = True
 
             self.thread = self.pattern.get_thread_or_filler(self.thread_index)
-            self.block_index = 0
+            self.block_index = -1
             self.color_index += 1
             self.format_dictionary.update(
                 {
-- 
2.43.0


From 9dcdb84f8280280fc965b24337f8f0c0fa5a8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 66/86] fix: compress writes the block count in the order
 expand reads it, in blocks of at most 65535

---
 pyembroidery/EmbCompress.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index cddfc91..6f88b2e 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -4,11 +4,16 @@ def expand(data, uncompressed_size=None):
 
 
 def compress(data):
-    size = len(data)
-    return (
-        bytearray([(size >> 0) & 0xFF, (size >> 8) & 0xFF, 0x02, 0xA0, 0x01, 0xFE])
-        + data
-    )
+    """Stored blocks: every block starts with its element count, high byte first."""
+    compressed = bytearray()
+    for start in range(0, len(data), 0xFFFF):
+        block = data[start : start + 0xFFFF]
+        size = len(block)
+        compressed += bytearray(
+            [(size >> 8) & 0xFF, (size >> 0) & 0xFF, 0x02, 0xA0, 0x01, 0xFE]
+        )
+        compressed += block
+    return compressed
 
 
 class Huffman:
-- 
2.43.0


From 6cfbad010e860946adc48f5253abffb88c850264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 67/86] fix: expand returns no more than the requested length

---
 pyembroidery/EmbCompress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index 6f88b2e..f4e0f00 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -183,7 +183,7 @@ class EmbCompress:
         self.block_elements = -1
         bits_total = len(input_data) * 8
         while bits_total > self.bit_position and (
-            uncompressed_size is None or len(output_data) <= uncompressed_size
+            uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
             if character <= 255:  # literal.
@@ -201,4 +201,4 @@ class EmbCompress:
                     # Will read & write the same data at some point.
                     for i in range(position, position + length):
                         output_data.append(output_data[i])
-        return output_data
+        return output_data[:uncompressed_size]
-- 
2.43.0


From 21105de90602a64ce98c4a16c7f5f56acc436b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 68/86] fix: expand the tokens of a one-symbol block after the
 last bit

---
 pyembroidery/EmbCompress.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index f4e0f00..ba6f55b 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -168,6 +168,17 @@ class EmbCompress:
         self.slide(h[1])
         return h[0]
 
+    def next_token_is_free(self):
+        """a token of the current block which is known without reading any bits"""
+        if self.block_elements <= 0 or self.character_huffman.table is not None:
+            return False
+        if self.character_huffman.default_value <= 255:
+            return True
+        return (
+            self.distance_huffman.table is None
+            and self.distance_huffman.default_value <= 1
+        )
+
     def get_position(self):
         h = self.distance_huffman.lookup(self.peek(16))
         self.slide(h[1])
@@ -182,7 +193,7 @@ class EmbCompress:
         output_data = []
         self.block_elements = -1
         bits_total = len(input_data) * 8
-        while bits_total > self.bit_position and (
+        while (bits_total > self.bit_position or self.next_token_is_free()) and (
             uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
-- 
2.43.0


From c16acbc93dc6604040a329256da15152e23d991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 69/86] fix: equal matrices compare equal however they were
 made

---
 pyembroidery/EmbMatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index 363768d..9703994 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -12,7 +12,7 @@ class EmbMatrix:
         return not self.__eq__(other)
 
     def __eq__(self, other):
-        return self.m == other.m
+        return tuple(self.m) == tuple(other.m)
 
     def __matmul__(self, other):
         return EmbMatrix(EmbMatrix.matrix_multiply(self.m, other.m))
-- 
2.43.0


From 1aac228caed3617fbd52f8d5f2946914a42c80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 70/86] fix: PNG lines wider than three pixels wrapped around
 the edges

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 17795db..2b78f94 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -333,6 +333,8 @@ class PngBuffer:
         try:
             x += 1
             y += 1
+            if not (0 <= x < self.width and 0 <= y < self.height):
+                return  # Lines wider than the margin end at the edge.
             pos = (self.width * y) + x
             idx = pos * 4
             background_a = self.buf[idx + 3]
-- 
2.43.0


From f7daed329a903812dad7fbf7caedd3e680edc9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 71/86] fix: PNG guides of designs smaller than their labels

---
 pyembroidery/PngWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PngWriter.py b/pyembroidery/PngWriter.py
index 2b78f94..ff4ff89 100644
--- a/pyembroidery/PngWriter.py
+++ b/pyembroidery/PngWriter.py
@@ -460,6 +460,8 @@ class PngBuffer:
                     else:
                         gx = x + cx + 2
                         gy = y + cy + 2
+                    if not (0 <= gx < self.width and 0 <= gy < self.height):
+                        continue
                     pos = (self.width * gy) + gx
                     idx = pos * 4
                     a2 = (9.0 - v) / 9.0
-- 
2.43.0


From ca1d0e93aed1a6f53e451bcd071ff2394ae7a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 72/86] fix: a PEC without colors has none of the filler bytes
 as threads

---
 pyembroidery/PecReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PecReader.py b/pyembroidery/PecReader.py
index 28ce764..d8dfeae 100644
--- a/pyembroidery/PecReader.py
+++ b/pyembroidery/PecReader.py
@@ -23,11 +23,11 @@ def read_pec(f, out, pes_chart=None):
     pec_graphic_icon_height = read_int_8(f)
     f.seek(0xC, 1)
     color_changes = read_int_8(f)
-    count_colors = color_changes + 1  # PEC uses cc - 1, 0xFF means 0.
+    count_colors = (color_changes + 1) & 0xFF  # PEC uses cc - 1, 0xFF means 0.
     color_bytes = bytearray(f.read(count_colors))
     threads = []
     map_pec_colors(color_bytes, out, pes_chart, threads)
-    f.seek(0x1D0 - color_changes, 1)
+    f.seek(0x1D1 - count_colors, 1)
     stitch_block_end = read_int_24le(f) - 5 + f.tell()
     # The end of this value is already 5 into the stitchblock.
 
-- 
2.43.0


From 5f93bc2fa11f9dc94d82452233fe68601df191b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 73/86] fix: a PEC stitch block ends even if the design does
 not

---
 pyembroidery/PecWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 06fd07c..1b91b0c 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -184,6 +184,6 @@ def pec_encode(pattern, f):
         elif data == TRIM:
             pass
         elif data == END:
-            f.write(b"\xff")
             break
         init = False
+    f.write(b"\xff")  # Stitches end here even if the design has no END.
-- 
2.43.0


From bfcf1cbdfd84e37f4a8a8f805a8d1e3651936109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 74/86] fix: a name that is not UTF-8 does not stop TBF, SHV
 and INF files from loading

---
 pyembroidery/InfReader.py | 8 +++++---
 pyembroidery/ShvReader.py | 4 +++-
 pyembroidery/TbfReader.py | 5 +++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyembroidery/InfReader.py b/pyembroidery/InfReader.py
index 1e14644..af4f6db 100644
--- a/pyembroidery/InfReader.py
+++ b/pyembroidery/InfReader.py
@@ -1,5 +1,7 @@
+from io import BytesIO
+
 from .EmbThread import EmbThread
-from .ReadHelper import read_int_16be, read_int_32be
+from .ReadHelper import read_int_16be, read_int_32be, read_string_8
 
 
 def read(f, out, settings=None):
@@ -21,12 +23,12 @@ def read(f, out, settings=None):
         for j in range(0, len(byte_data)):
             b = byte_data[j]
             if b == 0:
-                thread.description = byte_data[:j].decode("utf8")
+                thread.description = read_string_8(BytesIO(byte_data), j)
                 byte_data = byte_data[j + 1 :]
                 break
         for j in range(0, len(byte_data)):
             b = byte_data[j]
             if b == 0:
-                thread.chart = byte_data[:j].decode("utf8")
+                thread.chart = read_string_8(BytesIO(byte_data), j)
                 break
         out.add_thread(thread)
diff --git a/pyembroidery/ShvReader.py b/pyembroidery/ShvReader.py
index 0d5b988..19e1ad2 100644
--- a/pyembroidery/ShvReader.py
+++ b/pyembroidery/ShvReader.py
@@ -16,7 +16,9 @@ def read(f, out, settings=None):
     in_jump = False
     f.seek(0x56, 1)  # header text
     length = read_int_8(f)
-    out.metadata("name", read_string_8(f, length))
+    name = read_string_8(f, length)
+    if name is not None:
+        out.metadata("name", name)
 
     design_width = read_int_8(f)
     design_height = read_int_8(f)
diff --git a/pyembroidery/TbfReader.py b/pyembroidery/TbfReader.py
index 315f2ae..74600bd 100644
--- a/pyembroidery/TbfReader.py
+++ b/pyembroidery/TbfReader.py
@@ -4,8 +4,9 @@ from .ReadHelper import read_int_8, read_int_24be, signed8, read_string_8
 
 def read(f, out, settings=None):
     f.seek(0x83, 0)
-    name = read_string_8(f, 0x10).strip()
-    out.metadata("name", name)
+    name = read_string_8(f, 0x10)
+    if name is not None:
+        out.metadata("name", name.strip())
     f.seek(0x10A, 0)
     thread_order = list(f.read(0x100))
     f.seek(0x20E, 0)
-- 
2.43.0


From ea3eb7f6ff1ed080c2909ac1214f4dad623e8713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 75/86] fix: read lower case G-code words

---
 pyembroidery/GcodeReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GcodeReader.py b/pyembroidery/GcodeReader.py
index df4bc3c..bd2c97a 100644
--- a/pyembroidery/GcodeReader.py
+++ b/pyembroidery/GcodeReader.py
@@ -52,7 +52,7 @@ def parse(f):
             code = ""
             value = ""
         if is_letter:
-            code += str(byte)
+            code += chr(b)
             continue
         elif is_end:
             if len(command_map) == 0:
-- 
2.43.0


From bfc6b29eec4db100a9e66a0e7ab440b77a7bfc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 76/86] fix: keep no stitches read from the header of a Sunstar
 DAT

---
 pyembroidery/DatReader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyembroidery/DatReader.py b/pyembroidery/DatReader.py
index 1ed8e88..e1ca5a6 100644
--- a/pyembroidery/DatReader.py
+++ b/pyembroidery/DatReader.py
@@ -135,6 +135,11 @@ def read_sunstar_dat(f, out):
 
 
 def read(f, out, settings=None):
+    count = len(out.stitches)
+    x, y = out._previousX, out._previousY
     if not read_barudan_dat(f, out):
+        # Whatever was read of the other type is not part of the design.
+        del out.stitches[count:]
+        out._previousX, out._previousY = x, y
         f.seek(0, 0)
         read_sunstar_dat(f, out)
-- 
2.43.0


From 63e5841918b676a85f4a356f3f356f893dfb7119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 77/86] fix: U01 must keep a speed command nothing follows, in
 a design without an end command too

---
 pyembroidery/U01Writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index f4d5d3a..5697fb0 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -83,4 +83,6 @@ def write(pattern, f, settings=None):
             f.write(bytes(bytearray([cmd, delta_y, delta_x])))
         elif data == END:
             break
+    if speed != 0:
+        f.write(bytes(bytearray([0xE0 | speed, 0, 0])))
     f.write(b"\xF8\x00\x00")
-- 
2.43.0


From 9253e04485fda06c27ef2548c5620083771f75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 78/86] fix: PES sections behind several color changes in a row
 name the thread in force

---
 pyembroidery/PesWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 8800fbd..ce68bd8 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -338,8 +338,8 @@ def get_as_segments_blocks(pattern, chart, adjust_x, adjust_y):
             block.append([last_pos[0] - adjust_x, last_pos[1] - adjust_y])
             flag = 1
         elif command == COLOR_CHANGE:
-            current_thread = pattern.get_thread_or_filler(color_index)
-            color_index += 1
+            color_index += len(command_block)  # Every change in a row counts.
+            current_thread = pattern.get_thread_or_filler(color_index - 1)
             color_code = get_color_code(current_thread, chart)
             flag = 1
             continue
-- 
2.43.0


From 9ce20f45d18268d6e815412c8f315efd17582976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 79/86] fix: the repr of a thread quotes its texts

---
 pyembroidery/EmbThread.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 285d00c..21ef9d9 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -123,17 +123,17 @@ class EmbThread:
         parts = list()
         parts.append("thread='%s'" % self.hex_color())
         if self.description is not None:
-            parts.append("description='%s'" % self.description)
+            parts.append("description=%r" % (self.description,))
         if self.catalog_number is not None:
-            parts.append("catalog_number='%s'" % self.catalog_number)
+            parts.append("catalog_number=%r" % (self.catalog_number,))
         if self.details is not None:
-            parts.append("details='%s'" % self.details)
+            parts.append("details=%r" % (self.details,))
         if self.brand is not None:
-            parts.append("brand='%s'" % self.brand)
+            parts.append("brand=%r" % (self.brand,))
         if self.chart is not None:
-            parts.append("chart='%s'" % self.chart)
+            parts.append("chart=%r" % (self.chart,))
         if self.weight is not None:
-            parts.append("weight='%s'" % self.weight)
+            parts.append("weight=%r" % (self.weight,))
         return "EmbThread(%s)" % ", ".join(parts)
 
     def __ne__(self, other):
-- 
2.43.0


From fb8cb712fe6ab0a86ae24e9f661feb86b36094e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 80/86] fix: adding a design to itself adds the design as it
 was

---
 pyembroidery/EmbPattern.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index e0a6870..a615cd4 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -617,6 +617,9 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
+        # The pattern can be this one: what it holds is taken before anything changes.
+        added_stitches = [stitch[:] for stitch in pattern.stitches]
+        added_threads = pattern.threadlist[:]
         while len(self.stitches) > 0 and self.stitches[-1][2] & COMMAND_MASK in (
             END,
             COLOR_BREAK,
@@ -649,11 +652,11 @@ class EmbPattern:
             ):
                 thread_index += 1
 
-        if len(pattern.threadlist) > 0:
+        if len(added_threads) > 0:
             while len(self.threadlist) < thread_index:
                 self.add_thread(self.get_thread_or_filler(len(self.threadlist)))
             position = thread_index + 1
-            threads = pattern.threadlist[:]
+            threads = added_threads
             if not sewn or len(self.threadlist) == thread_index:
                 position = thread_index  # Nothing is sewn with that thread yet.
             elif threads[0] == self.threadlist[thread_index]:
@@ -662,7 +665,7 @@ class EmbPattern:
                 self.color_change()
             self.threadlist[position:position] = threads
         join_position = len(self.stitches)
-        self.stitches.extend([stitch[:] for stitch in pattern.stitches])
+        self.stitches.extend(added_stitches)
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-- 
2.43.0


From 9aeb9fa6408022335d357d6bbf08c32764311f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 81/86] fix: stops written as colour changes to XXX repeat
 their thread

---
 pyembroidery/XxxWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index bc6b97b..7a10d66 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -124,6 +124,7 @@ def write_xxx_colors(pattern, f):
 
 
 def write(pattern, f, settings=None):
+    pattern.interpolate_stop_as_duplicate_color()
     write_xxx_header_b(pattern, f)
     place_holder_for_end_of_stitches = f.tell()
     write_int_32le(f, 0x00000000)
-- 
2.43.0


From aa901b7b9c09bcc0a798a3800a8e220e2f88d09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 82/86] fix: an empty design can be written as XXX

---
 pyembroidery/XxxWriter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 7a10d66..75c4989 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -9,9 +9,10 @@ MAX_STITCH_DISTANCE = 124
 
 def write_xxx_header_b(pattern, f):
     stitches = pattern.stitches
+    last = stitches[-1] if len(stitches) > 0 else (0, 0)
     for i in range(0, 0x17):
         write_int_8(f, 0x00)
-    write_int_32le(f, len(stitches) - 1)
+    write_int_32le(f, max(0, len(stitches) - 1))
     # END command not called a command.
     for i in range(0, 0x0C):
         write_int_8(f, 0x00)
@@ -23,8 +24,8 @@ def write_xxx_header_b(pattern, f):
     height = int(extends[3] - extends[1])
     write_int_16le(f, width)
     write_int_16le(f, height)
-    write_int_16le(f, int(stitches[-1][0]))
-    write_int_16le(f, int(-stitches[-1][1]))
+    write_int_16le(f, int(last[0]))
+    write_int_16le(f, int(-last[1]))
     write_int_16le(f, int(-extends[0]))
     write_int_16le(f, int(extends[3]))
     for i in range(0, 0x42):
-- 
2.43.0


From 0021ce512b1ea92dc0f81ae80cc6fa667d4a424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 83/86] fix: print a matrix after any operation on it

---
 pyembroidery/EmbMatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index 9703994..bec265f 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -25,7 +25,7 @@ class EmbMatrix:
         return self
 
     def __str__(self):
-        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
+        return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % tuple(self.m)
 
     def get_matrix(self):
         return self.m
-- 
2.43.0


From 10459a1c5903951d3ac0dd5b6fbcaece7cf51cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 84/86] fix: write commands without a name with the template
 writer

---
 pyembroidery/GenericWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index b1a2bb9..163d6a9 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -282,7 +282,9 @@ class GenericWriter:
             self.cmd, self.thread, self.needle, self.order = decode_embroidery_command(
                 self.command
             )
-            self.cmd_str = pyembroidery.get_common_name_dictionary()[self.cmd]
+            self.cmd_str = pyembroidery.get_common_name_dictionary().get(
+                self.cmd, "UNKNOWN %d" % self.command
+            )
         except IndexError:
             self.current_stitch = None
             self.x = None
-- 
2.43.0


From 5d0c37938816885266acf9bccbfe4dad433f61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 85/86] fix: choose a segment by the place of its own command

---
 pyembroidery/GenericWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/GenericWriter.py b/pyembroidery/GenericWriter.py
index 163d6a9..a04e922 100644
--- a/pyembroidery/GenericWriter.py
+++ b/pyembroidery/GenericWriter.py
@@ -454,11 +454,11 @@ class GenericWriter:
 
             # MAIN CODE, there is something to write.
             if write_segment is not None:
+                self.update_positions(self.x, self.y, self.cmd)
                 if isinstance(write_segment, dict):
                     key, default = write_segment[None]
                     key = key.format_map(self.format_dictionary)
                     write_segment = write_segment.get(key, default)
-                self.update_positions(self.x, self.y, self.cmd)
                 if self.cmd == SEQUIN_MODE:
                     self.open_document()
                     self.open_color()
-- 
2.43.0


From 7ddfbdec9da1e49f0fd22a7bf31349aaaba3b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:27 +0000
Subject: [PATCH 86/86] fix: the PEC writer draws the stitches of a block
 whatever attributes they carry

---
 pyembroidery/PecWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 1b91b0c..58c5452 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -107,7 +107,7 @@ def write_pec_graphics(pattern, f, extends):
     f.write(bytes(bytearray(blank)))
 
     for block in pattern.get_as_colorblocks():
-        stitches = [s for s in block[0] if s[2] == STITCH]
+        stitches = [s for s in block[0] if s[2] & COMMAND_MASK == STITCH]
         blank = get_blank()  # [ 0 ] * 6 * 38
         draw_scaled(extends, stitches, blank, 6)
         f.write(bytes(bytearray(blank)))
-- 
2.43.0


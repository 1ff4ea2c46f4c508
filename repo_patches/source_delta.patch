From d3dad7c894cda0bf2c18afc4b6ae67090e62c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 01/29] fix: decode BIFF2 WINDOW2 flags from byte values

Iterating over bytes yields ints on Python 3, so comparing each one with
b'\0' was always unequal and every flag was set to 1.
---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a831398..3b1128b 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1487,8 +1487,8 @@ class Sheet(BaseObject):
                 elif rc == XL_WINDOW2_B2: # BIFF 2 only
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
-                    for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                    for attr, value in zip(attr_names, bytearray(data[0:5])):
+                        setattr(self, attr, int(value != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From fada5ec1c0142e3b30319aae0585f63140a84831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 02/29] fix: a variable-argument function with no arguments
 must not consume the operand stack

---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 00e4464..c7d9cea 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1085,7 +1085,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                argtext = listsep.join(arg.text for arg in stack[len(stack)-nargs:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1118,7 +1118,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[len(stack)-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
@@ -1656,10 +1656,10 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                argtext = listsep.join(arg.text for arg in stack[len(stack)-nargs:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
-                del stack[-nargs:]
+                del stack[len(stack)-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 7bde12d2227be32cf00c4b7afe19afa0dddd76d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 03/29] fix: pass the base cell when decompiling a relative 3-D
 area

---
 xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index c7d9cea..f4446f0 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1775,11 +1775,11 @@ def decompile_formula(bk, fmla, fmlalen,
             spush(res)
         elif opcode == 0x1B: # tArea3d
             if bv >= 80:
-                res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta)
+                res1, res2 = get_cell_range_addr(data, pos+3, bv, reldelta, browx, bcolx)
                 refx = unpack("<H", data[pos+1:pos+3])[0]
                 shx1, shx2 = get_externsheet_local_range(bk, refx, blah)
             else:
-                res1, res2 = get_cell_range_addr(data, pos+15, bv, reldelta)
+                res1, res2 = get_cell_range_addr(data, pos+15, bv, reldelta, browx, bcolx)
                 raw_extshtx, raw_shx1, raw_shx2 = unpack("<hxxxxxxxxhh", data[pos+1:pos+15])
                 if blah:
                     print("tArea3d", raw_extshtx, raw_shx1, raw_shx2, file=bk.logfile)
-- 
2.43.0


From 4aec7e84ec9d992a2fb4d17b8a99119cdecc6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 04/29] fix: keep an operand on the stack when a range operator
 meets an error

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index f4446f0..7624367 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1537,7 +1537,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
                     pass
                 else:
-- 
2.43.0


From 81f49ef267ba8d86512f06a06745be6e3148fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 05/29] fix: tMemArea in decompile_formula called an undefined
 function

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 7624367..9d94c3a 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1703,7 +1703,7 @@ def decompile_formula(bk, fmla, fmlalen,
             res = Operand(okind, None, LEAF_RANK, otext)
             spush(res)
         elif opcode == 0x06: # tMemArea
-            not_in_name_formula(op, oname)
+            unexpected_opcode(op, oname)
         elif opcode == 0x09: # tMemFunc
             nb = unpack("<H", data[pos+1:pos+3])[0]
             if blah: print("  %d bytes of cell ref formula" % nb, file=bk.logfile)
-- 
2.43.0


From 1915c0f033e20f0166b8672a83ccb0093bc3dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 06/29] fix: arithmetic errors while evaluating a name formula
 must not escape

---
 xlrd/formula.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 9d94c3a..a5c98f6 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -796,9 +796,14 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+            result = func(aval, bval)
+        except (ArithmeticError, TypeError, ValueError):
+            # e.g. =1/0 or ="abc"+1; the value stays unknown
+            stk.append(resop)
+            return
         if result_kind == oBOOL:
             result = 1 if result else 0
         resop.value = result
@@ -817,7 +822,10 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             sym2,
         ])
         if val is not None:
-            val = func(val)
+            try:
+                val = func(val)
+            except TypeError: # e.g. =-"abc"
+                val = None
         stk.append(Operand(result_kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
@@ -1111,7 +1119,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
                     testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
                             chosen = stack[-nargs + int(testarg.value)]
                             if chosen.kind == oMSNG:
-- 
2.43.0


From 07d95c5166ce9c8ae030039f16d1337b21485340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:01 +0000
Subject: [PATCH 07/29] fix: dump conditional-format formulas with relative
 references at verbosity 2

---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 3b1128b..1bc98fe 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1231,13 +1231,13 @@ class Sheet(BaseObject):
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
-                    dump_formula(bk, fmla1, sz1, bv, reldelta=0, blah=1)
+                    dump_formula(bk, fmla1, sz1, bv, reldelta=1, blah=1)
                 fmla2 = data[pos:pos+sz2]
                 pos += sz2
                 assert pos == data_len
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
-                    dump_formula(bk, fmla2, sz2, bv, reldelta=0, blah=1)
+                    dump_formula(bk, fmla2, sz2, bv, reldelta=1, blah=1)
             elif rc == XL_DEFAULTROWHEIGHT:
                 if data_len == 4:
                     bits, self.default_row_height = unpack("<HH", data[:4])
-- 
2.43.0


From c1aef9b01c1ffa7cb82e9fb862c6d3eb3e75254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:04 +0000
Subject: [PATCH 08/29] fix: the size of phonetic data is unsigned; a negative
 one moved the cursor backwards

---
 xlrd/biffh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index 07ac629..33b1f49 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -317,7 +317,7 @@ def unpack_unicode_update_pos(data, pos, lenlen=2, known_len=None):
         rt = unpack('<H', data[pos:pos+2])[0]
         pos += 2
     if phonetic:
-        sz = unpack('<i', data[pos:pos+4])[0]
+        sz = unpack('<I', data[pos:pos+4])[0]
         pos += 4
     if options & 0x01:
         # Uncompressed UTF-16-LE
-- 
2.43.0


From 20524af36b29f8169829293a91f0707b638069b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 09/29] fix: the size of phonetic data in the SST is unsigned
 too

---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6876a3e..4cacb6f 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1411,7 +1411,7 @@ def unpack_SST_table(datatab, nstrings):
             rtcount = local_unpack('<H', data[pos:pos+2])[0]
             pos += 2
         if options & 0x04: # phonetic
-            phosz = local_unpack('<i', data[pos:pos+4])[0]
+            phosz = local_unpack('<I', data[pos:pos+4])[0]
             pos += 4
         accstrg = UNICODE_LITERAL('')
         charsgot = 0
-- 
2.43.0


From 36415c23dc8d3c259243c299badfe27280558b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 10/29] fix: a negative substream length in SHEETHDR made the
 reader loop for ever

---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 4cacb6f..8b1623c 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1136,7 +1136,7 @@ class Book(BaseObject):
         # a worksheet.
         # DEBUG = 1
         self.derive_encoding()
-        sheet_len = unpack('<i', data[:4])[0]
+        sheet_len = unpack('<I', data[:4])[0]
         sheet_name = unpack_string(data, 4, self.encoding, lenlen=1)
         sheetno = self._sheethdr_count
         assert sheet_name == self._sheet_names[sheetno]
-- 
2.43.0


From 38c468406cdc7f982421fdbb381b16b5557e6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 11/29] fix: a compound file may have more than 249 directory
 entries

---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 412a89e..9b1f1a7 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('L', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From 2d8ff3920ab4494b5e699d332f16175abe4a8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 12/29] fix: report broken and cyclic directories of a compound
 file

---
 xlrd/compdoc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 9b1f1a7..1d45c19 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -62,10 +62,14 @@ class DirNode(object):
             print("timestamp info", self.tsinfo, file=self.logfile)
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
-    if child_DID < 0: return
+    if child_DID <= 0: return # the root entry is never a child
+    if child_DID >= len(dirlist):
+        raise CompDocError("directory corruption: no entry %d" % child_DID)
+    if dirlist[child_DID].parent != -1:
+        raise CompDocError("directory corruption: entry %d is used twice" % child_DID)
+    dirlist[child_DID].parent = parent_DID
     _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
     dirlist[parent_DID].children.append(child_DID)
-    dirlist[child_DID].parent = parent_DID
     _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
     if dirlist[child_DID].etype == 1: # storage
         _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
@@ -233,6 +237,8 @@ class CompDoc(object):
             did += 1
             dirlist.append(DirNode(did, dbytes[pos:pos+128], 0, logfile))
         self.dirlist = dirlist
+        if not dirlist or dirlist[0].etype != 5: # root entry
+            raise CompDocError("directory corruption: no root entry")
         _build_family_tree(dirlist, 0, dirlist[0].root_DID) # and stand well back ...
         if DEBUG:
             for d in dirlist:
@@ -241,7 +247,6 @@ class CompDoc(object):
         # === get the SSCS ===
         #
         sscs_dir = self.dirlist[0]
-        assert sscs_dir.etype == 5 # root entry
         if sscs_dir.first_SID < 0 or sscs_dir.tot_size == 0:
             # Problem reported by Frank Hoffsuemmer: some software was
             # writing -1 instead of -2 (EOCSID) for the first_SID
-- 
2.43.0


From 85fb97f21cbcc8bb782d1984d44919e73c3c47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 13/29] fix: report broken sector chains of a compound file as
 CompDocError

---
 xlrd/compdoc.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 1d45c19..57ecaa2 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -270,6 +270,8 @@ class CompDoc(object):
             sid = SSAT_first_sec_sid
             nsecs = SSAT_tot_secs
             while sid >= 0 and nsecs > 0:
+                if sid >= min(mem_data_secs, len(self.SAT)):
+                    raise CompDocError("SSAT corruption: no sector %d" % sid)
                 if seen[sid]:
                     raise CompDocError("SSAT corruption: seen[%d] == %d" % (sid, seen[sid]))
                 seen[sid] = 5
@@ -279,7 +281,8 @@ class CompDoc(object):
                 self.SSAT.extend(news)
                 sid = self.SAT[sid]
             if DEBUG: print("SSAT last sid %d; remaining sectors %d" % (sid, nsecs), file=logfile)
-            assert nsecs == 0 and sid == EOCSID
+            if nsecs != 0 or sid != EOCSID:
+                raise CompDocError("SSAT corruption: last sid %d; remaining sectors %d" % (sid, nsecs))
         if DEBUG:
             print("SSAT", file=logfile)
             dump_list(self.SSAT, 10, logfile)
@@ -294,6 +297,10 @@ class CompDoc(object):
         if size is None:
             # nothing to check against
             while s >= 0:
+                if base + s * sec_size >= len(mem):
+                    raise CompDocError("%s corruption: no sector %d" % (name, s))
+                if len(sectors) > len(sat):
+                    raise CompDocError("%s corruption: the sector chain is cyclic" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
@@ -307,10 +314,15 @@ class CompDoc(object):
                         "OLE2 stream %r: sector allocation table invalid entry (%d)" %
                         (name, s)
                     )
-            assert s == EOCSID
+            if s != EOCSID:
+                raise CompDocError("%s corruption: the sector chain ends with %d" % (name, s))
         else:
             todo = size
             while s >= 0:
+                if base + s * sec_size >= len(mem):
+                    raise CompDocError("%s corruption: no sector %d" % (name, s))
+                if len(sectors) > len(sat):
+                    raise CompDocError("%s corruption: the sector chain is cyclic" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
@@ -328,7 +340,8 @@ class CompDoc(object):
                         "OLE2 stream %r: sector allocation table invalid entry (%d)" %
                         (name, s)
                     )
-            assert s == EOCSID
+            if s != EOCSID:
+                raise CompDocError("%s corruption: the sector chain ends with %d" % (name, s))
             if todo != 0:
                 fprintf(self.logfile,
                     "WARNING *** OLE2 stream %r: expected size %d, actual size %d\n",
@@ -428,6 +441,8 @@ class CompDoc(object):
         tot_found = 0
         found_limit = (expected_stream_size + sec_size - 1) // sec_size
         while s >= 0:
+            if s >= min(self.mem_data_secs, len(sat)):
+                raise CompDocError("%s corruption: no sector %d" % (qname, s))
             if self.seen[s]:
                 if not self.ignore_workbook_corruption:
                     print("_locate_stream(%s): seen" % qname, file=self.logfile); dump_list(self.seen, 20, self.logfile)
@@ -452,8 +467,9 @@ class CompDoc(object):
                 end_pos = start_pos + sec_size
             p = s
             s = sat[s]
-        assert s == EOCSID
-        assert tot_found == found_limit
+        if s != EOCSID or tot_found != found_limit:
+            raise CompDocError("%s corruption: the sector chain ends with %d after %d of %d sectors"
+                % (qname, s, tot_found, found_limit))
         # print >> self.logfile, "_locate_stream(%s): seen" % qname; dump_list(self.seen, 20, self.logfile)
         if not slices:
             # The stream is contiguous ... just what we like!
-- 
2.43.0


From 7f18a340c77095bde56370e74be75ae27cc23d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:39 +0000
Subject: [PATCH 14/29] fix: runxlrd used a constant xlrd does not define

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index b284a59..cca6ef2 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -300,7 +300,7 @@ if __name__ == "__main__":
         else:
             logfile = sys.stdout
         mmap_opt = options.mmap
-        mmap_arg = xlrd.USE_MMAP
+        mmap_arg = True
         if mmap_opt in (1, 0):
             mmap_arg = mmap_opt
         elif mmap_opt != -1:
-- 
2.43.0


From 22f46d9a561e2359fe48c13fb2289ce4871da2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 15/29] fix: close the zip file opened to identify the file
 format

---
 xlrd/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 84d5f26..5ef15b2 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -64,13 +64,12 @@ def inspect_format(path=None, content=None):
         return 'xls'
 
     if peek.startswith(ZIP_SIGNATURE):
-        zf = zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path)
-
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = {name.replace('\\', '/').lower(): name
-                           for name in zf.namelist()}
+        with zipfile.ZipFile(timemachine.BYTES_IO(content) if content else path) as zf:
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = {name.replace('\\', '/').lower(): name
+                               for name in zf.namelist()}
 
         if 'xl/workbook.xml' in component_names:
             return 'xlsx'
-- 
2.43.0


From a7191f4a9f7f9c458807a47f3e4bfb3eb1531c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 16/29] fix: dump and count_records left the file mapped

---
 xlrd/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 5ef15b2..a903532 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -194,8 +194,9 @@ def dump(filename, outfile=sys.stdout, unnumbered=False):
     """
     from .biffh import biff_dump
     bk = Book()
-    bk.biff2_8_load(filename=filename, logfile=outfile, )
-    biff_dump(bk.mem, bk.base, bk.stream_len, 0, outfile, unnumbered)
+    with bk:
+        bk.biff2_8_load(filename=filename, logfile=outfile, )
+        biff_dump(bk.mem, bk.base, bk.stream_len, 0, outfile, unnumbered)
 
 
 def count_records(filename, outfile=sys.stdout):
@@ -208,5 +209,6 @@ def count_records(filename, outfile=sys.stdout):
     """
     from .biffh import biff_count_records
     bk = Book()
-    bk.biff2_8_load(filename=filename, logfile=outfile, )
-    biff_count_records(bk.mem, bk.base, bk.stream_len, outfile)
+    with bk:
+        bk.biff2_8_load(filename=filename, logfile=outfile, )
+        biff_count_records(bk.mem, bk.base, bk.stream_len, outfile)
-- 
2.43.0


From 0adc42f7d4241fc48662fe91981f1b741873afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 17/29] fix: the encoding of a version 8 workbook without
 CODEPAGE record stayed unset

---
 xlrd/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index 8b1623c..a03a021 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -799,6 +799,7 @@ class Book(BaseObject):
                 self.encoding = 'iso-8859-1'
             else:
                 self.codepage = 1200 # utf16le
+                self.encoding = 'utf_16_le'
                 if self.verbosity >= 2:
                     fprintf(self.logfile, "*** No CODEPAGE record; assuming 1200 (utf_16_le)\n")
         else:
-- 
2.43.0


From 49bc767257825393e4dd4269cb36a60cb9b0ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:19 +0000
Subject: [PATCH 18/29] fix: a TXO record before any OBJ record used an unset
 variable

---
 xlrd/sheet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 1bc98fe..68bfb1d 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -807,6 +807,7 @@ class Sheet(BaseObject):
         do_sst_rich_text = fmt_info and bk._rich_text_runlist_map
         rowinfo_sharing_dict = {}
         txos = {}
+        saved_obj_id = None
         eof_found = 0
         while 1:
             # if DEBUG: print "SHEET.READ: about to read from position %d" % bk._position
-- 
2.43.0


From d3ad73f28b4804e87a52623ea36e01059b36a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:57 +0000
Subject: [PATCH 19/29] fix: a style name before any CODEPAGE or FONT record
 was decoded with an unset encoding

---
 xlrd/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index ca637b8..3fc62b2 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -665,7 +665,7 @@ def handle_style(book, data):
                 print("raw bytes:", repr(data[2:]), file=book.logfile)
                 raise
         else:
-            name = unpack_string(data, 2, book.encoding, lenlen=1)
+            name = unpack_string(data, 2, book.encoding or book.derive_encoding(), lenlen=1)
         if blah and not name:
             print("WARNING *** A user-defined style has a zero-length name", file=book.logfile)
     book.style_name_map[name] = (built_in, xf_index)
-- 
2.43.0


From a842591964f20589ad4cacece262e72eba7fd3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:14 +0000
Subject: [PATCH 20/29] fix: describing an unusual FILEPASS record at verbosity
 2 raised struct.error instead of XLRDError

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index a03a021..1701474 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -925,10 +925,10 @@ class Book(BaseObject):
             logf = self.logfile
             fprintf(logf, "FILEPASS:\n")
             hex_char_dump(data, 0, len(data), base=0, fout=logf)
-            if self.biff_version >= 80:
+            if self.biff_version >= 80 and len(data) >= 6:
                 kind1, = unpack('<H', data[:2])
                 if kind1 == 0: # weak XOR encryption
-                    key, hash_value = unpack('<HH', data[2:])
+                    key, hash_value = unpack('<HH', data[2:6])
                     fprintf(logf,
                         'weak XOR: key=0x%04x hash=0x%04x\n',
                         key, hash_value)
-- 
2.43.0


From 99d876cf969e6178fd46f12ba3ca1a27b384267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:03 +0000
Subject: [PATCH 21/29] fix: empty contents were taken for contents not
 supplied

---
 xlrd/__init__.py | 2 +-
 xlrd/book.py     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index a903532..037016e 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -53,7 +53,7 @@ def inspect_format(path=None, content=None):
        The return value can always be looked up in :data:`FILE_FORMAT_DESCRIPTIONS`
        to return a human-readable description of the format found.
     """
-    if content:
+    if content is not None:
         peek = content[:PEEK_SIZE]
     else:
         path = os.path.expanduser(path)
diff --git a/xlrd/book.py b/xlrd/book.py
index 1701474..e3afaf7 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -612,7 +612,7 @@ class Book(BaseObject):
         self.on_demand = on_demand
         self.ragged_rows = ragged_rows
 
-        if not file_contents:
+        if file_contents is None:
             with open(filename, "rb") as f:
                 f.seek(0, 2) # EOF
                 size = f.tell()
@@ -626,6 +626,8 @@ class Book(BaseObject):
                     self.filestr = f.read()
                     self.stream_len = len(self.filestr)
         else:
+            if len(file_contents) == 0:
+                raise XLRDError("File size is 0 bytes")
             self.filestr = file_contents
             self.stream_len = len(file_contents)
 
-- 
2.43.0


From 5470b31433ebcdfeb15ed4ab14473f3986ea216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:23 +0000
Subject: [PATCH 22/29] fix: a conditional-format formula that cannot be
 described at verbosity 2 stopped reading

---
 xlrd/sheet.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 68bfb1d..0938458 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1232,13 +1232,19 @@ class Sheet(BaseObject):
                 pos += sz1
                 if blah and sz1:
                     fprintf(self.logfile, "*** formula 1:\n")
-                    dump_formula(bk, fmla1, sz1, bv, reldelta=1, blah=1)
+                    try:
+                        dump_formula(bk, fmla1, sz1, bv, reldelta=1, blah=1)
+                    except Exception as e: # it is only a description
+                        fprintf(self.logfile, "*** not understood: %r\n", e)
                 fmla2 = data[pos:pos+sz2]
                 pos += sz2
                 assert pos == data_len
                 if blah and sz2:
                     fprintf(self.logfile, "*** formula 2:\n")
-                    dump_formula(bk, fmla2, sz2, bv, reldelta=1, blah=1)
+                    try:
+                        dump_formula(bk, fmla2, sz2, bv, reldelta=1, blah=1)
+                    except Exception as e:
+                        fprintf(self.logfile, "*** not understood: %r\n", e)
             elif rc == XL_DEFAULTROWHEIGHT:
                 if data_len == 4:
                     bits, self.default_row_height = unpack("<HH", data[:4])
-- 
2.43.0


From 83598960cac34cb5dcc2521af6bbae96009b8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:27 +0000
Subject: [PATCH 23/29] fix: count the characters of a continued STRING record
 in code units

---
 xlrd/sheet.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 0938458..dbe6a24 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1529,9 +1529,13 @@ class Sheet(BaseObject):
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+            chunk = data[offset:]
+            result += unicode(chunk, enc)
+            # the count is one of UTF-16 code units or bytes, not of decoded characters
+            if bv >= 80 and flag:
+                nchars_found += len(chunk) // 2
+            else:
+                nchars_found += len(chunk)
             if nchars_found == nchars_expected:
                 return result
             if nchars_found > nchars_expected:
-- 
2.43.0


From f5211c3d2bf5198a402a1715925468c645e98863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:29 +0000
Subject: [PATCH 24/29] fix: phonetic data of a shared string may fill several
 CONTINUE records

---
 xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index e3afaf7..b0afca1 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1464,7 +1464,7 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
             pos = pos - datalen
             datainx += 1
@@ -1473,5 +1473,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From 5ca8e5f5509205bd0e92a8f487e87c2853ef62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:17 +0000
Subject: [PATCH 25/29] fix: keep the parentheses of a formula in its text

---
 xlrd/formula.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index a5c98f6..73dab48 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -987,8 +987,12 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             elif 0x12 <= opcode <= 0x14: # tUplus, tUminus, tPercent
                 do_unaryop(opcode, oNUM, stack)
             elif opcode == 0x15: # tParen
-                # source cosmetics
-                pass
+                # no effect on the value, but the text needs them:
+                # 10-(5-2) is not 10-5-2, and SUM((A1,B1)) is not SUM(A1,B1)
+                assert len(stack) >= 1
+                aop = stack[-1]
+                stack[-1] = Operand(
+                    aop.kind, aop.value, LEAF_RANK, '(' + aop.text + ')')
             elif opcode == 0x16: # tMissArg
                 spush(Operand(oMSNG, None, LEAF_RANK, ''))
             elif opcode == 0x17: # tStr
@@ -1555,8 +1559,12 @@ def decompile_formula(bk, fmla, fmlalen,
             elif 0x12 <= opcode <= 0x14: # tUplus, tUminus, tPercent
                 do_unaryop(opcode, oNUM, stack)
             elif opcode == 0x15: # tParen
-                # source cosmetics
-                pass
+                # no effect on the value, but the text needs them:
+                # 10-(5-2) is not 10-5-2, and SUM((A1,B1)) is not SUM(A1,B1)
+                assert len(stack) >= 1
+                aop = stack[-1]
+                stack[-1] = Operand(
+                    aop.kind, aop.value, LEAF_RANK, '(' + aop.text + ')')
             elif opcode == 0x16: # tMissArg
                 spush(Operand(oMSNG, None, LEAF_RANK, ''))
             elif opcode == 0x17: # tStr
-- 
2.43.0


From 4154c79737101df8b711ecd94fd30b181987bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:07 +0000
Subject: [PATCH 26/29] fix: Name.cell() and area2d() refuse a reference
 without a known value

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index b0afca1..06c6d19 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -209,7 +209,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value is not None and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -246,7 +246,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value is not None and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From cda46b20b874bb37853b1fe3eae9874d7d7b434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:07 +0000
Subject: [PATCH 27/29] fix: a negative number to a fractional power has no
 value in a name formula

---
 xlrd/formula.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 73dab48..b14de6d 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -700,7 +700,11 @@ tLT, tLE, tEQ, tGE, tGT, tNE = range(0x09, 0x0F)
 def nop(x):
     return x
 
-def _opr_pow(x, y): return x ** y
+def _opr_pow(x, y):
+    result = x ** y
+    if isinstance(result, complex): # negative number to a fractional power
+        raise ValueError("result of %r ** %r is not a real number" % (x, y))
+    return result
 
 def _opr_lt(x, y): return x <  y
 def _opr_le(x, y): return x <= y
-- 
2.43.0


From 61fea54b0fa674f8a1db2d5bbc4610aafdc076a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:07 +0000
Subject: [PATCH 28/29] fix: a unary operator gives no value for text, an error
 value or a reference

---
 xlrd/formula.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index b14de6d..292db02 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -825,6 +825,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             ')'[:aop.rank < rank],
             sym2,
         ])
+        if aop.kind not in (oNUM, oBOOL): # e.g. =+"abc"
+            val = None
         if val is not None:
             try:
                 val = func(val)
-- 
2.43.0


From 28ce37eea0a851dd28a66a4421d58a5698c66629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 29/29] fix: an error value in a formula is not written as a
 text

---
 xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 292db02..5f606f4 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1050,7 +1050,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, value, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
@@ -1622,7 +1622,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, None, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
-- 
2.43.0


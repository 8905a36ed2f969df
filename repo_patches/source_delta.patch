From dbeb13bcfa1826a42593c54001a16036bd2113b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 01/32] fix: raise a failed worksheet parse in the consumer
 instead of ending early

Any exception in the parser thread other than the row limit was printed (or
swallowed) and the rows read so far were returned as the whole sheet; a row
callback raising on its first call left the consumer waiting forever.
---
 rxls/reader/xlsx.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 39d1a8f..3dbba84 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -316,10 +316,10 @@ class XlsxWorkbook:  # noqa: D101
 
             l_tag: str | None = None
 
-            # ? First row started event:
+            stop = GeneratorExit()
+            "Raised by the handlers, when all requested rows are taken"
+
             row += 1
-            if callback is not None:
-                callback()
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
@@ -411,7 +411,7 @@ class XlsxWorkbook:  # noqa: D101
                         take_rows += is_empty_row
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
-                        raise GeneratorExit
+                        raise stop
 
                 elif tag == "c":
                     c_typ = 0
@@ -424,20 +424,21 @@ class XlsxWorkbook:  # noqa: D101
             parser.buffer_text = True
 
             try:
+                # ? First row started event:
+                if callback is not None:
+                    callback()
+
                 parser.ParseFile(io)
-            except ValueError as e:
-                if e.args[0] != "read from closed file.":
-                    raise
-            except AttributeError as e:
-                if e.args[0] != "'NoneType' object has no attribute 'tell'":
-                    raise
-            except GeneratorExit:
-                pass
+            except BaseException as e:  # noqa: BLE001
+                # ? Raised again in the consumer, after all cells parsed before
+                if e is not stop:
+                    failures.append(e)
             finally:
                 o_q.put(sentinel)
 
         o_q: Queue[cell] = Queue()
         sentinel = object()
+        failures: list[BaseException] = []
 
         with self.zf.open(sheet_path) as io:
             Thread(
@@ -458,3 +459,6 @@ class XlsxWorkbook:  # noqa: D101
             ).start()
 
             yield from iter(o_q.get, sentinel)
+
+            if failures:
+                raise failures[0]
-- 
2.43.0


From c5466c9e7d3c3577ee96da86680935d63d5d50f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 02/32] fix: match null values against shared texts, never
 against their indices

XLSX compared the index of a shared string with the null values, and both
readers consulted the null shared indices before they had been collected.
---
 rxls/reader/xlsb.py | 3 +++
 rxls/reader/xlsx.py | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 0a51fe1..e9ee68f 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -209,6 +209,9 @@ class XlsbWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
+        # ? Indices of null shared strings are known only after scanning of them
+        _ = self.shared
+
         take_rows += skip_rows
         row = -1
         is_empty_row = False
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 3dbba84..91e7a7a 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -306,7 +306,6 @@ class XlsxWorkbook:  # noqa: D101
             "Number of current row"
 
             is_empty_row: bool = True
-            is_sharedstr: bool = False
 
             # cell fields
             c_row: int = 0
@@ -354,7 +353,6 @@ class XlsxWorkbook:  # noqa: D101
                     c_typ, \
                     l_tag, \
                     is_empty_row, \
-                    is_sharedstr, \
                     nullss, \
                     nullpd, \
                     skip_rows, \
@@ -364,7 +362,7 @@ class XlsxWorkbook:  # noqa: D101
                     return
 
                 if l_tag == "v" and (txt := txt.strip()):
-                    if is_sharedstr:
+                    if c_typ & REPR_SHARED:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
                             return
@@ -436,6 +434,9 @@ class XlsxWorkbook:  # noqa: D101
             finally:
                 o_q.put(sentinel)
 
+        # ? Indices of null shared strings are known only after scanning of them
+        _ = self.shared
+
         o_q: Queue[cell] = Queue()
         sentinel = object()
         failures: list[BaseException] = []
-- 
2.43.0


From c90a5453495339791e6933712c8059f79f24581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 03/32] fix: compare XLSB texts with error texts, not with
 their encoded bytes

No decoded text ever equalled one of the encoded error texts, so they were
never treated as null in XLSB.
---
 rxls/reader/xlsb.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index e9ee68f..7ff8034 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -35,8 +35,7 @@ re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
 ERROR_STRINGS = frozenset(
-    x.encode("utf-16")
-    for x in (
+    (
         "#NULL!",
         "#DIV/0!",
         "#VALUE!",
@@ -51,7 +50,7 @@ ERROR_STRINGS = frozenset(
         "#ИМЯ?",
         "#ЧИСЛО!",
         "#Н/Д",  # noqa: RUF001
-    )
+    ),
 )
 
 TEMPORAL_STYLES = frozenset(
-- 
2.43.0


From d7d6506734c399374bed90a78fb847bf76aa1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 04/32] fix: code BIFF12 strings as little-endian UTF-16
 without byte-order mark

'utf-16' writes a byte-order mark the length field does not count (a dumped
string was read back without its last character) and drops or obeys one when
reading, so texts starting with U+FEFF or U+FFFE were garbled.
---
 rxls/biff_recs.py   | 9 +++++----
 rxls/reader/xlsb.py | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index defd16f..ff06a26 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -38,14 +38,15 @@ class xstr:
         (sz,) = u4_u(io.read(4))
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(io.read(sz * 2).decode("utf-16"))
+        return xstr(io.read(sz * 2).decode("utf-16-le"))
 
     def dump(self, io: IO[bytes]) -> int:
         if self.s is None:
             io.write(b"\xff\xff\xff\xff")
         elif self.s:
-            io.write(u4_p(len(self.s)))
-            io.write(self.s.encode("utf-16"))
+            data = self.s.encode("utf-16-le")
+            io.write(u4_p(len(data) // 2))
+            io.write(data)
         else:
             io.write(b"\x00\x00\x00\x00")
 
@@ -56,7 +57,7 @@ class xstr:
         (sz,) = u4_u(b[:4])
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(b[4 : 4 + sz * 2].decode("utf-16"))
+        return xstr(b[4 : 4 + sz * 2].decode("utf-16-le"))
 
     @staticmethod
     def from_string(s: str) -> xstr:
diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 7ff8034..d2859a4 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -130,7 +130,7 @@ class XlsbWorkbook:  # noqa: D101
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
                 if self.null_values(
-                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16"),
+                    y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16-le"),
                 )
                 else y
                 for i, r in enumerate(scan_biff(io, {19}))
@@ -261,7 +261,7 @@ class XlsbWorkbook:  # noqa: D101
                 if r.rec_id in {6, 8}:
                     # NOTE: The slowest case, due to utf-16 encoding.
                     cell_data = r.data[12 : u4_u(r.data[8:12])[0] * 2 + 12].decode(
-                        "utf-16",
+                        "utf-16-le",
                     )
                     if self.null_values(cell_data):
                         continue
-- 
2.43.0


From aee80521543a8dc333bd48945e0c1c388e83d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 05/32] fix: take XLSX shared strings as whole items, whatever
 pieces their text comes by

---
 rxls/reader/xlsx.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 91e7a7a..fc19fa9 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -160,27 +160,38 @@ class XlsxWorkbook:  # noqa: D101
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
         with self.zf.open("xl/sharedStrings.xml") as io:
-            must_be = False
+            parts: list[str] = []
+            "All pieces of text of the current item"
+
+            is_text = False
+            is_hint = False
 
             def cell_sh(tag: str, _: dict[str, str]) -> None:
-                nonlocal must_be
+                nonlocal is_text, is_hint
                 if tag == "si":
-                    must_be = True
+                    parts.clear()
+                elif tag == "rPh":
+                    is_hint = True
+                elif tag == "t":
+                    is_text = not is_hint
 
             def cell_th(txt: str) -> None:
-                nonlocal must_be, ret
-                if must_be and (txt := txt.strip()):
-                    if self.null_values(txt):
-                        return
-                    ret.append(txt)
-                    must_be = False
+                if is_text:
+                    parts.append(txt)
 
             def cell_eh(tag: str) -> None:
-                nonlocal must_be
-                if tag == "si" and must_be:
-                    ret.append(None)  # type: ignore
-                    self.null_shared.add(str(len(ret) - 1))
-                    must_be = False
+                nonlocal is_text, is_hint, ret
+                if tag == "t":
+                    is_text = False
+                elif tag == "rPh":
+                    is_hint = False
+                elif tag == "si":
+                    txt = "".join(parts).strip()
+                    if txt and not self.null_values(txt):
+                        ret.append(txt)
+                    else:
+                        ret.append(None)  # type: ignore
+                        self.null_shared.add(str(len(ret) - 1))
 
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
-- 
2.43.0


From 8fd050b72c30cce7d170262386f36fa895229397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 06/32] fix: take the whole text of XLSX cells, inline strings
 included

---
 rxls/reader/xlsx.py | 70 ++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index fc19fa9..3ebf764 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -324,6 +324,8 @@ class XlsxWorkbook:  # noqa: D101
 
             l_col: str = ""
 
+            c_txt: list[str] = []
+
             l_tag: str | None = None
 
             stop = GeneratorExit()
@@ -342,6 +344,9 @@ class XlsxWorkbook:  # noqa: D101
                         # ? check, if value is shared string index:
                         if attrs.get("t") == "s":
                             c_typ = TYPE_STRING | REPR_SHARED
+                        # ? check, if value is text regardless of its representation
+                        elif attrs.get("t") in {"str", "inlineStr"}:
+                            c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
                             c_typ = typ
@@ -349,49 +354,44 @@ class XlsxWorkbook:  # noqa: D101
                             c_typ = TYPE_STRING | REPR_PREPARED
 
                         c_row = row
+                        c_txt.clear()
                     else:
                         return
+                # ? Phonetic hints are not a part of cell text
+                elif l_tag == "rPh" and tag == "t":
+                    return
                 # ? Add to tags only if it is already contains something.
                 # ? Also, add if it is empty and current tag == 'c'
                 l_tag = tag
                 # tags.append(l_tag := tag)
 
             def cell_th(txt: str) -> None:
-                nonlocal \
-                    o_q, \
-                    row, \
-                    l_col, \
-                    c_typ, \
-                    l_tag, \
-                    is_empty_row, \
-                    nullss, \
-                    nullpd, \
-                    skip_rows, \
-                    skip_cols
-
-                if skip_rows > row:
-                    return
+                # ? Text of one cell may be passed here by any number of pieces
+                if l_tag in {"v", "t"}:
+                    c_txt.append(txt)
 
-                if l_tag == "v" and (txt := txt.strip()):
-                    if c_typ & REPR_SHARED:
-                        # ? Check, that shared string number is not in null-shared
-                        if txt in nullss:
-                            return
-                    # ? Check, that null value predicate is false for this string
-                    elif nullpd(txt):
+            def cell_put(txt: str) -> None:
+                nonlocal is_empty_row
+
+                if c_typ & REPR_SHARED:
+                    # ? Check, that shared string number is not in null-shared
+                    if txt in nullss:
                         return
+                # ? Check, that null value predicate is false for this string
+                elif nullpd(txt):
+                    return
 
-                    c_col = col_idx(l_col.encode())
-                    if not skip_cols or c_col not in skip_cols:
-                        o_q.put(
-                            cell(
-                                c_row - skip_rows,
-                                c_col,
-                                c_typ,
-                                txt.encode("utf-8"),
-                            ),
-                        )
-                        is_empty_row = False
+                c_col = col_idx(l_col.encode())
+                if not skip_cols or c_col not in skip_cols:
+                    o_q.put(
+                        cell(
+                            c_row - skip_rows,
+                            c_col,
+                            c_typ,
+                            txt.encode("utf-8"),
+                        ),
+                    )
+                    is_empty_row = False
 
             def cell_eh(tag: str) -> None:
                 nonlocal tags, row, is_empty_row, callback, c_typ, c_row, take_rows, l_tag
@@ -423,9 +423,15 @@ class XlsxWorkbook:  # noqa: D101
                         raise stop
 
                 elif tag == "c":
+                    if l_tag and (txt := "".join(c_txt).strip()):
+                        cell_put(txt)
                     c_typ = 0
                     l_tag = None
 
+                # ? There is no cell text between its closed and next opened tags
+                elif l_tag and tag == l_tag:
+                    l_tag = "c"
+
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-- 
2.43.0


From ce473d9cf7538fdfc9a20a1ea2b3a73978fd3ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 07/32] fix: count skipped and empty rows alike and limit rows
 only when asked to

---
 rxls/reader/xlsb.py |  7 +++++--
 rxls/reader/xlsx.py | 17 ++++++++---------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index d2859a4..64fef79 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -211,7 +211,9 @@ class XlsbWorkbook:  # noqa: D101
         # ? Indices of null shared strings are known only after scanning of them
         _ = self.shared
 
-        take_rows += skip_rows
+        # ? Zero means no limit, with or without skipped rows
+        if take_rows:
+            take_rows += skip_rows
         row = -1
         is_empty_row = False
 
@@ -229,7 +231,8 @@ class XlsbWorkbook:  # noqa: D101
             # * 402: BrtEndSheetData
             for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
                 if not r.rec_id:
-                    if not is_empty_row or take_rows_non_empty:
+                    # ? Skipped rows are counted, whether they are empty or not
+                    if not is_empty_row or take_rows_non_empty or row < skip_rows:
                         row += 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 3ebf764..3a49f24 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -295,7 +295,9 @@ class XlsxWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        # ? Zero means no limit, with or without skipped rows
+        if take_rows:
+            take_rows += skip_rows
 
         def worker(
             io: IO[bytes],
@@ -405,19 +407,16 @@ class XlsxWorkbook:  # noqa: D101
                 # ? Row closing tag
                 if tag == "row":
                     # ? Row number for cells increases here only.
-                    # * If row was empty and take_non_empty, do not increase row number
-                    if not is_empty_row or take_non_empty:
+                    # * If row was empty and not take_non_empty, do not increase row number
+                    # * (skipped rows are counted, whether they are empty or not)
+                    if not is_empty_row or take_non_empty or row < skip_rows:
                         row += 1
 
+                    is_empty_row = True
+
                     if callback is not None:
                         callback()
 
-                    if is_empty_row:
-                        take_rows += take_non_empty
-
-                    # ? If entire row is empty, just increase max row count
-                    if take_non_empty:
-                        take_rows += is_empty_row
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
                         raise stop
-- 
2.43.0


From 92a5b6dba53907642e0815bc9ffe35686de084b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 08/32] fix: read workbooks without shared strings or styles

---
 rxls/reader/xlsb.py | 8 ++++++++
 rxls/reader/xlsx.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 64fef79..fad0330 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -126,6 +126,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # ? This part is optional
+        if "xl/sharedStrings.bin" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())
+
         with self.zf.open("xl/sharedStrings.bin") as io:
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
@@ -143,6 +147,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # ? This part is optional
+        if "xl/styles.bin" not in self.zf.namelist():
+            return frozenset()
+
         with self.zf.open("xl/styles.bin") as io:
             ret: set[bytes] = set()
             # ! [0]: Get full styles list from styles.bin (3-bytes little-endian XF ID and 2-bytes little-endian FMT ID)
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 3a49f24..2eacb7c 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -157,6 +157,10 @@ class XlsxWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # ? This part is optional
+        if "xl/sharedStrings.xml" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())
+
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
         with self.zf.open("xl/sharedStrings.xml") as io:
@@ -209,6 +213,10 @@ class XlsxWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # ? This part is optional
+        if "xl/styles.xml" not in self.zf.namelist():
+            return {}
+
         ret_temporal: set[str] = set()
         ret_numerics: set[str] = set()
 
-- 
2.43.0


From 088282d68c80bb9d7c9f1749f3a2295d3dc22442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 09/32] fix: resolve absolute targets of workbook relationships

---
 rxls/reader/xlsb.py | 4 ++--
 rxls/reader/xlsx.py | 2 +-
 rxls/rels.py        | 6 ++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index fad0330..f71c4e2 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -112,8 +112,8 @@ class XlsbWorkbook:  # noqa: D101
             for _sheet in scan_biff(io, {412}):
                 _sheet = BrtBundleSh.loadr(_sheet)
 
-                sheet_file = "xl/" + next(
-                    x.Target for x in wb_rels if x.Id == _sheet.strRelID.value
+                sheet_file = next(
+                    x.part for x in wb_rels if x.Id == _sheet.strRelID.value
                 )
 
                 s_sheet_idx[_sheet.strName.value] = sheet_file
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 2eacb7c..665758f 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -136,7 +136,7 @@ class XlsxWorkbook:  # noqa: D101
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
             for rel in wb_rels:
                 if rel.Type == "worksheet":
-                    rId_to_file[rel.Id] = f"xl/{rel.Target}"
+                    rId_to_file[rel.Id] = rel.part
 
         rId_to_name = {}  # noqa: N806
         with self.zf.open("xl/workbook.xml") as io:
diff --git a/rxls/rels.py b/rxls/rels.py
index 16c5367..c19e651 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 __all__ = ["Relationship"]
 
+from posixpath import join, normpath
 from typing import IO
 
 from pyexpat import ParserCreate
@@ -18,6 +19,11 @@ class Relationship:
     Type: str
     Target: str
 
+    @property
+    def part(self) -> str:
+        """Name of the target part. The target is either absolute, or relative to the folder of workbook"""
+        return normpath(join("/xl", self.Target)).lstrip("/")
+
     @staticmethod
     def scan_xml(io: IO[bytes]) -> list[Relationship]:
         ret = []
-- 
2.43.0


From febb206632ae2fb96a135a88e3934fcf74d5b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 10/32] fix: leave out workbook entries that are not worksheets

---
 rxls/reader/xlsb.py | 11 +++++++++--
 rxls/reader/xlsx.py |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index f71c4e2..20ac647 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -113,10 +113,17 @@ class XlsbWorkbook:  # noqa: D101
                 _sheet = BrtBundleSh.loadr(_sheet)
 
                 sheet_file = next(
-                    x.part for x in wb_rels if x.Id == _sheet.strRelID.value
+                    (
+                        x.part
+                        for x in wb_rels
+                        if x.Id == _sheet.strRelID.value and x.Type == "worksheet"
+                    ),
+                    None,
                 )
 
-                s_sheet_idx[_sheet.strName.value] = sheet_file
+                # ? There are also chart sheets, dialog sheets, etc.
+                if sheet_file is not None:
+                    s_sheet_idx[_sheet.strName.value] = sheet_file
         return s_sheet_idx
 
     @cached_property
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 665758f..4e091bf 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -149,7 +149,8 @@ class XlsxWorkbook:  # noqa: D101
             parser = ParserCreate()
             parser.StartElementHandler = st_handler
             parser.ParseFile(io)
-        return {rId_to_name[x]: rId_to_file[x] for x in rId_to_name}
+        # ? There are also chart sheets, dialog sheets, etc.
+        return {rId_to_name[x]: rId_to_file[x] for x in rId_to_name if x in rId_to_file}
 
     @cached_property
     def shared(self) -> pa.LargeStringArray:
-- 
2.43.0


From a9784e7ea7c32145a497968ffdeecf96ef44a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 11/32] fix: count leading empty rows in the length of a column

---
 rxls/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/series.py b/rxls/series.py
index 55c1f88..72f652b 100644
--- a/rxls/series.py
+++ b/rxls/series.py
@@ -70,7 +70,7 @@ class xl_series:  # noqa: N801
         self.__binary = binary
 
     def __len__(self) -> int:
-        return self.__e_row - self.__s_row + 1
+        return self.__e_row + 1
 
     def __pull_chunk(self) -> None:
         """Normalize chunk and add it to underlying list."""
-- 
2.43.0


From c314c08c845b29e28dc3b73652baa5785c0e9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 12/32] fix: keep stored chunks when rendering a column, and
 fall back to their original texts

---
 rxls/chunk/chunk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d0f1841..a106efd 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -459,6 +459,9 @@ class chunk:  # noqa: D101, N801
         if offset or length or index is not None:
             chunks = chunk.take_over(chunks, offset, length, index)
 
+        # ? Stored chunks must stay as is, and they are required again, if some conversions failed
+        source, chunks = chunks, list(chunks)
+
         temp_idx = []
         nums_idx = []
         utf8_idx = []
@@ -508,6 +511,7 @@ class chunk:  # noqa: D101, N801
 
         if utf8_fallback:
             dtype = UTF8
+            chunks = source
         elif temp_idx:
             dtype = T_MS
         elif nums_idx:
-- 
2.43.0


From 05921e1d38288283c39a23b01fdd40270ac56e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 13/32] fix: resolve shared strings before parsing them as
 dates

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index a106efd..644e5a7 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -245,7 +245,7 @@ class chunk:  # noqa: D101, N801
                 return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
             return chunk(self.data, self.type | REPR_TEMPORAL)
         return chunk(
-            mf_strptime(self.data, formats),  # type: ignore
+            mf_strptime(self.prepare().data, formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
         )  # type: ignore
 
-- 
2.43.0


From 33f711ad1bf9cee06f03b1b4139a905007d08c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 14/32] fix: judge XLSB number formats by their full id and own
 code only

---
 rxls/reader/xlsb.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 20ac647..292cf18 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -172,22 +172,29 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: r.data[2:].decode("utf-16").split(";", 1)[0]
+                r.data[:2]: r.data[6 : 6 + u4_u(r.data[2:6])[0] * 2]
+                .decode("utf-16-le")
+                .split(";", 1)[0]
                 for r in scan_biff(io, {44})
             }
 
             # ! [2]: Check, for each format, that it is temporal. Add XF IDs of BrtXFs using it to result.
             for f_id, fmt in fms.items():
                 xf_ids = [x for x, y in xfs.items() if y == f_id]
-                if fmt == "0":
-                    ret.update(dict.fromkeys(xf_ids, 0x10))
-
+                # ? These formats are numeric
+                if fmt == "0" or ".00" in fmt:
                     continue
                 if re_dt.search(re_xt.sub("", fmt)):
                     ret.update(xf_ids)
 
             # ! [3]: Add to result each BrtXF, where FmtId in date/time/duration builtin formats
-            ret.update((x for x, y in xfs.items() if y[0] in TEMPORAL_STYLES))
+            ret.update(
+                (
+                    x
+                    for x, y in xfs.items()
+                    if int.from_bytes(y, "little") in TEMPORAL_STYLES
+                ),
+            )
 
             return frozenset(ret)  # type: ignore
 
-- 
2.43.0


From f3c307bb9cc77d8e8115c536efec27a505fb8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 15/32] fix: check shared string indices and element sizes
 before addressing memory

---
 rxls/chunk/arrow.py | 2 +-
 rxls/chunk/casts.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/arrow.py b/rxls/chunk/arrow.py
index 68915db..b882c8c 100644
--- a/rxls/chunk/arrow.py
+++ b/rxls/chunk/arrow.py
@@ -111,7 +111,7 @@ def and_(x: PaArray, y: PaValue, /) -> pa.BooleanArray:
     raise NotImplementedError
 
 
-@arrow_fn("array_take", pc.TakeOptions(boundscheck=False))
+@arrow_fn("array_take", pc.TakeOptions(boundscheck=True))
 def take(
     arr: MonoArray,
     indices: PaArray | list[int],
diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 3182876..69ba86c 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -511,10 +511,16 @@ def _unsafe_data_to_arrow(
         Arrow array of expected dtype
 
     """
+    buffer = b"".join(data)
+
+    # ? Elements of corrupted file may be shorter than required
+    if len(buffer) * 8 != len(data) * dtype.bit_width:  # type: ignore
+        raise ValueError(dtype)
+
     return from_buffers(
         dtype,
         len(data),  # type: ignore
-        (None, pa.py_buffer(b"".join(data))),  # type: ignore
+        (None, pa.py_buffer(buffer)),  # type: ignore
         0,
     )
 
-- 
2.43.0


From d65c961afee74223364a2fc5a121942150832620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 16/32] fix: return distinct column names, not the repeating
 ones

---
 rxls/reader/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 8a3a5b3..5f40c66 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -65,7 +65,7 @@ def __make_header(
 
         result_hdrs.append(n)
 
-    return hdrs
+    return result_hdrs
 
 
 def __find_header(
-- 
2.43.0


From 6c14dad43534aae6271e4af7e7cc1c8b08629600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 17/32] fix: render a window without any values as an empty
 column

---
 rxls/chunk/chunk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 644e5a7..0eb8f99 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -459,6 +459,9 @@ class chunk:  # noqa: D101, N801
         if offset or length or index is not None:
             chunks = chunk.take_over(chunks, offset, length, index)
 
+        if not chunks:
+            return pa.nulls(0)
+
         # ? Stored chunks must stay as is, and they are required again, if some conversions failed
         source, chunks = chunks, list(chunks)
 
-- 
2.43.0


From 90b8cbb8d43e77ebca6f636d16f397d4a9c4a1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 18/32] fix: take all values from an offset on, when no length
 is given

---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 0eb8f99..1946e82 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -407,7 +407,7 @@ class chunk:  # noqa: D101, N801
                 if _chunk.size:
                     result.append(_chunk)
 
-                if cum_len >= length:
+                if length and cum_len >= length:
                     break
 
         if length and cum_len < length:
-- 
2.43.0


From d096267bd15a3a6f4458b4739de46dd5e12936be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 19/32] fix: cut null runs like any other sequences

---
 rxls/chunk/chunk.py | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 1946e82..7968c51 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -51,28 +51,7 @@ T_MS = pa.timestamp("ms")
 
 
 def null_slice(x: int, index: slice) -> int:
-    if not x:
-        return 0
-
-    start = index.start or 0
-    if start < 0:
-        start = x + start
-
-    stop = index.stop or x
-    if stop < 0:
-        stop = x + stop
-
-    step = index.step or 1
-
-    if step < 0:
-        stop, start = start, stop
-        step = -step
-
-    if stop <= start:
-        return 0
-
-    itvl = stop - start
-    return itvl // step + bool(itvl % step)
+    return len(range(*index.indices(x)))
 
 
 @as_dataclass(mapping=True)
-- 
2.43.0


From 9cdaf555c1bc85dd3f41da38e1dcd025d80ecd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 20/32] fix: close the archive, when it is not a workbook

---
 rxls/reader/xlsb.py | 1 +
 rxls/reader/xlsx.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 292cf18..39aa4cb 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -90,6 +90,7 @@ class XlsbWorkbook:  # noqa: D101
     def __enter__(self) -> Self:
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.bin" not in self.zf.namelist():
+            self.zf.close()
             raise AssertionError("Incorrect xlsb file")
         return self
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 4e091bf..52f0cd3 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -118,6 +118,7 @@ class XlsxWorkbook:  # noqa: D101
     def __enter__(self) -> Self:
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.xml" not in self.zf.namelist():
+            self.zf.close()
             raise AssertionError("Invalid xlsx file")
         return self
 
-- 
2.43.0


From 9fca145a0ecd4ca3e933abd2b07a1f4c21276bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:05 +0000
Subject: [PATCH 21/32] fix: escape the values of relationships written as XML

---
 rxls/rels.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rxls/rels.py b/rxls/rels.py
index c19e651..2538d7b 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -5,6 +5,7 @@ __all__ = ["Relationship"]
 
 from posixpath import join, normpath
 from typing import IO
+from xml.sax.saxutils import quoteattr
 
 from pyexpat import ParserCreate
 
@@ -48,5 +49,9 @@ class Relationship:
 
     def dump_xml(self, io: IO[bytes]) -> None:
         io.write(
-            f'<Relationship Id="{self.Id}" Type="{RELS_NS}/{self.Type}" Target="{self.Target}"/>'.encode(),
+            "<Relationship Id={} Type={} Target={}/>".format(
+                quoteattr(self.Id),
+                quoteattr(f"{RELS_NS}/{self.Type}"),
+                quoteattr(self.Target),
+            ).encode(),
         )
-- 
2.43.0


From 9a9517a7b00d304cec385a354f022967d1b44fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 22/32] fix: round date serials to the nearest millisecond
 instead of truncating

---
 rxls/chunk/casts.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 69ba86c..f8516e8 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -90,7 +90,8 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
     # NOTE 2: 25_569 - actual days for backward compatibility reason (for dates greater or equal to 1900-03-01)
     # NOTE 3: 86_400_000 - milliseconds per day
 
-    return (
+    # ? Fractions of day are not exact, so result must be rounded, not truncated
+    return np.rint(
         (
             arr
             - (
@@ -98,7 +99,7 @@ def f8_to_ms_win(arr: NDArray[np.float64]) -> NDArray[np.int64]:
                 * (np.float64(25_569.0) - (arr < np.float64(60.0)))
             )
         )
-        * np.float64(86_400_000.0)
+        * np.float64(86_400_000.0),
     ).astype(np.int64)
 
 
@@ -282,7 +283,7 @@ if NUMBA_AVAILABLE:
             out[:] = (arr.astype(np.int32) << np.int32(2) | np.int32(2)).view(np.uint32)
 
         def __gu_f8_to_ms_win(arr: NDArray[np.float64], out: NDArray[np.int64]) -> None:
-            out[:] = (
+            out[:] = np.rint(
                 (
                     arr
                     - (
@@ -290,7 +291,7 @@ if NUMBA_AVAILABLE:
                         * (np.float64(25_569.0) - (arr < np.float64(60.0)))
                     )
                 )
-                * np.float64(86_400_000.0)
+                * np.float64(86_400_000.0),
             ).astype(np.int64)
 
         def __gu_ms_to_f8_win(arr: NDArray[np.int64], out: NDArray[np.float64]) -> None:
-- 
2.43.0


From ef824d3310b45a9c51539c5fc7ceceffbc7eb10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 23/32] fix: cast columns to requested dtypes, when only
 parameters of types differ

---
 rxls/reader/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 5f40c66..c0ce064 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -299,7 +299,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
     if dtypes is not None:  # noqa: PLR1702
         if isinstance(dtypes, pa.DataType):
             for i in range(len(arrays)):
-                if arrays[i].type.id != dtypes.id:  # type: ignore
+                if arrays[i].type != dtypes:
                     try:
                         arrays[i] = arrays[i].cast(dtypes)
                     except Exception:  # noqa: BLE001
@@ -311,7 +311,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
             for i, col in enumerate(header):
                 if col in dtypes:
                     dtype = dtypes[col]
-                    if arrays[i].type.id != dtype.id:
+                    if arrays[i].type != dtype:
                         try:
                             arrays[i] = arrays[i].cast(dtype)
                         except Exception:  # noqa: BLE001
@@ -327,7 +327,7 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                 )
 
             for i, dtype in enumerate(dtypes):
-                if arrays[i].type.id != dtype.id:
+                if arrays[i].type != dtype:
                     try:
                         arrays[i] = arrays[i].cast(dtype)
                     except Exception:  # noqa: BLE001
-- 
2.43.0


From 67e729f9368c8eff45ebf3ba83d61748b6a22583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 24/32] fix: never take the value of a parsed instant as a sign
 of failure

---
 rxls/chunk/casts.py | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index f8516e8..9eaa327 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -19,6 +19,7 @@ __all__ = [
     "rk_to_f8",
 ]
 
+import re
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -610,6 +611,21 @@ def _unsafe_strings_to_array(
 
 _unsafe_strings_to_array = np.fromiter  # type: ignore
 
+NOT_A_TIME = np.iinfo(np.int64).min
+"Stands for the texts, that cannot be parsed as timestamps. There is no date with this timestamp"
+
+re_date = re.compile(r"%[-_0^#]*[EO]?[aAbBcCdDeFgGhjmsuUvVwWxyY]")
+"Any of directives that depend on date"
+
+
+def _timestamps(arr: pa.Array, format: str, /) -> NDArray[np.int64]:
+    ret = arr.cast(pa.int64()).fill_null(NOT_A_TIME).to_numpy()
+    if re_date.search(format):
+        return ret
+    # ? The day of time without a date depends on implementation
+    return np.where(ret == NOT_A_TIME, ret, ret % np.int64(86_400_000))
+
+
 if POLARS_AVAILABLE:
     import polars as pl
 
@@ -630,16 +646,15 @@ if POLARS_AVAILABLE:
 
         Returns:
         -------
-            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
+            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01), or `NOT_A_TIME`
 
         """
-        ret = _unsafe_array(
+        return _timestamps(
             pl.from_arrow(arr)
             .str.strptime(pl.Datetime("ms"), format, strict=False)  # type: ignore
             .to_arrow(),
-            np.int64,
+            format,
         )
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
 
 else:
     DEFAULT_TIME_FORMATS: tuple[str, ...] = (
@@ -660,24 +675,24 @@ else:
 
         Returns:
         -------
-            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01)
+            NDArray[np.int64] -- UNIX Timestamp (milliseconds since 1970-01-01), or `NOT_A_TIME`
 
         """
-        ret = _unsafe_array(strptime(arr, format, "ms", True), np.int64)
-        return np.where(ret < 0, ret % np.int64(86_400_000), ret)
+        return _timestamps(strptime(arr, format, "ms", True), format)
 
 
 DEFAULT_DATE_FORMATS: tuple[str, ...] = (
+    # * Short years go first, because `%Y` also matches them as years of the 1-st century
+    "%d-%m-%y",
+    "%d/%m/%y",
+    "%d.%m.%y",
     # * ISO-8601
     "%Y-%m-%d",
     # * Some European formats
     "%d/%m/%Y",
-    "%d/%m/%y",
     "%d.%m.%Y",
-    "%d.%m.%y",
     # * Additional formats
     "%d-%m-%Y",
-    "%d-%m-%y",
 )
 
 DEFAULT_DATETIME_FORMATS = tuple(
@@ -729,7 +744,7 @@ def mf_strptime(
         If one or more values cannot be recognized as temporal, using given formats.
 
     """
-    result = np.repeat(np.int64(0), len(arr))
+    result = np.repeat(np.int64(NOT_A_TIME), len(arr))
 
     if not formats:
         formats = (
@@ -739,11 +754,11 @@ def mf_strptime(
         )
 
     for format in formats:
-        result = np.where(result == 0, _strptime(arr, format), result)
+        result = np.where(result == NOT_A_TIME, _strptime(arr, format), result)
 
-        if np.all(result > np.int64(0)):
+        if np.all(result != NOT_A_TIME):
             return result
 
-    if strict and np.any(result == 0):
+    if strict and np.any(result == NOT_A_TIME):
         raise pa.ArrowInvalid
     return result
-- 
2.43.0


From 3d8bc7527df11984882afb9a04300d4dda3561a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 25/32] fix: leave columns with values out of the Int64 range
 floating

---
 rxls/chunk/casts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 9eaa327..aac4786 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -179,7 +179,11 @@ def f8_is_i8(arr: NDArray[np.float64], int_threshold: int) -> np.bool_:
         Is rounded input potentially integer array, or not
 
     """
-    return ~np.any(np.trunc(arr) != np.round(arr, int_threshold))
+    # ? Infinite and too large values cannot be represented as Int64
+    return ~np.any(
+        (np.trunc(arr) != np.round(arr, int_threshold))
+        | (np.abs(arr) >= np.float64(2**63)),
+    )
 
 
 def dt_has_t(arr: NDArray[np.int64]) -> np.bool_:
-- 
2.43.0


From d450da22782f97364b950dc938084a1af3436edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 26/32] fix: end the accelerated scan at a record cut short by
 the end of stream

---
 rxls/biff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index 9394c38..03720d7 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -202,7 +202,8 @@ if NUMBA_AVAILABLE:  # noqa: PLR1702
         if only is not None and not isinstance(only, set):
             only = set(only)
 
-        while chunk := chunk + io.read(2**16):
+        while part := io.read(2**16):
+            chunk += part
             for _i, _o, _data in scan_chunk(chunk, only):
                 if _i < 0:
                     chunk = chunk[_o:]
-- 
2.43.0


From d3e1e50e33e67dff460cf46a9503ebf644497dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 27/32] fix: take quoted and escaped characters of number
 formats for what they are

---
 rxls/reader/xlsb.py | 13 ++++++++-----
 rxls/reader/xlsx.py |  9 ++++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 39aa4cb..711a2fd 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -31,8 +31,11 @@ if TYPE_CHECKING:
 
     from typing_extensions import Self
 
-re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_dt = re.compile(r"[dmhysDMHYS]")
+# ? Escaped characters (as well as used as space and filler), quoted texts and all modifiers except of elapsed time
+re_xt = re.compile(r'(?s)[\\_*].|"[^"]*"|\[(?!(?:hh?|mm?|ss?)\])[^\]]*\]')
+# ? First section of a format. Semicolons may also be quoted or escaped
+re_sc = re.compile(r'(?s)(?:[\\_*].|"[^"]*"|[^;])*')
 
 ERROR_STRINGS = frozenset(
     (
@@ -173,9 +176,9 @@ class XlsbWorkbook:  # noqa: D101
             io.seek(0)
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms = {
-                r.data[:2]: r.data[6 : 6 + u4_u(r.data[2:6])[0] * 2]
-                .decode("utf-16-le")
-                .split(";", 1)[0]
+                r.data[:2]: re_sc.match(
+                    r.data[6 : 6 + u4_u(r.data[2:6])[0] * 2].decode("utf-16-le"),
+                )[0]  # type: ignore
                 for r in scan_biff(io, {44})
             }
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 52f0cd3..b918fab 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -34,8 +34,11 @@ if TYPE_CHECKING:
 
     T = TypeVar("T")
 
-re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
-re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
+re_dt = re.compile(r"[dmhysDMHYS]")
+# ? Escaped characters (as well as used as space and filler), quoted texts and all modifiers except of elapsed time
+re_xt = re.compile(r'(?s)[\\_*].|"[^"]*"|\[(?!(?:hh?|mm?|ss?)\])[^\]]*\]')
+# ? First section of a format. Semicolons may also be quoted or escaped
+re_sc = re.compile(r'(?s)(?:[\\_*].|"[^"]*"|[^;])*')
 
 re_date = re.compile(r"[ydYD]")
 re_time = re.compile(r"[hsHS]")
@@ -233,7 +236,7 @@ class XlsxWorkbook:  # noqa: D101
                 nonlocal xfs, fms, xfs_id
 
                 if tag == "numFmt":
-                    fms[attrs["numFmtId"]] = attrs["formatCode"].split(";", 1)[0]
+                    fms[attrs["numFmtId"]] = re_sc.match(attrs["formatCode"])[0]  # type: ignore
 
                 elif tag == "xf" and "xfId" in attrs:
                     xfs[str(xfs_id)] = attrs["numFmtId"]
-- 
2.43.0


From f463d1cacfca624a399dc0d09cc075461d884bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 28/32] fix: take elapsed-time modifiers of number formats in
 upper case as well

---
 rxls/reader/xlsb.py | 2 +-
 rxls/reader/xlsx.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 711a2fd..063aa01 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -33,7 +33,7 @@ if TYPE_CHECKING:
 
 re_dt = re.compile(r"[dmhysDMHYS]")
 # ? Escaped characters (as well as used as space and filler), quoted texts and all modifiers except of elapsed time
-re_xt = re.compile(r'(?s)[\\_*].|"[^"]*"|\[(?!(?:hh?|mm?|ss?)\])[^\]]*\]')
+re_xt = re.compile(r'(?s)[\\_*].|"[^"]*"|\[(?!(?i:hh?|mm?|ss?)\])[^\]]*\]')
 # ? First section of a format. Semicolons may also be quoted or escaped
 re_sc = re.compile(r'(?s)(?:[\\_*].|"[^"]*"|[^;])*')
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index b918fab..ba39b3b 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -36,7 +36,7 @@ if TYPE_CHECKING:
 
 re_dt = re.compile(r"[dmhysDMHYS]")
 # ? Escaped characters (as well as used as space and filler), quoted texts and all modifiers except of elapsed time
-re_xt = re.compile(r'(?s)[\\_*].|"[^"]*"|\[(?!(?:hh?|mm?|ss?)\])[^\]]*\]')
+re_xt = re.compile(r'(?s)[\\_*].|"[^"]*"|\[(?!(?i:hh?|mm?|ss?)\])[^\]]*\]')
 # ? First section of a format. Semicolons may also be quoted or escaped
 re_sc = re.compile(r'(?s)(?:[\\_*].|"[^"]*"|[^;])*')
 
-- 
2.43.0


From 7123a27613b61501e00de0fba43dec87b372ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 29/32] fix: reject a shared string index of XLSX that does not
 fit in UInt32

---
 rxls/chunk/chunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 7968c51..842dd6b 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -110,9 +110,10 @@ class chunk:  # noqa: D101, N801
             if shareds is None:
                 shareds = EMPTY_SHAREDS
             return chunk(
+                # ? Index that does not fit in UInt32 must not be wrapped to valid one
                 _unsafe_arrow(
-                    _unsafe_strings_to_array(data, np.uint32, data_len),
-                    UI_4,
+                    _unsafe_strings_to_array(data, np.int64, data_len),
+                    I__8,
                 ),
                 TYPE_STRING | REPR_SHARED,
                 data_len,
-- 
2.43.0


From 677209cd772a74e31ef887f8330d44c0300da2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 30/32] fix: reject numbers of XLSB whose bytes are too short
 or too long

---
 rxls/chunk/casts.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index aac4786..b3b5833 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -558,7 +558,13 @@ def _unsafe_data_to_array(
         Numpy array of expected dtype
 
     """
-    return np.frombuffer(b"".join(data), dtype)
+    ret = np.frombuffer(b"".join(data), dtype)
+
+    # ? Elements of corrupted file may be shorter than required
+    if len(ret) != len(data):  # type: ignore
+        raise ValueError(dtype)
+
+    return ret
 
 
 def _unsafe_bool_arrow_to_numpy(arr: pa.BooleanArray) -> NDArray[np.bool_]:
-- 
2.43.0


From e05bfa93b6a41af8ba98c82697bbfe2e7fba3b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 31/32] fix: read errors and ISO dates of XLSX as texts

An error (or ISO date) in a cell with a temporal style turned the dates around it into texts of their raw serials
---
 rxls/reader/xlsx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index ba39b3b..57e05be 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -360,7 +360,8 @@ class XlsxWorkbook:  # noqa: D101
                         if attrs.get("t") == "s":
                             c_typ = TYPE_STRING | REPR_SHARED
                         # ? check, if value is text regardless of its representation
-                        elif attrs.get("t") in {"str", "inlineStr"}:
+                        # ? (errors and ISO dates are also not numbers)
+                        elif attrs.get("t") in {"str", "inlineStr", "e", "d"}:
                             c_typ = TYPE_STRING | REPR_PREPARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
-- 
2.43.0


From f756ab6244c85736943196aec6f46e7fa999318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 32/32] fix: do not read past the end of a chunk in the
 compiled scan

Indices are not checked by compiled code: at the end of each chunk up to five bytes after it were read
---
 rxls/biff.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index 03720d7..d29b04c 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -120,22 +120,33 @@ if NUMBA_AVAILABLE:  # noqa: PLR1702
         ch_len = len(chunk)
         id = np.int16(-1)
         try:
-            while True:
+            # ? Bounds are not checked by compiled code
+            while offset < ch_len:
                 id = np.int16(chunk[offset])
                 offset += 1
+                if offset == ch_len:
+                    break
                 if id & 0x80:  # type: ignore
                     id |= np.int16(chunk[offset]) << 8  # type: ignore
                     offset += 1
+                    if offset == ch_len:
+                        break
 
                 sz = chunk[offset]
                 offset += 1
                 if sz & 0x80:
+                    if offset == ch_len:
+                        break
                     sz = (sz & 0x7F) | (chunk[offset] << 7)
                     offset += 1
                     if sz & 0x4000:
+                        if offset == ch_len:
+                            break
                         sz = (sz & 0x3FFF) | (chunk[offset] << 14)
                         offset += 1
                         if sz & 0x200_000:
+                            if offset == ch_len:
+                                break
                             sz = (sz & 0x1FF_FFF) | (chunk[offset] << 21)
                             offset += 1
                 if offset + sz > ch_len:
-- 
2.43.0


From 9a97264c4fc87fcf3aa9e60b99be159426875fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:00 +0000
Subject: [PATCH 001/102] fix: delimiters inside strings and comments ended
 arrays, dictionaries and strings

---
 pdfsyntax/objects.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6eede1e..c133ed8 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -67,7 +67,6 @@ def next_token(text: bytes, i=0) -> tuple:
     """Find next token in raw string starting at some index."""
     search = "TBD"
     nested = 1
-    text_in_array = 0
     h = i
     while i < len(text):
         single = text[i:i+1]
@@ -102,6 +101,12 @@ def next_token(text: bytes, i=0) -> tuple:
             elif single == b'%':
                 search = "COMMENT"
             h = i
+            if search == "DICT":
+                i += 1
+        elif search in ("DICT", "ARRAY") and (single in b'(%' or single == b'<' and double != b'<<'):
+            #Skip nested strings and comments: delimiters inside do not count
+            _, i, _ = next_token(text, i)
+            continue
         elif search == "DICT":
             if double == b'<<':
                 nested += 1
@@ -120,7 +125,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if double == b'\\(' or double == b'\\)':
+            if single == b'\\':
                 i += 1
             elif single == b'(':
                 nested += 1
@@ -158,13 +163,11 @@ def next_token(text: bytes, i=0) -> tuple:
             elif  text[i:i+9] == b'endstream':
                 return (h, i+9, 'STREAM')
         elif search == "ARRAY":
-            if single == b'(':
-                text_in_array = 1
-            elif single == b')':
-                text_in_array = 0
-            elif text_in_array == 0 and single == b'[':
+            if double == b'<<':
+                i += 1
+            elif single == b'[':
                 nested += 1
-            elif text_in_array == 0 and single == b']':
+            elif single == b']':
                 nested -= 1
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
-- 
2.43.0


From f7dd68c485369936a97d290d54520e72435efa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:02 +0000
Subject: [PATCH 002/102] fix: parsed references lost their generation number

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index c133ed8..a2e5133 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -182,7 +182,7 @@ def replace_ref(tokens: list) -> list:
     i = 0
     while i < size:
         if i < size - 2 and tokens[i + 2]  == 'R':
-            new_list.append(complex(0, tokens[i]))
+            new_list.append(complex(tokens[i + 1], tokens[i]))
             i += 3
         else:
             new_list.append(tokens[i])
-- 
2.43.0


From da139c726c6779e48b4dfc0b17024529fb3b0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:03 +0000
Subject: [PATCH 003/102] fix: scalar at the very end of the parsed text was
 returned as raw bytes

---
 pdfsyntax/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index a2e5133..ca8dea2 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -209,6 +209,9 @@ def dedicated_type(text: bytes, type: str) -> Any:
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
     h1, j1, t1 = next_token(text, start)
+    if t1 is None and h1 < j1 == len(text):
+        #Token closed by the end of text
+        _, _, t1 = next_token(text[h1:] + b'\n')
     obj = text[h1:j1]
     if t1 == 'DICT':
         res = {}
-- 
2.43.0


From 44d7e98c97aa27652a4085d83f341bdbe269ccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:05 +0000
Subject: [PATCH 004/102] fix: endless loop on a misplaced closing bracket

---
 pdfsyntax/objects.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index ca8dea2..9c4e9c2 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -225,10 +225,12 @@ def parse_obj(text: bytes, start=0) -> Any:
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
 
-        i = start + 2
+        i = h1 + 2
         while i < j1 - 1:
             h, i, t = next_token(text, i)
-            if t and t != 'COMMENT':
+            if t is None:
+                i += 1 #Do not stay on a misplaced delimiter
+            elif t != 'COMMENT':
                 if i < j1 and t:
                     if t == 'DICT' or t == 'ARRAY':
                         obj = parse_obj(text[h:i])
@@ -250,10 +252,12 @@ def parse_obj(text: bytes, start=0) -> Any:
         return res
     elif t1 == 'ARRAY':
         res = []
-        i = start + 1
+        i = h1 + 1
         while i < j1 - 1:
             h, i, t = next_token(text, i)
-            if t and t != 'COMMENT':
+            if t is None:
+                i += 1 #Do not stay on a misplaced delimiter
+            elif t != 'COMMENT':
                 if t == 'DICT' or t == 'ARRAY':
                     obj = parse_obj(text[h:i])
                 else:
-- 
2.43.0


From 4615bfa4befa1066773ae44d17dcccc927344ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:08 +0000
Subject: [PATCH 005/102] fix: names holding bytes above 127 could not be
 parsed nor written

---
 pdfsyntax/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 9c4e9c2..0dec6c6 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -201,7 +201,7 @@ def dedicated_type(text: bytes, type: str) -> Any:
     elif type == 'FALSE':
         return False
     elif type == 'KEYWORD' or type == 'NAME':
-        return text.decode('ascii')
+        return text.decode('latin-1')
     else:
         return text
 
@@ -460,14 +460,14 @@ def to_str(obj) -> bytes:
     elif type(obj) == float:
         return str(obj).encode('ascii')
     elif type(obj) == str:
-        return obj.encode('ascii')
+        return obj.encode('latin-1')
     elif type(obj) == complex:
         s = f'{int(obj.imag)} {int(obj.real)} R'
         return s.encode('ascii')
     elif type(obj) == bytes:
         return obj
     else:
-        return obj.encode('ascii')
+        return obj.encode('latin-1')
 
 
 def serialize(obj, depth=0) -> bytes:
-- 
2.43.0


From e05fb91b3a5631c35ecd7e6aa1d2c81fc9abe3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:10 +0000
Subject: [PATCH 006/102] fix: operators ' and " were dropped by the tokenizer

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 0dec6c6..4a0bd25 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -92,7 +92,7 @@ def next_token(text: bytes, i=0) -> tuple:
                 i += offset
             elif single in b"+-.0123456789":
                 search = "VALUE"
-            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
+            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'\"":
                 search = "KEYWORD"
             elif single in b"(":
                 search = "LSTRING"
-- 
2.43.0


From 02752670b3ff90be8bad775e70e3b0cee8fcd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:14 +0000
Subject: [PATCH 007/102] fix: stream data ending with EOL or holding endstream
 was truncated despite its Length

---
 pdfsyntax/objects.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 4a0bd25..07f8734 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -175,6 +175,24 @@ def next_token(text: bytes, i=0) -> tuple:
     return (h, i, None)
 
 
+def stream_extent(text: bytes, i: int, entries: dict) -> tuple:
+    """Delimit the data of the stream whose keyword is at i: a direct /Length is decisive if it leads to endstream.
+
+    Return the positions of the data, of its end and of the end of the endstream keyword.
+    """
+    ENDSTREAM = b'endstream'
+    begin = i + len(b'stream')
+    begin += 2 if text[begin:begin+2] == EOL else 1
+    length = entries.get('/Length')
+    if type(length) == int and length >= 0:
+        end = begin + length
+        for eol in (EOL, b'\n', b'\r', b''):
+            stop = end + len(eol) + len(ENDSTREAM)
+            if text[end:stop] == eol + ENDSTREAM:
+                return (begin, end, stop)
+    return None
+
+
 def replace_ref(tokens: list) -> list:
     """Replace a sublist of X, Y, 'R' into a unique R namedtuple."""
     size = len(tokens)
@@ -220,7 +238,11 @@ def parse_obj(text: bytes, start=0) -> Any:
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
-            stream_encoded =  parse_obj(following_obj)
+            extent = stream_extent(text, h2, stream_def)
+            if extent:
+                stream_encoded = text[extent[0]:extent[1]]
+            else:
+                stream_encoded = parse_obj(following_obj)
             stream_content = decode_stream(stream_encoded, stream_def)
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
@@ -309,6 +331,9 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     o = parse_obj(text, i)
     i, j, t = next_token(text, j)
     if t == 'STREAM':
+        extent = stream_extent(text, i, o['entries']) if type(o) == Stream else None
+        if extent:
+            j = extent[2]
         _, j, _ = next_token(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
-- 
2.43.0


From 438d5facbe08b7819b2824aacd06bc4f82858c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:43 +0000
Subject: [PATCH 008/102] fix: comments around the parts of an indirect object
 were taken for those parts

---
 pdfsyntax/docstruct.py  | 24 ++++++++++++------------
 pdfsyntax/filestruct.py | 21 ++++++++++-----------
 pdfsyntax/objects.py    | 29 ++++++++++++++++++-----------
 3 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f989b16..e91ea39 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -240,11 +240,11 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
                                     index['abs_next'] - index['abs_pos'])
             i, j, _ = next_token(bdata, a0)
             if bdata[i:j] == b'trailer':
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_item(bdata, j)
             else:
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
-                i, j, _ = next_token(bdata, j)
+                i, j, _ = next_item(bdata, j)
+                i, j, _ = next_item(bdata, j)
+                i, j, _ = next_item(bdata, j)
             text = bdata
             i_obj = parse_obj(text, i)
             if type(i_obj) == Stream:
@@ -254,10 +254,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     elif 'env_num' not in idx[rev][key]:
         bdata, a0, _, _ = fdata(idx[rev][key]['abs_pos'],
                                 idx[rev][key]['abs_next'] - idx[rev][key]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
+        i, j, _ = next_item(bdata, a0)
+        i, j, _ = next_item(bdata, j)
+        i, j, _ = next_item(bdata, j)
+        i, j, _ = next_item(bdata, j)
         text = bdata
         obj = parse_obj(text, i)
         if key == 0 and type(obj) == Stream:
@@ -267,10 +267,10 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         container = idx[rev][key]['env_num']
         bdata, a0, _, _ = fdata(idx[rev][container]['abs_pos'],
                                 idx[rev][container]['abs_next'] - idx[rev][container]['abs_pos'])
-        i, j, _ = next_token(bdata, a0)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j)
-        i, j, _ = next_token(bdata, j) #/ObjStm
+        i, j, _ = next_item(bdata, a0)
+        i, j, _ = next_item(bdata, j)
+        i, j, _ = next_item(bdata, j)
+        i, j, _ = next_item(bdata, j) #/ObjStm
         text = bdata
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ddd4525..b5a116c 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -280,16 +280,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
-            i, j, _ = next_token(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
-            i, j, _ = next_token(bdata, j)                            #dict
+            i, j, _ = next_item(bdata, xref_index[0]['abs_pos'] - o0) #b'trailer'
+            i, j, _ = next_item(bdata, j)                            #dict
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0 - o0) #o_num
+            i, j, _ = next_item(bdata, a0 - o0) #o_num
             o_num = parse_obj(bdata, i)
-            i, j, _ = next_token(bdata, j)       #o_ver
-            i, j, _ = next_token(bdata, j)       #b'obj'
-            i, j, _ = next_token(bdata, j)       #dict
+            i, j, _ = next_item(bdata, j)       #o_ver
+            i, j, _ = next_item(bdata, j)       #b'obj'
+            i, j, _ = next_item(bdata, j)       #dict
             xref = parse_obj(bdata, i)
             xref_index = parse_xref_stream(xref, xref_pos, o_num)
             trailer = xref['entries']
@@ -603,11 +603,10 @@ def linearized(fdata: Callable) -> dict:
     """ """
     HEADER = b'%PDF-X.Y'
     bdata, a0, o0, _ = fdata(len(HEADER), 1024 - len(HEADER))
-    i, j, _ = next_token(bdata, a0) #comment
-    i, j, _ = next_token(bdata, j)  #o_num
-    i, j, _ = next_token(bdata, j)  #gen_num
-    i, j, _ = next_token(bdata, j)  #obj keyword
-    i, j, t = next_token(bdata, j)  #dict ?
+    i, j, _ = next_item(bdata, a0) #o_num
+    i, j, _ = next_item(bdata, j)  #gen_num
+    i, j, _ = next_item(bdata, j)  #obj keyword
+    i, j, t = next_item(bdata, j)  #dict ?
     if t == 'DICT':
         o = bdata[i:j]
         first_obj = parse_obj(o)
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 07f8734..a32b5eb 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -175,6 +175,14 @@ def next_token(text: bytes, i=0) -> tuple:
     return (h, i, None)
 
 
+def next_item(text: bytes, i=0) -> tuple:
+    """Find next token that is not a comment."""
+    h, j, t = next_token(text, i)
+    while t == 'COMMENT':
+        h, j, t = next_token(text, j)
+    return (h, j, t)
+
+
 def stream_extent(text: bytes, i: int, entries: dict) -> tuple:
     """Delimit the data of the stream whose keyword is at i: a direct /Length is decisive if it leads to endstream.
 
@@ -234,7 +242,7 @@ def parse_obj(text: bytes, start=0) -> Any:
     if t1 == 'DICT':
         res = {}
         res_array = []
-        h2, j2, t2 = next_token(text, j1)
+        h2, j2, t2 = next_item(text, j1)
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
@@ -320,21 +328,20 @@ def parse_obj(text: bytes, start=0) -> Any:
 
 def parse_indirect_obj(text: bytes, start=0) -> tuple:
     """Recursively parse indirect object starting at X Y R."""
-    bl, el = next_line(text, start)
-    bo = bl
-    i1, j1, _ = next_token(text, start) #o_num
-    i2, j2, _ = next_token(text, j1) #o_gen
+    i1, j1, _ = next_item(text, start) #o_num
+    bo = i1
+    i2, j2, _ = next_item(text, j1) #o_gen
     o_num = int(text[i1:j1])
     o_gen = int(text[i2:j2])
-    i, j, _ = next_token(text, j2) #obj
-    i, j, _ = next_token(text, j) #object1
+    i, j, _ = next_item(text, j2) #obj
+    i, j, _ = next_item(text, j) #object1
     o = parse_obj(text, i)
-    i, j, t = next_token(text, j)
+    i, j, t = next_item(text, j)
     if t == 'STREAM':
         extent = stream_extent(text, i, o['entries']) if type(o) == Stream else None
         if extent:
             j = extent[2]
-        _, j, _ = next_token(text, j) #endobj
+        _, j, _ = next_item(text, j) #endobj
     return (bo, j, 'IND_OBJ', {'o_num':o_num, 'o_gen':o_gen, 'obj':o})
 
 
@@ -461,8 +468,8 @@ def parse_region(text: bytes, start=0) -> tuple:
         return (bl, j2, 'STARTXREF', text[i2:j2])
     elif typ == 'INTEGER':
         i1, j1, _ = next_token(text, bl)
-        i2, j2, _ = next_token(text, j1)
-        i3, j3, t = next_token(text, j2)
+        i2, j2, _ = next_item(text, j1)
+        i3, j3, t = next_item(text, j2)
         if t == 'KEYWORD' and text[i3:j3] == OBJ:
             ind_o = parse_indirect_obj(text, bl)
             return ind_o
-- 
2.43.0


From e9533836fbd18b4859c2c0e4448d0518248bdbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:45 +0000
Subject: [PATCH 009/102] fix: trailer dictionary on the same line as its
 keyword was missed

---
 pdfsyntax/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index a32b5eb..3448ed2 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -390,7 +390,8 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
             res.append((offset, o_num, o_ver, keyword))
             o_num += 1
         bl, el = next_line(bdata, el)
-    bl, bf, _l = next_token(bdata, el)
+    _, bl, _ = next_item(bdata, bl) #b'trailer'
+    bl, bf, _l = next_item(bdata, bl)
     trailer = parse_obj(bdata, bl)
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
-- 
2.43.0


From 5347c20db5124e8b0a051cc03c50f75197b0c1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:47 +0000
Subject: [PATCH 010/102] fix: endless file map on a stray closing bracket

---
 pdfsyntax/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 3448ed2..8d39ee5 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -460,6 +460,7 @@ def parse_region(text: bytes, start=0) -> tuple:
     if bl != start:
         return (start, bl, 'VOID', text[start:bl])
     elif typ is None:
+        el = max(el, start + 1)
         return (start, el, 'VOID', text[start:el])
     elif text[bl:bl+len(PERCENT)] == PERCENT:
         return (bl, el, 'COMMENT', text[bl:el])
-- 
2.43.0


From 79eb30460476624917ed959154d6991c1b4d5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:50 +0000
Subject: [PATCH 011/102] fix: very small and very large reals were written
 with an exponent

---
 pdfsyntax/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 8d39ee5..53ab2aa 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -3,6 +3,7 @@
 from typing import Any
 from collections import namedtuple
 from dataclasses import dataclass
+from decimal import Decimal
 from .filters import *
 #from .filestruct import expand_xref_index
 
@@ -492,7 +493,8 @@ def to_str(obj) -> bytes:
     elif type(obj) == int:
         return str(obj).encode('ascii')
     elif type(obj) == float:
-        return str(obj).encode('ascii')
+        s = f'{Decimal(repr(obj)):f}' #Exponents are not valid in PDF
+        return (s if '.' in s else s + '.0').encode('ascii')
     elif type(obj) == str:
         return obj.encode('latin-1')
     elif type(obj) == complex:
-- 
2.43.0


From c15c88f5dfa79c5f25e4427d53a1b73298853e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:52 +0000
Subject: [PATCH 012/102] fix: a stream without data was written as a plain
 dictionary

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 53ab2aa..4be1c46 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -526,7 +526,7 @@ def serialize(obj, depth=0) -> bytes:
             ret += b' '
         ret += b' ' * depth
         ret += b'>>'
-        if content:
+        if content is not None:
             ret += b'\nstream\n'
             #ret += b'\n'
             ret += content
-- 
2.43.0


From a543cf386c7c985df8665124f9a2f136e6818e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:54 +0000
Subject: [PATCH 013/102] fix: Length of written streams was one too many

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 4be1c46..ec1cba1 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -34,7 +34,7 @@ def update_internal_stream_length(stream: Stream):
     """Calculate and apply /Length."""
     entries = stream['entries']
     encoded = stream['encoded']
-    length = len(encoded) + 1
+    length = len(encoded)
     if '/Length' in entries and type(entries['/Length']) == int:
         entries['/Length'] = length
     return length
-- 
2.43.0


From 9bfdf291c50ee4a43f8e30a2731cb616e9411dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:57 +0000
Subject: [PATCH 014/102] fix: references held by stream dictionaries were not
 renumbered

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index ec1cba1..2db5750 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -548,6 +548,8 @@ def deep_ref_retarget(obj: Any, mapping: dict) -> Any:
     if type(obj) == complex:
         if obj in mapping:
             return mapping[obj]
+    elif type(obj) == Stream:
+        deep_ref_retarget(obj['entries'], mapping)
     elif type(obj) == dict:
         for k in obj:
             obj[k] = deep_ref_retarget(obj[k], mapping)
-- 
2.43.0


From 06fa66294275b77ca829655e580b7bf8c90db9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:59 +0000
Subject: [PATCH 015/102] fix: reference detection returned None for a bare
 reference

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 2db5750..6ffa49b 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -564,7 +564,7 @@ def deep_ref_detect(obj: Any, l = None) -> set:
     if l is None:
         l = set()
     if type(obj) == complex:
-        return l.add(obj)
+        l.add(obj)
     elif type(obj) == Stream:
             deep_ref_detect(obj['entries'], l)
     elif type(obj) == dict:
-- 
2.43.0


From 7199a8f8a4e39a55f7bc2c8786327f69b1408424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:49 +0000
Subject: [PATCH 016/102] fix: a reference standing alone was parsed as its
 object number

---
 pdfsyntax/objects.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6ffa49b..8b0410e 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -323,6 +323,12 @@ def parse_obj(text: bytes, start=0) -> Any:
         return s
     elif t1 == 'COMMENT':
         return ''
+    elif t1 == 'INTEGER':
+        h2, j2, t2 = next_item(text, j1)
+        h3, j3, _ = next_item(text, j2)
+        if t2 == 'INTEGER' and text[h3:j3] == b'R':
+            return complex(int(text[h2:j2]), int(obj))
+        return int(obj)
     else:
         return dedicated_type(text[h1:j1], t1)
 
@@ -337,6 +343,9 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
     i, j, _ = next_item(text, j2) #obj
     i, j, _ = next_item(text, j) #object1
     o = parse_obj(text, i)
+    if type(o) == complex: #Reference made of 3 tokens
+        _, j, _ = next_item(text, j)
+        _, j, _ = next_item(text, j)
     i, j, t = next_item(text, j)
     if t == 'STREAM':
         extent = stream_extent(text, i, o['entries']) if type(o) == Stream else None
-- 
2.43.0


From 6cf07676d3fc82852cd8614229f10b7400d6ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:25 +0000
Subject: [PATCH 017/102] fix: chained filters were all applied to the encoded
 data, empty filter list crashed

---
 pdfsyntax/filters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bcfc9e8..f31c228 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -60,7 +60,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
             return b'#PDFSyntaxException: unsupported filter'
-    return res
+        s = res
+    return s
 
 
 def encode_stream(stream, stream_def):
-- 
2.43.0


From 543d647be7fdb0f0e784410d7d1c97ccbebec9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:27 +0000
Subject: [PATCH 018/102] fix: ASCIIHex data with white space, end marker or
 odd digit was not decoded, and written without end marker

---
 pdfsyntax/filters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index f31c228..79cb2e7 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -4,6 +4,7 @@ import zlib
 import binascii
 import base64
 
+WHITESPACE = b'\x00\t\n\x0c\r '
 DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 
 def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG predictors
@@ -50,7 +51,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(s)
+                digits = s.split(b'>')[0].translate(None, WHITESPACE)
+                res = binascii.unhexlify(digits + b'0' * (len(digits) % 2))
             except:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
@@ -80,7 +82,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = asciihex(res)
+                res = asciihex(res) + b'>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
-- 
2.43.0


From 37dac8384d7e24df05f6d9127c9e7178cc350056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:30 +0000
Subject: [PATCH 019/102] fix: ASCII85 data followed by white space was not
 decoded, and an invalid prefix was written

---
 pdfsyntax/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 79cb2e7..a436bef 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -57,7 +57,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85decode(s, adobe=True)
+                digits = s.translate(None, WHITESPACE)
+                res = base64.a85decode(digits[:digits.index(b'~>')+2], adobe=True)
             except:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
@@ -87,7 +88,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85encode(res, adobe=True)
+                res = base64.a85encode(res) + b'~>'
             except:
                 return b'#PDFSyntaxException: cannot encode ASCII85'
         else:
-- 
2.43.0


From 22677ef2c89ecea357085e5e27432a953ca624bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:32 +0000
Subject: [PATCH 020/102] fix: filters were applied in decoding order when
 encoding

---
 pdfsyntax/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index a436bef..fc3579f 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -75,7 +75,7 @@ def encode_stream(stream, stream_def):
     if type(filters) == str:
         filters = [filters]
     res = stream
-    for _, f in enumerate(filters):
+    for f in reversed(filters):
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-- 
2.43.0


From b660da33c568a1ea881ac4da2aaa125d33ed2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:34 +0000
Subject: [PATCH 021/102] fix: predictors other than PNG Up of one byte per
 pixel were decoded wrong, encoding ignored them

---
 pdfsyntax/filters.py | 99 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 74 insertions(+), 25 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index fc3579f..3b07846 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -7,21 +7,74 @@ import base64
 WHITESPACE = b'\x00\t\n\x0c\r '
 DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 
-def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG predictors
-    """ """
-    size = len(bdata)
-    res = b''
-    columns += 1
-    prev_row = [0] * columns
-    i = 0
-    while i < size:
-        row = list(bdata[i:i+columns])
-        # Predictor 12, PNG Up
-        decoded_row = [(val + prev_row[index]) & 0xff for (index, val) in enumerate(row)]
-        prev_row = decoded_row
-        res += bytes(decoded_row[1:])
-        i += columns
-    return res
+def predictor_sizes(parms: dict) -> tuple:
+    """Return the number of bytes per pixel and per row."""
+    bits = int(parms.get('/Colors', 1)) * int(parms.get('/BitsPerComponent', 8))
+    return max(1, bits // 8), (bits * int(parms.get('/Columns', 1)) + 7) // 8
+
+
+def decode_predictor(bdata: bytes, predictor: int, parms: dict) -> bytes:
+    """Reverse TIFF (2) or PNG (10 to 15) prediction, each PNG row being tagged with its own algorithm."""
+    if predictor == 1:
+        return bdata
+    bpp, columns = predictor_sizes(parms)
+    tag_size = 1 if predictor >= 10 else 0
+    if tag_size == 0 and int(parms.get('/BitsPerComponent', 8)) != 8:
+        raise ValueError('unsupported predictor')
+    res = bytearray()
+    prev_row = bytearray(columns)
+    for i in range(0, len(bdata), columns + tag_size):
+        algo = bdata[i] if tag_size else 1
+        row = bytearray(bdata[i+tag_size:i+tag_size+columns])
+        if algo != 0:
+            for j in range(len(row)):
+                a = row[j-bpp] if j >= bpp else 0
+                b = prev_row[j]
+                c = prev_row[j-bpp] if j >= bpp else 0
+                row[j] = (row[j] + png_prediction(algo, a, b, c)) & 0xff
+        prev_row = row
+        res += row
+    return bytes(res)
+
+
+def png_prediction(algo: int, a: int, b: int, c: int) -> int:
+    """Predict a byte from its left (a), upper (b) and upper left (c) neighbours."""
+    if algo == 1: #Sub
+        return a
+    elif algo == 2: #Up
+        return b
+    elif algo == 3: #Average
+        return (a + b) // 2
+    elif algo == 4: #Paeth
+        p = a + b - c
+        return min((abs(p - a), 0, a), (abs(p - b), 1, b), (abs(p - c), 2, c))[2]
+    raise ValueError('unknown PNG prediction')
+
+
+def encode_predictor(bdata: bytes, predictor: int, parms: dict) -> bytes:
+    """Apply TIFF (2) prediction, or tag each row as not predicted for PNG (10 to 15)."""
+    if predictor == 1:
+        return bdata
+    bpp, columns = predictor_sizes(parms)
+    if predictor < 10 and int(parms.get('/BitsPerComponent', 8)) != 8:
+        raise ValueError('unsupported predictor')
+    res = bytearray()
+    for i in range(0, len(bdata), columns):
+        row = bdata[i:i+columns]
+        if predictor >= 10:
+            res += b'\x00' + row
+        else:
+            res += bytes([(x - row[j-bpp]) & 0xff if j >= bpp else x for j, x in enumerate(row)])
+    return bytes(res)
+
+
+def decode_parms(stream_def: dict, nb: int) -> list:
+    """Return the parameters of each of the nb filters (None if there are none)."""
+    parms = stream_def.get('/DecodeParms')
+    if type(parms) != list:
+        parms = [parms]
+    parms = [p if type(p) == dict else None for p in parms]
+    return parms + [None] * (nb - len(parms))
 
 
 def decode_stream(stream, stream_def):
@@ -33,20 +86,13 @@ def decode_stream(stream, stream_def):
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
-    if '/DecodeParms' not in stream_def:
-        parms = [None] * len(filters)
-    else:
-        parms = stream_def['/DecodeParms']
-        if type(parms) == dict:
-            parms = [parms]
+    parms = decode_parms(stream_def, len(filters))
     for i, f in enumerate(filters):
         if f == '/FlateDecode':
             try:
                 res = zlib.decompress(s)
                 if parms[i] and '/Predictor' in parms[i]:
-                    predictor = int(parms[i]['/Predictor'])
-                    columns = int(parms[i]['/Columns'])
-                    res = decode_predictor(res, predictor, columns)
+                    res = decode_predictor(res, int(parms[i]['/Predictor']), parms[i])
             except:
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
@@ -74,10 +120,13 @@ def encode_stream(stream, stream_def):
     filters = stream_def['/Filter']
     if type(filters) == str:
         filters = [filters]
+    parms = decode_parms(stream_def, len(filters))
     res = stream
-    for f in reversed(filters):
+    for i, f in reversed(list(enumerate(filters))):
         if f == '/FlateDecode':
             try:
+                if parms[i] and '/Predictor' in parms[i]:
+                    res = encode_predictor(res, int(parms[i]['/Predictor']), parms[i])
                 res = zlib.compress(res)
             except:
                 return b'#PDFSyntaxException: cannot encode Flate'
-- 
2.43.0


From 66c2f2a697853e0e7c027e9f749b03a36fc25074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:04 +0000
Subject: [PATCH 022/102] fix: on demand file access returned data at the wrong
 place

---
 pdfsyntax/filestruct.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index b5a116c..b474bbc 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -52,7 +52,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
                 nb_read = min(file_size - i, length)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
-            return (bdata, i, 0, nb_read)
+            return (bdata, 0, i, nb_read)
         return continuous_load
 
 
@@ -97,7 +97,7 @@ def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
     buf, d0, i0, sz0 = bdata(idx, length+(start-idx))
     i = d0 + i0
     while i < d0 + i0 + sz0:
-        l = buf[i:i+LN]
+        l = buf[i-i0:min(i+LN, stop)-i0]
         hexl = bytes.hex(l, ' ')
         hext = bytes([ascii_hexdump_printable(c) for c in l]).decode('ascii')
         ret += f"{i:0{LN}d}  {hexl:{LN*3-1}}  |{hext}|\n"
@@ -255,28 +255,25 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     chrono = []
     seq = []
     while start or prev or xrefstm:
-        a0 = 0
-        o0 = 0
         if start:
             start = False
-            bdata, a0, o0, _ = fdata(-100, -1)
+            bdata, a0, o0, _ = fdata(max(0, bdata_length(fdata) - 100), -1)
             eof_pos = o0 + bdata.rfind(EOF, a0)
             startxref_pos = o0 + bdata.rfind(STARTXREF, a0)
             i, j, _ = next_token(bdata, startxref_pos + len(STARTXREF) - o0)
             xref_pos = int(bdata[i:j])
             last = startxref_pos
-        elif xrefstm:
-            xref_pos = xrefstm
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
-            last = eof_pos
-            xrefstm = False
-        elif prev:
-            xref_pos = prev
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+        else:
+            if xrefstm:
+                xref_pos = xrefstm
+                xrefstm = False
+            else:
+                xref_pos = prev
+                prev = False
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
-            prev = False
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
@@ -285,7 +282,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_item(bdata, a0 - o0) #o_num
+            i, j, _ = next_item(bdata, a0) #o_num
             o_num = parse_obj(bdata, i)
             i, j, _ = next_item(bdata, j)       #o_ver
             i, j, _ = next_item(bdata, j)       #b'obj'
@@ -380,13 +377,13 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
 
 def eof_cut(eof_index: int, fdata: Callable) -> int:
     """Calculate where to cut the byte stream of a revision: after %%EOF and possibly EOLs"""
-    bdata, start, _, n = fdata(eof_index, bdata_length(fdata) - eof_index)
+    bdata, start, offset, n = fdata(eof_index, bdata_length(fdata) - eof_index)
     i = start + len('%%EOF')
     while i < start + n:
         if bdata[i] not in EOL:
             break
         i += 1
-    return i
+    return offset + i
 
 
 def circular_deleted(changes: list) -> dict:
-- 
2.43.0


From 118ad9aff327114c8c980e22583337b067c41d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:29 +0000
Subject: [PATCH 023/102] fix: free cross-reference entries were ignored so
 deleted objects came back, objects of high number broke loading

---
 pdfsyntax/filestruct.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index b474bbc..865aadc 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -176,8 +176,11 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             table.append((f"{line[0]} {line[1]}".encode('ascii'), None))
         elif len(line) == 4:
             offset, o_num, o_gen, keyword = line
-            if keyword != b'f' and o_num != 0:
-                xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
+            if o_num != 0:
+                if keyword == b'f':
+                    xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+                else:
+                    xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
     trailer = {
@@ -216,8 +219,8 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
-            continue
-        if env_iref:
+            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+        elif env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
             float_pos = (env_iref, offset)
             xref.append({'o_pos': offset, 'env_num':env_iref, 'o_num': o_num, 'o_gen': o_gen, 'abs_pos': float_pos})
@@ -306,7 +309,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(seq, key = lambda i: i[1])[1]
+    nb = max([i['o_num'] for x in chrono for i in x])
     return chrono, nxt, nb
 
 
@@ -343,11 +346,17 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
-            if m[obj['o_num']] is None:
+            old_obj = m[obj['o_num']]
+            if old_obj is None:
+                if 'DELETED' in obj: #Free from the start
+                    continue
                 obj['o_ver'] = 0
                 obj['doc_ver'] = doc_ver
+            elif 'DELETED' in obj and 'DELETED' in old_obj:
+                continue
             else:
-                old_obj = index[-1][obj['o_num']]
+                if 'DELETED' in obj:
+                    obj['o_gen'] = old_obj['o_gen']
                 if 'abs_pos' in old_obj and 'abs_pos' in obj and old_obj['abs_pos'] == obj['abs_pos']:
                     #Special case for hybrid docs where an obj appears both in xref table and stream
                     obj = old_obj
@@ -362,7 +371,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             elif type(x) == dict:
                 x = [x]
             for y in x:
-                if y.get('abs_next'):
+                if 'DELETED' in y or y.get('abs_next'):
                     continue
                 abs_pos = y.get('abs_pos')
                 env_num = y.get('env_num')
@@ -627,7 +636,7 @@ def check_index_targets(object_map: list, xref_seq: list):
                 if pos is None:
                     pos = o.get('xref_stream_pos')
                 continue
-            elif o['o_num'] < 0:
+            elif o['o_num'] < 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
@@ -647,7 +656,7 @@ def check_not_indexed_objects(object_map: list, xref_seq: list):
     for xref in xref_seq:
         errors = []
         for o in xref:
-            if o['o_num'] <= 0:
+            if o['o_num'] <= 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
-- 
2.43.0


From 5d4c30f2f6bda5dc434aeeff2f096d54fa2dc90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:31 +0000
Subject: [PATCH 024/102] fix: endless loop on a cyclic chain of
 cross-reference sections

---
 pdfsyntax/filestruct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 865aadc..3090c38 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -257,6 +257,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     prev_eof = None
     chrono = []
     seq = []
+    visited = set()
     while start or prev or xrefstm:
         if start:
             start = False
@@ -277,6 +278,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             startxref_pos = o0 + bdata.find(STARTXREF, a0)
             eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
+        visited.add(xref_pos)
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
@@ -303,6 +305,10 @@ def build_xref_sequence(fdata: Callable) -> tuple:
                 xrefstm = int(trailer['/XRefStm'])
             if '/Prev' in trailer:
                 prev = int(trailer['/Prev'])
+            if xrefstm in visited: #Corrupt chain
+                xrefstm = False
+            if prev in visited:
+                prev = False
     idx = sorted([i[0] for i in seq])
     _, _, _, file_sz = fdata(None, -1)
     idx.append(file_sz)
-- 
2.43.0


From 3cba3a5e2e43ed973f528ec9b69f0e7727957380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:45 +0000
Subject: [PATCH 025/102] fix: entries of the table of hybrid sections were
 dropped in favour of the stream

---
 pdfsyntax/docstruct.py  | 10 ++++++----
 pdfsyntax/filestruct.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e91ea39..203be26 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -468,10 +468,12 @@ def encrypted(doc: Doc) -> bool:
 
 def hybrid(doc: Doc) -> bool:
     """Detect if doc is hybrid."""
-    if len(doc.index) >= 2 and doc.index[1][0].get('xref_stm'):
-        return True
-    else:
-        return False
+    for current in doc.index:
+        x = current[0]
+        sections = x if type(x) == list else [x]
+        if any(s.get('xref_stm') for s in sections):
+            return True
+    return False
 
 
 def catalog(doc: Doc):
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 3090c38..d613bf1 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -332,11 +332,12 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
     new_xref_seq = []
     for x in xref_seq:
         if x[0].get('xref_stm'):
-            p = new_xref_seq[-1]
-            p = deepcopy(p)
-            p[0]['xref_stm'] = True
-            p[0]['abs_pos'] = x[0]['abs_pos']
-            new_xref_seq[-1] = p
+            #The table comes first, then the stream for what is hidden or absent in the table
+            merged = {o['o_num']: o for o in new_xref_seq[-1]}
+            for o in x:
+                if 'DELETED' not in o or o['o_num'] not in merged:
+                    merged[o['o_num']] = o
+            new_xref_seq[-1] = [x[0]] + [merged[n] for n in merged if n != 0]
         else:
             new_xref_seq.append(x)
     for x in new_xref_seq:
-- 
2.43.0


From 9e0dfbcd97295861cb460771e0fb26c0efd964c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:11 +0000
Subject: [PATCH 026/102] fix: dangling references crashed, loading an object
 stream overwrote newer objects

---
 pdfsyntax/docstruct.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 203be26..113e22d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -224,8 +224,8 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     """
     if cache is None:
         cache = (key + 1) * [None]
-    if 'DELETED' in idx[rev][key]:
-        return cache
+    if not 0 <= key < len(idx[rev]) or idx[rev][key] is None or 'DELETED' in idx[rev][key]:
+        return cache #Undefined or deleted
     if  cache[key] != None:
         return cache
     if key == 0:
@@ -275,12 +275,17 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
-        cache[container] = stream_obj
+        if cache[container] is None:
+            cache[container] = stream_obj
         _, _, _, obj_list = parse_object_stream(stream_obj, container)
         for o_num, embedded_obj, _, _, _ in obj_list:
+            #Other objects of the container may have been superseded by an update
+            if not 0 < o_num < len(idx[rev]) or (idx[rev][o_num] or {}).get('env_num') != container:
+                continue
             if o_num >= len(cache):
                 cache += (o_num-len(cache)+1) * [None]
-            cache[o_num] = embedded_obj
+            if cache[o_num] is None:
+                cache[o_num] = embedded_obj
     return cache
 
 
@@ -289,7 +294,7 @@ def get_object(doc: Doc, obj):
     if isinstance(obj, complex) == True:
         ref = int(obj.imag)
         res = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], ref, doc.cache)
-        return deepcopy(res[ref])
+        return deepcopy(res[ref]) if 0 <= ref < len(res) else None
     else: 
         return deepcopy(obj)
 
-- 
2.43.0


From a43d766003cc73f17bfdbf9521b53e288f1474b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:32 +0000
Subject: [PATCH 027/102] fix: inherited page attributes leaked to siblings and
 other documents, indirect Kids and cyclic page trees

---
 pdfsyntax/docstruct.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 113e22d..dc04e18 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -307,23 +307,31 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None, visited=None) -> list:
     """Recursively list the pages of a node."""
     accu = []
-    if num:
-        node = get_object(doc, num)
-    else:
-        node = get_object(doc, catalog(doc)[0]['/Pages'])
-    if node['/Type'] == '/Pages':
-        for kid in node['/Kids']:
-            e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
-            inherited.update(e)
-            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
-            if max_nb is not None and len(accu) == max_nb:
+    inherited = dict(inherited or {})
+    visited = set() if visited is None else visited
+    if not num:
+        num = catalog(doc)[0]['/Pages']
+    node = get_object(doc, num)
+    if type(node) != dict:
+        return accu
+    if node.get('/Type') == '/Pages':
+        if num in visited: #Corrupt tree
+            return accu
+        visited.add(num)
+        e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) not in (None, 'null')}
+        inherited.update(e)
+        for kid in get_object(doc, node['/Kids']):
+            if max_nb is not None and len(accu) >= max_nb:
                 return accu
+            remaining = None if max_nb is None else max_nb - len(accu)
+            accu = accu + flat_page_tree(doc, kid, inherited, remaining, visited)
         return accu
-    elif node['/Type'] == '/Page':
-        return[(num, inherited)]
+    elif node.get('/Type') == '/Page':
+        return [(num, inherited)]
+    return accu
 
 
 def build_cache(fdata: Callable, index: list) -> list:
@@ -498,7 +506,7 @@ def info(doc: Doc):
 def number_pages(doc: Doc):
     """Return doc number of pages."""
     p = get_object(doc, catalog(doc)[0]['/Pages'])
-    return p['/Count']
+    return get_object(doc, p['/Count'])
 
 
 def pages(doc: Doc, max_nb=None) -> list:
@@ -507,7 +515,7 @@ def pages(doc: Doc, max_nb=None) -> list:
     for num, in_attr in flat_page_tree(doc, max_nb=max_nb):
         temp = deepcopy(get_object(doc, num))
         for a in in_attr:
-            if a not in temp:
+            if temp.get(a, 'null') == 'null':
                 temp[a] = in_attr[a]
         pl.append(temp)
     return pl
-- 
2.43.0


From 7b9cf6d8258da88bed4796513694ce562920b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:22 +0000
Subject: [PATCH 028/102] fix: data of edited documents was not accessible as a
 whole nor from the end

---
 pdfsyntax/docstruct.py  | 29 +++++++++++++----------------
 pdfsyntax/filestruct.py | 11 +++++------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index dc04e18..8614fd0 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -538,24 +538,21 @@ def revision_index(doc: Doc, rev=-1) -> int:
 def merge_fdata(fdata: Callable, index: int, bdata: bytes):
     """Merge a data provider and bytes into a new composite data provider."""
     def composite_fdata(start_pos: int, length: int) -> tuple:
+        size = index + len(bdata)
         if start_pos == None and length == -1:
-            #_, _, _, sz = fdata(None, -1)
-            sz = index
-            return (None, None, None, sz + len(bdata))
-        if start_pos > index:
-            start_pos = start_pos - index
-            #if start_pos == -1 and length == 0:
-            #    return (None, None, None, len(bdata))
-            if length == -1:
-                length = len(bdata) - start_pos
-            if start_pos == -1:
-                i = len(bdata) - length
-            else:
-                i = start_pos
-            return (bdata, i, 0, min(len(bdata) - start_pos, length))
-            #return (bdata, i, index, min(len(bdata) - start_pos, length)) #TODO
+            return (None, None, None, size)
+        i = (start_pos + size) % size
+        if length == -1:
+            nb_read = size - i
         else:
-            return fdata(start_pos, length)
+            nb_read = min(size - i, length)
+        if i >= index:
+            return (bdata, i - index, index, nb_read)
+        elif i + nb_read <= index:
+            return fdata(i, nb_read)
+        else: #Overlap
+            head, a0, _, n = fdata(i, index - i)
+            return (head[a0:a0+n] + bdata[:nb_read-n], 0, i, nb_read)
     return composite_fdata
 
 
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index d613bf1..728e75f 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -59,15 +59,14 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
 def bdata_dummy(bdata: bytes):
     """ """
     def dummy_load(start_pos: int, length: int) -> tuple:
-        if start_pos == -1 and length == 0:
+        if start_pos is None and length == -1:
             return (None, None, None, len(bdata))
+        i = (start_pos + len(bdata)) % len(bdata)
         if length == -1:
-            length = len(bdata) - start_pos
-        if start_pos == -1:
-            i = len(bdata) - length
+            nb_read = len(bdata) - i
         else:
-            i = start_pos
-        return (bdata, i, 0, min(len(bdata) - start_pos, length))
+            nb_read = min(len(bdata) - i, length)
+        return (bdata, i, 0, nb_read)
     return dummy_load
 
 
-- 
2.43.0


From 1e64519b1d26417beeaf432aa1f3d888288e9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:04 +0000
Subject: [PATCH 029/102] fix: cross-reference table entries were written with
 19 bytes instead of 20

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 728e75f..a62032c 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -420,10 +420,10 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     xref_table = []
     for use, num, o_gen, counter, _ in elems:
         if use == 'f':
-            ref = f'{next_free[num]:010} {(o_gen+1):05} f'.encode('ascii')
+            ref = f'{next_free[num]:010} {(o_gen+1):05} f '.encode('ascii')
             xref_table.append((ref, num))
         else:
-            ref = f'{counter:010} {o_gen:05} n'.encode('ascii')
+            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')
             xref_table.append((ref, num))
     # add_xref_table_subsections
     i = len(xref_table) - 1
-- 
2.43.0


From d43eaf53bfc97b6ce738999386fa09d57a033de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:26 +0000
Subject: [PATCH 030/102] fix: written cross-reference data had holes, wrong
 widths, wrong object stream headers, and could alter the source document

---
 pdfsyntax/docstruct.py  | 45 ++++++++++++++++++++++++++++---------
 pdfsyntax/filestruct.py | 49 +++++++++++++++++++++++------------------
 2 files changed, 63 insertions(+), 31 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8614fd0..588c89c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -371,12 +371,16 @@ def changes(doc: Doc, rev: int=-1):
         previous = [None] * len(current)
     else:
         previous = doc.index[rev-1]
+    sections = current[0] if type(current[0]) == list else [current[0]]
+    xref_nums = [s.get('xref_stream_num') for s in sections]
     for i in range(1, len(current)):
         iref = get_iref(doc, i, rev)
         if not iref:
             continue
-        if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
+        if i in xref_nums:
             continue
+        if 'DELETED' in current[i] and (i > len(previous)-1 or previous[i] is None or 'DELETED' in previous[i]):
+            continue #Not in use before, not in use now
         if i > len(previous)-1:
             res.append((iref, 'a'))
         elif i < len(previous) and previous[i] == current[i]:
@@ -390,6 +394,25 @@ def changes(doc: Doc, rev: int=-1):
     return res
 
 
+def xref_section(current: list) -> dict:
+    """Return the cross-reference section a revision starts with (the first page one if linearized)."""
+    x = current[0]
+    return x[-1] if type(x) == list else x
+
+
+def unused_nums(doc: Doc) -> list:
+    """List object numbers introduced by the current revision but not in use."""
+    current = doc.index[-1]
+    start = len(doc.index[-2]) if len(doc.index) > 1 else 1
+    x_num = xref_section(current).get('xref_stream_num')
+    res = []
+    for i in range(start, len(current)):
+        if i != x_num and (current[i] is None or 'DELETED' in current[i]):
+            o_gen = current[i]['o_gen'] if current[i] else 0
+            res.append((complex(o_gen, i), 'd'))
+    return res
+
+
 def envelopes(doc: Doc):
     """Map objects nums belonging to objects streams."""
     res = {}
@@ -559,27 +582,31 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
 def commit(doc: Doc) -> Doc:
     """Add new index for incremental update."""
     chg = changes(doc)
-    if len(chg) == 0:
+    if len(chg) == 0 and 'eof_cut' not in doc.data[-1]:
         return doc
     current_index = doc.index[-1]
     nb_rev = len(doc.index)
     new_doc = copy_doc(doc, revision='NEXT')
     new_index0 = {'o_num': 0, 'o_gen': 0, 'o_ver': nb_rev, 'doc_ver': nb_rev}
-    if type(doc.index[0][0]) == dict:
-        x_num = doc.index[0][0].get('xref_stream_num')
-    else: #TODO
-        x_num = doc.index[0][0][0].get('xref_stream_num')
+    x_num = xref_section(current_index).get('xref_stream_num')
+    if 'eof_cut' not in doc.data[-1]: #Only one xref section to be written
+        new_doc.index[-1][0] = deepcopy(xref_section(current_index))
+        new_doc.cache[0].pop('/XRefStm', None)
+        if nb_rev == 1:
+            new_doc.cache[0].pop('/Prev', None)
     if x_num:
         new_index0['xref_stream_num'] = -1
         if x_num == -1:
             x_num = len(current_index)
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
+            new_doc.cache.append(None)
             new_doc.index[-1][0]['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
     if 'eof_cut' not in new_doc.data[-1]:
+        chg = sorted(chg + unused_nums(doc), key=lambda c: c[0].imag)
         if nb_rev == 1:
             v = version(doc)
             header = f"%PDF-{v}".encode('ascii')
@@ -600,10 +627,8 @@ def commit(doc: Doc) -> Doc:
     new_v = [new_index0] + [new_doc.index[-1][i] for i in range(1,len(new_doc.index[-1]))] 
     new_doc.index.append(new_v)
     new_trailer = new_doc.cache[0]
-    if type(new_doc.index[-2][0]) == list: #Linearized
-        new_trailer['/Prev'] = new_doc.index[-2][1].get('xref_table_pos') or new_doc.index[-2][1].get('xref_stream_pos')
-    else:
-        new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')
+    section = xref_section(new_doc.index[-2])
+    new_trailer['/Prev'] = section.get('xref_table_pos') or section.get('xref_stream_pos')
     if '/XRefStm' in new_trailer:
         del new_trailer['/XRefStm']
     return new_doc
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index a62032c..228beb0 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -457,20 +457,20 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     index = []
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
-    max_counter = max([e[3] for e in elems if e[3] is not None])
-    b = (int(math.log2(max_counter+1)) // 8) + 1
-    trailer['/W'] = [1, b, b]
+    rows = []
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
-            ref = b'\x00' + (next_free[num]).to_bytes(b, "big") + (o_gen+1).to_bytes(b, "big")
-            xref_stream.append((ref, num))
+            rows.append((0, next_free[num], o_gen + 1, num))
+        elif env_num:
+            rows.append((2, env_num, counter, num))
         else:
-            if env_num:
-                ref = b'\x02' + (env_num).to_bytes(b, "big") + (counter).to_bytes(b, "big")
-                xref_stream.append((ref, num))
-            else:
-                ref = b'\x01' + (counter).to_bytes(b, "big") + (o_gen).to_bytes(b, "big")
-                xref_stream.append((ref, num))
+            rows.append((1, counter, o_gen, num))
+    b1 = (max([x.bit_length() for _, x, _, _ in rows] + [1]) + 7) // 8
+    b2 = (max([x.bit_length() for _, _, x, _ in rows] + [1]) + 7) // 8
+    trailer['/W'] = [1, b1, b2]
+    for typ, x, y, num in rows:
+        ref = bytes([typ]) + x.to_bytes(b1, "big") + y.to_bytes(b2, "big")
+        xref_stream.append((ref, num))
     # Index 
     i = len(xref_stream) - 1
     num = xref_stream[i][1]
@@ -559,30 +559,36 @@ def build_revision_byte_stream(
     fragments.append(MARGIN)
     next_free = circular_deleted(changes)
     l = [(0j, 'd')] + changes
+    envs = {}
     for c, action in l:
         num = int(c.imag)
+        if action == 'd':
+            continue
         o_gen = current_index[num]['o_gen']
         env_num = current_index[num].get('env_num')
-        if action != 'd' and env_num:
-            new_env = append_to_stream_fragment(num, cache[num], cache[env_num])
-            cache[env_num] = new_env
-            xref_table.append(('n', num, o_gen, get_pos_in_stream(new_env), env_num))
+        if env_num:
+            if env_num not in envs: #Build the content afresh
+                entries = {k: v for k, v in cache[env_num]['entries'].items() if k not in ('/First', '/N', '/FirstLine')}
+                envs[env_num] = Stream(entries, b'', None)
+            new_env = append_to_stream_fragment(num, cache[num], envs[env_num])
+            envs[env_num] = new_env
+            new_index[num]['o_pos'] = get_pos_in_stream(new_env)
+            xref_table.append(('n', num, o_gen, new_index[num]['o_pos'], env_num))
+    for env_num in envs:
+        cache[env_num] = finalize_stream(envs[env_num])
     for c, action in l:
         num = int(c.imag)
         if action == 'd':
             if num == 0:
                 o_gen = 65535 - 1
             else:
-                o_gen = current_index[num]['o_gen']
+                o_gen = min(int(c.real), 65535 - 1)
             xref_table.append(('f', num, o_gen, None, None))
         else:
             o_gen = current_index[num]['o_gen']
             env_num = current_index[num].get('env_num')
             if not env_num:
-                obj = cache[num]
-                if type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
-                    obj = finalize_stream(obj)
-                block = serialize_fragment(num, o_gen, obj)
+                block = serialize_fragment(num, o_gen, cache[num])
                 fragments.append(block)
                 xref_table.append(('n', num, o_gen, counter, env_num))
                 new_index[num]['abs_pos'] = counter
@@ -597,9 +603,10 @@ def build_revision_byte_stream(
         new_index[0]['abs_next'] = counter + len(built_xref)
     else:
         xref_table.append(('n', xref_stream_num, 0, counter, None))
+        xref_table.sort(key=lambda xr: xr[1])
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
-        new_index[xref_stream_num]['abs_next'] = counter + len(block)
+        new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From b5f3a8d35307878dc1894038aa0a2fb71a059c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:11 +0000
Subject: [PATCH 031/102] fix: end marker of a past revision was searched
 inside its trailer

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 228beb0..1296d49 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -275,7 +275,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
                 prev = False
             bdata, a0, o0, _ = fdata(xref_pos, -1)
             startxref_pos = o0 + bdata.find(STARTXREF, a0)
-            eof_pos = o0 + bdata.find(EOF, a0)
+            eof_pos = o0 + bdata.find(EOF, max(a0, startxref_pos - o0)) #The trailer may hold one in a comment or string
             last = eof_pos
         visited.add(xref_pos)
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
-- 
2.43.0


From 1bbc0ef45048d46a61a23d82ac3e35e1c34b6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:22 +0000
Subject: [PATCH 032/102] fix: changes of the first revision were computed
 against the last one

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 588c89c..4b6e93f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -367,7 +367,7 @@ def changes(doc: Doc, rev: int=-1):
     """List deleted/updated/added objects."""
     res = []
     current = doc.index[rev]
-    if len(doc.index) == 1:
+    if rev in (0, -len(doc.index)): #First revision
         previous = [None] * len(current)
     else:
         previous = doc.index[rev-1]
-- 
2.43.0


From fae2f87599d2f94d99cac5d1c7666b63e924e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:48 +0000
Subject: [PATCH 033/102] fix: documents shared the objects they were given
 with the caller

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4b6e93f..906ee17 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -686,7 +686,7 @@ def update_object(doc: Doc, num: int, new_o, immut=True) -> Doc:
     else:
         new_doc = doc
     new_doc.index[-1][num] = new_i
-    new_doc.cache[num] = new_o
+    new_doc.cache[num] = deepcopy(new_o)
     return new_doc
 
 
@@ -702,7 +702,7 @@ def add_object(doc: Doc, new_o, immut=True) -> tuple:
     new_doc.index[-1].append(None)
     new_doc.index[-1][num] = new_i
     new_doc.cache.append(None)
-    new_doc.cache[num] = new_o
+    new_doc.cache[num] = deepcopy(new_o)
     return new_doc, complex(0, num)
 
 
-- 
2.43.0


From 8f35143a3ad78a34675e60912dbe0903437d353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:50 +0000
Subject: [PATCH 034/102] fix: removing pages looped on links between pages,
 ignored streams, and deleted objects still in use

---
 pdfsyntax/docstruct.py | 57 ++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 906ee17..53b8e31 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -778,26 +778,26 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any) -> set:
-    """Recursively list indirect references found inside object.""" 
-    if type(obj) == dict:
-        res = set()
-        for k, v in obj.items():
-            if k == '/Parent' or k == '/P':
+def dependencies(doc: Doc, obj: Any, skip=('/Parent', '/P'), excluded=set()) -> set:
+    """List indirect references found inside object, directly or through other references.""" 
+    res = set()
+    todo = [obj]
+    while todo:
+        o = todo.pop()
+        if type(o) == complex:
+            if o in res or o in excluded:
                 continue
-            res = res | dependencies(doc, v)
-        return res
-    elif type(obj) == list:
-        res = set()
-        for i in obj:
-            res = res | dependencies(doc, i)
-        return res
-    elif type(obj) == complex:
-        res = {obj}
-        res = res | dependencies(doc, get_object(doc, obj))
-        return res
-    else:   
-        return set()
+            res.add(o)
+            o = get_object(doc, o)
+        if type(o) == complex:
+            todo.append(o)
+        elif type(o) == Stream:
+            todo.append(o['entries'])
+        elif type(o) == dict:
+            todo.extend([v for k, v in o.items() if k not in skip])
+        elif type(o) == list:
+            todo.extend(o)
+    return res
 
 
 def keep_pages(doc: Doc, pages) -> Doc:
@@ -817,26 +817,29 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         del_pages = {del_pages}
     pages = flat_page_tree(new_doc)
     del_ref = {pages[p][0] for p in del_pages}
-    keep_ref = {p[0] for p in pages} - del_ref
     del_dep = set()
-    keep_dep = set()
     for i in del_ref:
         del_dep = del_dep | dependencies(new_doc, i)
-    for i in keep_ref:
-        keep_dep = keep_dep | dependencies(new_doc, i)
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-        kids = new_parent['/Kids']
+        kids = get_object(new_doc, new_parent['/Kids'])
         kids.remove(ref)
-        new_parent['/Count'] = new_parent['/Count'] - 1
+        new_parent['/Kids'] = kids
+        new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
         while '/Parent' in new_parent:
             p = new_parent['/Parent']
             new_parent = get_object(new_doc, p)
-            new_parent['/Count'] = new_parent['/Count'] - 1
+            new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
-    for ref in del_dep - keep_dep:
+    #What is reachable without going through a deleted page stays
+    keep_dep = dependencies(new_doc, trailer(new_doc), skip=(), excluded=del_ref)
+    in_use_nums = {int(ref.imag) for ref in in_use(new_doc)}
+    keep_nums = {int(ref.imag) for ref in keep_dep}
+    for ref in sorted(del_dep, key=lambda r: r.imag):
+        if int(ref.imag) in keep_nums or int(ref.imag) not in in_use_nums:
+            continue
         new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
     return new_doc
 
-- 
2.43.0


From 636a1affb92b4bd437711e98f61b2ec6b6627414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:22 +0000
Subject: [PATCH 035/102] fix: octal codes, line ends and continuations of
 literal strings, hexadecimal strings of any form were decoded wrong

---
 pdfsyntax/text.py | 76 +++++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index d7ab9c2..52c4e18 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -27,26 +27,32 @@ def decode_pdfdoc(string: bytes) -> str:
 
 def text_string(string: bytes) -> str:
     """Transform a fundamental string into a text string."""
-    if string is None: return None
-    res = ''
-    string = unescape_literal_string(string)
-    if string[0:1] == b'(': # Literal string
-        if string[1:3] == b'\xfe\xff': 
-            res = string[3:-1].decode('utf-16be')
-        else:
-            s = string[1:-1]
-            # = s.replace(b'\x5c\x5c', b'\x5c') # x5c is backslash
-            # = s.replace(b'\x5c(', b'(')
-            # = s.replace(b'\x5c)', b')')
-            res = decode_pdfdoc(s)
-    elif string[0:1] == b'<': # Hexadecimal string
-        if string[1:5] == b'FEFF':
-            b = bytes.fromhex(string[5:-1].decode('ascii'))
-            res = b.decode('utf-16be')
-        else:
-            b = bytes.fromhex(decode_pdfdoc(string[1:-1]))
-            res = decode_pdfdoc(b)
-    return res
+    if type(string) != bytes: return None
+    s = string_content(string)
+    if s[:2] == b'\xfe\xff':
+        return s[2:].decode('utf-16be', 'replace')
+    return decode_pdfdoc(s)
+
+
+def encode_text_string(text: str) -> bytes:
+    """Transform text into a fundamental string."""
+    if all(' ' <= c <= '~' or c in '\t\n\r' for c in text):
+        s = text.encode('ascii')
+        for c, esc in [(b'\\', b'\\\\'), (b'(', b'\\('), (b')', b'\\)'), (b'\r', b'\\r'), (b'\n', b'\\n')]:
+            s = s.replace(c, esc)
+        return b'(' + s + b')'
+    s = b'\xfe\xff' + text.encode('utf-16be', 'surrogatepass')
+    return b'<' + s.hex().upper().encode('ascii') + b'>'
+
+
+def string_content(string: bytes) -> bytes:
+    """Return the bytes denoted by a literal or hexadecimal string."""
+    if string[:1] == b'(':
+        return unescape_literal_string(string[1:-1])
+    digits = b''.join(string[1:-1].replace(b'\x00', b'').split())
+    if len(digits) % 2:
+        digits += b'0'
+    return bytes.fromhex(digits.decode('ascii'))
 
 
 def unescape_literal_string(string: bytes) -> bytes:
@@ -67,12 +73,23 @@ def unescape_literal_string(string: bytes) -> bytes:
         first = string[i:i+1]
         second = string[i+1:i+2]
         if first == b'\x5c': # or b'\\'
-            if second in b'0123456789':
-                ret += bytes([int(string[i+1:i+4], 8)])
-                i += 3
+            if b'0' <= second <= b'7':
+                j = i + 2
+                while j < i + 4 and b'0' <= string[j:j+1] <= b'7':
+                    j += 1
+                ret += bytes([int(string[i+1:j], 8) & 0xff])
+                i = j - 1
             elif second in sequences :
                 ret += sequences[second]
                 i += 1
+            elif second == b'\r' and string[i+2:i+3] == b'\n': #Line continuation
+                i += 2
+            elif second == b'\r' or second == b'\n':
+                i += 1
+        elif first == b'\r': #Any end of line denotes a line feed
+            ret += b'\n'
+            if second == b'\n':
+                i += 1
         else:
             ret += first
         i += 1
@@ -81,22 +98,17 @@ def unescape_literal_string(string: bytes) -> bytes:
 
 def tokenize_string(string: bytes, word_l: int) -> list:
     """ """
-    s_string = string[1:-1]
-    if string[:1] == b'(':
-        s_string = unescape_literal_string(s_string)
-        return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
-    else:
-        return [int(s_string[j:j+word_l*2], 16) for j in range(0, len(s_string), word_l*2)]
+    s_string = string_content(string)
+    return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
 
 
 def apply_encoding(encoding: str, string: bytes) -> tuple:
     """ """
-    s = string[1:-1]
-    s = unescape_literal_string(s)
+    s = string_content(string)
     if encoding == '/MacRomanEncoding':
         us = s.decode('mac_roman')
     else:
-        us = s.decode('cp1252')
+        us = s.decode('cp1252', 'replace')
     return us, list(s)
 
 
-- 
2.43.0


From 9c49eb218248e3d0ca6db2bcac559bfb4413cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:24 +0000
Subject: [PATCH 036/102] fix: unicode maps of one byte codes, with unusual
 targets or without any mapping crashed

---
 pdfsyntax/text.py | 51 +++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 52c4e18..bc7062f 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -112,12 +112,30 @@ def apply_encoding(encoding: str, string: bytes) -> tuple:
     return us, list(s)
 
 
+def cmap_word_length(cmap: list, simple: bool) -> int:
+    """Return the number of bytes of the codes of a cmap."""
+    for section in 'beginbfchar', 'beginbfrange', 'begincodespacerange':
+        if section in cmap:
+            first = cmap[cmap.index(section)+1]
+            if type(first) == bytes and len(string_content(first)) > 0:
+                return len(string_content(first))
+    return 1 if simple else 2
+
+
+def cmap_target(target: bytes, shift: int = 0) -> str:
+    """Decode the unicode value of a cmap entry, shifted inside a range."""
+    t = string_content(target)
+    x = int.from_bytes(t, 'big') + shift
+    return x.to_bytes(max(2, len(t)), 'big').decode('utf-16be', 'replace')
+
+
 def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
     """ """
     i = 0
-    word_l = 2 # in bytes
+    word_l = cmap_word_length(cmap, simple) # in bytes
     section = None
-    tokens = []
+    tokens = tokenize_string(string, word_l)
+    tokens_backup = tokens.copy()
     while i < len(cmap):
         if cmap[i] == 'begincodespacerange':
             #word_l = (len(cmap[i+1])-2) // 2
@@ -126,16 +144,12 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
             continue
         if cmap[i] == 'beginbfchar':
             section = 'CHAR'
-            if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
-                tokens = tokenize_string(string, word_l)
-                tokens_backup = tokens.copy()
             i += 1
             continue
         if section == 'CHAR' and cmap[i] != 'endbfchar':
             for k, token in enumerate(tokens):
-                if token == int(cmap[i][1:-1], 16):
-                    tokens[k] = bytes.fromhex(cmap[i+1][1:-1].decode('ascii')).decode('utf-16be')
+                if token == int.from_bytes(string_content(cmap[i]), 'big'):
+                    tokens[k] = cmap_target(cmap[i+1])
             i += 2
             continue
         if section == 'CHAR' and cmap[i] == 'endbfchar':
@@ -144,29 +158,18 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
             continue
         if cmap[i] == 'beginbfrange':
             section = 'RANGE'
-            if not tokens:
-                word_l = (len(cmap[i+1])-2) // 2
-                tokens = tokenize_string(string, word_l)
-                tokens_backup = tokens.copy()
             i += 1
             continue
         if section == 'RANGE' and cmap[i] != 'endbfrange':
             for k, token in enumerate(tokens):
-                r_a = int(cmap[i][1:-1], 16)
-                r_z = int(cmap[i+1][1:-1], 16)
+                r_a = int.from_bytes(string_content(cmap[i]), 'big')
+                r_z = int.from_bytes(string_content(cmap[i+1]), 'big')
                 if type(token) == int and token >= r_a and token <= r_z:
                     target = cmap[i+2]
                     if type(target) == list:
-                        target = cmap[i+2]
-                        temp = target[token - r_a][1:-1]
-                        tokens[k] = bytes.fromhex(temp.decode('ascii')).decode('utf-16be')
+                        tokens[k] = cmap_target(target[token - r_a])
                     else:
-                        target = cmap[i+2][1:-1]
-                        x = int(target, 16) + (token - r_a)
-                        if word_l == 2:
-                            tokens[k] = bytes.fromhex(f'{x:04X}').decode('utf-16be')
-                        else:
-                            tokens[k] = bytes.fromhex(f'{x:02X}').decode('utf-16be')
+                        tokens[k] = cmap_target(target, token - r_a)
             i += 3
             continue
         if section == 'RANGE' and cmap[i] == 'endbfrange':
@@ -204,7 +207,7 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
                 space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
                 t -= space_char_width * 0.2
                 if t <= -space_char_width:
-                    nb_char = int(-t) // int(space_char_width)
+                    nb_char = int(-t / space_char_width) if space_char_width > 0 else 0
                     ustring += ' ' * nb_char
                 width -= t/1000
     return ustring, width
-- 
2.43.0


From 418dff98189d67dc01e5ae5a2881b4e81b7d1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:39 +0000
Subject: [PATCH 037/102] fix: annotation text was not escaped nor encoded,
 direct annotation arrays crashed

---
 pdfsyntax/api.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6882cac..48640b6 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -239,17 +239,21 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         '/Type': '/Annot',
         '/Subtype': '/Text',
         '/Rect': rect,
-        '/Contents': f"({text})",
+        '/Contents': encode_text_string(text),
         '/Open': opened,
     }
     doc, a_iref = add_object(doc, annot)
     page_ref, _ = flat_page_tree(doc)[page_num]
     new_page = deepcopy(get_object(doc, page_ref))
-    if '/Annots' in new_page:
-        annot_obj = new_page['/Annots']
-        new_array = deepcopy(get_object(doc, new_page['/Annots']))
+    annot_obj = new_page.get('/Annots')
+    new_array = get_object(doc, annot_obj)
+    if type(new_array) == list:
         new_array.append(a_iref)
-        doc = update_object(doc, int(annot_obj.imag), new_array)
+        if type(annot_obj) == complex:
+            doc = update_object(doc, int(annot_obj.imag), new_array)
+        else:
+            new_page['/Annots'] = new_array
+            doc = update_object(doc, int(page_ref.imag), new_page)
     else:
         annot_array = [a_iref]
         doc, aa_iref = add_object(doc, annot_array)
-- 
2.43.0


From e5892892cfe2d6bab17f487e3d2f153457cf605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:41 +0000
Subject: [PATCH 038/102] fix: indirect MediaBox and Rotate of pages were not
 resolved

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 48640b6..3d6fdbe 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -179,7 +179,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(p['/MediaBox'], p.get('/Rotate')) for p in pl]
+    med = [(get_object(doc, p['/MediaBox']), get_object(doc, p.get('/Rotate'))) for p in pl]
     return med
 
 
-- 
2.43.0


From 470a6d2cb8b72d8ed0fb16a7c81adb7809cf2ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:44 +0000
Subject: [PATCH 039/102] fix: length of forged streams was left missing or
 obsolete, and the given entries were altered

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 8b0410e..b900cb0 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -35,13 +35,13 @@ def update_internal_stream_length(stream: Stream):
     entries = stream['entries']
     encoded = stream['encoded']
     length = len(encoded)
-    if '/Length' in entries and type(entries['/Length']) == int:
-        entries['/Length'] = length
+    entries['/Length'] = length #Replaces any indirect length, that would be obsolete
     return length
 
 
 def forge_stream(entries: dict, content: bytes) -> tuple:
     """Encode stream and calculate its length."""
+    entries = entries.copy()
     encoded = encode_stream(content, entries)
     envelope = Stream(entries, content, encoded)
     length = update_internal_stream_length(envelope)
-- 
2.43.0


From 9542e2052717b076f36aec57ba4e5101b207c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:30 +0000
Subject: [PATCH 040/102] fix: squash kept containers, lost the metadata and
 other trailer entries, and broke on unused numbers and dangling references

---
 pdfsyntax/docstruct.py | 48 +++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 53b8e31..92992bd 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -418,6 +418,8 @@ def envelopes(doc: Doc):
     res = {}
     current = doc.index[-1]
     for i, x in enumerate(current):
+        if i == 0 or x is None: #Trailer or unused
+            continue
         env_num = x.get('env_num')
         if env_num:
             if env_num not in res:
@@ -453,7 +455,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
 
 def envelope_objects(doc: Doc):
     """List objects streams that envelope other objects."""
-    return {o.get('env_num') for o in doc.index[-1] if o.get('env_num')}
+    return {o.get('env_num') for o in doc.index[-1][1:] if o and o.get('env_num')}
 
 
 def version(doc: Doc) -> str:
@@ -862,46 +864,54 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     for i, o in enumerate(current_index):
         if i == 0: #trailer
             continue
-        if 'DELETED' in o or i in excluded:
+        if o is None or 'DELETED' in o or i in excluded:
             continue
         else:
             nb += 1
             old_ref = complex(o['o_gen'], o['o_num'])
             new_o = deepcopy(o)
+            new_o['o_num'] = nb
             new_o['o_gen'] = 0
             new_o['o_ver'] = 0
             new_o['doc_ver'] = 0
             new_o['OLD_REF'] = old_ref
-            if 'abs_pos' in new_o:
-                del new_o['abs_pos']
-            if 'abs_next' in new_o:
-                del new_o['abs_next']
+            for k in ('abs_pos', 'abs_next', 'env_num', 'o_pos'):
+                new_o.pop(k, None)
             new_index.append(new_o)
-            new_ref = complex(0, nb) 
-            if old_ref != new_ref:
-                mapping[old_ref] = new_ref
+            mapping[old_ref] = complex(0, nb)
     return new_index, mapping
 
 
+def complete_map(mapping: dict, obj: Any) -> dict:
+    """Add what references of obj to unknown objects become: null, or the object in use whatever its generation."""
+    missing = [ref for ref in deep_ref_detect(obj) if ref not in mapping]
+    if missing:
+        by_num = {ref.imag: mapping[ref] for ref in mapping}
+        mapping.update({ref: by_num.get(ref.imag, 'null') for ref in missing})
+    return mapping
+
+
 def squash(doc: Doc) -> Doc:
     """Group all revisions into a single one."""
-    obj_stms = envelope_objects(doc)
-    if type(doc.index[0][0]) == dict:
-        xref_stream_num = doc.index[0][0].get('xref_stream_num')
-    else: #TODO
-        xref_stream_num = doc.index[0][0][0].get('xref_stream_num')
+    xref_stream_num = xref_section(doc.index[-1]).get('xref_stream_num')
     old_index = doc.index[-1]
-    new_index, mapping = defragment_map(old_index, set())
+    storage = envelope_objects(doc) #How objects were stored is not part of the document
+    for iref in in_use(doc):
+        obj = get_object(doc, iref)
+        if obj is None or type(obj) == Stream and obj['entries'].get('/Type') in ('/XRef', '/ObjStm'):
+            storage.add(int(iref.imag))
+    new_index, mapping = defragment_map(old_index, storage)
     if xref_stream_num:
-        new_index[0]['xref_stream_num'] = xref_stream_num
+        new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
-    new_cache[0] = {'/Root': trailer(doc)['/Root']}
-    new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
+    section_keys = '/Type /Size /Prev /XRefStm /W /Index /Length /Filter /DecodeParms'.split()
+    new_cache[0] = {k: v for k, v in trailer(doc).items() if k not in section_keys}
+    new_cache[0] = deep_ref_retarget(new_cache[0], complete_map(mapping, new_cache[0]))
     for i in range(1, len(new_index)):
         old_ref = new_index[i]['OLD_REF']
         obj = get_object(doc, old_ref)
-        obj = deep_ref_retarget(obj, mapping)
+        obj = deep_ref_retarget(obj, complete_map(mapping, obj))
         new_cache[i] = obj
     new_doc = Doc([new_index], new_cache, new_data)
     chg = changes(new_doc)
-- 
2.43.0


From d393be78b38469e121cf9bfb79c714f1594090db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:58 +0000
Subject: [PATCH 041/102] fix: concatenated page trees had no Parent and
 inherited attributes of the other document

---
 pdfsyntax/docstruct.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 92992bd..06ee507 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -753,11 +753,9 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     source_pages_iref = source_cat['/Pages']
     source_pages = get_object(source_doc, source_pages_iref)
     source_pcount = get_object(source_doc, source_pages['/Count'])
-    source_doc = update_object(source_doc, int(source_cat_iref.imag), None)
-    x_num = source_doc.index[-1][0].get('xref_stream_num')
-    if x_num and x_num > 0:
-        source_doc = update_object(source_doc, x_num, None)
     objs = in_use(source_doc)
+    if source_cat_iref not in set().union(*[deep_ref_detect(get_object(source_doc, iref)) for iref in objs]):
+        objs.remove(source_cat_iref)
     ir = complex(0, start_num)
     for iref in objs:
         mapping[iref] = ir
@@ -769,6 +767,15 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     pages_iref = cat['/Pages']
     pages = get_object(new_doc, pages_iref)
     pcount = get_object(new_doc, pages['/Count'])
+    if any(pages.get(a, 'null') != 'null' for a in INHERITABLE_ATTRS):
+        #The attributes of the root node must not apply to the other doc: insert a new root node
+        new_root = {'/Type': '/Pages', '/Kids': [pages_iref], '/Count': pcount}
+        new_doc, new_root_iref = add_object(new_doc, new_root, immut=False)
+        pages['/Parent'] = new_root_iref
+        new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+        cat['/Pages'] = new_root_iref
+        new_doc = update_object(new_doc, int(cat_iref.imag), cat, immut=False)
+        pages_iref, pages = new_root_iref, new_root
     kids = get_object(new_doc, pages['/Kids'])
     if target_left:
         kids.append(mapping[source_pages_iref])
@@ -777,6 +784,10 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     pages['/Kids'] = kids
     pages['/Count'] = pcount + source_pcount
     new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+    source_pages_num = int(mapping[source_pages_iref].imag)
+    source_pages = get_object(new_doc, mapping[source_pages_iref])
+    source_pages['/Parent'] = pages_iref
+    new_doc = update_object(new_doc, source_pages_num, source_pages, immut=False)
     return new_doc
 
 
-- 
2.43.0


From 9ce5e8f0894065211c6eec710112eefe62797199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:38 +0000
Subject: [PATCH 042/102] fix: streams under unsupported filters, filter lists
 or with parameters were corrupted when changing filters

---
 pdfsyntax/api.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 3d6fdbe..9547477 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -216,17 +216,19 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
     for o_num in streams:
         o = doc.obj(o_num)
         entries = o['entries']
-        if '/Filter' in entries:
-            if entries['/Filter'] == flt:
-                continue
-            else:
-                for e in entries['/Filter'].split():
-                    if e not in DECODED_FILTERS:
-                        continue
+        filters = entries.get('/Filter', [])
+        if type(filters) != list:
+            filters = [filters]
+        if filters == ([flt] if flt else []):
+            continue
+        if any(f not in DECODED_FILTERS for f in filters):
+            continue
+        if o['stream'].startswith(b'#PDFSyntaxException: cannot decode'):
+            continue
         entries = deepcopy(entries)
-        if '/Filter' in entries and flt == '':
-            del entries['/Filter']
-        else:
+        entries.pop('/Filter', None)
+        entries.pop('/DecodeParms', None)
+        if flt:
             entries['/Filter'] = flt
         s, length = forge_stream(entries, o['stream'])
         doc = update_object(doc, o_num, s)
-- 
2.43.0


From 3be8a95e330c4b5827dfd382782f552fa14bc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:40 +0000
Subject: [PATCH 043/102] fix: grouping objects and choosing the xref stream
 filter altered the source document

---
 pdfsyntax/docstruct.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 06ee507..000589b 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -431,7 +431,7 @@ def envelopes(doc: Doc):
 def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
     """Provision a ObjStm object and tag all changes to target this envelope."""
     if not env_num:
-        new_doc, iref = add_object(doc, b'')
+        new_doc, iref = add_object(doc, Stream({'/Type': '/ObjStm'}, b'', b''))
         env_num = int(iref.imag)
     else:
         new_doc = copy_doc(doc, revision='SAME')
@@ -439,16 +439,16 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
     if not o_nums:
         chgs = changes(doc)
         o_nums = set([int(iref.imag) for iref, _ in chgs])
+    encrypt = trailer(doc).get('/Encrypt')
     for o in o_nums:
         x = new_doc.obj(o)
-        if type(x) == Stream:
+        if x is None or type(x) == Stream:
             continue
-        elif type(x) == dict and 'Length' in x:
+        elif type(encrypt) == complex and int(encrypt.imag) == o:
             continue
         elif current[o]['o_gen'] != 0:
             continue
-        # TODO Add another elif for encryption dict
-        current[o]['env_num'] = env_num
+        current[o] = {**current[o], 'env_num': env_num} #Entries are shared with other docs
     new_doc.cache[env_num] = Stream({'/Type': '/ObjStm'}, b'', b'')
     return new_doc
 
@@ -710,11 +710,12 @@ def add_object(doc: Doc, new_o, immut=True) -> tuple:
 
 def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDecode') -> tuple:
     """Activate xref stream and optionally add placeholder at the end of current index."""
-    if 'xref_stream_num' in doc.index[-1][0]:
+    if 'xref_stream_num' in xref_section(doc.index[-1]):
         if '/Filter' in doc.cache[0] and doc.cache[0]['/Filter'] == filt:
             return doc
         else:
             new_doc = copy_doc(doc, revision='SAME')
+            new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
     elif placeholder:
         new_doc, new_iref = add_object(doc, {})
         x_num = int(new_iref.imag)
@@ -724,6 +725,8 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
         new_doc = copy_doc(doc, revision='SAME')
         new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
         new_doc.index[-1][0]['xref_stream_num'] = -1
+    new_doc.cache[0] = new_doc.cache[0].copy()
+    new_doc.cache[0].pop('/DecodeParms', None)
     if filt:
         new_doc.cache[0]['/Filter'] = filt
     return new_doc
-- 
2.43.0


From bd5552196156326accbf7f034921ec2708fb1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:35 +0000
Subject: [PATCH 044/102] fix: keep bare references out of object streams

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 000589b..8b28e60 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -442,7 +442,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
     encrypt = trailer(doc).get('/Encrypt')
     for o in o_nums:
         x = new_doc.obj(o)
-        if x is None or type(x) == Stream:
+        if x is None or type(x) in (Stream, complex): #A reference is not allowed there
             continue
         elif type(encrypt) == complex and int(encrypt.imag) == o:
             continue
-- 
2.43.0


From 123b2cc8f9a6b4a1bb6ac49aab8846d5bb7dc6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:06 +0000
Subject: [PATCH 045/102] fix: a linearized revision ends at its second
 end-of-file marker

---
 pdfsyntax/filestruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 1296d49..06c8a8a 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -353,6 +353,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
             old_obj = m[obj['o_num']]
+            if obj['o_num'] == -1 and type(m[0]) == list and old_obj['abs_pos'] > obj['abs_pos']:
+                continue #A linearized revision ends with its last end marker
             if old_obj is None:
                 if 'DELETED' in obj: #Free from the start
                     continue
-- 
2.43.0


From 26f904dffa444d3336ba023a919a60a450b2ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:08 +0000
Subject: [PATCH 046/102] fix: write a reopened revision without the storage
 objects of its file

---
 pdfsyntax/docstruct.py  | 21 ++++++++++++++++++++-
 pdfsyntax/filestruct.py |  4 ++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8b28e60..a7cc8a3 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -608,7 +608,8 @@ def commit(doc: Doc) -> Doc:
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
     if 'eof_cut' not in new_doc.data[-1]:
-        chg = sorted(chg + unused_nums(doc), key=lambda c: c[0].imag)
+        release_storage(new_doc, x_num)
+        chg = sorted(changes(new_doc) + unused_nums(new_doc), key=lambda c: c[0].imag)
         if nb_rev == 1:
             v = version(doc)
             header = f"%PDF-{v}".encode('ascii')
@@ -636,6 +637,24 @@ def commit(doc: Doc) -> Doc:
     return new_doc
 
 
+def release_storage(doc: Doc, x_num: int):
+    """Forget how objects to be written were stored, if their revision was loaded from a file then reopened (in place)."""
+    current = doc.index[-1]
+    for iref, action in changes(doc):
+        num = int(iref.imag)
+        if not x_num and action != 'd' and 'env_num' in current[num]: #A table cannot lead to embedded objects
+            current[num] = {k: v for k, v in current[num].items() if k not in ('env_num', 'o_pos')}
+    envs = envelope_objects(doc)
+    for iref, action in changes(doc):
+        num = int(iref.imag)
+        o = doc.cache[num]
+        if num in envs or action == 'd' or type(o) != Stream or o['entries'].get('/Type') not in ('/XRef', '/ObjStm'):
+            continue
+        current[num] = {k: v for k, v in current[num].items() if k not in ('abs_pos', 'abs_next')}
+        current[num]['DELETED'] = True
+        doc.cache[num] = None
+
+
 def rewind(doc: Doc) -> Doc:
     """Go back to previous revision."""
     if len(doc.index) == 1:
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 06c8a8a..e2b784b 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -600,6 +600,8 @@ def build_revision_byte_stream(
     if not xref_stream_num:
         #cache[0]['/Size'] = len(current_index)
         built_xref = format_xref_table(xref_table, cache[0], next_free)
+        for k in ('xref_stream_pos', 'xref_stm', 'startxref_pos'):
+            new_index[0].pop(k, None)
         new_index[0]['xref_table_pos'] = counter
         new_index[0]['abs_pos'] = counter + built_xref.rfind(b'trailer')
         new_index[0]['abs_next'] = counter + len(built_xref)
@@ -609,6 +611,8 @@ def build_revision_byte_stream(
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
         new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
+        for k in ('xref_table_pos', 'xref_stm', 'startxref_pos'):
+            new_index[0].pop(k, None)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From 12e3e97708a8e783b01bdc97e0348e2dc35bafef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:29 +0000
Subject: [PATCH 047/102] fix: a rewound document does not count the numbers of
 undone revisions

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a7cc8a3..b7af224 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -662,6 +662,8 @@ def rewind(doc: Doc) -> Doc:
     new_doc = copy_doc(doc, revision='PREVIOUS')
     new_doc.index.pop()
     new_doc.data.pop()
+    while len(new_doc.index[-1]) > 1 and new_doc.index[-1][-1] is None: #Numbers introduced by undone revisions
+        new_doc.index[-1].pop()
     objs = in_use(new_doc)
     if 'eof_cut' in new_doc.data[-1]:
         del new_doc.data[-1]['eof_cut']
-- 
2.43.0


From 0763dd68c5d528cd8ebe8e601bddb616e1948f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:29 +0000
Subject: [PATCH 048/102] fix: free the numbers of storage objects left out of
 a reopened revision

---
 pdfsyntax/docstruct.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b7af224..8ce4f4c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -608,8 +608,9 @@ def commit(doc: Doc) -> Doc:
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
     if 'eof_cut' not in new_doc.data[-1]:
-        release_storage(new_doc, x_num)
-        chg = sorted(changes(new_doc) + unused_nums(new_doc), key=lambda c: c[0].imag)
+        released = release_storage(new_doc, x_num)
+        chg = changes(new_doc) + unused_nums(new_doc)
+        chg = sorted(chg + [c for c in released if c not in chg], key=lambda c: c[0].imag)
         if nb_rev == 1:
             v = version(doc)
             header = f"%PDF-{v}".encode('ascii')
@@ -637,8 +638,9 @@ def commit(doc: Doc) -> Doc:
     return new_doc
 
 
-def release_storage(doc: Doc, x_num: int):
+def release_storage(doc: Doc, x_num: int) -> list:
     """Forget how objects to be written were stored, if their revision was loaded from a file then reopened (in place)."""
+    res = []
     current = doc.index[-1]
     for iref, action in changes(doc):
         num = int(iref.imag)
@@ -653,6 +655,8 @@ def release_storage(doc: Doc, x_num: int):
         current[num] = {k: v for k, v in current[num].items() if k not in ('abs_pos', 'abs_next')}
         current[num]['DELETED'] = True
         doc.cache[num] = None
+        res.append((iref, 'd'))
+    return res
 
 
 def rewind(doc: Doc) -> Doc:
-- 
2.43.0


From dec3805428c31242f6604cf0858edd64c4d139d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:42 +0000
Subject: [PATCH 049/102] fix: force_xref_stream on a reopened linearized
 revision

---
 pdfsyntax/docstruct.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8ce4f4c..94d4b2e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -740,15 +740,15 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
             return doc
         else:
             new_doc = copy_doc(doc, revision='SAME')
-            new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
+            new_doc.index[-1][0] = deepcopy(xref_section(new_doc.index[-1]))
     elif placeholder:
         new_doc, new_iref = add_object(doc, {})
         x_num = int(new_iref.imag)
-        new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
+        new_doc.index[-1][0] = deepcopy(xref_section(new_doc.index[-1]))
         new_doc.index[-1][0]['xref_stream_num'] = x_num
     else:
         new_doc = copy_doc(doc, revision='SAME')
-        new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
+        new_doc.index[-1][0] = deepcopy(xref_section(new_doc.index[-1]))
         new_doc.index[-1][0]['xref_stream_num'] = -1
     new_doc.cache[0] = new_doc.cache[0].copy()
     new_doc.cache[0].pop('/DecodeParms', None)
-- 
2.43.0


From 22fa40e145fd0b2902992f4dda6154463326a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:29 +0000
Subject: [PATCH 050/102] fix: fonts of inherited, indirect, direct or missing
 resources

---
 pdfsyntax/api.py       |  5 +++--
 pdfsyntax/cli.py       |  2 +-
 pdfsyntax/docstruct.py | 25 ++++++++++++++-----------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 9547477..099ad48 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -276,7 +276,7 @@ def fonts(doc: Doc) -> dict:
             t = page_fonts[font]['type'][1:]
             e = page_fonts[font]['encoding']
             if t == 'Type1':
-                if e is None:
+                if e in (None, 'null'):
                     e = 'built-in'
                 else:
                     if type(e) != str:
@@ -299,7 +299,8 @@ def fonts(doc: Doc) -> dict:
                           'pages': [],
                           'to_unicode': u,
                           }
-            ret[o]['pages'].append(i)
+            if i not in ret[o]['pages']: #The same font may have several names
+                ret[o]['pages'].append(i)
     return ret
 
 
diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 99b327f..2109e27 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -374,7 +374,7 @@ def print_fonts(filename: str) -> None:
     table.append(['Name', 'Type', 'Encoding', 'Obj', 'Pages'])
     for iref in fs:
         f = fs[iref]
-        o_num = f"{int(iref.imag)},{int(iref.real)}"
+        o_num = f"{int(iref.imag)},{int(iref.real)}" if type(iref) == complex else '-'
         nb_pages = f"{len(f['pages'])}"
         table.append([f['name'], f['type'], f['encoding'], o_num, nb_pages])
     print_generic_table(table, [30, 10, 16, 8, 6])
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 94d4b2e..4c64baa 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1004,12 +1004,12 @@ def prepare_font(doc: Doc, iref) -> dict:
     """ """
     font_desc = {}
     o = get_object(doc, iref)
-    font_desc['iref'] = iref
-    font_desc['name'] = o['/BaseFont']
-    font_desc['type'] = o['/Subtype']
+    font_desc['iref'] = iref if type(iref) == complex else serialize(o) #A direct font has no reference
+    font_desc['name'] = get_object(doc, o.get('/BaseFont', o.get('/Name', '/')))
+    font_desc['type'] = get_object(doc, o.get('/Subtype', '/'))
     font_desc['descriptor'] = o.get('/FontDescriptor')
     font_desc['to_unicode'] = o.get('/ToUnicode')
-    font_desc['encoding'] = o.get('/Encoding')
+    font_desc['encoding'] = get_object(doc, o.get('/Encoding'))
     first_char = o.get('/FirstChar')
     #last_char = o.get('/LastChar')
     widths = o.get('/Widths')
@@ -1030,8 +1030,8 @@ def prepare_font(doc: Doc, iref) -> dict:
         simple = False
     else:
         simple = True
-    if font_desc['to_unicode']:
-        cmap_stream = get_object(doc, font_desc['to_unicode'])
+    cmap_stream = get_object(doc, font_desc['to_unicode'])
+    if type(cmap_stream) == Stream:
         cmap = parse_obj(b'[' + cmap_stream['stream'] + b']')
         def dec_unicode_cmap(text):
             return apply_tounicode(cmap, text, simple)
@@ -1049,14 +1049,17 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
     Dict key is font name, for example /F1
     """
     ret = []
+    pl = pages(doc)
     for page_num in page_nums:
         fonts = {}
         font_res = {}
-        page_ref, _ = flat_page_tree(doc)[page_num]
-        resources = get_object(doc, page_ref)['/Resources']
-        if resources:
-            fonts = get_object(doc, resources)['/Font']
+        resources = get_object(doc, pl[page_num].get('/Resources'))
+        if type(resources) == dict:
+            fonts = get_object(doc, resources.get('/Font'))
+        if type(fonts) != dict:
+            fonts = {}
         for font in fonts:
-            font_res[font] = prepare_font(doc, fonts[font])
+            if type(get_object(doc, fonts[font])) == dict:
+                font_res[font] = prepare_font(doc, fonts[font])
         ret.append(font_res)
     return ret
-- 
2.43.0


From 02f264d7c2caffb2a4c58f82611eddca750c0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:07 +0000
Subject: [PATCH 051/102] fix: browse page only links to existing anchors and
 escapes file content, unindexed objects and null references accepted

---
 pdfsyntax/api.py      |  85 ++++++++++++------------
 pdfsyntax/display.py  | 146 ++++++++++++++++++++++++------------------
 pdfsyntax/graphics.py |   1 +
 3 files changed, 128 insertions(+), 104 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 099ad48..80f48a8 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -403,69 +403,70 @@ def pprint_page_contents(doc: Doc, page_num: int) -> str:
     return ret
 
 
-def find_xref_table_pos_in_index(xref_table_pos, index):
-    """."""
-    found = None
-    obj = index[0][0]
-    if type(obj) == dict:
-        obj_list = [obj]
-    else:
-        obj_list = obj
-    for o in obj_list:
-        if o.get('xref_table_pos') == xref_table_pos:
-            found = (0, 0)
-    for ver in range(1, len(index)):
-        obj = index[ver][0]
-        if obj is None:
-            continue
-        if obj.get('xref_table_pos') == xref_table_pos:
-            found = (0, ver)
-    return found
+def xref_positions_in_index(index):
+    """Map the position of each xref section to the last revision it takes part in."""
+    ret = {}
+    for ver, revision in enumerate(index):
+        obj = revision[0]
+        for o in obj if type(obj) == list else [obj]: #A linearized revision has 2 sections
+            if o is None:
+                continue
+            for key in ('xref_table_pos', 'xref_stream_pos'):
+                if key in o:
+                    ret[o[key]] = ver
+    return ret
 
 
-def find_abs_pos_in_index(abs_pos, index):
-    """."""
-    found = None
-    max_num = len(index[-1]) - 1
-    for num in range(1, max_num+1):
-        for ver in range(len(index)):
-            if num > len(index[ver]) - 1:
-                continue
-            obj = index[ver][num]
-            if obj is None:
-                continue
-            if obj.get('abs_pos') == abs_pos:
-                found = (num, ver)
-        if found:
-            return found
-    return found
+def abs_positions_in_index(index):
+    """Map each object position to its number and the last revision it takes part in."""
+    ret = {}
+    for ver, revision in enumerate(index):
+        for num in range(len(revision) - 2, 0, -1): #Last item is the end of the revision
+            obj = revision[num]
+            if obj and 'abs_pos' in obj:
+                ret[obj['abs_pos']] = (num, ver)
+    return ret
+
+
+def target_abs_pos(iref: complex, revision: list):
+    """Position of the target of a reference, or None if it leads to no object."""
+    num = int(iref.imag)
+    if 0 < num < len(revision) - 1 and revision[num]:
+        return revision[num].get('abs_pos')
+    return None
 
 
 def cross_map_index(sections, index):
-    """."""
+    """Map the position of each object or xref table in file to its number, relevance, targets and users.
+
+    Relevance is the object number and the last revision it takes part in, or None if it is not indexed.
+    """
     ret = {}
+    xref_ver = xref_positions_in_index(index)
+    obj_ver = abs_positions_in_index(index)
     for section in sections:
         abs_pos, addon, typ, payload = section
         if typ == 'XREFTABLE':
             trailer = payload['trailer']
-            relevance = find_xref_table_pos_in_index(abs_pos, index)
+            relevance = (0, xref_ver[abs_pos]) if abs_pos in xref_ver else None
             targets = deep_ref_detect(trailer)
             ret[abs_pos] = 0, relevance, targets, []
         elif typ == 'IND_OBJ':
             o_num = payload['o_num']
-            o_gen = payload['o_gen']
             obj = payload['obj']
-            relevance = find_abs_pos_in_index(abs_pos, index)
+            relevance = obj_ver.get(abs_pos)
+            if relevance is None and abs_pos in xref_ver: #A xref stream may not list itself
+                relevance = (o_num, xref_ver[abs_pos])
             targets = deep_ref_detect(obj)
             ret[abs_pos] = o_num, relevance, targets, []
     for abs_pos in ret:
         o_num, relevance, targets, _ = ret[abs_pos]
-        _, ver = relevance
-        if ver < len(index) - 1:
+        if relevance is None or relevance[1] < len(index) - 1:
             continue
         for target in targets:
-            target_num = int(target.imag)
-            target_pos = index[-1][target_num]['abs_pos']
+            target_pos = target_abs_pos(target, index[-1])
+            if target_pos not in ret: #Reference to the null object
+                continue
             _, _, _, target_used_by = ret[target_pos]
             target_used_by.append((o_num, abs_pos))
     return ret
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 12542eb..be400dd 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -4,7 +4,7 @@ import os
 import html
 from .objects import Stream
 from .graphics import printable_stream_content
-from .api import bool2yesno
+from .api import bool2yesno, target_abs_pos
 
 
 NAME_MAX_WIDTH = 20
@@ -198,6 +198,7 @@ TRAILER = '''
 <div id="end"><code><em>endoffile</em></code></div>
 </div>
 </body>
+</html>
 '''
 
 TRUNCATED = '<em> ...(truncated) </em>'
@@ -207,10 +208,11 @@ TRUNCATED = '<em> ...(truncated) </em>'
 def build_html(articles: list, index: list, cross: dict, filename: str, pages: list, structure: dict, file_size: int) -> str:
     """Compose the page layout."""
     page = HEADER
+    anchors = {article[0] for article in articles if article[2] != 'XREFSTREAM'}
     for article in articles:
         abs_pos, _, typ, content = article
         if typ == 'STARTXREF':
-            page += add_startxref(article, index, cross)
+            page += add_startxref(article, anchors)
         elif typ == 'COMMENT':
             if content == b'%%EOF':
                 page += add_eof(article)
@@ -218,37 +220,49 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
                 page += add_comment(article)
         elif typ == 'IND_OBJ':
             page += build_obj_header(article, index, cross)
-            _, relevance, _, _ = cross[abs_pos]
-            _, ver = relevance
+            ver = relevant_ver(article, cross)
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
-                page += follow_obj(o, index[ver], display_stream=False)
+                page += follow_obj(o, index[ver], anchors, display_stream=False)
             else:
-                page += follow_obj(o, index[ver], display_stream=True)
+                page += follow_obj(o, index[ver], anchors, display_stream=True)
                 page += '\n\nendobj'
                 page += build_obj_trailer()
         elif typ == 'XREFTABLE':
             page += build_obj_header(article, index, cross)
-            page += build_xref_table(content['table'], index)
+            page += build_xref_table(content['table'], anchors)
             page += "\ntrailer\n"
-            page += follow_obj(content['trailer'], index[ver])
+            page += follow_obj(content['trailer'], index[relevant_ver(article, cross)], anchors)
             page += build_obj_trailer()
         elif typ == 'XREFSTREAM':
-            page += build_xref_stream(content['table'], index)
+            page += build_xref_stream(content['table'], index[ver], anchors)
             page += '\n\nendobj'
             page += build_obj_trailer()
     page += build_header(filename)
     page += build_nav_begin()
     page += build_nav_info(structure, file_size)
-    page += build_nav_pages(pages, index)
+    page += build_nav_pages(pages, index, anchors)
     page += build_nav_objects(articles)
-    page += build_nav_quick()
+    page += build_nav_quick(articles)
     page += build_nav_end()
     page += TRAILER
     return page
 
 
-def build_nav_pages(pages, index) -> str:
+def relevant_ver(article: tuple, cross: dict) -> int:
+    """Last revision an article takes part in."""
+    _, relevance, _, _ = cross[article[0]]
+    return relevance[1] if relevance else -1
+
+
+def internal_link(pos, text: str, anchors: set, attrs: str = '') -> str:
+    """Link to a position in file, provided that something is displayed for it."""
+    if pos not in anchors:
+        return text
+    return f'<a {attrs}href="#idx{pos}">{text}</a>'
+
+
+def build_nav_pages(pages, index, anchors) -> str:
     """."""
     ret = '\n'
     ret += f'<details class="b3">\n'
@@ -256,10 +270,8 @@ def build_nav_pages(pages, index) -> str:
     ret += f'<p class="nav-y b2">\n'
     for i, page in enumerate(pages):
         iref, _ = page
-        o_num = int(iref.imag)
-        o_gen = int(iref.real)
-        o_ver = index[-1][o_num]['o_ver']
-        ret += f' <a class="nav-idx" href="#obj{o_num}.{o_gen}.{o_ver}">{i+1}</a>'
+        abs_pos = target_abs_pos(iref, index[-1])
+        ret += ' ' + internal_link(abs_pos, f'{i+1}', anchors, 'class="nav-idx" ')
     ret += f'</p>\n'
     ret += f'</details>\n'
     ret += '\n'
@@ -289,6 +301,7 @@ def build_nav_objects(articles) -> str:
                 content = c['stream']
                 c = c['entries']
             t = c.get("/Type", "")
+            t = html.escape(t) if type(t) == str else ''
         ret += '<li>'
         ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {t}'
         ret += '</li>\n'
@@ -299,14 +312,15 @@ def build_nav_objects(articles) -> str:
     return ret
 
 
-def build_nav_quick() -> str:
+def build_nav_quick(articles) -> str:
     """."""
+    beginning = f'idx{articles[0][0]}' if articles else 'end'
     ret = '\n'
     ret += '<details class="b3">\n'
     ret += '<summary class="title b3"><code> Quick access</code></summary>\n'
     ret += '<pre class="b2">\n'
     ret += '<ul>\n'
-    ret += '<li>&UpArrowBar; <a class="header-button" href="#idx0">Beginning</a></li>\n'
+    ret += f'<li>&UpArrowBar; <a class="header-button" href="#{beginning}">Beginning</a></li>\n'
     ret += '<li>&DownArrowBar; <a class="header-button" href="#end">End of file</a></li>\n'
     ret += '</ul>'
     ret += '</pre>\n'
@@ -323,7 +337,7 @@ def build_nav_info(structure, file_size) -> str:
     ret += '<pre class="b2">\n'
     ret += '<ul>'
     attrs = []
-    attrs.append(f'{"Version: ":{INFO_MAX_WIDTH}}{structure["Version"]}')
+    attrs.append(f'{"Version: ":{INFO_MAX_WIDTH}}{html.escape(str(structure["Version"]))}')
     attrs.append(f'{"Page(s): ":{INFO_MAX_WIDTH}}{structure["Pages"]}')
     attrs.append(f'{"Revision(s): ":{INFO_MAX_WIDTH}}{structure["Revisions"]}')
     attrs.append(f'{"Hybrid: ":{INFO_MAX_WIDTH}}{bool2yesno(structure["Hybrid"])}')
@@ -357,9 +371,10 @@ def build_nav_end() -> str:
 def build_header(filename: str) -> str:
     """."""
     ret = ''
+    name = os.path.basename(filename).encode('utf-8', 'backslashreplace').decode('utf-8')
     ret += f'<div class="header b3">\n'
     ret += f'<pre>\n'
-    ret += f'{os.path.basename(filename)} - '
+    ret += f'{html.escape(name)} - '
     ret += f'internal view generated by '
     ret += f'<a href="https://pdfsyntax.dev">PDFSyntax</a>\n'
     ret += f'</pre>\n'
@@ -367,20 +382,21 @@ def build_header(filename: str) -> str:
     return ret
 
 
-def add_startxref(article: dict, index: list, cross) -> str:
+def add_startxref(article: dict, anchors: set) -> str:
     """ """
     pos, _, _, xref = article
-    href = f'idx{int(xref)}'
+    xref = xref.decode('ascii', 'backslashreplace')
+    target = int(xref) if xref.isdigit() else None
     ret = ''
     ret += f'<div class="block" id="idx{pos}">\n'
     ret += f'<div>\n'
     ret += f'<pre>\n'
     ret += f'<span class="c1">{pos:010d}</span><span class="obj-header b0">startxref</span>\n'
     ret += f'<div class="obj-body b0">\n'
-    if xref == 0:
-        ret += f'0\n'
+    if target is None:
+        ret += f'{html.escape(xref)}\n'
     else:
-        ret += f'<a class="obj-link" href="#{href}">{int(xref)}</a>\n'
+        ret += internal_link(target, f'{target}', anchors, 'class="obj-link" ') + '\n'
     ret += f'</div>\n'
     ret += f'\n</pre>\n</div>\n</div>\n'
     return ret
@@ -390,7 +406,7 @@ def add_comment(article: dict) -> str:
     """ """
     pos, _, _, comment = article
     try:
-        detail = comment[:10].decode('ascii')
+        detail = html.escape(comment[:10].decode('ascii'))
     except:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
@@ -419,7 +435,7 @@ def add_eof(article: dict) -> str:
     return ret
 
 
-def build_xref_table(table: list, index: list) -> str:
+def build_xref_table(table: list, anchors: set) -> str:
     """Display XREF table with additional links to objects."""
     ret = ''
     for x in table:
@@ -432,14 +448,12 @@ def build_xref_table(table: list, index: list) -> str:
             ret += f'{pos:010} {o_gen:05} {st.decode("ascii")}'
             if st != b'f':
                 ret += '    '
-                ret += f'<a href="#idx{pos}">'
-                ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
-                ret += '</a>'
+                ret += internal_link(pos, f'<span class="obj-link">#{o_num} {o_gen}</span>', anchors)
         ret += '\n'
     return ret
 
 
-def build_xref_stream(table: list, index: list) -> str:
+def build_xref_stream(table: list, index: list, anchors: set) -> str:
     """Display XREF table with additional links to objects."""
     ret = ''
     ret += '\nstream\n\n'
@@ -447,14 +461,12 @@ def build_xref_stream(table: list, index: list) -> str:
         _, _, _, y = x
         _, pos, o_num, o_gen, st, env_num, raw_line = y
         if o_num != 0:
+            abs_pos = pos if st != b'f' else None
             if env_num:
-                #abs_pos = envs[env_num] + (pos + 1) / 10000
-                #ret += f'<a href="#idx{abs_pos}">'
-                ret += f'<a href="#obj{o_num}.{o_gen}.0">'
-            else:
-                ret += f'<a href="#idx{pos}">'
-            ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
-            ret += '</a>'
+                abs_pos = target_abs_pos(complex(0, env_num), index)
+                if abs_pos is not None:
+                    abs_pos += (pos + 1) / 10000
+            ret += internal_link(abs_pos, f'<span class="obj-link">#{o_num} {o_gen}</span>', anchors)
             ret += '    '
             if env_num:
                 ret += f'In object stream {env_num} at {pos:010} {st.decode("ascii")}\n'
@@ -473,18 +485,15 @@ def move_list_item(mod_list: list, item: int, new_pos: int) -> str:
     return mod_list
 
 
-def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
+def follow_obj(obj, index: list, anchors: set, depth=0, display_stream=True) -> str:
     """Recursively construct object representation."""
     ret = ''
     content = None
     if isinstance(obj, complex):
         o_num = int(obj.imag)
         o_gen = int(obj.real)
-        abs_pos = index[o_num].get('abs_pos')
-        ret += f'<a href="#idx{abs_pos}">'
-        ret += f'<span class="obj-link">{o_num} {o_gen} R</span>'
-        ret += '</a>'
-        return ret
+        abs_pos = target_abs_pos(obj, index)
+        return internal_link(abs_pos, f'<span class="obj-link">{o_num} {o_gen} R</span>', anchors)
     if type(obj) == dict or type(obj) == Stream: 
         if type(obj) == Stream:
             content = obj['stream']
@@ -495,18 +504,19 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         keys = move_list_item(keys, '/Subtype', 1)
         for i in keys:
             name = i #name = i.decode('ascii')
-            value = follow_obj(obj[i], index, depth + 1)
+            padded_name = html.escape(f'{name:{NAME_MAX_WIDTH}}')
+            value = follow_obj(obj[i], index, anchors, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
             if name == '/Type' or name == '/Subtype':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="important">{value}</span>\n'
+                ret += f'  {padded_name}<span class="important">{value}</span>\n'
             elif name == '/JS':
-                ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
+                ret += f'  <span class="warning">{padded_name}</span>{value}\n'
             elif value == '/JavaScript':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
-            elif name == '/Prev':
-                ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
+                ret += f'  {padded_name}<span class="warning">{value}</span>\n'
+            elif name == '/Prev' and type(obj[i]) == int:
+                ret += f'  {padded_name}' + internal_link(obj[i], value, anchors, 'class="obj-link" ') + '\n'
             else:
-                ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
+                ret += f'  {padded_name}{value}\n'
         ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
         ret += '&gt;&gt;'
         if content and display_stream:
@@ -523,10 +533,11 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
     elif type(obj) == list:
         ret += '[ '
         for i in obj:
-            value = follow_obj(i, index)
+            value = follow_obj(i, index, anchors)
             ret += f'{value} '
-        if len(ret) > VALUE_MAX_WIDTH and 'href' not in ret:
-            ret = ret[:VALUE_MAX_WIDTH] + TRUNCATED
+        plain = html.unescape(ret)
+        if len(plain) > VALUE_MAX_WIDTH and '<' not in ret: #No markup inside
+            ret = html.escape(plain[:VALUE_MAX_WIDTH]) + TRUNCATED
         ret += ']'        
     else:
         comment = False
@@ -541,7 +552,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
             obj = f'{obj}'
             ret += f'{obj[2:-1]}'
         else:
-            ret += obj.decode('ascii')
+            ret += obj.decode('ascii', 'backslashreplace')
         ret = html.escape(ret)
         if comment == True:
             ret += TRUNCATED
@@ -555,6 +566,19 @@ def build_xref_item_header() -> str:
     return ret
 
 
+def obj_id(article, index, cross) -> str:
+    """Anchor attribute made of number, generation and version, for indexed objects."""
+    pos, _, _, _ = article
+    _, relevance, _, _ = cross[pos]
+    if relevance is None:
+        return ''
+    o_num, ver = relevance
+    entry = index[ver][o_num]
+    if not entry or entry.get('abs_pos') != pos:
+        return ''
+    return f' id="obj{o_num}.{entry["o_gen"]}.{entry["o_ver"]}"'
+
+
 def build_obj_header(article, index, cross) -> str:
     """Add opening elements to object."""
     pos, addon, typ, obj = article
@@ -572,13 +596,11 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<div>\n'
         ret += f'<pre>\n'
     elif type(pos) == int:
-        _, relevance, _, used_by = cross[pos]
-        o_num, ver = relevance
-        o_gen = index[ver][o_num]['o_gen']
-        o_ver = index[ver][o_num]['o_ver']
+        _, _, _, used_by = cross[pos]
+        o_num, o_gen = obj['o_num'], obj['o_gen']
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        ret += f'<div{obj_id(article, index, cross)}>\n'
         ret += f'<pre>\n'
         ret += f'<span class="c1">{pos:010d}</span>'
         ret += f'<span class="obj-header b0"><strong>{o_num}</strong> '
@@ -593,11 +615,11 @@ def build_obj_header(article, index, cross) -> str:
             ret += f'</span></em>'
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
-        o_num, o_gen, o_ver = obj['o_num'], 0, 0
+        o_num, o_gen = obj['o_num'], 0
         _, _, _, used_by = cross[pos]
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
-        ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
+        ret += f'<div{obj_id(article, index, cross)}>\n'
         ret += f'<pre>\n'
         embedded = f'{obj["env_num"]} #{seq}'
         ret += f'<span class="c1">{embedded:10}</span>'
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c1276db..7c53040 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -144,6 +144,7 @@ def printable_stream_content(content_stream: bytes, escape = True) -> str:
             return None
     ret = c.decode('latin-1')
     if escape:
+        ret = ret.replace('&', '&amp;')
         ret = ret.replace('<', '&lt;')
         ret = ret.replace('>', '&gt;')
     return ret
-- 
2.43.0


From 3e632ab6c7841a522c55bac3a1e3216421fc237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:16 +0000
Subject: [PATCH 052/102] fix: overview of a file without pages or with unusual
 MediaBox corners

---
 pdfsyntax/api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 80f48a8..aef2303 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -142,7 +142,8 @@ def structure(doc: Doc) -> dict:
         ret['Linearized'] = True
     else:
         ret['Linearized'] = False
-    ret['Paper of 1st page'] = paper(page_layouts(doc, 1)[0][0])
+    layouts = page_layouts(doc, 1)
+    ret['Paper of 1st page'] = paper(layouts[0][0]) if layouts else 'no page'
     return ret
 
 
@@ -167,7 +168,7 @@ def metadata(doc: Doc) -> dict:
 
 def paper(mediabox: list) -> str:
     """Detect paper size."""
-    x, y = mediabox[2] - mediabox[0], mediabox[3] - mediabox[1]
+    x, y = abs(mediabox[2] - mediabox[0]), abs(mediabox[3] - mediabox[1])
     ptype = 'unknown'
     for t in PAPER_SIZES:
         if PAPER_SIZES[t] == (x, y):
@@ -179,7 +180,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(get_object(doc, p['/MediaBox']), get_object(doc, p.get('/Rotate'))) for p in pl]
+    med = [([get_object(doc, x) for x in get_object(doc, p['/MediaBox'])], get_object(doc, p.get('/Rotate'))) for p in pl]
     return med
 
 
-- 
2.43.0


From 956cf0dde3e2a5ee122cdff3f8fb6f2d8fa92bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:26 +0000
Subject: [PATCH 053/102] fix: content streams: inline images, comments, null
 operands, q/Q on text state, quote operators, character spacing; layout
 without division by zero

---
 pdfsyntax/api.py       | 17 ++++++-------
 pdfsyntax/docstruct.py | 17 ++++++++-----
 pdfsyntax/graphics.py  | 57 +++++++++++++++++++++++++-----------------
 pdfsyntax/layout.py    | 11 ++++----
 pdfsyntax/text.py      | 53 +++++++++++++++++++++++----------------
 5 files changed, 91 insertions(+), 64 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index aef2303..f5f7772 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -332,8 +332,8 @@ def get_page_contents(doc: Doc, page_num: int) -> list:
     """List all content streams of a page."""
     ret = []
     pages = flat_page_tree(doc)
-    i_c = get_object(doc, pages[page_num][0])['/Contents']
-    if type(i_c) == complex:
+    i_c = get_object(doc, pages[page_num][0]).get('/Contents', [])
+    if type(i_c) != list:
         i_c = [i_c]
     for content in i_c:
         c2 = get_object(doc, content)
@@ -341,7 +341,8 @@ def get_page_contents(doc: Doc, page_num: int) -> list:
             c2 = [c2]
         for content2 in c2:
             c3 = get_object(doc, content2)
-            ret.append(c3)
+            if type(c3) == Stream:
+                ret.append(c3)
     return ret
 
 
@@ -356,9 +357,7 @@ def build_text_fragments(page_contents: list, f: list):
     tfs = []
     gs = []
     ts = {}
-    c_all = b''
-    for c in page_contents:
-        c_all += c['stream']
+    c_all = b'\n'.join(c['stream'] for c in page_contents)
     t =parse_stream_content(c_all)
     for te in t:
         if te[-1] not in 'lmchnfgGref*':
@@ -366,11 +365,11 @@ def build_text_fragments(page_contents: list, f: list):
              pass
         apply_command(te, gs, ts)
         #print(ts['tm'])
-        if te[-1] == 'TJ' or te[-1] == 'Tj':
+        if te[-1] in ('TJ', 'Tj', "'", '"'):
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
-            uc, displacement = text_element_to_unicode(f[0], te, ts)
-            tx = (displacement * ts['Tfs'] + ts['Tc'] + ts['Tw']) * ts['Th'] / 100
+            uc, displacement, spacing = text_element_to_unicode(f[0], te, ts)
+            tx = (displacement * ts['Tfs'] + spacing) * ts['Th'] / 100
             ty = 0 #TODO
             ts['tm'] = multiply_matrices([1, 0, 0, 1, tx, ty], ts['tm'])
             new_trm = trm(ts, gs)
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4c64baa..02afd46 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -966,10 +966,7 @@ def prepare_w(w, default_w):
     """Decode widths for type0 / CID fonts."""
     i = 0
     width = {}
-    if not w:
-        def char_width_cid_default(character_num):
-            return 500
-        return char_width_cid_default
+    w = w or []
     while i < len(w):
         if type(w[i+1]) == list:
             current = w[i]
@@ -989,6 +986,14 @@ def prepare_w(w, default_w):
     return char_width_cid
 
 
+def resolve_items(doc: Doc, array, depth: int = 2):
+    """Resolve references of an array and of its nested arrays."""
+    array = get_object(doc, array)
+    if type(array) == list and depth > 0:
+        array = [resolve_items(doc, x, depth - 1) for x in array]
+    return array
+
+
 def prepare_widths(widths, first_char):
     """Decode widths for simple fonts."""
     def char_width_table(character_num):
@@ -1015,13 +1020,13 @@ def prepare_font(doc: Doc, iref) -> dict:
     widths = o.get('/Widths')
     descendant = o.get('/DescendantFonts')
     if widths:
-        font_desc['char_width'] = prepare_widths(get_object(doc, widths), get_object(doc, first_char))
+        font_desc['char_width'] = prepare_widths(resolve_items(doc, widths), get_object(doc, first_char))
     elif descendant:
         iref = get_object(doc, descendant)[0]
         d = get_object(doc, iref)
         w = d.get('/W')
         dw = d.get('/DW', 1000)
-        font_desc['char_width'] = prepare_w(get_object(doc, w), get_object(doc, dw))
+        font_desc['char_width'] = prepare_w(resolve_items(doc, w), get_object(doc, dw))
     else:
         #TODO Find standard fonts widths
         default_widths = [500] * 256
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index 7c53040..1ccdd72 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -1,10 +1,12 @@
 """ """
 
+import re
 from .objects import *
-from copy import deepcopy
 
 IDENTITY_MATRIX = [1, 0, 0, 1, 0, 0]
 
+SAVED_TEXT_STATE = ['Tc', 'Tw', 'Th', 'Tl', 'Tf', 'Tfs', 'Tmode', 'Trise']
+
 
 def multiply_matrices(m1: list, m2: list) -> list:
     """Multiply two 3x3 matrices to produce the new ctm.
@@ -45,15 +47,18 @@ def apply_command(command: list, graphics_state_stack: list, text_state: dict):
         text_state['Th'] = 100
         text_state['Tl'] = 0
         text_state['Tf'] = None
-        text_state['Tfs'] = None
+        text_state['Tfs'] = 1
         text_state['Tmode'] = 0
         text_state['Trise'] = 0
     current_state = graphics_state_stack[-1]
     if command[-1] == 'q':
-        state_backup = deepcopy(current_state)
+        current_state['text_state'] = {k: text_state[k] for k in SAVED_TEXT_STATE}
+        state_backup = {'ctm': current_state['ctm']}
         graphics_state_stack.append(state_backup)
     elif command[-1] == 'Q':
-        graphics_state_stack.pop()
+        if len(graphics_state_stack) > 1:
+            graphics_state_stack.pop()
+            text_state.update(graphics_state_stack[-1]['text_state'])
     elif command[-1] == 'cm':
         operands = command[:7]
         new_ctm = multiply_matrices(operands, current_state['ctm'])
@@ -111,30 +116,36 @@ def parse_stream_content(content_stream: bytes) -> list:
     A command is a list made of operands followed by an operator, like [1, 0, 0, 1, 0, 0, 'cm']
     """
     ret = []
-    tokens = parse_obj(b'[' + content_stream + b']')
-    i = len(tokens) - 1
-    section = None
     current = []
-    while i >= 0:
-        if type(tokens[i]) == str and tokens[i][0:1] != '/':
-            if current:
-                ret.insert(0, current)
-            current = [tokens[i]]
-            i -= 1
-            continue
-        if type(tokens[i]) != str or tokens[i][0:1] == '/':
-            current = [tokens[i]] + current
-            if i == 0 and current:
-                ret.insert(0, current)
-            i -= 1
-            continue
-            i -= 1
-        i -= 1
+    text = content_stream + b'\n' #To close last token
+    i = 0
+    while i < len(text):
+        h, i, t = next_token(text, i)
+        if t is None:
+            i += 1 #Do not stay on a misplaced delimiter
+        elif t == 'DICT' or t == 'ARRAY':
+            current.append(parse_obj(text[h:i]))
+        elif t != 'COMMENT':
+            current.append(dedicated_type(text[h:i], t))
+            if t == 'KEYWORD' and current[-1] != 'null':
+                ret.append(current)
+                current = []
+                if ret[-1][-1] == 'ID':
+                    data_end, i = inline_image_end(text, i)
+                    ret.append([text[h+3:data_end], 'EI'])
     if current:
-        ret.insert(0, current)
+        ret.append(current)
     return ret
 
 
+def inline_image_end(text: bytes, i: int) -> tuple:
+    """Find the position where the data of an inline image stops, and the position that follows EI."""
+    end = re.compile(rb'[\x00\t\n\x0c\r ]EI(?=[\x00\t\n\x0c\r ])').search(text, i)
+    if not end:
+        return len(text), len(text)
+    return end.start(), end.end()
+
+
 def printable_stream_content(content_stream: bytes, escape = True) -> str:
     """."""
     ret = ''
diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 0654969..83464cd 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -3,6 +3,7 @@
 
 MIN_SEP_DISTANCE = 5
 NEWLINE_COEFF = 3
+MAX_BLANKS = 1000
 
 
 def basic_spatial_layout(text_blocks: list) -> str:
@@ -11,9 +12,9 @@ def basic_spatial_layout(text_blocks: list) -> str:
     text_blocks.sort(key=lambda tb: -tb['y'])
     min_x = minimum_x(text_blocks)
     fs = typical_font_size(text_blocks)
-    spacing = typical_line_spacing(text_blocks, fs)
+    spacing = abs(typical_line_spacing(text_blocks, fs)) or 1
     #print(f"spacing = {spacing}")
-    char_w = typical_char_width(text_blocks, fs)
+    char_w = abs(typical_char_width(text_blocks, fs)) or abs(fs) or 1
     #print(f"char w = {char_w}")
     previous_y = -1
     while text_blocks:
@@ -22,7 +23,7 @@ def basic_spatial_layout(text_blocks: list) -> str:
         target_y = line_items[0]['y']
         if previous_y != -1:
             inter_lines = int((previous_y - target_y - spacing / NEWLINE_COEFF) / spacing)
-            res += '\n' * inter_lines
+            res += '\n' * min(inter_lines, MAX_BLANKS)
         previous_y = target_y
         #print("-----------------------------------")
         #print(line_items[0])
@@ -34,14 +35,14 @@ def basic_spatial_layout(text_blocks: list) -> str:
         line_items.sort(key=lambda tb: tb['x'])
         #TODO exclude overlapping blocks
         nb_spaces = (int(line_items[0]['x']) - min_x) // char_w
-        line_string += ' ' * int(nb_spaces)
+        line_string += ' ' * min(int(nb_spaces), MAX_BLANKS)
         line_string += line_items[0]['text']
         i = 1
         while i < len(line_items):
             if line_items[i]['x'] > line_items[i-1]['x'] + line_items[i-1]['width'] + MIN_SEP_DISTANCE:
                 nb_spaces = (int(line_items[i]['x']) - min_x) // char_w
                 offset = len(line_string)
-                line_string += ' ' * (int(nb_spaces) - offset)
+                line_string += ' ' * max(1, min(int(nb_spaces) - offset, MAX_BLANKS))
             line_string += line_items[i]['text']
             i += 1
         if line_string != ' ':
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index bc7062f..1a3f117 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -16,6 +16,8 @@ def prepare_pdfdoc_charset():
     charset += list(range(0xa1, 256))
     return charset
 
+MAX_SPACES = 1000
+
 PDFDOC_CHARSET = prepare_pdfdoc_charset()
 
 
@@ -185,29 +187,38 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
     return ''.join(tokens), tokens_backup
 
 
+#In case a font is missing from resources
+DEFAULT_FONT = {'dec_fun': lambda text: apply_encoding(None, text), 'char_width': lambda character_num: 500}
+
+
 def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
-    """ """
-    font = ts['Tf']
+    """Decode a text-showing command.
+
+    Return:
+    - the unicode string
+    - the displacement due to glyphs and adjustments, for a font size of 1
+    - the displacement due to character and word spacing
+    """
+    font = fonts.get(ts['Tf'], DEFAULT_FONT)
     ustring = ''
     width = 0
-    if element[-1] == 'Tj':
-            t = element[-2]
-            us, chars = fonts[font]['dec_fun'](t)
+    spacing = 0
+    parts = element[-2] if element[-1] == 'TJ' else [element[-2]]
+    for t in parts:
+        if type(t) == bytes:
+            us, chars = font['dec_fun'](t)
             ustring += us
+            single_byte = len(chars) == len(string_content(t))
             for c in chars:
-                width += fonts[font]['char_width'](c) / 1000
-    elif element[-1] == 'TJ':
-        for t in element[-2]:
-            if type(t) == bytes:
-                us, chars = fonts[font]['dec_fun'](t)
-                ustring += us
-                for c in chars:
-                    width += fonts[font]['char_width'](c) / 1000
-            else:
-                space_char_width = fonts[font]['char_width'](32) # char 32 is SPACE
-                t -= space_char_width * 0.2
-                if t <= -space_char_width:
-                    nb_char = int(-t / space_char_width) if space_char_width > 0 else 0
-                    ustring += ' ' * nb_char
-                width -= t/1000
-    return ustring, width
+                width += font['char_width'](c) / 1000
+                spacing += ts['Tc']
+                if c == 32 and single_byte: # char 32 is SPACE
+                    spacing += ts['Tw']
+        else:
+            space_char_width = font['char_width'](32) # char 32 is SPACE
+            gap = t - space_char_width * 0.2
+            if gap <= -space_char_width:
+                nb_char = int(-gap / space_char_width) if space_char_width > 0 else 0
+                ustring += ' ' * min(nb_char, MAX_SPACES)
+            width -= t/1000
+    return ustring, width, spacing
-- 
2.43.0


From 03f89cfb3f15f9517c701ad486576ce64c964195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:24 +0000
Subject: [PATCH 054/102] fix: trailing operands without operator in page
 contents

---
 pdfsyntax/api.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index f5f7772..401a3e8 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -360,9 +360,6 @@ def build_text_fragments(page_contents: list, f: list):
     c_all = b'\n'.join(c['stream'] for c in page_contents)
     t =parse_stream_content(c_all)
     for te in t:
-        if te[-1] not in 'lmchnfgGref*':
-             #print(te)
-             pass
         apply_command(te, gs, ts)
         #print(ts['tm'])
         if te[-1] in ('TJ', 'Tj', "'", '"'):
-- 
2.43.0


From c1950d4dc5604de303534f659e0218dbcb257528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:30 +0000
Subject: [PATCH 055/102] fix: xref streams: default entry type, malformed or
 huge Index, absurd object numbers ignored

---
 pdfsyntax/filestruct.py |  2 ++
 pdfsyntax/objects.py    | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index e2b784b..50dc789 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -9,6 +9,7 @@ from copy import deepcopy
 from .filters import *
 
 MARGIN = b'\n'
+MAX_OBJ_NUM = 8388607
 
 
 def bdata_provider(data_source, mode: str = "SINGLE"):
@@ -295,6 +296,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             xref_index = parse_xref_stream(xref, xref_pos, o_num)
             trailer = xref['entries']
         xref_index[0]['startxref_pos'] = startxref_pos
+        xref_index = [i for i in xref_index if i['o_num'] <= MAX_OBJ_NUM]
         xref_index.append({'o_num': -1, 'o_gen': -1, 'abs_pos': eof_pos})
         chrono.append(xref_index)
         seq += [(i.get('abs_pos'), i.get('o_num')) for i in xref_index if 'abs_pos' in i and 'env_num' not in i]
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index b900cb0..8956ed1 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -406,7 +406,7 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
 
-def expand_xref_index(xref_index: list) -> list:
+def expand_xref_index(xref_index: list, max_nb: int = None) -> list:
     """Transform index section pairs into a flat list of (object_number, subsection) tuples."""
     res = []
     subsection = 0
@@ -414,9 +414,11 @@ def expand_xref_index(xref_index: list) -> list:
     while i < len(xref_index):
         o_num = xref_index[i]
         i += 1
-        res.append((o_num, subsection))
-        for j in range(xref_index[i]-1):
-            res.append((o_num+j+1, subsection))
+        nb = xref_index[i]
+        if max_nb is not None:
+            nb = min(nb, max_nb - len(res))
+        for j in range(nb):
+            res.append((o_num+j, subsection))
         i += 1
         subsection += 1
     return res
@@ -431,17 +433,19 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
         obj_range = xref_stream['entries']['/Index']
     else:
         obj_range = [0, xref_stream['entries']['/Size']]
-    obj_nums = expand_xref_index(obj_range)
-    while i < len(xref_stream['stream']):
+    row_length = sum(int(col) for col in cols)
+    nb_rows = len(xref_stream['stream']) // row_length
+    for obj_num, subsection in expand_xref_index(obj_range, nb_rows):
         params = []
         ppr = b''
-        obj_num, subsection = obj_nums.pop(0)
         for col in cols:
             x = xref_stream['stream'][i:i+int(col)]
             #struct.unpack cannot work with 3-byte words
             params.append(int.from_bytes(x, byteorder='big'))
             i += int(col)
             ppr += asciihex(x) + b' '
+        if cols[0] == 0: #Default type
+            params[0] = 1
         if params[0] == 0:
             offset = params[1]
             o_gen = params[2]
-- 
2.43.0


From 4b41ba82a00b233daac2c88a7840b5e4ccea2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:03 +0000
Subject: [PATCH 056/102] fix: huge range of widths

---
 pdfsyntax/docstruct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 02afd46..d20048d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -962,6 +962,9 @@ def squash(doc: Doc) -> Doc:
     return new_doc
 
 
+MAX_CID = 65535
+
+
 def prepare_w(w, default_w):
     """Decode widths for type0 / CID fonts."""
     i = 0
@@ -978,7 +981,7 @@ def prepare_w(w, default_w):
             first = w[i]
             last = w[i+1]
             x = w[i+2]
-            for j in range(first, last+1):
+            for j in range(first, min(last, MAX_CID)+1):
                 width[j] = x
             i += 3
     def char_width_cid(character_num):
-- 
2.43.0


From 373ed8014b734b30464288064db5b6770f4c91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:23 +0000
Subject: [PATCH 057/102] fix: metadata of a null information dictionary

---
 pdfsyntax/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 401a3e8..48b89f1 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -158,7 +158,9 @@ def bool2yesno(b: bool) -> str:
 def metadata(doc: Doc) -> dict:
     """Return doc metadata."""
     ret = {}
-    i = info(doc) or {}
+    i = info(doc)
+    if type(i) != dict: #Absent or null
+        i = {}
     for entry in METADATA_ATTRS:
         ret[entry[1:]] = text_string(get_object(doc, i.get(entry))) or None
     ret['CreationDate'] = text_string(get_object(doc, i.get('/CreationDate'))) or None
-- 
2.43.0


From cc641035a34354ab2fed78e18ae19da43f2634b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:18 +0000
Subject: [PATCH 058/102] fix: an inheritable page attribute that leads to a
 deleted object is absent, so inherited

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index d20048d..b113bd6 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -321,7 +321,7 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None, visited=None
         if num in visited: #Corrupt tree
             return accu
         visited.add(num)
-        e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) not in (None, 'null')}
+        e = {k: node.get(k) for k in INHERITABLE_ATTRS if get_object(doc, node.get(k)) not in (None, 'null')}
         inherited.update(e)
         for kid in get_object(doc, node['/Kids']):
             if max_nb is not None and len(accu) >= max_nb:
@@ -540,7 +540,7 @@ def pages(doc: Doc, max_nb=None) -> list:
     for num, in_attr in flat_page_tree(doc, max_nb=max_nb):
         temp = deepcopy(get_object(doc, num))
         for a in in_attr:
-            if temp.get(a, 'null') == 'null':
+            if get_object(doc, temp.get(a)) in (None, 'null'):
                 temp[a] = in_attr[a]
         pl.append(temp)
     return pl
-- 
2.43.0


From b8d2de175b815625a9750da20560fab87f07262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:14 +0000
Subject: [PATCH 059/102] fix: rotating a page whose Rotate entry is null

---
 pdfsyntax/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 48b89f1..121f826 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -196,7 +196,8 @@ def rotate(doc: Doc, degrees: int = 90, pages: list = []) -> Doc:
     a = [(i ,x[1]) for i, x in enumerate(pl) if i in work_pages]
     c = flat_page_tree(doc)
     for nb, old_degrees in a:
-        old_degrees = old_degrees or 0
+        if old_degrees in (None, 'null'):
+            old_degrees = 0
         iref = c[nb][0]
         obj = deepcopy(get_object(doc, iref))
         obj['/Rotate'] = (old_degrees + degrees) % 360
-- 
2.43.0


From 44c438a89cf3b38421f3b02c69d872827436a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:33:54 +0000
Subject: [PATCH 060/102] fix: keep lines closer than the typical spacing apart
 in the extracted text

---
 pdfsyntax/layout.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 83464cd..dce4488 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -28,7 +28,7 @@ def basic_spatial_layout(text_blocks: list) -> str:
         #print("-----------------------------------")
         #print(line_items[0])
         while text_blocks:
-            if abs(target_y - text_blocks[0]['y']) > spacing * 0.9:
+            if not on_same_line(line_items[0], text_blocks[0], spacing):
                 break
             line_items.append(text_blocks.pop(0))
             #print(line_items[-1])
@@ -50,6 +50,12 @@ def basic_spatial_layout(text_blocks: list) -> str:
     return res
 
 
+def on_same_line(first: dict, other: dict, spacing: float) -> bool:
+    """Tell if a block is close enough to the first block of a line."""
+    size = min(abs(first['scaling']), abs(other['scaling']))
+    return abs(first['y'] - other['y']) <= (min(spacing, size) or spacing) * 0.9
+
+
 def simplify_horizontal_text_elements(text_blocks: list):
     """Arrange text blocks into something more readable."""
     for i, tz in enumerate(text_blocks):
-- 
2.43.0


From c55734ad50c5970981ea61cda0cfd5b964f74b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:37:26 +0000
Subject: [PATCH 061/102] fix: flag the very entries and embedded objects in
 error in the disassembly

---
 pdfsyntax/cli.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 2109e27..e0e05bd 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -199,7 +199,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
     i, d, n = build_xref_sequence(fdata)
     wrong_targets = check_index_targets(sections, i)
     dir_not_indexed = {x for t, _, _, x in check_not_indexed_objects(sections, i) if t == 'DIR'}
-    emb_not_indexed = {(e, n) for t, n, e, _ in check_not_indexed_objects(sections, i) if t == 'EMB'}
+    emb_not_indexed = {(e, s) for t, _, e, s in check_not_indexed_objects(sections, i) if t == 'EMB'}
     lines = []
     for start_pos, end_pos, region_type, content in sections:
         pos = start_pos
@@ -240,10 +240,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                  'region_type': region_type.lower(), 'detail': detail
                  }
             lines.append(l)
-            if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
-            else:
-                wt = set()
+            wt = wrong_targets.get(pos, [])
             for x in content['table']:
                 st = '-@'
                 if len(x) == 2:
@@ -258,7 +255,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if cl == 'inuse' and ('DIR', x_num, x_gen, index) in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'region_type': region_type.lower(),
                      'iref': iref, 'addr': addr, 'cl': cl, 'st': st
@@ -313,10 +310,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
             lines.append(l)
         elif region_type == 'XREFSTREAM':
             trailer = content['trailer']
-            if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
-            else:
-                wt = set()
+            wt = wrong_targets.get(pos, [])
             for x in content['table']:
                 st = '-@'
                 _, _, _, y = x
@@ -331,7 +325,8 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                k = ('DIR', x_num, x_gen, index) if env_num is None else ('EMB', x_num, env_num, index)
+                if cl == 'inuse' and k in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'pos': pos,
                      'region_type': region_type.lower(), 'iref': iref,
-- 
2.43.0


From 4cd866737dbd50a76298a3ce77b0abc483205558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:39:32 +0000
Subject: [PATCH 062/102] fix: comments and references among the objects of an
 object stream

---
 pdfsyntax/objects.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 8956ed1..a0c4e03 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -364,11 +364,15 @@ def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
     i = 0
     tokens = []
     while i < len(data):
-        bo, eo, typ = next_token(data, i)
-        tokens.append(bo)
+        bo, eo, typ = next_item(data, i)
+        if bo is None or typ == 'COMMENT':
+            break
+        if data[bo:eo] == b'R' and tokens: #A reference is one object
+            tokens.pop()
+        else:
+            tokens.append(bo)
         i = eo
     actual_nb_obj = len(tokens) // 3
-    actual_offset = tokens[2 * actual_nb_obj]
     y_array = parse_obj(b'[' + data[:offset] + b']')
     y_pos = [y+offset for j, y in enumerate(y_array) if j % 2]
     for x in range(actual_nb_obj):
-- 
2.43.0


From fa19eb382674e9cfa32aea75b6a27a3ad2124a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:38 +0000
Subject: [PATCH 063/102] fix: ranges of empty data or that start at the end of
 data

---
 pdfsyntax/docstruct.py  |  6 +-----
 pdfsyntax/filestruct.py | 27 ++++++++++++---------------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b113bd6..6ccc508 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -566,11 +566,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
         size = index + len(bdata)
         if start_pos == None and length == -1:
             return (None, None, None, size)
-        i = (start_pos + size) % size
-        if length == -1:
-            nb_read = size - i
-        else:
-            nb_read = min(size - i, length)
+        i, nb_read = locate_range(start_pos, length, size)
         if i >= index:
             return (bdata, i - index, index, nb_read)
         elif i + nb_read <= index:
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 50dc789..ecb892f 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -12,6 +12,15 @@ MARGIN = b'\n'
 MAX_OBJ_NUM = 8388607
 
 
+def locate_range(start_pos: int, length: int, size: int) -> tuple:
+    """Return the position and the number of bytes of a range (from the end if start_pos < 0, to the end if length is -1)."""
+    i = min(max(start_pos + size if start_pos < 0 else start_pos, 0), size)
+    nb_read = size - i
+    if length != -1:
+        nb_read = min(nb_read, length)
+    return i, nb_read
+
+
 def bdata_provider(data_source, mode: str = "SINGLE"):
     """Build - with a higher order function - an interface to binary data.
     
@@ -32,11 +41,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
         def single_load(start_pos: int, length: int) -> tuple:
             if start_pos ==  None and length == -1: #Special escape for length only
                 return (None, None, None, len(bdata))
-            i = (start_pos + len(bdata)) % len(bdata)
-            if length == -1:
-                nb_read = len(bdata) - i
-            else:
-                nb_read = min(len(bdata) - i, length)
+            i, nb_read = locate_range(start_pos, length, len(bdata))
             return (bdata, i, 0, nb_read)
         return single_load
     else:
@@ -46,11 +51,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
             file_size = file_obj.tell()
             if start_pos == None and length == -1:
                 return (None, None, None, file_size)
-            i = (start_pos + file_size) % file_size
-            if length == -1:
-                nb_read = file_size - i
-            else:
-                nb_read = min(file_size - i, length)
+            i, nb_read = locate_range(start_pos, length, file_size)
             file_obj.seek(i)
             bdata = file_obj.read(nb_read)
             return (bdata, 0, i, nb_read)
@@ -62,11 +63,7 @@ def bdata_dummy(bdata: bytes):
     def dummy_load(start_pos: int, length: int) -> tuple:
         if start_pos is None and length == -1:
             return (None, None, None, len(bdata))
-        i = (start_pos + len(bdata)) % len(bdata)
-        if length == -1:
-            nb_read = len(bdata) - i
-        else:
-            nb_read = min(len(bdata) - i, length)
+        i, nb_read = locate_range(start_pos, length, len(bdata))
         return (bdata, i, 0, nb_read)
     return dummy_load
 
-- 
2.43.0


From b3987e4f185e0f911ee86d556839b94bf87c14cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:06 +0000
Subject: [PATCH 064/102] fix: whole data of a composite provider whose base is
 longer than the part in use

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ecb892f..ca54db9 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -76,8 +76,8 @@ def bdata_length(bdata: Callable) -> int:
 
 def bdata_all(bdata: Callable) -> bytes:
     """Return full bdata content as bytes."""
-    bdata, _, _, _ = bdata(0, -1)
-    return bdata
+    buf, i, _, nb = bdata(0, -1)
+    return buf[i:i+nb]
 
 
 def hexdump(bdata: Callable, start: int = None, stop: int = None) -> str:
-- 
2.43.0


From 25d8c6a3dc7a0538f75575d3443429dcd21489db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:33 +0000
Subject: [PATCH 065/102] fix: endless loop on a misplaced delimiter in an
 object stream

---
 pdfsyntax/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index a0c4e03..f340fd2 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -367,6 +367,9 @@ def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
         bo, eo, typ = next_item(data, i)
         if bo is None or typ == 'COMMENT':
             break
+        if typ is None and eo < len(data): #Do not stay on a misplaced delimiter
+            i = eo + 1
+            continue
         if data[bo:eo] == b'R' and tokens: #A reference is one object
             tokens.pop()
         else:
-- 
2.43.0


From 3268083c9881507055b0d7fd723a8a2075625a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:58 +0000
Subject: [PATCH 066/102] fix: memory exhausted or index error when the page
 count is wrong

---
 pdfsyntax/api.py       | 2 +-
 pdfsyntax/docstruct.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 121f826..96a4f2f 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -271,7 +271,7 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
 def fonts(doc: Doc) -> dict:
     """Return each font with its attributes and the pages where it appears."""
     ret = {}
-    nb = number_pages(doc)
+    nb = len(flat_page_tree(doc))
     font_index = get_page_fonts(doc, list(range(nb)))
     for i, page_fonts in enumerate(font_index):
         for font in page_fonts:
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 6ccc508..d6845f4 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -28,7 +28,7 @@ class Doc(Doc):
 
     def __getitem__(self, key):
         """Return immutable slice of pages with the square brackets syntax."""
-        n = number_pages(self)
+        n = len(flat_page_tree(self)) #Not /Count, that may be wrong
         if type(key) == int:
             page = key % n
             pages = {page}
@@ -57,7 +57,7 @@ class DocIterator:
         """Constructor."""
         self.doc = doc
         self.current = 0
-        self.end = number_pages(doc)
+        self.end = len(flat_page_tree(doc))
 
     def __next__(self):
         """Iterate over the doc pages."""
@@ -839,7 +839,7 @@ def dependencies(doc: Doc, obj: Any, skip=('/Parent', '/P'), excluded=set()) ->
 
 def keep_pages(doc: Doc, pages) -> Doc:
     """Keep one (an int) or more (a set of int) pages and remove the others."""
-    n = number_pages(doc)
+    n = len(flat_page_tree(doc))
     if type(pages) != set:
         pages = {pages}
     del_pages = set(range(n)) - pages
-- 
2.43.0


From 48de8ad3f8fd923459f315564e7d5ab71f5a740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:22 +0000
Subject: [PATCH 067/102] fix: endless page hierarchy of a cyclic page tree

---
 pdfsyntax/docstruct.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index d6845f4..f736010 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -188,7 +188,7 @@ def pprint_data_history(doc: Doc):
     return
 
 
-def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int = 0, accu: str =''):
+def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int = 0, accu: str ='', visited=None):
     """Pretty print the tree hierarchy of pages."""
     if not iref:
         cat, cat_iref = catalog(doc)
@@ -199,13 +199,17 @@ def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int
         node = pages
     else:
         node = get_object(doc, iref)
+    visited = set() if visited is None else visited
     level += 1
     offset = "    " * level
-    if node['/Type'] == '/Pages':
-        kids = node['/Kids']
+    if iref in visited: #Corrupt tree
+        accu += f"{offset} {iref} again\n"
+    elif node['/Type'] == '/Pages':
+        visited.add(iref)
+        kids = get_object(doc, node['/Kids'])
         accu += f"{offset} /Pages node at {iref}, kids count = {len(kids)}:\n"
         for kid in kids:
-            accu, n = pprint_page_hierarchy(doc, kid, n, level, accu)
+            accu, n = pprint_page_hierarchy(doc, kid, n, level, accu, visited)
     elif node['/Type'] == '/Page':
         accu += f"{offset} /Page [{n}] at {iref} with content(s) at {node.get('/Contents')}\n"
         n += 1
-- 
2.43.0


From ecb0675adc3293a5baf343bc9cbf28370abaa18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:14 +0000
Subject: [PATCH 068/102] fix: endless page removal when the ancestors of a
 page form a cycle

---
 pdfsyntax/docstruct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f736010..3ab5c98 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -869,8 +869,10 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         new_parent['/Kids'] = kids
         new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
-        while '/Parent' in new_parent:
+        ancestors = {parent}
+        while '/Parent' in new_parent and new_parent['/Parent'] not in ancestors:
             p = new_parent['/Parent']
+            ancestors.add(p)
             new_parent = get_object(new_doc, p)
             new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
-- 
2.43.0


From 566acb31d5a9a6a39cde91d65fffcf7e917df77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:25:50 +0000
Subject: [PATCH 069/102] fix: version of a catalog whose Version entry is null
 or a reference

---
 pdfsyntax/docstruct.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3ab5c98..9a7961c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -467,17 +467,27 @@ def version(doc: Doc) -> str:
     fdata = doc.data[0]['fdata']
     bdata, a0, _, _ = fdata(5, 3)
     ver = bdata[a0:a0+3]
-    cat, _ = catalog(doc)
-    if '/Version' in cat and cat['/Version'][1:] > ver.decode('ascii'):
-            return cat['/Version'][1:]
+    cat_ver = catalog_version(doc)
+    if cat_ver and cat_ver > ver.decode('ascii'):
+            return cat_ver
     return ver.decode('ascii')
 
 
+def catalog_version(doc: Doc) -> str:
+    """Return the version in the catalog if present."""
+    cat, _ = catalog(doc)
+    cat_ver = get_object(doc, cat.get('/Version'))
+    if type(cat_ver) == str and cat_ver[:1] == '/':
+        return cat_ver[1:]
+    return None
+
+
 def update_version(doc: Doc, ver: str) -> Doc:
     """Upgrade PDF version in incremental update."""
     cat, i_ref = catalog(doc)
-    if '/Version' in cat:
-        if cat['/Version'][1:] < ver:
+    cat_ver = catalog_version(doc)
+    if cat_ver:
+        if cat_ver < ver:
             cat['/Version'] = '/' + ver
             return update_object(doc, int(i_ref.imag), cat)
         else:
-- 
2.43.0


From 000f88398a514401f89c162d79c3943fbfb6f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:01 +0000
Subject: [PATCH 070/102] fix: documents whose Encrypt entry is null are not
 encrypted

---
 pdfsyntax/docstruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 9a7961c..4f32bd8 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -511,8 +511,8 @@ def trailer(doc: Doc):
 def encrypted(doc: Doc) -> bool:
     """Detect if doc is encrypted."""
     trail = trailer(doc)
-    encrypt = trail.get('/Encrypt')
-    if encrypt:
+    encrypt = get_object(doc, trail.get('/Encrypt'))
+    if encrypt not in (None, 'null'):
         return True
     else:
         return False
-- 
2.43.0


From cafef239a56e350bce9d99b0151480a6b33a41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:18 +0000
Subject: [PATCH 071/102] fix: fonts whose ToUnicode entry is null have no
 Unicode map

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 4f32bd8..c2f5f4f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1051,6 +1051,8 @@ def prepare_font(doc: Doc, iref) -> dict:
     else:
         simple = True
     cmap_stream = get_object(doc, font_desc['to_unicode'])
+    if cmap_stream in (None, 'null'):
+        font_desc['to_unicode'] = None
     if type(cmap_stream) == Stream:
         cmap = parse_obj(b'[' + cmap_stream['stream'] + b']')
         def dec_unicode_cmap(text):
-- 
2.43.0


From e749fa22bd17d2458804ab3759c473d51299822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:29 +0000
Subject: [PATCH 072/102] fix: words merged across the lines of a Markdown
 paragraph

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index aba1991..631cec1 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -202,7 +202,7 @@ def parse_table(lines: list, start_pos = 0):
 def flush_p(blocks: list, b: list):
     """Flush paragraph into blocks buffer."""
     if b:
-        blocks.append(('P', [''.join(b)]))
+        blocks.append(('P', ['\n'.join(b)]))
         b.clear()
     return
 
-- 
2.43.0


From 189aef84e696e7d748f6a0009f2b1b129841d441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:58 +0000
Subject: [PATCH 073/102] fix: Markdown lines lost or repeated at the end of a
 document or around a block

---
 pdfsyntax/markdown.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 631cec1..56f4c61 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -114,7 +114,7 @@ def parse_code_block(lines: list, start_pos = 0, mode = 'indented'):
         indent, bs = indentation_and_first_token(ln)
         ln += '\n'
         if mode == 'indented':
-            if indent == 4:
+            if bs and indent >= 4:
                 res.append(ln)
             else:
                 break
@@ -135,9 +135,9 @@ def parse_title(lines: list, start_pos = 0, mode = 'underlined'):
     ln = lines[i].strip('\r')
     indent, bs = indentation_and_first_token(ln)
     if mode == 'underlined':
-        if lines[i+1][:2] == '==':
+        if lines[i+1][:1] == '=':
             typ = "H1"
-        elif lines[i+1][:2] == '--':
+        elif lines[i+1][:1] == '-':
             typ = "H2"
         res.append(ln)
         i += 1
@@ -224,6 +224,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             sub, i = parse_markdown(lines, i, indent + 1)
             blocks.append(('BLOCKQUOTE', sub))
+            continue
         elif bs[:3] == "```":
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i+1, 'fenced')
@@ -232,10 +233,13 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i, 'indented')
             blocks.append((typ, res))
-        elif ln and (ln == '=' * len(ln) or ln == '-' * len(ln)):
+            continue
+        elif b and ln and (ln == '=' * len(ln) or ln == '-' * len(ln)):
+            while b and b.pop() == '<br>': #Earlier lines are not part of the title
+                pass
+            flush_p(blocks, b)
             typ, i, res = parse_title(lines, i-1, 'underlined')
             blocks.append((typ, res))
-            b = []
         elif bs and bs == '#' * len(bs):
             flush_p(blocks, b)
             typ, i, res = parse_title(lines, i, 'prefixed')
@@ -244,21 +248,25 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_list(lines, i, 'unordered')
             blocks.append((typ, res))
+            continue
         elif bs and bs[-1] == '.' and bs[0] >= '0' and bs[0] <= '9':
             flush_p(blocks, b)
             typ, i, res = parse_list(lines, i, 'ordered')
             blocks.append((typ, res))
+            continue
         elif bs and bs == '|':
             flush_p(blocks, b)
             typ, i, res = parse_table(lines, i)
             blocks.append((typ, res))
-        elif b and not ln:
+            continue
+        elif not ln:
             flush_p(blocks, b)
         else:
             b.append(line[indent:])
             if ln_break:
                 b.append("<br>")
         i += 1
+    flush_p(blocks, b)
     return blocks, i
 
 
-- 
2.43.0


From 0cdf16fd82f7449bdb363d2669e8c1bf1069adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:59 +0000
Subject: [PATCH 074/102] fix: Markdown code indented deeper than 4 spaces,
 quoting, or lines of spaces

---
 pdfsyntax/markdown.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 56f4c61..d1c7923 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -114,7 +114,7 @@ def parse_code_block(lines: list, start_pos = 0, mode = 'indented'):
         indent, bs = indentation_and_first_token(ln)
         ln += '\n'
         if mode == 'indented':
-            if bs and indent >= 4:
+            if ln[:4] == '    ' and ln.strip():
                 res.append(ln)
             else:
                 break
@@ -217,10 +217,13 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
         ln = line.strip('\r')
         indent, bs = indentation_and_first_token(ln)
         ln_break = True if ln[-2:] == '  ' else False
+        if not ln.strip(' '):
+            ln, indent = '', 0
+        code = ln[:4] == '    '
         if indent + 1 < start_indent:
             flush_p(blocks, b)
             return blocks, i
-        elif not bs and indent > 0 and indent + 1 > start_indent:
+        elif not bs and not code and indent > 0 and indent + 1 > start_indent:
             flush_p(blocks, b)
             sub, i = parse_markdown(lines, i, indent + 1)
             blocks.append(('BLOCKQUOTE', sub))
@@ -229,7 +232,7 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i+1, 'fenced')
             blocks.append((typ, res))
-        elif bs and indent >= 4:
+        elif code:
             flush_p(blocks, b)
             typ, i, res = parse_code_block(lines, i, 'indented')
             blocks.append((typ, res))
-- 
2.43.0


From 289e8e234118feed2daee0265eb7da45354c4562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:02 +0000
Subject: [PATCH 075/102] fix: entities shown in Markdown code are not those of
 the source

---
 pdfsyntax/markdown.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index d1c7923..a080283 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -280,6 +280,7 @@ def tags(string: str) -> str:
 
 def entities(string: str) -> str:
     """Turn special chars into HTML entities."""
+    string = string.replace('&', '&amp;')
     string = string.replace('<', '&lt;')
     string = string.replace('>', '&gt;')
     return string
-- 
2.43.0


From 3fc0cd31ceaeee3cfe1d9c85aed5d0e1e6ebc876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:24 +0000
Subject: [PATCH 076/102] fix: paragraphs of a Markdown blockquote separated by
 a blank quoted line

---
 pdfsyntax/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index a080283..b9edd0d 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -217,8 +217,8 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
         ln = line.strip('\r')
         indent, bs = indentation_and_first_token(ln)
         ln_break = True if ln[-2:] == '  ' else False
-        if not ln.strip(' '):
-            ln, indent = '', 0
+        if not ln.strip(' >'): #Blank, maybe in a blockquote
+            ln, indent = '', len(ln.rstrip(' '))
         code = ln[:4] == '    '
         if indent + 1 < start_indent:
             flush_p(blocks, b)
-- 
2.43.0


From 2587f4ccf289bcd14d90b6d187e0ea619959ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:26 +0000
Subject: [PATCH 077/102] fix: endless loop on an unfinished Markdown link,
 links that start at an earlier bracket

---
 pdfsyntax/markdown.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index b9edd0d..994c826 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -32,11 +32,17 @@ def link(string: str) -> str:
         f = string.find('](', i)
         if f == -1:
             break
-        b1 = string.find('[', i) + 1
+        b1 = string.rfind('[', i, f) + 1
         b2 = f
         p1 = f + 2
         p2 = string.find(')', f) + 1
-        if string[b1-2] == '!':
+        if p2 == 0:
+            break
+        if b1 == 0: #No opening bracket
+            res += string[i:p1]
+            i = j = p1
+            continue
+        if b1 - 2 >= i and string[b1-2] == '!':
             j = p2
             res += string[i:b1-2]
             res += f"<img src='{string[p1:p2-1]}' alt='{string[b1:b2]}'>"
-- 
2.43.0


From e587ec87ced928de692e37c6cbb96524499a31f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:37:28 +0000
Subject: [PATCH 078/102] fix: characters lost when Markdown emphasis contains
 another emphasis sign

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 994c826..8eab0e6 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -92,7 +92,7 @@ def style(string: str) -> str:
                 else:
                     accu = False
             elif '*' in search or '_' in search:
-                if c in '*_':
+                if string[i:i+len(search)] == search:
                     text = string[current+len(search):i]
                     if len(search) == 1:
                         res += f"<em>{text}</em>"
-- 
2.43.0


From baf424f2ca4947546c018072fe86a2eb4e9ed206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:01 +0000
Subject: [PATCH 079/102] fix: Markdown underscores inside emphasised words,
 emphasis at the start of a line

---
 pdfsyntax/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 8eab0e6..fb40ba1 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -75,7 +75,7 @@ def style(string: str) -> str:
                 search = c
                 res += string[current:i]
                 current = i
-            if c == '*' or (p in ' [>' and c == '_'):
+            if c == '*' or (p in ' \n([>' and c == '_'):
                 accu = True
                 search = c
                 res += string[current:i]
@@ -92,7 +92,7 @@ def style(string: str) -> str:
                 else:
                     accu = False
             elif '*' in search or '_' in search:
-                if string[i:i+len(search)] == search:
+                if string[i:i+len(search)] == search and not (c == '_' and string[i+len(search):i+len(search)+1].isalnum()):
                     text = string[current+len(search):i]
                     if len(search) == 1:
                         res += f"<em>{text}</em>"
-- 
2.43.0


From 7d1c44da25366373e91a8fd8790d7097fc163bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:03 +0000
Subject: [PATCH 080/102] fix: Markdown code spans and attributes are not shown
 verbatim

---
 pdfsyntax/markdown.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index fb40ba1..666f695 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -23,6 +23,11 @@ def indentation_and_first_token(string: str):
     return i, string[i:].split(' ')[0]
 
 
+def quotes(string: str) -> str:
+    """Protect the delimiter of attribute values."""
+    return string.replace("'", '&#39;')
+
+
 def link(string: str) -> str:
     """Turn link into HTML tag."""
     res = ''
@@ -45,14 +50,14 @@ def link(string: str) -> str:
         if b1 - 2 >= i and string[b1-2] == '!':
             j = p2
             res += string[i:b1-2]
-            res += f"<img src='{string[p1:p2-1]}' alt='{string[b1:b2]}'>"
+            res += f"<img src='{quotes(string[p1:p2-1])}' alt='{quotes(string[b1:b2])}'>"
         else:
             j = p2
             res += string[i:b1-1]
             l = string[p1:p2-1]
             if l[-3:] == '.md':
                 l = l[:-3] + '.html'
-            res += f"<a href='{l}'>{string[b1:b2]}</a>"
+            res += f"<a href='{quotes(l)}'>{string[b1:b2]}</a>"
         i = p2
     res += string[j:]
     return res
@@ -280,8 +285,21 @@ def parse_markdown(lines: list, start_pos = 0, start_indent = 0) -> tuple:
 
 
 def tags(string: str) -> str:
-    """Tranform both style & links."""
-    return style(link(string))
+    """Tranform both style & links, except in code spans."""
+    codes = []
+    parts = string.split('`')
+    text = parts[0]
+    i = 1
+    while i + 1 < len(parts):
+        text += f"\0{len(codes)}\0{parts[i+1]}"
+        codes.append(f"<code>{entities(parts[i])}</code>")
+        i += 2
+    if i < len(parts): #Unbalanced
+        text += '`' + parts[i]
+    text = style(link(text))
+    for j, code in enumerate(codes):
+        text = text.replace(f"\0{j}\0", code)
+    return text
 
 
 def entities(string: str) -> str:
-- 
2.43.0


From 107014241909fc86f9805c283ebe4f147ac08a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:38:05 +0000
Subject: [PATCH 081/102] fix: Markdown table rows whose first cell starts with
 dashes or colons

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 666f695..ab4d84f 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -203,7 +203,7 @@ def parse_table(lines: list, start_pos = 0):
             res.append(('THEAD', [('TR', row)]))
         else:
             row = [('TD', [td]) for td in ln[indent:].split('|')[1:-1]]
-            if row[0][1][0][1:3] != '--':
+            if any(td.strip(' :-') or '-' not in td for _, [td] in row): #Not a delimiter row
                 tbody.append(('TR' ,row))
         i += 1
     res.append(('TBODY', tbody))
-- 
2.43.0


From 6fd8130bacea0090a02775b1be09c637574f277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:00 +0000
Subject: [PATCH 082/102] fix: Markdown emphasis that closely follows another
 one

---
 pdfsyntax/markdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index ab4d84f..600b523 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -106,8 +106,8 @@ def style(string: str) -> str:
                     elif len(search) == 3:
                         res +=  f"<em><strong>{text}</strong></em>"
                     current = i+len(search)
-                    search = 'TBD'
                     i += (len(search)-1)
+                    search = 'TBD'
             else:
                 accu = False
         i += 1
-- 
2.43.0


From 0822c271509b4a709cb47bb24378f39c4a832e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:13 +0000
Subject: [PATCH 083/102] fix: Markdown link texts that contain brackets

---
 pdfsyntax/markdown.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/markdown.py b/pdfsyntax/markdown.py
index 600b523..c765aa6 100644
--- a/pdfsyntax/markdown.py
+++ b/pdfsyntax/markdown.py
@@ -37,13 +37,18 @@ def link(string: str) -> str:
         f = string.find('](', i)
         if f == -1:
             break
-        b1 = string.rfind('[', i, f) + 1
+        b1 = f
+        depth = 1
+        while b1 > i and depth > 0: #Matching bracket
+            b1 -= 1
+            depth += (string[b1] == ']') - (string[b1] == '[')
+        b1 += 1
         b2 = f
         p1 = f + 2
         p2 = string.find(')', f) + 1
         if p2 == 0:
             break
-        if b1 == 0: #No opening bracket
+        if depth > 0: #No opening bracket
             res += string[i:p1]
             i = j = p1
             continue
-- 
2.43.0


From c615bf072bfb79b6424ae5f85dda00b9e9f483fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:12 +0000
Subject: [PATCH 084/102] fix: show the end of each revision in its own column
 of the data history

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c2f5f4f..b8f9d65 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -173,7 +173,7 @@ def pprint_data_history(doc: Doc):
     for i in range(ver):
         fd = doc.data[i].get('fdata')
         bd = doc.data[i].get('bdata')
-        cut = doc.data[-i].get('eof_cut')
+        cut = doc.data[i].get('eof_cut')
         _, _, _, sz = fd(None, -1)
         n = fd.__name__
         hist[i]['data_f()'] = n.split('_')[0]
-- 
2.43.0


From 02624ba1d7edf8f0fa84edff792e900bc9cd93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:14 +0000
Subject: [PATCH 085/102] fix: pprint_page_contents calls a function that does
 not exist

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 96a4f2f..02a82e9 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -396,7 +396,7 @@ def pprint_page_contents(doc: Doc, page_num: int) -> str:
     ret = ''
     contents = get_page_contents(doc, page_num)
     for content in contents:
-        f = format_stream_content(content)
+        f = content['stream'].decode('latin-1')
         ret += '$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$$\n'
         ret += f
     print(ret)
-- 
2.43.0


From 6554e9472888175f6dc78a459441dbe2ada9abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:16 +0000
Subject: [PATCH 086/102] fix: show page trees with a deleted kid

---
 pdfsyntax/docstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b8f9d65..dea98ad 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -202,15 +202,17 @@ def pprint_page_hierarchy(doc: Doc, iref: complex = None, n: int = 0, level: int
     visited = set() if visited is None else visited
     level += 1
     offset = "    " * level
-    if iref in visited: #Corrupt tree
+    if type(node) != dict: #Deleted or undefined kid
+        accu += f"{offset} {iref} is not a node\n"
+    elif iref in visited: #Corrupt tree
         accu += f"{offset} {iref} again\n"
-    elif node['/Type'] == '/Pages':
+    elif node.get('/Type') == '/Pages':
         visited.add(iref)
         kids = get_object(doc, node['/Kids'])
         accu += f"{offset} /Pages node at {iref}, kids count = {len(kids)}:\n"
         for kid in kids:
             accu, n = pprint_page_hierarchy(doc, kid, n, level, accu, visited)
-    elif node['/Type'] == '/Page':
+    elif node.get('/Type') == '/Page':
         accu += f"{offset} /Page [{n}] at {iref} with content(s) at {node.get('/Contents')}\n"
         n += 1
     level -= 1
-- 
2.43.0


From 185b5582e5675996b0a26cfddb59bf571470895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:22:49 +0000
Subject: [PATCH 087/102] fix: predictors of pixels that take a fraction of a
 byte more than one

---
 pdfsyntax/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 3b07846..4c19c85 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -10,7 +10,7 @@ DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 def predictor_sizes(parms: dict) -> tuple:
     """Return the number of bytes per pixel and per row."""
     bits = int(parms.get('/Colors', 1)) * int(parms.get('/BitsPerComponent', 8))
-    return max(1, bits // 8), (bits * int(parms.get('/Columns', 1)) + 7) // 8
+    return (bits + 7) // 8, (bits * int(parms.get('/Columns', 1)) + 7) // 8
 
 
 def decode_predictor(bdata: bytes, predictor: int, parms: dict) -> bytes:
-- 
2.43.0


From 8ecc1a709ff9cf9540068f22d6b66c0466914f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:34:41 +0000
Subject: [PATCH 088/102] fix: text at x or y -1 taken for the absence of text
 in the layout

---
 pdfsyntax/layout.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index dce4488..7894116 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -16,12 +16,12 @@ def basic_spatial_layout(text_blocks: list) -> str:
     #print(f"spacing = {spacing}")
     char_w = abs(typical_char_width(text_blocks, fs)) or abs(fs) or 1
     #print(f"char w = {char_w}")
-    previous_y = -1
+    previous_y = None
     while text_blocks:
         line_string = ''
         line_items = [text_blocks.pop(0)]
         target_y = line_items[0]['y']
-        if previous_y != -1:
+        if previous_y is not None:
             inter_lines = int((previous_y - target_y - spacing / NEWLINE_COEFF) / spacing)
             res += '\n' * min(inter_lines, MAX_BLANKS)
         previous_y = target_y
@@ -93,11 +93,11 @@ def typical_font_size(text_blocks: list) -> float:
 
 def minimum_x(text_blocks: list) -> float:
     """Find the minimum x coordinate of all text blocks."""
-    min_x = -1
+    min_x = None
     for tb in text_blocks:
-        if min_x == -1 or tb['x'] < min_x:
+        if min_x is None or tb['x'] < min_x:
            min_x = tb['x']
-    return min_x
+    return -1 if min_x is None else min_x
 
 
 def typical_line_spacing(text_blocks: list, typical_font_size: float) -> float:
-- 
2.43.0


From 7c1f95e424e6d334ebd3faed7194a15a64b54d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:54:13 +0000
Subject: [PATCH 089/102] fix: free the numbers deleted in a reopened revision
 that its predecessor never had

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index dea98ad..28f138e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -410,6 +410,8 @@ def unused_nums(doc: Doc) -> list:
     """List object numbers introduced by the current revision but not in use."""
     current = doc.index[-1]
     start = len(doc.index[-2]) if len(doc.index) > 1 else 1
+    while start > 1 and doc.index[-2][start-1] is None: #Introduced afterwards
+        start -= 1
     x_num = xref_section(current).get('xref_stream_num')
     res = []
     for i in range(start, len(current)):
-- 
2.43.0


From 777fd4c6820ab3a324094051a38d8be3ce2f4bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:03:49 +0000
Subject: [PATCH 090/102] fix: markers of a cross-reference section mistaken
 for lookalikes in comments and strings

---
 pdfsyntax/filestruct.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ca54db9..faf2529 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -237,6 +237,20 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
     return xref
 
 
+def section_markers(bdata: bytes, start_pos: int) -> tuple:
+    """Locate the startxref and end-of-file markers that follow the cross-reference section at start_pos."""
+    EOF = b'%%EOF'
+    STARTXREF = b'startxref'
+    if bdata[start_pos:start_pos+4] == b'xref':
+        _, end, _, _ = parse_xref_table_raw(bdata, start_pos)
+    else:
+        _, end, _, _ = parse_indirect_obj(bdata, start_pos)
+    i, j, _ = next_item(bdata, end)
+    if bdata[i:j] != STARTXREF:
+        i = bdata.find(STARTXREF, start_pos)
+    return i, bdata.find(EOF, max(start_pos, i))
+
+
 def build_xref_sequence(fdata: Callable) -> tuple:
     """Build a list of all xref sequentially found in file.
 
@@ -265,15 +279,14 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             xref_pos = int(bdata[i:j])
             last = startxref_pos
         else:
-            if xrefstm:
+            if xrefstm: #Same markers as the table that leads to it
                 xref_pos = xrefstm
                 xrefstm = False
             else:
                 xref_pos = prev
                 prev = False
-            bdata, a0, o0, _ = fdata(xref_pos, -1)
-            startxref_pos = o0 + bdata.find(STARTXREF, a0)
-            eof_pos = o0 + bdata.find(EOF, max(a0, startxref_pos - o0)) #The trailer may hold one in a comment or string
+                bdata, a0, o0, _ = fdata(xref_pos, -1)
+                startxref_pos, eof_pos = [o0 + x for x in section_markers(bdata, a0)]
             last = eof_pos
         visited.add(xref_pos)
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
-- 
2.43.0


From e01853a96bdf8310beb35a68cbafb8c0d13e91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:03:51 +0000
Subject: [PATCH 091/102] fix: disassembly of a binary comment that starts like
 the header

---
 pdfsyntax/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index e0e05bd..1efc133 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -210,7 +210,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
             if type(end_pos) != tuple:
                 size = end_pos - start_pos
         if region_type == 'COMMENT':
-            if content[:4] == b'%PDF':
+            if content[:4] == b'%PDF' and content[:8].isascii():
                 detail = content[:8].decode('ascii')
             elif content[:5] == b'%%EOF':
                 detail = content[:5].decode('ascii')
-- 
2.43.0


From a6d439d16e81d245e6aa3a0eaeb502ef14410569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:36 +0000
Subject: [PATCH 092/102] fix: blanks after the xref keyword

---
 pdfsyntax/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index f340fd2..48304f4 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -393,7 +393,10 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
     XREF = b'xref'
     if bdata[start_pos:start_pos+len(XREF)] != XREF:
         return None
-    bl, el = next_line(bdata, start_pos+len(XREF))
+    bl = start_pos+len(XREF)
+    while bdata[bl:bl+1] == b' ':
+        bl += 1
+    bl, el = next_line(bdata, bl)
     bo = bl
     while b'0' <= bdata[bl:bl+1] <= b'9':
         items = bdata[bl:el].strip(b' ').split()
-- 
2.43.0


From aa661368eecacc2e93780b827005c00d70a04886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:56:36 +0000
Subject: [PATCH 093/102] fix: position of a trailer that contains its own
 keyword

---
 pdfsyntax/filestruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index faf2529..b93b35b 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -615,7 +615,7 @@ def build_revision_byte_stream(
         for k in ('xref_stream_pos', 'xref_stm', 'startxref_pos'):
             new_index[0].pop(k, None)
         new_index[0]['xref_table_pos'] = counter
-        new_index[0]['abs_pos'] = counter + built_xref.rfind(b'trailer')
+        new_index[0]['abs_pos'] = counter + built_xref.find(b'trailer')
         new_index[0]['abs_next'] = counter + len(built_xref)
     else:
         xref_table.append(('n', xref_stream_num, 0, counter, None))
-- 
2.43.0


From 606aef474ec19667cfd5d26334ec0aa84bf2481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:59:14 +0000
Subject: [PATCH 094/102] fix: streams whose filter entry is null

---
 pdfsyntax/api.py     |  6 ++++--
 pdfsyntax/filters.py | 12 +++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 02a82e9..6ff3424 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -220,8 +220,10 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
     for o_num in streams:
         o = doc.obj(o_num)
         entries = o['entries']
-        filters = entries.get('/Filter', [])
-        if type(filters) != list:
+        filters = entries.get('/Filter', 'null')
+        if filters == 'null':
+            filters = []
+        elif type(filters) != list:
             filters = [filters]
         if filters == ([flt] if flt else []):
             continue
diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 4c19c85..c574e0a 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -80,12 +80,14 @@ def decode_parms(stream_def: dict, nb: int) -> list:
 def decode_stream(stream, stream_def):
     """Apply all specified filters in order to decode stream."""
     s = stream
-    if '/Filter' not in stream_def:
+    filters = stream_def.get('/Filter', 'null')
+    if filters == 'null':
         return s
-    filters = stream_def['/Filter']
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
+    elif type(filters) != list:
+        filters = [filters]
     parms = decode_parms(stream_def, len(filters))
     for i, f in enumerate(filters):
         if f == '/FlateDecode':
@@ -115,10 +117,10 @@ def decode_stream(stream, stream_def):
 
 def encode_stream(stream, stream_def):
     """Apply all specified filters in order to encode stream."""
-    if '/Filter' not in stream_def:
+    filters = stream_def.get('/Filter', 'null')
+    if filters == 'null':
         return stream
-    filters = stream_def['/Filter']
-    if type(filters) == str:
+    if type(filters) != list:
         filters = [filters]
     parms = decode_parms(stream_def, len(filters))
     res = stream
-- 
2.43.0


From 0938276608879595d962f0b8d0fb415767885e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:59:35 +0000
Subject: [PATCH 095/102] fix: streams whose filters or parameters are indirect

---
 pdfsyntax/api.py       |  4 ++--
 pdfsyntax/docstruct.py | 25 +++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6ff3424..68f7c01 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -220,8 +220,8 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
     for o_num in streams:
         o = doc.obj(o_num)
         entries = o['entries']
-        filters = entries.get('/Filter', 'null')
-        if filters == 'null':
+        filters = get_object(doc, entries.get('/Filter'))
+        if filters in (None, 'null'):
             filters = []
         elif type(filters) != list:
             filters = [filters]
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 28f138e..d382b83 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -269,6 +269,8 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         if key == 0 and type(obj) == Stream:
             obj = obj['entries']
         cache[key] = obj    
+        if type(obj) == Stream:
+            resolve_filters(idx, fdata, obj, cache, rev)
     else:
         container = idx[rev][key]['env_num']
         bdata, a0, _, _ = fdata(idx[rev][container]['abs_pos'],
@@ -295,6 +297,29 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     return cache
 
 
+def resolve_filters(idx: list, fdata: Callable, stream: Stream, cache: list, rev=-1):
+    """Decode again a stream whose filters or parameters are given through references."""
+    entries = {k: stream['entries'][k] for k in ('/Filter', '/DecodeParms') if k in stream['entries']}
+    if not deep_ref_detect(entries):
+        return
+    def resolve(obj, depth):
+        if type(obj) == complex:
+            ref = int(obj.imag)
+            if ref >= len(cache):
+                cache.extend((ref-len(cache)+1) * [None])
+            memoize_obj_in_cache(idx, fdata, ref, cache, rev)
+            obj = cache[ref]
+        if type(obj) == dict and depth > 0:
+            return {k: resolve(obj[k], depth - 1) for k in obj}
+        elif type(obj) == list and depth > 0:
+            return [resolve(x, depth - 1) for x in obj]
+        return 'null' if obj is None else obj
+    filters = resolve(entries.get('/Filter', 'null'), 1)
+    if any(f not in DECODED_FILTERS for f in (filters if type(filters) == list else [filters])):
+        return
+    stream.stream = decode_stream(stream['encoded'], {'/Filter': filters, '/DecodeParms': resolve(entries.get('/DecodeParms', 'null'), 2)})
+
+
 def get_object(doc: Doc, obj):
     """Return raw object or the target of an indirect reference."""
     if isinstance(obj, complex) == True:
-- 
2.43.0


From 614f7b76fd5809fa951091ae0106379ba5d81a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:00:09 +0000
Subject: [PATCH 096/102] fix: null entries of fonts

---
 pdfsyntax/docstruct.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index d382b83..88b1f56 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1049,11 +1049,17 @@ def prepare_widths(widths, first_char):
     return char_width_table
 
 
+def without_null(doc: Doc, entries: dict) -> dict:
+    """Remove null entries, that are the same as absent ones."""
+    return {k: entries[k] for k in entries if get_object(doc, entries[k]) not in (None, 'null')}
+
+
 def prepare_font(doc: Doc, iref) -> dict:
     """ """
     font_desc = {}
     o = get_object(doc, iref)
     font_desc['iref'] = iref if type(iref) == complex else serialize(o) #A direct font has no reference
+    o = without_null(doc, o)
     font_desc['name'] = get_object(doc, o.get('/BaseFont', o.get('/Name', '/')))
     font_desc['type'] = get_object(doc, o.get('/Subtype', '/'))
     font_desc['descriptor'] = o.get('/FontDescriptor')
@@ -1067,7 +1073,7 @@ def prepare_font(doc: Doc, iref) -> dict:
         font_desc['char_width'] = prepare_widths(resolve_items(doc, widths), get_object(doc, first_char))
     elif descendant:
         iref = get_object(doc, descendant)[0]
-        d = get_object(doc, iref)
+        d = without_null(doc, get_object(doc, iref))
         w = d.get('/W')
         dw = d.get('/DW', 1000)
         font_desc['char_width'] = prepare_w(resolve_items(doc, w), get_object(doc, dw))
-- 
2.43.0


From 813f0055fb73aa66a895f98d9eaa908d536d8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:00:11 +0000
Subject: [PATCH 097/102] fix: null entries of trailers

---
 pdfsyntax/filestruct.py | 4 ++--
 pdfsyntax/objects.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index b93b35b..6a09ec5 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -311,10 +311,10 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         chrono.append(xref_index)
         seq += [(i.get('abs_pos'), i.get('o_num')) for i in xref_index if 'abs_pos' in i and 'env_num' not in i]
         if xrefstm == False and prev == False:
-            if '/XRefStm' in trailer:
+            if trailer.get('/XRefStm', 'null') != 'null':
                 xref_index[0]['xref_stm'] = True
                 xrefstm = int(trailer['/XRefStm'])
-            if '/Prev' in trailer:
+            if trailer.get('/Prev', 'null') != 'null':
                 prev = int(trailer['/Prev'])
             if xrefstm in visited: #Corrupt chain
                 xrefstm = False
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 48304f4..fc2bdcb 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -439,7 +439,7 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
     res = []
     cols = xref_stream['entries']['/W']
     i = 0
-    if '/Index' in xref_stream['entries']:
+    if xref_stream['entries'].get('/Index', 'null') != 'null':
         obj_range = xref_stream['entries']['/Index']
     else:
         obj_range = [0, xref_stream['entries']['/Size']]
-- 
2.43.0


From 9954004065b036321e6793574e73bd47bcd6c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:00:14 +0000
Subject: [PATCH 098/102] fix: removing pages when the root of the page tree
 has a null parent

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 88b1f56..8200398 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -909,7 +909,7 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
         ancestors = {parent}
-        while '/Parent' in new_parent and new_parent['/Parent'] not in ancestors:
+        while new_parent.get('/Parent', 'null') != 'null' and new_parent['/Parent'] not in ancestors:
             p = new_parent['/Parent']
             ancestors.add(p)
             new_parent = get_object(new_doc, p)
-- 
2.43.0


From 93347766a75a75e764b43691e019546dc4735616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:14 +0000
Subject: [PATCH 099/102] fix: short binary streams were displayed as
 truncated, with a broken entity

---
 pdfsyntax/display.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index be400dd..639730f 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -526,9 +526,11 @@ def follow_obj(obj, index: list, anchors: set, depth=0, display_stream=True) ->
                 ret += f'<details>\n<summary class="stream-content">see content</summary>\n'
                 ret += f'<pre class="detail">{p}</pre>\n</details>\n'
             else:
-                detail = '&lt;' + content.hex() + '&gt;'
-                content = detail[:VALUE_MAX_WIDTH * 2] + TRUNCATED
-                ret += f'{content}\n'
+                detail = '<' + content.hex() + '>'
+                ret += html.escape(detail[:VALUE_MAX_WIDTH * 2])
+                if len(detail) > VALUE_MAX_WIDTH * 2:
+                    ret += TRUNCATED
+                ret += '\n'
             ret += f'endstream\n'
     elif type(obj) == list:
         ret += '[ '
-- 
2.43.0


From 152b45cbd072327eb848c75f3b27f4e01a17a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:16 +0000
Subject: [PATCH 100/102] fix: null entries of decode parameters

---
 pdfsyntax/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index c574e0a..281194d 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -73,7 +73,7 @@ def decode_parms(stream_def: dict, nb: int) -> list:
     parms = stream_def.get('/DecodeParms')
     if type(parms) != list:
         parms = [parms]
-    parms = [p if type(p) == dict else None for p in parms]
+    parms = [{k: p[k] for k in p if p[k] != 'null'} if type(p) == dict else None for p in parms]
     return parms + [None] * (nb - len(parms))
 
 
-- 
2.43.0


From e6e198a04c2608bafb96dd029abe7b6aba24d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:32 +0000
Subject: [PATCH 101/102] fix: the file map stopped at the first stray token

---
 pdfsyntax/filestruct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 6a09ec5..6c1e190 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -109,8 +109,10 @@ def file_object_map(fdata: Callable) -> list:
     i = 0
     while i < length:
         mo = parse_region(bdata, i)
-        if mo is None:
-            break
+        if mo is None: #Stray token
+            _, eo, _ = next_token(bdata, i)
+            eo = max(eo or 0, i + 1)
+            mo = (i, eo, 'VOID', bdata[i:eo])
         bo, eo, t, content = mo
         sections.append(mo)
         if t == 'XREFTABLE':
-- 
2.43.0


From 62529006108a577f3d4cbd4d6e4c78c817cd1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 102/102] fix: a placeholder hid the cross-reference stream
 that replaced it

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8200398..5a89d51 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -643,6 +643,7 @@ def commit(doc: Doc) -> Doc:
             new_doc.index[-1].append(new_index_xs)
             new_doc.cache.append(None)
             new_doc.index[-1][0]['xref_stream_num'] = x_num
+        new_doc.cache[x_num] = None #Even if it was a placeholder
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
-- 
2.43.0


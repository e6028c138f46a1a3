From e9e5bb334146a2b97ded708682773a76df6a9969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:27 +0000
Subject: [PATCH 01/28] fix: do not list a heading on the last line of an
 unclosed code block

---
 md_toc/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4f13ad..14d03e7 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -321,6 +321,7 @@ def build_toc(
             f.seek(file_pointer_pos)
 
         # Code fence detection.
+        was_within_code_fence = is_within_code_fence
         if is_within_code_fence:
             is_within_code_fence = not is_closing_code_fence(
                 line,
@@ -334,7 +335,9 @@ def build_toc(
                 # Update the status of the next line.
                 is_within_code_fence = True
 
-        if not is_within_code_fence or code_fence is None:
+        # The lines of a code block, including the last one of the document
+        # if the block is not closed, never contain headers.
+        if not was_within_code_fence and not is_within_code_fence:
 
             # Header detection and gathering.
             headers: list[types.Header] = get_md_header(
-- 
2.43.0


From f5e0dd45ad366c7e66434ab0f31034beb693cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:29 +0000
Subject: [PATCH 02/28] fix: report undecodable bytes in skipped lines like in
 any other line

---
 md_toc/api.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 14d03e7..57a78dc 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -278,15 +278,15 @@ def build_toc(
         list_marker = md_parser[parser]['list']['ordered'][
             'default_closing_marker']
 
-    if skip_lines > 0:
-        loop: bool = True
-        line_counter = 1
-        while loop:
-            if line_counter > skip_lines or f.readline() == '':
-                loop = False
-            line_counter += 1
-
     try:
+        if skip_lines > 0:
+            loop: bool = True
+            line_counter = 1
+            while loop:
+                if line_counter > skip_lines or f.readline() == '':
+                    loop = False
+                line_counter += 1
+
         line = f.readline()
     except UnicodeDecodeError:
         return ''.join(
-- 
2.43.0


From 1522468a3113967f82b07950baa7e3b6f1e020df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:30 +0000
Subject: [PATCH 03/28] fix: apply the ordered list marker limit to goldmark
 too

---
 md_toc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 57a78dc..2378172 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -549,7 +549,7 @@ def increase_index_ordered_list(
 
     header_type_count['h' + str(header_type_curr)] += 1
 
-    if parser in ['github', 'cmark', 'gitlab', 'commonmarker']:
+    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         if header_type_count['h' + str(header_type_curr)] > md_parser[
                 'github']['list']['ordered']['max_marker_number']:
             raise GithubOverflowOrderedListMarker
-- 
2.43.0


From cc1d54c60685733ff3599d476137b87758fca5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:51 +0000
Subject: [PATCH 04/28] fix: cut at most one closing sequence of a heading

---
 md_toc/api.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 2378172..a3e5b3c 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1212,10 +1212,7 @@ def get_atx_heading(
             # subl_prime =~ subl'.
             subl_prime = subl[::-1]
             len_subl = len(subl)
-            hash_char_rounds = 0
-            go = True
             i = 0
-            hash_round_start = i
 
             # Ignore all characters after newlines and carrage returns which
             # are not at the end of the line.
@@ -1238,23 +1235,19 @@ def get_atx_heading(
             # considered.
             cs_end = i
 
-            # Cut spaces and hashes.
-            while go and i < len_subl - cs_start:
-                if (subl_prime[i] not in spaces + ['#']
-                        or hash_char_rounds > 1):
-                    if i > hash_round_start and hash_char_rounds > 0:
-                        cs_end = len_subl - hash_round_start
-                    else:
-                        cs_end = len_subl - i
-                    go = False
-                if go:
-                    while subl_prime[i] in spaces:
-                        i += 1
-                    hash_round_start = i
-                    while subl_prime[i] == '#':
-                        i += 1
-                    if i > hash_round_start:
-                        hash_char_rounds += 1
+            # Cut spaces and then the hashes, if these are preceded by a space
+            # or if there is nothing else.
+            while i < len_subl - cs_start and subl_prime[i] in spaces:
+                i += 1
+            hash_round_start = i
+            while i < len_subl - cs_start and subl_prime[i] == '#':
+                i += 1
+            if i >= len_subl - cs_start or subl_prime[i] in spaces:
+                while i < len_subl - cs_start and subl_prime[i] in spaces:
+                    i += 1
+            else:
+                i = hash_round_start
+            cs_end = len_subl - i
 
             final_line = subl[cs_start:cs_end]
 
-- 
2.43.0


From 388f64b96686a33b4dd8ff06f9c331e9f6f6c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:52 +0000
Subject: [PATCH 05/28] fix: reject a link label made of mixed blanks as empty

---
 md_toc/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a3e5b3c..e8c8a1a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1256,9 +1256,8 @@ def get_atx_heading(
                 if len(final_line) > 0 and final_line[-1] == '\u005c':
                     final_line = ''.join([final_line, ' '])
                 if len(
-                        final_line.strip('\u0020').strip('\u0009').strip(
-                            '\u000a').strip('\u000b').strip('\u000c').strip(
-                                '\u000d'), ) == 0:
+                        final_line.strip(
+                            '\u0020\u0009\u000a\u000b\u000c\u000d'), ) == 0:
                     raise GithubEmptyLinkLabel
                 if len(final_line,
                        ) > md_parser['github']['link']['max_chars_label']:
-- 
2.43.0


From d670050fcf0193583dc9fad5ea5cffd6b9b8ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:53 +0000
Subject: [PATCH 06/28] fix: compute the visibility of each line on its own

---
 md_toc/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index e8c8a1a..53e71cb 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1126,7 +1126,6 @@ def get_atx_heading(
         raise ValueError
 
     struct: list[types.AtxHeadingStructElement] = list()
-    line_visible: bool = True
 
     if len(line) == 0:
         return [{
@@ -1138,6 +1137,7 @@ def get_atx_heading(
     for subl in replace_and_split_newlines(line):
         current_headers = None
         final_line = None
+        line_visible: bool = True
 
         if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
 
@@ -1172,7 +1172,7 @@ def get_atx_heading(
             # We need to continue parsing to find possible duplicate headers
             # in other functions if we set keep_header_levels < max_levels.
             if i - offset > keep_header_levels:
-                line_visible: bool = False
+                line_visible = False
 
             current_headers = i - offset
 
-- 
2.43.0


From bc3d74f91bde860d7e7d54196a972d7606e92ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:54 +0000
Subject: [PATCH 07/28] fix: apply the header level limit to redcarpet too

---
 md_toc/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 53e71cb..7b91b2e 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1308,6 +1308,9 @@ def get_atx_heading(
                 i += 1
             current_headers = i
 
+            if current_headers > keep_header_levels:
+                line_visible = False
+
             if i < len(subl) and subl[i] != ' ':
                 continue
 
-- 
2.43.0


From b0be02c41796f12b71d30b6793f48e7cbc2e07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:28 +0000
Subject: [PATCH 08/28] fix: skip HTML tags and entities in redcarpet anchors

---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 7b91b2e..b884cc8 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1023,7 +1023,8 @@ def build_anchor_link(
         inserted = 0
         stripped = 0
         header_text_trimmed_middle_stage = list()
-        for i in range(0, header_text_trimmed_len):
+        i: int = 0
+        while i < header_text_trimmed_len:
             if header_text_trimmed[i] == '<':
                 while i < header_text_trimmed_len and header_text_trimmed[
                         i] != '>':
@@ -1044,6 +1045,7 @@ def build_anchor_link(
                     header_text_trimmed[i].lower(), )
                 stripped = 0
                 inserted += 1
+            i += 1
 
         header_text_trimmed_middle_stage_str: str = ''.join(
             header_text_trimmed_middle_stage)
-- 
2.43.0


From 1b5b1b907e2ba827b7c838e1fe0532d80a28a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:29 +0000
Subject: [PATCH 09/28] fix: hash the bytes of redcarpet anchors with 64 bits

---
 md_toc/api.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index b884cc8..c39418d 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1055,14 +1055,11 @@ def build_anchor_link(
 
         if inserted == 0 and header_text_trimmed_len > 0:
             hash: int = 5381
-            for i in range(0, header_text_trimmed_len):
-                # Get the unicode representation with ord.
-                # Unicode should be equal to ASCII in ASCII's range of
-                # characters.
-                hash = ((hash << 5) + hash) + ord(header_text_trimmed[i])
-
-            # This is equivalent to %x in C. In Python we don't have
-            # the length problem so %x is equal to %lx in this case.
+            for byte in header_text_trimmed.encode('UTF-8'):
+                # Redcarpet works on bytes and on an unsigned long.
+                hash = (((hash << 5) + hash) + byte) & 0xffffffffffffffff
+
+            # This is equivalent to %lx in C.
             # Apparently there is no %l in Python...
             header_text_trimmed_middle_stage_str = 'part-' + '{:x}'.format(
                 hash)
-- 
2.43.0


From d4b25adeee90800cb4162999ef7ea27aa4de3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:30 +0000
Subject: [PATCH 10/28] fix: handle newline strings different from the line
 feed when writing and comparing TOCs

---
 md_toc/api.py     | 9 ++++++---
 md_toc/generic.py | 5 +++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index c39418d..be10bf0 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -61,7 +61,7 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     tocs_equal: bool = False
     r: tuple = generic._get_existing_toc(filename, marker)
     old_toc: str = r[0]
-    if current_toc.strip() == old_toc:
+    if generic._normalize_newlines(current_toc).strip() == old_toc:
         tocs_equal = True
     return tocs_equal
 
@@ -92,10 +92,13 @@ def write_string_on_file_between_markers(
     if filename == '-':
         raise StdinIsNotAFileToBeWritten
 
+    # Line feeds are translated to newline_string when the file is written.
+    string = generic._normalize_newlines(string)
+
     # TOC that is written to the file.
     final_toc_string: str = ''.join([
-        marker, newline_string, newline_string,
-        string.rstrip(), newline_string, newline_string, marker, newline_string
+        marker, '\n\n',
+        string.rstrip(), '\n\n', marker, '\n'
     ])
 
     (
diff --git a/md_toc/generic.py b/md_toc/generic.py
index 6709da3..ebfc8e5 100644
--- a/md_toc/generic.py
+++ b/md_toc/generic.py
@@ -69,6 +69,11 @@ def _extract_lines(input_file: str, start: int, end: int) -> str:
     return ''.join(lines)
 
 
+def _normalize_newlines(string: str) -> str:
+    r"""Replace all the newline sequences with line feeds."""
+    return string.replace('\r\n', '\n').replace('\r', '\n')
+
+
 def _remove_line_intervals(filename: str, line_intervals: list[list[int]]):
     # A nested list of integers divided in couples is expected.
     # Example: [[1, 4], [8, 9]]
-- 
2.43.0


From 4125bcb5bb02033f1bc0d2d3f233d5f2ecb7c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:46 +0000
Subject: [PATCH 11/28] fix: write a TOC in place in a single atomic step

---
 md_toc/api.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index be10bf0..5011da0 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -26,7 +26,9 @@ import copy
 import hashlib
 import os
 import re
+import shutil
 import sys
+import tempfile
 import typing
 
 import fpyutils
@@ -114,24 +116,38 @@ def write_string_on_file_between_markers(
     if string.strip() == old_toc:
         equal = True
 
-    generic._remove_line_intervals(filename, lines_to_delete)
+    # No markers: nothing to do.
+    if marker_line_positions_length == 0:
+        return equal
 
-    # Only 1 pre-existing marker.
-    if not two_or_more_markers and marker_line_positions_length == 1:
-        generic._remove_line_intervals(
-            filename, [[marker_line_positions[1], marker_line_positions[1]]])
+    # Edit a copy and move it into place in a single step, so that the
+    # original file is never left without its TOC or truncated.
+    target: str = os.path.realpath(filename)
+    with tempfile.TemporaryDirectory(dir=os.path.dirname(target)) as directory:
+        copy_name: str = os.path.join(directory, os.path.basename(target))
+        shutil.copyfile(target, copy_name)
 
-    # 2 or more pre-existing markers.
-    if marker_line_positions_length >= 1:
+        generic._remove_line_intervals(copy_name, lines_to_delete)
+
+        # Only 1 pre-existing marker.
+        if not two_or_more_markers and marker_line_positions_length == 1:
+            generic._remove_line_intervals(
+                copy_name,
+                [[marker_line_positions[1], marker_line_positions[1]]])
+
+        # 1 or more pre-existing markers.
         fpyutils.filelines.insert_string_at_line(
-            filename,
+            copy_name,
             final_toc_string,
             first_marker_line_number,
-            filename,
+            copy_name,
             append=False,
             newline_character=newline_string,
         )
 
+        shutil.copymode(target, copy_name)
+        os.replace(copy_name, target)
+
     return equal
 
 
-- 
2.43.0


From a2f9549a5ae9f609618b8edca0460b9e545620af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:01 +0000
Subject: [PATCH 12/28] fix: parse link labels that are not closed or that
 follow a link text

---
 md_toc/cmark/inlines_c.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index d61b571..30ea1e8 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1229,9 +1229,9 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
     else:
         return 0
 
-    c = chr(_cmark_peek_char(subj))
-    while c and c != '[' and c != ']':
-        if c == '\\':
+    c = _cmark_peek_char(subj)
+    while c and chr(c) != '[' and chr(c) != ']' and not no_match:
+        if chr(c) == '\\':
             _cmark_advance(subj)
             length += 1
             if _cmark_cmark_ispunct(_cmark_peek_char(subj)):
@@ -1242,23 +1242,23 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
             length += 1
 
         # MAX_LINK_LABEL_LENGTH is defined as 1000 while
-        # parser['cmark']['link']['max chars label'] is defined as 999.
+        # parser['cmark']['link']['max_chars_label'] is defined as 999.
         #     if (length > MAX_LINK_LABEL_LENGTH) {
-        if length > md_parser['cmark']['link']['max chars label'] + 1:
+        if length > md_parser['cmark']['link']['max_chars_label'] + 1:
             no_match = True
 
-        c = chr(_cmark_peek_char(subj))
+        c = _cmark_peek_char(subj)
 
-    if no_match:
-        subj.pos = startpos  # rewind
-        return 0
-    else:
-        if c == ']':  # match found
-            raw_label = _cmark_cmark_chunk_dup(subj.input, startpos + 1,
-                                               subj.pos - (startpos + 1))
+    if not no_match and chr(c) == ']':  # match found
+        label = _cmark_cmark_chunk_dup(subj.input, startpos + 1,
+                                       subj.pos - (startpos + 1))
+        raw_label.data, raw_label.length = label.data, label.length
         _cmark_cmark_chunk_trim(raw_label)
         _cmark_advance(subj)  # advance past ]
         return 1
+    else:
+        subj.pos = startpos  # rewind
+        return 0
 
 
 # 0.30
-- 
2.43.0


From cf02355855e7dd32d73bcd9b95160672966824ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 13/28] fix: do not read past the end of the text when a link
 is not closed

---
 md_toc/cmark/inlines_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 30ea1e8..e0d4909 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1402,7 +1402,8 @@ def _cmark_handle_close_bracket(subj: _cmarkSubject,
 
         endall = endtitle + _cmark_scan_spacechars(subj.input, endtitle)
 
-        if chr(_cmark_peek_at(subj, endall)) == ')':
+        if (endall < subj.input.length
+                and chr(_cmark_peek_at(subj, endall)) == ')'):
             subj.pos = endall + 1
 
             title_chunk = _cmark_cmark_chunk_dup(subj.input, starttitle,
-- 
2.43.0


From 1394fdf4d83a9c9ea8b88cb4d03131363fe868ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 14/28] fix: do not read past the end of a link destination
 that ends with a backslash

---
 md_toc/cmark/buffer_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/buffer_c.py b/md_toc/cmark/buffer_c.py
index fe71de4..c065e8c 100644
--- a/md_toc/cmark/buffer_c.py
+++ b/md_toc/cmark/buffer_c.py
@@ -330,7 +330,8 @@ def _cmark_cmark_strbuf_unescape(buf: _cmarkCmarkStrbuf):
     #     while r < len(buf.ptr)
     #
     while r < len(buf.ptr):
-        if buf.ptr[r] == '\\' and _cmark_cmark_ispunct(ord(buf.ptr[r + 1])):
+        if (buf.ptr[r] == '\\' and r + 1 < len(buf.ptr)
+                and _cmark_cmark_ispunct(ord(buf.ptr[r + 1]))):
             r += 1
 
         #     buf->ptr[w+] = buf->ptr[r];
-- 
2.43.0


From 1ba306885a292b3504fe59fad064491fe069e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:04 +0000
Subject: [PATCH 15/28] fix: do not fail on the character U+0100

---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index e0d4909..abed6c4 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2046,8 +2046,8 @@ def _cmark_subject_find_special_char(subj: _cmarkSubject, options: int) -> int:
         # Patch to avoid overflow problems.
         # FIXME: this should not be needed!
         # These two are not present in the original C source code.
-        if (ord(subj.input.data[n]) > len(SPECIAL_CHARS)
-                or ord(subj.input.data[n]) > len(SMART_PUNCT_CHARS)):
+        if (ord(subj.input.data[n]) >= len(SPECIAL_CHARS)
+                or ord(subj.input.data[n]) >= len(SMART_PUNCT_CHARS)):
             return n
 
         if SPECIAL_CHARS[ord(subj.input.data[n])] == 1:
-- 
2.43.0


From 250a1f8848225bcd6d32a07a2c381511c91667d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:05 +0000
Subject: [PATCH 16/28] fix: use the character just before a delimiter run,
 whatever it is

---
 md_toc/cmark/inlines_c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index abed6c4..318936c 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -641,11 +641,9 @@ def _cmark_scan_delims(subj: _cmarkSubject, c: str) -> tuple:
     if subj.pos == 0:
         before_char = 10
     else:
+        # Python strings are made of code points: there are no UTF-8
+        # sequences to walk back.
         before_char_pos = subj.pos - 1
-        # walk back to the beginning of the UTF_8 sequence
-        while _cmark_peek_at(
-                subj, before_char_pos) >> 6 == 2 and before_char_pos > 0:
-            before_char_pos -= 1
 
         length, before_char = _cmark_cmark_utf8proc_iterate(
             subj.input.data[before_char_pos:],
-- 
2.43.0


From f9e246be3a608de78aea03465ac3f6dbaaa1e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 17/28] fix: accept only ASCII digits in numeric entities

---
 md_toc/cmark/houdini_html_u_c.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/houdini_html_u_c.py b/md_toc/cmark/houdini_html_u_c.py
index 4bf4a69..d655a2f 100644
--- a/md_toc/cmark/houdini_html_u_c.py
+++ b/md_toc/cmark/houdini_html_u_c.py
@@ -82,10 +82,10 @@ def _cmark_houdini_unescape_ent(ob: _cmarkCmarkStrbuf, src: str,
         num_digits: int = 0
         max_digits: int = 7
 
-        if re.match(r'\d', src[1]):
+        if re.match('[0-9]', src[1]):
 
             i = 1
-            while i < size and re.match(r'\d', src[i]):
+            while i < size and re.match('[0-9]', src[i]):
                 codepoint = (codepoint * 10) + (ord(src[i]) - ord('0'))
 
                 if codepoint >= 0x110000:
@@ -100,7 +100,7 @@ def _cmark_houdini_unescape_ent(ob: _cmarkCmarkStrbuf, src: str,
 
         elif src[1] == 'x' or src[1] == 'X':
             i = 2
-            while i < size and re.match(r'[\dA-Fa-f]', src[i]):
+            while i < size and re.match('[0-9A-Fa-f]', src[i]):
                 codepoint = (codepoint * 16) + ((ord(src[i]) | 32) % 39 - 9)
 
                 if codepoint >= 0x110000:
-- 
2.43.0


From 168023d7aef759e5b15e91a9c69d5d678b1a9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 18/28] fix: recognise images

---
 md_toc/cmark/inlines_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 318936c..d939422 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2101,7 +2101,7 @@ def _cmark_parse_inline(subj: _cmarkSubject,
         _cmark_handle_close_bracket(subj, ignore)
     elif chr(c) in ['!']:
         _cmark_advance(subj)
-        if _cmark_peek_char(subj) == '[':
+        if chr(_cmark_peek_char(subj)) == '[':
             _cmark_advance(subj)
             new_inl = _cmark_make_str(subj, subj.pos - 2, subj.pos - 1,
                                       _cmark_cmark_chunk_literal('!['))
-- 
2.43.0


From a7645e7f0833df1c96578986aad1bd84859d4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:08 +0000
Subject: [PATCH 19/28] fix: remove the right characters of a delimiter run
 that closes and then opens emphasis

---
 md_toc/cmark/inlines_c.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index d939422..80b565b 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -136,6 +136,7 @@ class _cmarkDelimiter:
         'can_open',
         'can_close',
         'offset',
+        'opener_offset',
     ]
 
     def __init__(self):
@@ -147,8 +148,10 @@ class _cmarkDelimiter:
         self.can_open: bool = False
         self.can_close: bool = False
 
-        # Extra attribute.
+        # Extra attributes: the number of characters already used by a closer,
+        # from the left, and by an opener, from the right.
         self.offset: int = 0
+        self.opener_offset: int = 0
 
 
 class _cmarkBracket:
@@ -1016,15 +1019,16 @@ def _cmark_remove_emph(subj: _cmarkSubject, opener: _cmarkDelimiter,
     #############
 
     # Custom variables and computations.
-    opener_relative_start = opener_inl.end_column - use_delims - opener.offset
-    opener_relative_end = opener_inl.end_column - opener.offset
+    opener_relative_start = (opener_inl.end_column - use_delims -
+                             opener.opener_offset)
+    opener_relative_end = opener_inl.end_column - opener.opener_offset
     closer_relative_start = closer_inl.start_column + closer.offset - 1
     closer_relative_end = closer_inl.start_column + use_delims + closer.offset - 1
 
     ignore.append(range(opener_relative_start, opener_relative_end))
     ignore.append(range(closer_relative_start, closer_relative_end))
 
-    opener.offset += use_delims
+    opener.opener_offset += use_delims
     closer.offset += use_delims
 
     # if opener has 0 characters, remove it and its associated inline
-- 
2.43.0


From ce267cb0a12f4ab4f44519029a810d39455e99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:42 +0000
Subject: [PATCH 20/28] fix: scan link titles in parentheses and escaped
 characters in titles

---
 md_toc/cmark/scanners_c.py | 6 +++---
 md_toc/constants.py        | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index b40d7c9..5f2c712 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -96,11 +96,11 @@ def _common_scan(regex: str, ptr: str, p: int) -> int:
 # level of internal nesting (quotes within quotes).
 def _cmark__scan_link_title(ptr: str, p: int) -> int:
     r1 = '["](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + '|[^"\u0000])*["]'
+        'escaped_char'] + '|[^"\\\\\u0000])*["]'
     r2 = "['](" + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + "|[^'\u0000])*[']"
+        'escaped_char'] + "|[^'\\\\\u0000])*[']"
     r3 = r'[\(](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + r"|[^\(\)\u0000])*[']"
+        'escaped_char'] + r"|[^\(\)\\\u0000])*[\)]"
     r = '(' + r1 + '|' + r2 + '|' + r3 + ')'
     return _common_scan(r, ptr, p)
 
diff --git a/md_toc/constants.py b/md_toc/constants.py
index f624ce3..57c7a61 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -152,7 +152,9 @@ parser: dict = {
             # FIXME
             # Some of these expressions are a duplicate of parser['cmark']['re'] dicts.
             'spacechar': __cmark_spacechar,
-            'escaped_char': '([\\][!"#$%&\'()*+,./:;<=>?@[\\\\]^_`{|}~-])',
+            # A backslash and any character: this avoids ambiguities when
+            # matching, and only a punctuation character would end a match.
+            'escaped_char': r'(\\[^\x00])',
             'cdata': r'CDATA\[([^\]\x00]+|\][^\]\x00]|\]\][^>\x00])*',
             'htmltag': '(' + __cmark_opentag + '|' + __cmark_closetag + ')',
             'htmlcomment': '(--->|(-([-]?[^\x00>-])([-]?[^\x00-])*-->))',
-- 
2.43.0


From d3c8487f0f071aa03a789e44b80373dc6935f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 21/28] fix: require a scheme in URI autolinks

---
 md_toc/cmark/scanners_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index 5f2c712..c3d458e 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -113,7 +113,8 @@ def _cmark__scan_spacechars(ptr: str, p: int) -> int:
 
 # Try to match URI autolink after first <, returning number of chars matched.
 def _cmark__scan_autolink_uri(ptr: str, p: int) -> int:
-    return _common_scan('[:][^\x00-\x20<>]*[>]', ptr, p)
+    return _common_scan(
+        '[A-Za-z][A-Za-z0-9.+-]{1,31}[:][^\x00-\x20<>]*[>]', ptr, p)
 
 
 # Try to match email autolink after first <, returning num of chars matched.
-- 
2.43.0


From 62f6b21bd3fd3d22663da0bf0ededec7e2f835ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:27 +0000
Subject: [PATCH 22/28] fix: recognise HTML comments with a single character or
 with a greater-than sign

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 57c7a61..46282c6 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -120,7 +120,7 @@ parser: dict = {
 
             # 3. HTML comment.
             'COS': '<!--',
-            'COT': '((?!>|->)(?:(?!--).))+(?!-).?',
+            'COT': '(?!>|->)(?:(?!--).)*',
             'COE': '-->',
 
             # 4. Processing instructions.
-- 
2.43.0


From 47f7e0cff3f6bd0925845a88ac387586b614bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:28 +0000
Subject: [PATCH 23/28] fix: recognise declarations with lowercase or empty
 content and empty CDATA sections

---
 md_toc/constants.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 46282c6..ab6db8e 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -130,15 +130,19 @@ parser: dict = {
 
             # 5. Declarations.
             'DES': '<!',
-            'DEN': '[A-Z]+',
-            'DEB': '(?:(?!>).)+',
+            # [0.30]
+            #   A declaration consists of the string `<!`, an ASCII letter,
+            #   zero or more characters not including the character `>`, and
+            #   the character `>`.
+            'DEN': '[A-Za-z]',
+            'DEB': '(?:(?!>).)*',
             'DEE': '>',
 
             # 6. CDATA
             # Section.
             'CDS': r'<!\[CDATA\[',
             # Body.
-            'CDB': r'(?:(?!\]\]>).)+',
+            'CDB': r'(?:(?!\]\]>).)*',
             # End.
             'CDE': r'\]\]>',
 
@@ -259,6 +263,12 @@ parser['github']['re'].update({
     # This RE are specific to GFM.
     'GDRH':
     r'''(\b[tT][iI][tT][lL][eE]\b|\b[tT][eE][xX][tT][aA][rR][eE][aA]\b|\b[sS][tT][yY][lL][eE]\b|\b[xX][mM][pP]\b|\b[iI][fF][rR][aA][mM][eE]\b|\b[nN][oO][eE][mM][bB][eE][dD]\b|\b[nN][oO][fF][rR][aA][mM][eE][sS]\b|\b[sS][cC][rR][iI][pP][tT]\b|\b[pP][lL][aA][iI][nN][tT][eE][xX][tT]\b)''',
+    # [0.29]
+    #   A declaration consists of the string `<!`, a name consisting of one or
+    #   more uppercase ASCII letters, whitespace, a string of characters not
+    #   including the character `>`, and the character `>`.
+    'DEN':
+    '[A-Z]+',
     'DEW':
     parser['github']['re']['WS'] + '+',
 })
-- 
2.43.0


From 3178d7caaa68af2b375032e376fb28908f2077bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:29 +0000
Subject: [PATCH 24/28] fix: accept any number of spaces at the end of closing
 tags for github

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index ab6db8e..70b667f 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -285,7 +285,7 @@ parser['github']['re'].update({
      ')*' + '(' + parser['github']['re']['WS'] + ')*' + '(/)?' + '>'),
     # 2. Close tag.
     'CT': ('</' + parser['github']['re']['TN'] + parser['github']['re']['WS'] +
-           '?' + '>'),
+           '*' + '>'),
     # 5. Declarations.
     'DE': (parser['github']['re']['DES'] + parser['github']['re']['DEN'] +
            parser['github']['re']['DEW'] + parser['github']['re']['DEB'] +
-- 
2.43.0


From aea83faab3345a822a44ee7d4544c7caa57cddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:31 +0000
Subject: [PATCH 25/28] fix: do not remove text that looks like an HTML tag
 only after removing another one

---
 md_toc/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 5011da0..a22bb4c 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -846,8 +846,9 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
             md_parser[parser]['re']['DE'], md_parser[parser]['re']['CD']
         ]
 
-        for r in regexes:
-            line = re.sub(r, '', line, flags=re.DOTALL)
+        # All the elements must be looked for at the same time, otherwise
+        # removing some of them might form new ones.
+        line = re.sub('|'.join(regexes), '', line, flags=re.DOTALL)
 
     return line
 
-- 
2.43.0


From b5d5c80503be2011973be6342e96b8c31fe5c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:31 +0000
Subject: [PATCH 26/28] fix: remove case sensitive HTML elements from anchor
 links

---
 md_toc/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a22bb4c..8ba7f6c 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -992,14 +992,15 @@ def build_anchor_link(
         raise StringCannotContainNewlines
 
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
-        header_text_trimmed = header_text_trimmed.lower()
-
         # Filter HTML tags.
         header_text_trimmed = remove_html_tags(header_text_trimmed, parser)
 
         # Filter "emphasis and strong emphasis".
         header_text_trimmed = remove_emphasis(header_text_trimmed, parser)
 
+        # Some HTML elements are case sensitive.
+        header_text_trimmed = header_text_trimmed.lower()
+
         # Remove punctuation characters.
         header_text_trimmed = anchor_link_punctuation_filter(
             header_text_trimmed, parser)
-- 
2.43.0


From 3c9f05f6601e14800ae53351e0b29a602198c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:13 +0000
Subject: [PATCH 27/28] fix: find openers of underscore emphasis skipped by a
 longer delimiter run

---
 md_toc/cmark/inlines_c.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 80b565b..13e4dba 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -877,6 +877,11 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
         stack_bottom,
         stack_bottom,
         stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
     ]
 
     # move back to first relevant delim.
@@ -890,10 +895,13 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
                 openers_bottom_index = 0
             elif closer.delim_char == '\'':
                 openers_bottom_index = 1
-            elif closer.delim_char == '_':
-                openers_bottom_index = 2
-            elif closer.delim_char == '*':
-                openers_bottom_index = 3
+            elif closer.delim_char == '_' or closer.delim_char == '*':
+                # The openers that do not match depend on the length of the
+                # closer and on its ability to open emphasis.
+                if closer.delim_char == '_':
+                    openers_bottom_index = 2
+                else:
+                    openers_bottom_index = 8
                 if closer.can_open:
                     openers_bottom_index += 3
                 else:
-- 
2.43.0


From f9b62bbe20a141b6bb8af2c2dda4a342d9ea4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:29 +0000
Subject: [PATCH 28/28] fix: do not match emphasis across the start of a link
 text

---
 md_toc/cmark/inlines_c.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 13e4dba..7cfa6d6 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -137,11 +137,13 @@ class _cmarkDelimiter:
         'can_close',
         'offset',
         'opener_offset',
+        'position',
     ]
 
     def __init__(self):
         self.previous: _cmarkDelimiter = None
         self.next: _cmarkDelimiter = None
+        self.position: int = 0
         self.inl_text: _cmarkCmarkNode = None
         self.length: int = 0
         self.delim_char = ''
@@ -745,6 +747,7 @@ def _cmark_push_delimiter(
     delim.can_close = can_close
     delim.inl_text = inl_text
     delim.length = inl_text.length
+    delim.position = subj.pos - delim.length
     delim.previous = subj.last_delim
     delim.next = None
     if delim.previous is not None:
@@ -867,22 +870,12 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
     old_closer: _cmarkDelimiter
     opener_found: bool
     openers_bottom_index: int = 0
-    openers_bottom: list = [
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-    ]
+    # Delimiters are removed from the list while it is processed, so the lower
+    # bounds must be positions in the text.
+    bottom_position: int = -1
+    if stack_bottom is not None:
+        bottom_position = stack_bottom.position
+    openers_bottom: list = [bottom_position] * 14
 
     # move back to first relevant delim.
     while closer is not None and closer.previous is not stack_bottom:
@@ -913,7 +906,7 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
             # Now look backwards for first matching opener:
             opener = closer.previous
             opener_found = False
-            while opener is not None and opener != openers_bottom[
+            while opener is not None and opener.position > openers_bottom[
                     openers_bottom_index]:
                 if opener.can_open and opener.delim_char == closer.delim_char:
                     # interior closer of size 2 can't match opener of size 1
@@ -949,7 +942,9 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
 
             if not opener_found:
                 # set lower bound for future searches for openers
-                openers_bottom[openers_bottom_index] = old_closer.previous
+                if old_closer.previous is not None:
+                    openers_bottom[
+                        openers_bottom_index] = old_closer.previous.position
                 if not old_closer.can_open:
                     # we can remove a closer that can't be an
                     # opener, once we've seen there's no
-- 
2.43.0


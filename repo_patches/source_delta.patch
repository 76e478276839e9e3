From 74c917a2f04abc92b7d25d1e185c13f3fce281c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:21 +0000
Subject: [PATCH 01/35] fix: do not list the last line of an unclosed fenced
 code block

The end of the document closes an open fence: the last line, however, is
still part of the code block and must not be treated as a header.
---
 md_toc/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4f13ad..e2a2c07 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -334,7 +334,10 @@ def build_toc(
                 # Update the status of the next line.
                 is_within_code_fence = True
 
-        if not is_within_code_fence or code_fence is None:
+        # The lines of a fenced code block, the opening and the closing ones
+        # included, are never headers: this is also true for the last line
+        # of the document when the block is not closed.
+        if code_fence is None:
 
             # Header detection and gathering.
             headers: list[types.Header] = get_md_header(
-- 
2.43.0


From 74e7ea1334390a7d21dce436e43d958b7118bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:21 +0000
Subject: [PATCH 02/35] fix: compute the visibility of each heading of a
 multi-line string

One heading deeper than keep_header_levels made all the headings following
it in the same string invisible.
---
 md_toc/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index e2a2c07..2d48743 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1126,8 +1126,6 @@ def get_atx_heading(
         raise ValueError
 
     struct: list[types.AtxHeadingStructElement] = list()
-    line_visible: bool = True
-
     if len(line) == 0:
         return [{
             'header_type': None,
@@ -1138,6 +1136,7 @@ def get_atx_heading(
     for subl in replace_and_split_newlines(line):
         current_headers = None
         final_line = None
+        line_visible: bool = True
 
         if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
 
@@ -1172,7 +1171,7 @@ def get_atx_heading(
             # We need to continue parsing to find possible duplicate headers
             # in other functions if we set keep_header_levels < max_levels.
             if i - offset > keep_header_levels:
-                line_visible: bool = False
+                line_visible = False
 
             current_headers = i - offset
 
-- 
2.43.0


From 500b382100892a2dff1ea2f9fb3bc6c0ab644943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:21 +0000
Subject: [PATCH 03/35] fix: honour keep_header_levels with the redcarpet
 parser

The maximum level of headers was ignored for redcarpet.
---
 md_toc/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 2d48743..073063f 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1314,6 +1314,8 @@ def get_atx_heading(
                    and subl[i] == '#'):
                 i += 1
             current_headers = i
+            if current_headers > keep_header_levels:
+                line_visible = False
 
             if i < len(subl) and subl[i] != ' ':
                 continue
-- 
2.43.0


From 735cb34f406c15b1a4cc7d01ff2ca39eb289db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:21 +0000
Subject: [PATCH 04/35] fix: detect binary files when skipping lines

A UnicodeDecodeError was raised if the undecodable bytes were found while
skipping lines.
---
 md_toc/api.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 073063f..64f4cef 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -282,8 +282,14 @@ def build_toc(
         loop: bool = True
         line_counter = 1
         while loop:
-            if line_counter > skip_lines or f.readline() == '':
-                loop = False
+            try:
+                if line_counter > skip_lines or f.readline() == '':
+                    loop = False
+            except UnicodeDecodeError:
+                return ''.join([
+                    '<!--stop reading ', filename,
+                    ': probably a binary file-->'
+                ])
             line_counter += 1
 
     try:
-- 
2.43.0


From eb0f5729311de461a5a7cceb6b78988f12a297d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 05/35] fix: skip HTML tags and entities in redcarpet anchor
 links

The C function advances the index of the for loop. In Python this has no
effect on the iteration, so tags and entities were never skipped.
---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 64f4cef..684d80d 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1029,7 +1029,8 @@ def build_anchor_link(
         inserted = 0
         stripped = 0
         header_text_trimmed_middle_stage = list()
-        for i in range(0, header_text_trimmed_len):
+        i = 0
+        while i < header_text_trimmed_len:
             if header_text_trimmed[i] == '<':
                 while i < header_text_trimmed_len and header_text_trimmed[
                         i] != '>':
@@ -1050,6 +1051,7 @@ def build_anchor_link(
                     header_text_trimmed[i].lower(), )
                 stripped = 0
                 inserted += 1
+            i += 1
 
         header_text_trimmed_middle_stage_str: str = ''.join(
             header_text_trimmed_middle_stage)
-- 
2.43.0


From e88354225cc245aea6c4b28e0bb1a3506a4a2741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 06/35] fix: compute the redcarpet hash anchor on bytes as an
 unsigned long

The C function works on bytes and its hash wraps around.
---
 md_toc/api.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 684d80d..08e2c68 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1061,15 +1061,11 @@ def build_anchor_link(
 
         if inserted == 0 and header_text_trimmed_len > 0:
             hash: int = 5381
-            for i in range(0, header_text_trimmed_len):
-                # Get the unicode representation with ord.
-                # Unicode should be equal to ASCII in ASCII's range of
-                # characters.
-                hash = ((hash << 5) + hash) + ord(header_text_trimmed[i])
-
-            # This is equivalent to %x in C. In Python we don't have
-            # the length problem so %x is equal to %lx in this case.
-            # Apparently there is no %l in Python...
+            for byte in header_text_trimmed.encode('UTF-8'):
+                # The C code works on bytes and with an unsigned long.
+                hash = (((hash << 5) + hash) + byte) & 0xffffffffffffffff
+
+            # This is equivalent to %lx in C.
             header_text_trimmed_middle_stage_str = 'part-' + '{:x}'.format(
                 hash)
 
-- 
2.43.0


From 404891ad2c0fc13fe5bc6e03b03777a0f8985736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 07/35] fix: do not raise an IndexError on U+0100

Off by one error in the bound check of the special characters table.
---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index d61b571..e116ac5 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2045,8 +2045,8 @@ def _cmark_subject_find_special_char(subj: _cmarkSubject, options: int) -> int:
         # Patch to avoid overflow problems.
         # FIXME: this should not be needed!
         # These two are not present in the original C source code.
-        if (ord(subj.input.data[n]) > len(SPECIAL_CHARS)
-                or ord(subj.input.data[n]) > len(SMART_PUNCT_CHARS)):
+        if (ord(subj.input.data[n]) >= len(SPECIAL_CHARS)
+                or ord(subj.input.data[n]) >= len(SMART_PUNCT_CHARS)):
             return n
 
         if SPECIAL_CHARS[ord(subj.input.data[n])] == 1:
-- 
2.43.0


From f7273435e547b855ddfa65e574c5ed6a8ecbba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 08/35] fix: parse link labels without raising exceptions or
 looping forever

A heading such as '# [foo][bar]' raised a KeyError if links were disabled.
Unterminated labels never ended the loop and were considered as matched.
---
 md_toc/cmark/inlines_c.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index e116ac5..cb7292f 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1230,7 +1230,7 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
         return 0
 
     c = chr(_cmark_peek_char(subj))
-    while c and c != '[' and c != ']':
+    while not _cmark_is_eof(subj) and c != '[' and c != ']':
         if c == '\\':
             _cmark_advance(subj)
             length += 1
@@ -1242,20 +1242,21 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
             length += 1
 
         # MAX_LINK_LABEL_LENGTH is defined as 1000 while
-        # parser['cmark']['link']['max chars label'] is defined as 999.
+        # parser['cmark']['link']['max_chars_label'] is defined as 999.
         #     if (length > MAX_LINK_LABEL_LENGTH) {
-        if length > md_parser['cmark']['link']['max chars label'] + 1:
+        if length > md_parser['cmark']['link']['max_chars_label'] + 1:
             no_match = True
+            break
 
         c = chr(_cmark_peek_char(subj))
 
-    if no_match:
+    if no_match or c != ']':
         subj.pos = startpos  # rewind
         return 0
     else:
-        if c == ']':  # match found
-            raw_label = _cmark_cmark_chunk_dup(subj.input, startpos + 1,
-                                               subj.pos - (startpos + 1))
+        # match found
+        raw_label = _cmark_cmark_chunk_dup(subj.input, startpos + 1,
+                                           subj.pos - (startpos + 1))
         _cmark_cmark_chunk_trim(raw_label)
         _cmark_advance(subj)  # advance past ]
         return 1
-- 
2.43.0


From 1df69dd7ac2fbb8e88c7c89cbe7cf32d9576654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 09/35] fix: do not read after the end of the input while
 parsing inlines

In C strings are NULL terminated so it is possible to read one character
after the end. In Python an IndexError was raised.
---
 md_toc/cmark/inlines_c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index cb7292f..683b192 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -404,6 +404,9 @@ def _cmark_peek_char(subj: _cmarkSubject) -> int:
 
 # 0.29, 0.30
 def _cmark_peek_at(subj: _cmarkSubject, pos: int) -> int:
+    # In C the input is NULL terminated.
+    if pos >= len(subj.input.data):
+        return 0
     return ord(subj.input.data[pos])
 
 
@@ -575,7 +578,7 @@ def _cmark_S_normalize_code(s: _cmarkCmarkStrbuf):
 
     while r < s.size:
         if s.ptr[r] == '\r':
-            if (s.ptr[r + 1] != '\n'):
+            if r + 1 >= s.size or s.ptr[r + 1] != '\n':
                 s.ptr = _replace_substring(s.ptr, ' ', w, w)
                 w += 1
         elif s.ptr[r] == '\n':
-- 
2.43.0


From 4e3ad71107d2628ff26e5ecd798c8d7dd64475af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 10/35] fix: remove all the delimiters of a run which both
 closes and opens emphasis

A closer uses the delimiters at the start of the run while an opener uses
the ones at the end: sharing a single offset left some of them in the
output, for example in '_(a)___(b)__'.
---
 md_toc/cmark/inlines_c.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 683b192..dac9dfd 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -136,6 +136,7 @@ class _cmarkDelimiter:
         'can_open',
         'can_close',
         'offset',
+        'offset_end',
     ]
 
     def __init__(self):
@@ -149,6 +150,7 @@ class _cmarkDelimiter:
 
         # Extra attribute.
         self.offset: int = 0
+        self.offset_end: int = 0
 
 
 class _cmarkBracket:
@@ -1021,15 +1023,15 @@ def _cmark_remove_emph(subj: _cmarkSubject, opener: _cmarkDelimiter,
     #############
 
     # Custom variables and computations.
-    opener_relative_start = opener_inl.end_column - use_delims - opener.offset
-    opener_relative_end = opener_inl.end_column - opener.offset
+    opener_relative_start = opener_inl.end_column - use_delims - opener.offset_end
+    opener_relative_end = opener_inl.end_column - opener.offset_end
     closer_relative_start = closer_inl.start_column + closer.offset - 1
     closer_relative_end = closer_inl.start_column + use_delims + closer.offset - 1
 
     ignore.append(range(opener_relative_start, opener_relative_end))
     ignore.append(range(closer_relative_start, closer_relative_end))
 
-    opener.offset += use_delims
+    opener.offset_end += use_delims
     closer.offset += use_delims
 
     # if opener has 0 characters, remove it and its associated inline
-- 
2.43.0


From a6a4b6cf70a118f07643f7cf2c956a63be88dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 11/35] fix: get the correct character before a delimiter run

Code points between U+0080 and U+00BF were treated as UTF-8 continuation
bytes.
---
 md_toc/cmark/inlines_c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index dac9dfd..ce89364 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -647,10 +647,8 @@ def _cmark_scan_delims(subj: _cmarkSubject, c: str) -> tuple:
         before_char = 10
     else:
         before_char_pos = subj.pos - 1
-        # walk back to the beginning of the UTF_8 sequence
-        while _cmark_peek_at(
-                subj, before_char_pos) >> 6 == 2 and before_char_pos > 0:
-            before_char_pos -= 1
+        # In Python 3 strings are sequences of code points: there is no need
+        # to walk back to the beginning of the UTF_8 sequence.
 
         length, before_char = _cmark_cmark_utf8proc_iterate(
             subj.input.data[before_char_pos:],
-- 
2.43.0


From 19a10781f856a2c45ae6ad34b4ce462d25eaeb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 12/35] fix: write and compare TOCs with newline strings other
 than the line feed

With '\\r\\n' the newlines of the TOC were translated twice when writing
in-place, and TOCs always differed from the existing ones.
---
 md_toc/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 08e2c68..893cbf1 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -61,6 +61,8 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     tocs_equal: bool = False
     r: tuple = generic._get_existing_toc(filename, marker)
     old_toc: str = r[0]
+    # The newlines of the existing TOC are always line feeds.
+    current_toc = current_toc.replace('\r\n', '\n').replace('\r', '\n')
     if current_toc.strip() == old_toc:
         tocs_equal = True
     return tocs_equal
@@ -92,11 +94,13 @@ def write_string_on_file_between_markers(
     if filename == '-':
         raise StdinIsNotAFileToBeWritten
 
+    # Use line feeds only: these are the newlines of the existing TOC and
+    # are translated to newline_string when the file is written.
+    string = string.replace('\r\n', '\n').replace('\r', '\n')
+
     # TOC that is written to the file.
-    final_toc_string: str = ''.join([
-        marker, newline_string, newline_string,
-        string.rstrip(), newline_string, newline_string, marker, newline_string
-    ])
+    final_toc_string: str = ''.join(
+        [marker, '\n\n', string.rstrip(), '\n\n', marker, '\n'])
 
     (
         old_toc,
-- 
2.43.0


From 716d4a86cdccc695224d83d11a81156bd59f6573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 13/35] fix: replace the file in a single step when writing
 in-place

The existing TOC and its markers were removed from the file before adding
the new TOC: a failure between the two steps lost the markers.
---
 md_toc/api.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 893cbf1..77898b9 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -26,7 +26,9 @@ import copy
 import hashlib
 import os
 import re
+import shutil
 import sys
+import tempfile
 import typing
 
 import fpyutils
@@ -115,23 +117,31 @@ def write_string_on_file_between_markers(
     if string.strip() == old_toc:
         equal = True
 
-    generic._remove_line_intervals(filename, lines_to_delete)
-
-    # Only 1 pre-existing marker.
-    if not two_or_more_markers and marker_line_positions_length == 1:
-        generic._remove_line_intervals(
-            filename, [[marker_line_positions[1], marker_line_positions[1]]])
-
-    # 2 or more pre-existing markers.
+    # 1 or more pre-existing markers.
     if marker_line_positions_length >= 1:
-        fpyutils.filelines.insert_string_at_line(
-            filename,
-            final_toc_string,
-            first_marker_line_number,
-            filename,
-            append=False,
-            newline_character=newline_string,
-        )
+        # Edit a copy so that the file is replaced in a single step: an error
+        # or an interruption never leaves a file without markers.
+        with tempfile.TemporaryDirectory() as directory:
+            work: str = os.path.join(directory, 'work')
+            shutil.copyfile(filename, work)
+
+            generic._remove_line_intervals(work, lines_to_delete)
+
+            # Only 1 pre-existing marker.
+            if not two_or_more_markers and marker_line_positions_length == 1:
+                generic._remove_line_intervals(
+                    work,
+                    [[marker_line_positions[1], marker_line_positions[1]]])
+
+            fpyutils.filelines.insert_string_at_line(
+                work,
+                final_toc_string,
+                first_marker_line_number,
+                work,
+                append=False,
+                newline_character=newline_string,
+            )
+            shutil.move(work, filename)
 
     return equal
 
-- 
2.43.0


From e3fdcfee26aa7dbc760d290f78b6a92b2cc6988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 14/35] fix: preserve permissions and symbolic links when
 writing in-place

The file was replaced by a temporary one with mode 0600, and symbolic
links were replaced by regular files.
---
 md_toc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 77898b9..2a86adb 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -141,7 +141,8 @@ def write_string_on_file_between_markers(
                 append=False,
                 newline_character=newline_string,
             )
-            shutil.move(work, filename)
+            shutil.copymode(filename, work)
+            shutil.move(work, os.path.realpath(filename))
 
     return equal
 
-- 
2.43.0


From 818dd2a032ab009c6aec8bb526e5a92abfd8da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:54 +0000
Subject: [PATCH 15/35] fix: keep the text of headings made of hashes only

Only the closing sequence must be removed: the text of '# # #' is '#'.
---
 md_toc/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 2a86adb..d495df0 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1274,6 +1274,10 @@ def get_atx_heading(
                     if i > hash_round_start:
                         hash_char_rounds += 1
 
+            # The heading text is made of hashes only, for example: '# # #'.
+            if go and hash_char_rounds > 1:
+                cs_end = len_subl - hash_round_start
+
             final_line = subl[cs_start:cs_end]
 
             # Add escaping.
-- 
2.43.0


From f41f970e5fa70d884dc22ee1fe3965fa61aeedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 16/35] fix: detect all HTML comments

Empty comments, comments of one character and comments with a '>'
character in the text were not removed.
---
 md_toc/constants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index f624ce3..424ac29 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -120,7 +120,9 @@ parser: dict = {
 
             # 3. HTML comment.
             'COS': '<!--',
-            'COT': '((?!>|->)(?:(?!--).))+(?!-).?',
+            # The text must not start with `>` or `->`, must not end with `-`
+            # and must not contain `--`.
+            'COT': '(?!>|->)(?:(?:(?!--).)*[^-])?',
             'COE': '-->',
 
             # 4. Processing instructions.
-- 
2.43.0


From 56d128f6fc0f2cb47e3a395d99f570db2031145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 17/35] fix: accept more than one whitespace character in GFM
 closing tags

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 424ac29..d4e4e79 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -275,7 +275,7 @@ parser['github']['re'].update({
      ')*' + '(' + parser['github']['re']['WS'] + ')*' + '(/)?' + '>'),
     # 2. Close tag.
     'CT': ('</' + parser['github']['re']['TN'] + parser['github']['re']['WS'] +
-           '?' + '>'),
+           '*' + '>'),
     # 5. Declarations.
     'DE': (parser['github']['re']['DES'] + parser['github']['re']['DEN'] +
            parser['github']['re']['DEW'] + parser['github']['re']['DEB'] +
-- 
2.43.0


From 3cfbbd126f8a2c9be64f924fc61ffbf8d5f9519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 18/35] fix: accept empty bodies in HTML declarations and CDATA
 sections

---
 md_toc/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index d4e4e79..d40d1e0 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -133,14 +133,14 @@ parser: dict = {
             # 5. Declarations.
             'DES': '<!',
             'DEN': '[A-Z]+',
-            'DEB': '(?:(?!>).)+',
+            'DEB': '(?:(?!>).)*',
             'DEE': '>',
 
             # 6. CDATA
             # Section.
             'CDS': r'<!\[CDATA\[',
             # Body.
-            'CDB': r'(?:(?!\]\]>).)+',
+            'CDB': r'(?:(?!\]\]>).)*',
             # End.
             'CDE': r'\]\]>',
 
-- 
2.43.0


From 331e830f5d665e9c7570ab31e4ab5ce4a9923fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 19/35] fix: remove HTML declarations and CDATA sections from
 anchor links

These are case sensitive but the text was already lower-case.
---
 md_toc/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index d495df0..083e8a6 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -993,11 +993,11 @@ def build_anchor_link(
         raise StringCannotContainNewlines
 
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
-        header_text_trimmed = header_text_trimmed.lower()
-
-        # Filter HTML tags.
+        # Filter HTML tags. Declarations and CDATA sections are case sensitive.
         header_text_trimmed = remove_html_tags(header_text_trimmed, parser)
 
+        header_text_trimmed = header_text_trimmed.lower()
+
         # Filter "emphasis and strong emphasis".
         header_text_trimmed = remove_emphasis(header_text_trimmed, parser)
 
-- 
2.43.0


From 2141de80b43c6e4c5deb487b00f7a56f5071860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 20/35] fix: detect the scheme of URI autolinks

Autolinks were not recognised so delimiters in them were considered
emphasis.
---
 md_toc/cmark/scanners_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index b40d7c9..9fef527 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -113,7 +113,8 @@ def _cmark__scan_spacechars(ptr: str, p: int) -> int:
 
 # Try to match URI autolink after first <, returning number of chars matched.
 def _cmark__scan_autolink_uri(ptr: str, p: int) -> int:
-    return _common_scan('[:][^\x00-\x20<>]*[>]', ptr, p)
+    return _common_scan(
+        '[A-Za-z][A-Za-z0-9.+-]{1,31}[:][^\x00-\x20<>]*[>]', ptr, p)
 
 
 # Try to match email autolink after first <, returning num of chars matched.
-- 
2.43.0


From a3d6ddf4266eeb707e41d88086e09d4f11907593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:47 +0000
Subject: [PATCH 21/35] fix: apply the limit of ordered list markers to
 goldmark

This parser has the same rules as cmark.
---
 md_toc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 083e8a6..137c180 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -570,7 +570,7 @@ def increase_index_ordered_list(
 
     header_type_count['h' + str(header_type_curr)] += 1
 
-    if parser in ['github', 'cmark', 'gitlab', 'commonmarker']:
+    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         if header_type_count['h' + str(header_type_curr)] > md_parser[
                 'github']['list']['ordered']['max_marker_number']:
             raise GithubOverflowOrderedListMarker
-- 
2.43.0


From d555fc4033bec5a009c54ddfcb45e76e3426ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:08 +0000
Subject: [PATCH 22/35] fix: do not add a dash to the anchor link of headings
 ending with a backslash

The space which separates the backslash from the end of the link label is
not part of the heading.
---
 md_toc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 137c180..34d2572 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1425,8 +1425,9 @@ def get_md_header(
             'text_original':
             r['header_text_trimmed'],
             'text_anchor_link':
+            # Ignore the space added after a trailing backslash.
             build_anchor_link(
-                r['header_text_trimmed'],
+                r['header_text_trimmed'].rstrip(' '),
                 header_duplicate_counter,
                 parser,
             ),
-- 
2.43.0


From d91c49d4a1d169aa3b3621c358a9fb65d8ea4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:08 +0000
Subject: [PATCH 23/35] fix: reject link labels made of different blank
 characters

---
 md_toc/api.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 34d2572..46e1bb4 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1284,10 +1284,7 @@ def get_atx_heading(
             if not no_links:
                 if len(final_line) > 0 and final_line[-1] == '\u005c':
                     final_line = ''.join([final_line, ' '])
-                if len(
-                        final_line.strip('\u0020').strip('\u0009').strip(
-                            '\u000a').strip('\u000b').strip('\u000c').strip(
-                                '\u000d'), ) == 0:
+                if len(final_line.strip('\u0020\u0009\u000a\u000b\u000c\u000d')) == 0:
                     raise GithubEmptyLinkLabel
                 if len(final_line,
                        ) > md_parser['github']['link']['max_chars_label']:
-- 
2.43.0


From 34b12b94d8790ce926d00b6415ee45322a42e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:31 +0000
Subject: [PATCH 24/35] fix: replace the file in a single step when the
 temporary directory is on another file system

---
 md_toc/api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 46e1bb4..2968820 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -120,8 +120,11 @@ def write_string_on_file_between_markers(
     # 1 or more pre-existing markers.
     if marker_line_positions_length >= 1:
         # Edit a copy so that the file is replaced in a single step: an error
-        # or an interruption never leaves a file without markers.
-        with tempfile.TemporaryDirectory() as directory:
+        # or an interruption never leaves a file without markers. The copy
+        # must be on the same file system of the file.
+        target: str = os.path.realpath(filename)
+        with tempfile.TemporaryDirectory(
+                dir=os.path.dirname(target)) as directory:
             work: str = os.path.join(directory, 'work')
             shutil.copyfile(filename, work)
 
@@ -142,7 +145,7 @@ def write_string_on_file_between_markers(
                 newline_character=newline_string,
             )
             shutil.copymode(filename, work)
-            shutil.move(work, os.path.realpath(filename))
+            os.replace(work, target)
 
     return equal
 
-- 
2.43.0


From b933db4290fbf5b64f4ad0941177dd0436d6af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:28 +0000
Subject: [PATCH 25/35] fix: allow the tags whose name starts with a disallowed
 one in GFM

---
 md_toc/constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index d40d1e0..769c594 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -252,13 +252,14 @@ parser['github']['re'].update({
     'AT': (parser['github']['re']['WS'] + '+' + parser['github']['re']['AN'] +
            '(' + parser['github']['re']['AVS'] + ')?'),
 
-    # Remember: https://developmentality.wordpress.com/2011/09/22/python-gotcha-word-boundaries-in-regular-expressions/
+    # The whole tag name must match: the other tag names, for example
+    # 'title-page', are allowed.
     # Github Flavored Markdown Disallowed Raw HTML (specific to GFM and not to cmark')
     # See
     # https://github.github.com/gfm/#disallowed-raw-html-extension-
     # This RE are specific to GFM.
     'GDRH':
-    r'''(\b[tT][iI][tT][lL][eE]\b|\b[tT][eE][xX][tT][aA][rR][eE][aA]\b|\b[sS][tT][yY][lL][eE]\b|\b[xX][mM][pP]\b|\b[iI][fF][rR][aA][mM][eE]\b|\b[nN][oO][eE][mM][bB][eE][dD]\b|\b[nN][oO][fF][rR][aA][mM][eE][sS]\b|\b[sS][cC][rR][iI][pP][tT]\b|\b[pP][lL][aA][iI][nN][tT][eE][xX][tT]\b)''',
+    r'''([tT][iI][tT][lL][eE]|[tT][eE][xX][tT][aA][rR][eE][aA]|[sS][tT][yY][lL][eE]|[xX][mM][pP]|[iI][fF][rR][aA][mM][eE]|[nN][oO][eE][mM][bB][eE][dD]|[nN][oO][fF][rR][aA][mM][eE][sS]|[sS][cC][rR][iI][pP][tT]|[pP][lL][aA][iI][nN][tT][eE][xX][tT])(?![A-Za-z0-9-])''',
     'DEW':
     parser['github']['re']['WS'] + '+',
 })
-- 
2.43.0


From d51566b12418c60b8d43e84df20e8cd997d047d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 26/35] fix: write no file when the standard input is among the
 files to be written

---
 md_toc/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 2968820..bbd298b 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -172,10 +172,14 @@ def write_strings_on_files_between_markers(
     :returns: ``True`` if all TOCs are the same as the existing ones, ``False``
          otherwise.
     :rtype: bool
-    :raises: an fpyutils exception or a built-in exception.
+    :raises: StdinIsNotAFileToBeWritten or an fpyutils exception
+         or a built-in exception.
     """
     if not len(filenames) == len(strings):
         raise ValueError
+    # Do not write the files that come before the standard input.
+    if '-' in filenames:
+        raise StdinIsNotAFileToBeWritten
 
     file_id: int = 0
     equal: bool = True
-- 
2.43.0


From a71944025973236c31a2e390fe5c7fbe6c9a697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:43 +0000
Subject: [PATCH 27/35] fix: do not read after the end of link destinations and
 titles ending with a backslash

---
 md_toc/cmark/buffer_c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/buffer_c.py b/md_toc/cmark/buffer_c.py
index fe71de4..ddb3a74 100644
--- a/md_toc/cmark/buffer_c.py
+++ b/md_toc/cmark/buffer_c.py
@@ -330,7 +330,9 @@ def _cmark_cmark_strbuf_unescape(buf: _cmarkCmarkStrbuf):
     #     while r < len(buf.ptr)
     #
     while r < len(buf.ptr):
-        if buf.ptr[r] == '\\' and _cmark_cmark_ispunct(ord(buf.ptr[r + 1])):
+        # The string is not NUL-terminated.
+        if (buf.ptr[r] == '\\' and r + 1 < len(buf.ptr)
+                and _cmark_cmark_ispunct(ord(buf.ptr[r + 1]))):
             r += 1
 
         #     buf->ptr[w+] = buf->ptr[r];
-- 
2.43.0


From 7186205f3cece4586a7d74eef3ee3d3f2d6aac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:43 +0000
Subject: [PATCH 28/35] fix: detect link titles with escaped characters and in
 parentheses

---
 md_toc/cmark/scanners_c.py | 13 +++++++------
 md_toc/constants.py        |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index 9fef527..24845dd 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -95,12 +95,13 @@ def _common_scan(regex: str, ptr: str, p: int) -> int:
 # in parentheses), returning number of chars matched.  Allow one
 # level of internal nesting (quotes within quotes).
 def _cmark__scan_link_title(ptr: str, p: int) -> int:
-    r1 = '["](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + '|[^"\u0000])*["]'
-    r2 = "['](" + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + "|[^'\u0000])*[']"
-    r3 = r'[\(](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + r"|[^\(\)\u0000])*[']"
+    # Each character is matched in a single way: an escaped character cannot
+    # be matched as a backslash followed by something else, except when it is
+    # the only one able to close the title.
+    e = md_parser['cmark']['_scanners.re']['escaped_char']
+    r1 = '["](' + e + '|(?!' + e + ')[^"\u0000])*[\\\\]?["]'
+    r2 = "['](" + e + '|(?!' + e + ")[^'\u0000])*[\\\\]?[']"
+    r3 = '[(](' + e + '|(?!' + e + ')[^()\u0000])*[\\\\]?[)]'
     r = '(' + r1 + '|' + r2 + '|' + r3 + ')'
     return _common_scan(r, ptr, p)
 
diff --git a/md_toc/constants.py b/md_toc/constants.py
index 769c594..8aa1e13 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -154,7 +154,7 @@ parser: dict = {
             # FIXME
             # Some of these expressions are a duplicate of parser['cmark']['re'] dicts.
             'spacechar': __cmark_spacechar,
-            'escaped_char': '([\\][!"#$%&\'()*+,./:;<=>?@[\\\\]^_`{|}~-])',
+            'escaped_char': r'([\\][!"#$%&\'()*+,./:;<=>?@\[\\\]^_`{|}~-])',
             'cdata': r'CDATA\[([^\]\x00]+|\][^\]\x00]|\]\][^>\x00])*',
             'htmltag': '(' + __cmark_opentag + '|' + __cmark_closetag + ')',
             'htmlcomment': '(--->|(-([-]?[^\x00>-])([-]?[^\x00-])*-->))',
-- 
2.43.0


From 8c5d32ec394604970e60ab107745d1445c7a9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:06 +0000
Subject: [PATCH 29/35] fix: accept ASCII digits only in numeric character
 references

---
 md_toc/cmark/houdini_html_u_c.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/houdini_html_u_c.py b/md_toc/cmark/houdini_html_u_c.py
index 4bf4a69..d554917 100644
--- a/md_toc/cmark/houdini_html_u_c.py
+++ b/md_toc/cmark/houdini_html_u_c.py
@@ -82,10 +82,10 @@ def _cmark_houdini_unescape_ent(ob: _cmarkCmarkStrbuf, src: str,
         num_digits: int = 0
         max_digits: int = 7
 
-        if re.match(r'\d', src[1]):
+        if re.match(r'[0-9]', src[1]):
 
             i = 1
-            while i < size and re.match(r'\d', src[i]):
+            while i < size and re.match(r'[0-9]', src[i]):
                 codepoint = (codepoint * 10) + (ord(src[i]) - ord('0'))
 
                 if codepoint >= 0x110000:
@@ -100,7 +100,7 @@ def _cmark_houdini_unescape_ent(ob: _cmarkCmarkStrbuf, src: str,
 
         elif src[1] == 'x' or src[1] == 'X':
             i = 2
-            while i < size and re.match(r'[\dA-Fa-f]', src[i]):
+            while i < size and re.match(r'[0-9A-Fa-f]', src[i]):
                 codepoint = (codepoint * 16) + ((ord(src[i]) | 32) % 39 - 9)
 
                 if codepoint >= 0x110000:
-- 
2.43.0


From 56226e0da91068892f934573ee94e1b0a5c531e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:27 +0000
Subject: [PATCH 30/35] fix: remove HTML constructs from anchors in a single
 pass

Removing one kind of construct at a time took the text of comments,
processing instructions, declarations and CDATA sections for tags
(<!--<a--> became <!--), and took what a removal had brought together
for a new construct (</<b>a> became empty).
---
 md_toc/api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index bbd298b..092890a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -855,8 +855,12 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
             md_parser[parser]['re']['DE'], md_parser[parser]['re']['CD']
         ]
 
-        for r in regexes:
-            line = re.sub(r, '', line, flags=re.DOTALL)
+        # All the constructs must be searched at the same time: the text of
+        # one of them may look like another one.
+        line = re.sub('|'.join('(?:' + r + ')' for r in regexes),
+                      '',
+                      line,
+                      flags=re.DOTALL)
 
     return line
 
-- 
2.43.0


From dd58370e578d2e5f18dbea508c55b94394be16dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:29 +0000
Subject: [PATCH 31/35] fix: detect HTML attributes without a value while
 parsing inlines

The whole value specification is optional, not only the value after the
equals sign: _<b _>_ became _<b >.
---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 8aa1e13..023fde8 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -55,7 +55,7 @@ __cmark_singlequotedvalue = "(['][^'\x00]*['])"
 __cmark_doublequotedvalue = '(["][^"\x00]*["])'
 __cmark_attributevalue = '(' + __cmark_unquotedvalue + '|' + __cmark_singlequotedvalue + '|' + __cmark_doublequotedvalue + ')'
 __cmark_attributevaluespec = __cmark_spacechar + '*[=]' + __cmark_spacechar + '*' + __cmark_attributevalue
-__cmark_attribute = '(' + __cmark_spacechar + '+' + __cmark_attributename + __cmark_attributevaluespec + '?)'
+__cmark_attribute = '(' + __cmark_spacechar + '+' + __cmark_attributename + '(' + __cmark_attributevaluespec + ')?)'
 __cmark_opentag = __cmark_tagname + __cmark_attribute + '*' + __cmark_spacechar + '*[/]?[>]'
 __cmark_closetag = '[/]' + __cmark_tagname + __cmark_spacechar + '*[>]'
 
-- 
2.43.0


From aebd8556128d8527f3d998e6870a3bf23fca3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:30 +0000
Subject: [PATCH 32/35] fix: do not match delimiters in a link text with those
 outside of it

The lower bound of the search may have been removed from the stack in the
meantime: the search went on below the bottom of the stack, and
*[_*_*_*](a)* became [*_*](a)*.
---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index ce89364..cd95eec 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -907,8 +907,8 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
             # Now look backwards for first matching opener:
             opener = closer.previous
             opener_found = False
-            while opener is not None and opener != openers_bottom[
-                    openers_bottom_index]:
+            while (opener is not None and opener != stack_bottom and opener !=
+                   openers_bottom[openers_bottom_index]):
                 if opener.can_open and opener.delim_char == closer.delim_char:
                     # interior closer of size 2 can't match opener of size 1
                     # or of size 1 can't match 2
-- 
2.43.0


From a4d362dbe33e01d2289d89cc8784afa169d3c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 33/35] fix: detect images while parsing inlines

A code point was compared with a string, so that images were links and no
link could have an image in its text: _[![a](b)](_) became [![a](b)]().
---
 md_toc/cmark/inlines_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index cd95eec..1f9c2d0 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2106,7 +2106,7 @@ def _cmark_parse_inline(subj: _cmarkSubject,
         _cmark_handle_close_bracket(subj, ignore)
     elif chr(c) in ['!']:
         _cmark_advance(subj)
-        if _cmark_peek_char(subj) == '[':
+        if chr(_cmark_peek_char(subj)) == '[':
             _cmark_advance(subj)
             new_inl = _cmark_make_str(subj, subj.pos - 2, subj.pos - 1,
                                       _cmark_cmark_chunk_literal('!['))
-- 
2.43.0


From e0103bc9c0e7871ec7527254ee0ee34b2d09ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:12 +0000
Subject: [PATCH 34/35] fix: detect code spans after an unmatched run of
 backticks

Only the first code span after an unmatched run was detected: the marks in
the second one of ``_`a`b`_` were removed.
---
 md_toc/cmark/inlines_c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 1f9c2d0..e478ee0 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -558,7 +558,9 @@ def _cmark_scan_to_closing_backticks(subj: _cmarkSubject,
 
         # store position of ender
         # Ender starting point.
-        if numticks <= MAXBACKTICKS:
+        # Once the whole input has been scanned these are the last positions,
+        # and they must not be replaced by those of the enders before them.
+        if numticks <= MAXBACKTICKS and not subj.scanned_for_backticks:
             subj.backticks[numticks] = subj.pos - numticks
 
         if numticks == openticklength:
-- 
2.43.0


From 6cad1ce9acd23a46d23dd5be81787bf8ad727699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:12 +0000
Subject: [PATCH 35/35] fix: consider ASCII whitespace only in link
 destinations

The character classes of cmark are those of ASCII: a link destination may
have a no-break space in it, as in *[a](b*\u00a0c).
---
 md_toc/cmark/cmark_ctype_c.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/md_toc/cmark/cmark_ctype_c.py b/md_toc/cmark/cmark_ctype_c.py
index 88134d6..7fbf7bf 100644
--- a/md_toc/cmark/cmark_ctype_c.py
+++ b/md_toc/cmark/cmark_ctype_c.py
@@ -21,7 +21,6 @@
 r"""The cmark implementation file."""
 
 import string
-import unicodedata
 
 from ..constants import parser as md_parser
 
@@ -30,14 +29,10 @@ from ..constants import parser as md_parser
 # See docs/copyright_license.rst
 
 
-# Return True if c is a "whitespace" character as defined by the spec.
+# Return True if c is an ascii whitespace character.
 # 0.30
 def _cmark_cmark_isspace(char: int) -> bool:
-    # A Unicode whitespace character is any code point in the Unicode Zs
-    # general category, or a tab (U+0009), line feed (U+000A), form feed
-    # (U+000C), or carriage return (U+000D).
-    return (unicodedata.category(chr(char)) == 'Zs'
-            or chr(char) in ['\u0009', '\u000A', '\u000C', '\u000D'])
+    return chr(char) in string.whitespace
 
 
 # Return True if c is an ascii punctuation character.
-- 
2.43.0


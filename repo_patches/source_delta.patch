From e6dca8ae2d8a66d24c2d2af1433e1939163131e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 01/96] fix: keep code spans with backticks at their ends,
 inside links or in several lines

---
 src/mdpo/md2po/__init__.py | 55 +++++++++++++++++---------------------
 src/mdpo/po2md/__init__.py | 48 ++++++++++++++++++---------------
 src/mdpo/text.py           | 22 +++++++++++++++
 3 files changed, 72 insertions(+), 53 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index be23928..14f74c8 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -29,7 +29,7 @@ from mdpo.po import (
     po_escaped_string,
     remove_not_found_entries,
 )
-from mdpo.text import min_not_max_chars_in_a_row, parse_wrapwidth_argument
+from mdpo.text import parse_wrapwidth_argument, wrap_codespan
 
 
 class Md2Po:
@@ -129,7 +129,6 @@ class Md2Po:
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
-        '_codespan_backticks',
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
@@ -378,7 +377,6 @@ class Md2Po:
         self._uls_deep = 0
 
         self._codespan_start_index = None
-        self._codespan_backticks = None
 
         self._inside_aspan = False
         self._current_aspan_text = ''
@@ -740,7 +738,10 @@ class Md2Po:
             # will be escaped
             #
             # save the index char of the opening backtick
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            ) - 1
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -761,6 +762,16 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
+    def _escape_codespan(self, markup):
+        """Rebuild the code span located at the end of a string."""
+        start = self._codespan_start_index
+        codespan = wrap_codespan(
+            markup[start + 1:-1],
+            start_char=self.code_start_string,
+            end_char=self.code_end_string,
+        )
+        return f'{markup[:start]}{codespan}'
+
     def not_plaintext_leave_span(self, span, details):
         # raise 'leave_span' event
         if raise_skip_event(self.events, 'leave_span', self, span, details):
@@ -807,18 +818,15 @@ class Md2Po:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self._codespan_start_index = None
 
-            # add backticks at the end for escape internal backticks
+            # add backticks to escape internal backticks
             if self._inside_aspan:
-                self._current_aspan_text += (
-                    self._codespan_backticks * self.code_end_string
+                self._current_aspan_text = self._escape_codespan(
+                    self._current_aspan_text,
                 )
             else:
-                self.current_msgid += (
-                    self._codespan_backticks * self.code_end_string
-                )
-            self._codespan_backticks = None
+                self.current_msgid = self._escape_codespan(self.current_msgid)
+            self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = details['src'][0][1]
@@ -873,27 +881,12 @@ class Md2Po:
                     if self._current_imgspan:
                         self._current_imgspan['text'] = text
                         return
-                    if self._inside_codespan:
-                        # fix backticks for codespan start and end to escape
-                        # internal backticks
-                        self._codespan_backticks = min_not_max_chars_in_a_row(
-                            self.code_start_string,
-                            text,
-                        ) - 1
-                        backticks = (
-                            self._codespan_backticks * self.code_start_string
-                        )
-                        self.current_msgid = (
-                            f'{self.current_msgid[:self._codespan_start_index]}'
-                            f'{backticks}'
-                            f'{self.current_msgid[self._codespan_start_index:]}'
-                        )
-                        if self._inside_aspan:
-                            self._current_aspan_text += text
-                            return
-                    elif self._inside_aspan:
+                    if self._inside_aspan:
                         self._current_aspan_text += text
                         return
+                    if self._inside_codespan:
+                        # literal characters, must not be escaped
+                        pass
                     elif text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index efd1bdb..3e7261b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -21,8 +21,8 @@ from mdpo.po import (
 )
 from mdpo.text import (
     INFINITE_WRAPWIDTH,
-    min_not_max_chars_in_a_row,
     parse_wrapwidth_argument,
+    wrap_codespan,
 )
 
 
@@ -111,7 +111,6 @@ class Po2Md:
         '_inside_codespan',
         '_inside_latexmath_display',
         '_codespan_start_index',
-        '_codespan_backticks',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
         '_current_aspan_ref_target',
@@ -287,7 +286,6 @@ class Po2Md:
 
         self._inside_codespan = False
         self._codespan_start_index = None
-        self._codespan_backticks = None
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
@@ -751,7 +749,10 @@ class Po2Md:
                         break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._codespan_start_index = len(
+                self._current_aspan_text if self._inside_aspan
+                else self.current_msgid,
+            ) - 1
             self._codespan_inside_current_msgid = True
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
@@ -768,6 +769,16 @@ class Po2Md:
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
+    def _escape_codespan(self, markup):
+        """Rebuild the code span located at the end of a string."""
+        start = self._codespan_start_index
+        codespan = wrap_codespan(
+            markup[start + 1:-1],
+            start_char=self.code_start_string,
+            end_char=self.code_end_string,
+        )
+        return f'{markup[:start]}{codespan}'
+
     def leave_span(self, span, details):
         # raise 'leave_span' event
         if raise_skip_event(
@@ -822,10 +833,13 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            self.current_msgid += (
-                self._codespan_backticks * self.code_end_string
-            )
-            self._codespan_backticks = None
+            if self._inside_aspan:
+                self._current_aspan_text = self._escape_codespan(
+                    self._current_aspan_text,
+                )
+            else:
+                self.current_msgid = self._escape_codespan(self.current_msgid)
+            self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = details['src'][0][1]
@@ -886,22 +900,12 @@ class Po2Md:
                 if self._current_imgspan:
                     self._current_imgspan['text'] = text
                     return
-                if self._inside_codespan:
-                    self._codespan_backticks = min_not_max_chars_in_a_row(
-                        self.code_start_string,
-                        text,
-                    ) - 1
-                    self.current_msgid = (
-                        f'{self.current_msgid[:self._codespan_start_index]}'
-                        f'{self._codespan_backticks * self.code_start_string}'
-                        f'{self.current_msgid[self._codespan_start_index:]}'
-                    )
-                    if self._inside_aspan:
-                        self._current_aspan_text += text
-                        return
-                elif self._inside_aspan:
+                if self._inside_aspan:
                     self._current_aspan_text += text
                     return
+                if self._inside_codespan:
+                    # literal characters, must not be escaped
+                    pass
                 elif text == self.italic_start_string:
                     text = self.italic_start_string_escaped
                 elif text == self.code_start_string:
diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index d78c9c1..c0c4939 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -60,6 +60,28 @@ def min_not_max_chars_in_a_row(char, text, default=1):
     return response
 
 
+def wrap_codespan(text, start_char='`', end_char='`'):
+    """Build the Markdown code span that renders a text.
+
+    Uses the minimum possible number of delimiter characters. If the text
+    starts or ends with one of them, is padded with spaces because otherwise
+    they would be part of the delimiters.
+
+    Args:
+        text (str): Content of the code span.
+        start_char (str): Character used to open the code span.
+        end_char (str): Character used to close the code span.
+
+    Returns:
+        str: Code span markup.
+    """
+    n_chars = min_not_max_chars_in_a_row(start_char, text)
+    padding = (
+        ' ' if text.startswith(start_char) or text.endswith(end_char) else ''
+    )
+    return f'{start_char * n_chars}{padding}{text}{padding}{end_char * n_chars}'
+
+
 def parse_escaped_pair(value, separator=':'):
     r"""Escapes a pair key-value separated by a character.
 
-- 
2.43.0


From e7b1d3c14a590a4e6a002d7565632f68d2b41f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 02/96] fix: keep escaped characters inside the text of links

---
 src/mdpo/md2po/__init__.py | 6 +++---
 src/mdpo/po2md/__init__.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 14f74c8..e65caba 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -881,9 +881,6 @@ class Md2Po:
                     if self._current_imgspan:
                         self._current_imgspan['text'] = text
                         return
-                    if self._inside_aspan:
-                        self._current_aspan_text += text
-                        return
                     if self._inside_codespan:
                         # literal characters, must not be escaped
                         pass
@@ -895,6 +892,9 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
+                    if self._inside_aspan:
+                        self._current_aspan_text += text
+                        return
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
                 if self._current_wikilink_target:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 3e7261b..0620016 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -900,9 +900,6 @@ class Po2Md:
                 if self._current_imgspan:
                     self._current_imgspan['text'] = text
                     return
-                if self._inside_aspan:
-                    self._current_aspan_text += text
-                    return
                 if self._inside_codespan:
                     # literal characters, must not be escaped
                     pass
@@ -914,6 +911,9 @@ class Po2Md:
                     text = self.code_end_string_escaped
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
+                if self._inside_aspan:
+                    self._current_aspan_text += text
+                    return
 
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
-- 
2.43.0


From 1829c9f7c4dd5afd11eaafe5f0964bb79c8ab88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 03/96] fix: keep the complete target and title of links and
 images with entities or empty

---
 src/mdpo/md2po/__init__.py | 28 ++++++++++++++-----------
 src/mdpo/md4c.py           | 15 +++++++++++++
 src/mdpo/po2md/__init__.py | 43 +++++++++++++++++++++++++-------------
 3 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index e65caba..17c0db1 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -22,6 +22,7 @@ from mdpo.md import parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
+    attribute_to_string,
 )
 from mdpo.po import (
     find_entry_in_entries,
@@ -685,7 +686,7 @@ class Md2Po:
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
                 details['title']:
-            self._save_msgid(details['title'][0][1])
+            self._save_msgid(attribute_to_string(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
@@ -713,11 +714,11 @@ class Md2Po:
 
             self._inside_aspan = True
 
-            current_aspan_href = details['href'][0][1]
+            current_aspan_href = attribute_to_string(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_to_string(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == current_aspan_href
@@ -746,14 +747,17 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['src'] = details['src'][0][1]
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
+            self._current_imgspan['src'] = attribute_to_string(details['src'])
+            self._current_imgspan['title'] = attribute_to_string(
+                details['title'],
+            )
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_to_string(
+                details['target'],
+            )
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -801,8 +805,9 @@ class Md2Po:
                     )
                 self._current_aspan_ref_target = None
             else:
-                title = details['title'][0][1] if details['title'] else ''
-                if self._current_aspan_text == details['href'][0][1]:
+                title = attribute_to_string(details['title'])
+                href = attribute_to_string(details['href'])
+                if href and self._current_aspan_text == href:
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
@@ -810,7 +815,6 @@ class Md2Po:
                     self.current_msgid += '>'
                 else:
                     title_part = f' "{polib.escape(title)}"' if title else ''
-                    href = details['href'][0][1]
                     self.current_msgid += (
                         f'[{self._current_aspan_text}]({href}{title_part})'
                     )
@@ -829,9 +833,9 @@ class Md2Po:
             self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = attribute_to_string(details['src'])
             if details['title']:
-                imgspan_title = details['title'][0][1]
+                imgspan_title = attribute_to_string(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
diff --git a/src/mdpo/md4c.py b/src/mdpo/md4c.py
index 2bd1543..47816c8 100644
--- a/src/mdpo/md4c.py
+++ b/src/mdpo/md4c.py
@@ -27,3 +27,18 @@ READABLE_BLOCK_NAMES = {
     9: 'paragraph',
     10: 'table',
 }
+
+
+def attribute_to_string(attribute):
+    """Convert the value of a detail of a md4c span or block to a string.
+
+    The parser splits the values on entities and null characters and passes
+    ``None`` for the empty ones.
+
+    Args:
+        attribute (list): Pairs of text types and texts or ``None``.
+
+    Returns:
+        str: Complete value of the attribute, as is written in the source.
+    """
+    return ''.join(text for _, text in attribute or [])
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0620016..6cdc6de 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -13,7 +13,10 @@ from mdpo.command import (
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
 from mdpo.md import parse_link_references
-from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
+from mdpo.md4c import (
+    DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
+    attribute_to_string,
+)
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     po_escaped_string,
@@ -513,7 +516,7 @@ class Po2Md:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
                 if details['lang']:
-                    self.current_line += details['lang'][0][1]
+                    self.current_line += attribute_to_string(details['lang'])
             else:
                 self._inside_indented_codeblock = True
 
@@ -730,11 +733,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_aspan_href = details['href'][0][1]
+            self._current_aspan_href = attribute_to_string(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = attribute_to_string(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == self._current_aspan_href
@@ -758,12 +761,15 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['src'] = details['src'][0][1]
+            self._current_imgspan['title'] = attribute_to_string(
+                details['title'],
+            )
+            self._current_imgspan['src'] = attribute_to_string(details['src'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = attribute_to_string(
+                details['target'],
+            )
         elif span is md4c.SpanType.LATEXMATH:
             self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -811,21 +817,28 @@ class Po2Md:
                         f'[{self._current_aspan_ref_target}]'
                     )
                 self._current_aspan_ref_target = None
-            elif self._current_aspan_text == self._current_aspan_href:
+            elif (
+                self._current_aspan_href
+                and self._current_aspan_text == self._current_aspan_href
+            ):
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
                 if details['title']:
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        attribute_to_string(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += '>'
-            elif self._current_aspan_href:
+            elif self._current_aspan_href is not None:
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
                     f'({self._current_aspan_href}'
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        attribute_to_string(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += ')'
             self._current_aspan_href = None
@@ -842,9 +855,11 @@ class Po2Md:
             self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = attribute_to_string(details['src'])
             if details['title']:
-                imgspan_title = polib.escape(details['title'][0][1])
+                imgspan_title = polib.escape(
+                    attribute_to_string(details['title']),
+                )
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
-- 
2.43.0


From 192c9618799ea5095e4f74476fa8391c9e8fb29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 04/96] fix: keep wikilinks whose text has entities, line
 breaks or other spans

---
 src/mdpo/md2po/__init__.py | 18 ++++++++++--------
 src/mdpo/po2md/__init__.py | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 17c0db1..7704acb 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -133,6 +133,7 @@ class Md2Po:
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
+        '_wikilink_text_start_index',
         '_inside_latexmath_display',
         '_inside_latexmath_display_text',
         '_current_imgspan',
@@ -387,6 +388,7 @@ class Md2Po:
 
         self.link_references = None
         self._current_wikilink_target = None
+        self._wikilink_text_start_index = None
         self._current_imgspan = {}
 
     def _save_msgid(
@@ -758,6 +760,7 @@ class Md2Po:
             self._current_wikilink_target = attribute_to_string(
                 details['target'],
             )
+            self._wikilink_text_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -783,7 +786,13 @@ class Md2Po:
 
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
-                self.current_msgid += self._current_wikilink_target
+                text = self.current_msgid[self._wikilink_text_start_index:]
+                if text != self._current_wikilink_target:
+                    # not self-referenced wikilink
+                    self.current_msgid = (
+                        self.current_msgid[:self._wikilink_text_start_index]
+                        + f'{self._current_wikilink_target}|{text}'
+                    )
                 self._current_wikilink_target = None
             if self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
@@ -901,13 +910,6 @@ class Md2Po:
                         return
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
-                if self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        # not self-referenced wikilink
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 if self._inside_latexmath_display:
                     self._inside_latexmath_display_text += text.strip()
                     return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6cdc6de..a08b1c5 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -126,6 +126,7 @@ class Po2Md:
         '_ol_marks',
         '_current_list_type',
         '_current_wikilink_target',
+        '_wikilink_text_start_index',
         'link_references',
     }
 
@@ -320,6 +321,7 @@ class Po2Md:
         self._current_list_type = []
 
         self._current_wikilink_target = None
+        self._wikilink_text_start_index = None
 
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
@@ -770,6 +772,7 @@ class Po2Md:
             self._current_wikilink_target = attribute_to_string(
                 details['target'],
             )
+            self._wikilink_text_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH:
             self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -797,7 +800,13 @@ class Po2Md:
             return
 
         if span is md4c.SpanType.WIKILINK:
-            self.current_msgid += polib.escape(self._current_wikilink_target)
+            text = self.current_msgid[self._wikilink_text_start_index:]
+            if text != self._current_wikilink_target:
+                # not self-referenced wikilink
+                self.current_msgid = (
+                    self.current_msgid[:self._wikilink_text_start_index]
+                    + f'{self._current_wikilink_target}|{text}'
+                )
             self._current_wikilink_target = None
 
         if self._inside_aspan:  # span inside link text
@@ -936,12 +945,6 @@ class Po2Md:
                     # self-referenced wiki or inline link
                     self._current_aspan_href = None
 
-                elif self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 self.current_msgid += text
             else:
                 if self._inside_liblock:
-- 
2.43.0


From d46a857ab5300c1a4f2747605e475ad8df87299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 05/96] fix: keep the complete alternative text of images

---
 src/mdpo/md2po/__init__.py | 51 ++++++++++++++++++++++++++++++++------
 src/mdpo/po2md/__init__.py | 48 +++++++++++++++++++++++++++++------
 2 files changed, 83 insertions(+), 16 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 7704acb..c055392 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -137,6 +137,7 @@ class Md2Po:
         '_inside_latexmath_display',
         '_inside_latexmath_display_text',
         '_current_imgspan',
+        '_imgspan_nested_deep',
         '_uls_deep',
     }
 
@@ -390,6 +391,8 @@ class Md2Po:
         self._current_wikilink_target = None
         self._wikilink_text_start_index = None
         self._current_imgspan = {}
+        # links and images inside an image alternative text
+        self._imgspan_nested_deep = 0
 
     def _save_msgid(
         self,
@@ -695,9 +698,21 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_span', self, span, details):
             return
 
+        if self._current_imgspan and span in {
+            md4c.SpanType.A, md4c.SpanType.IMG,
+        }:
+            # only the text is rendered inside image alternative texts
+            self._imgspan_nested_deep += 1
+            return
+
         # underline spans for double '_' character enters two times
         if not self._inside_uspan:
-            if self._inside_aspan:  # span inside link text
+            if self._current_imgspan:  # span inside image alternative text
+                with contextlib.suppress(KeyError):
+                    self._current_imgspan['text'] += self._enterspan_replacer[
+                        span.value
+                    ]
+            elif self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
                     self._current_aspan_text += self._enterspan_replacer[
                         span.value
@@ -741,10 +756,13 @@ class Md2Po:
             # will be escaped
             #
             # save the index char of the opening backtick
-            self._codespan_start_index = len(
-                self._current_aspan_text if self._inside_aspan
-                else self.current_msgid,
-            ) - 1
+            if self._current_imgspan:
+                markup = self._current_imgspan['text']
+            elif self._inside_aspan:
+                markup = self._current_aspan_text
+            else:
+                markup = self.current_msgid
+            self._codespan_start_index = len(markup) - 1
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -784,6 +802,12 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
+        if self._imgspan_nested_deep and span in {
+            md4c.SpanType.A, md4c.SpanType.IMG,
+        }:
+            self._imgspan_nested_deep -= 1
+            return
+
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
                 text = self.current_msgid[self._wikilink_text_start_index:]
@@ -794,7 +818,12 @@ class Md2Po:
                         + f'{self._current_wikilink_target}|{text}'
                     )
                 self._current_wikilink_target = None
-            if self._inside_aspan:  # span inside link text
+            if self._current_imgspan:  # span inside image alternative text
+                with contextlib.suppress(KeyError):
+                    self._current_imgspan['text'] += self._leavespan_replacer[
+                        span.value
+                    ]
+            elif self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
                     self._current_aspan_text += self._leavespan_replacer[
                         span.value
@@ -833,7 +862,11 @@ class Md2Po:
             self._inside_codespan = False
 
             # add backticks to escape internal backticks
-            if self._inside_aspan:
+            if self._current_imgspan:
+                self._current_imgspan['text'] = self._escape_codespan(
+                    self._current_imgspan['text'],
+                )
+            elif self._inside_aspan:
                 self._current_aspan_text = self._escape_codespan(
                     self._current_aspan_text,
                 )
@@ -892,7 +925,9 @@ class Md2Po:
                     text = ' '
                 if not self.plaintext:
                     if self._current_imgspan:
-                        self._current_imgspan['text'] = text
+                        self._current_imgspan['text'] += text.replace(
+                            '\n', ' ',
+                        )
                         return
                     if self._inside_codespan:
                         # literal characters, must not be escaped
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a08b1c5..a25971f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -120,6 +120,7 @@ class Po2Md:
         '_current_aspan_href',
         '_current_aspan_text',
         '_current_imgspan',
+        '_imgspan_nested_deep',
         '_current_thead_aligns',
         '_aimg_title_inside_current_msgid',
         '_ul_marks',
@@ -301,6 +302,8 @@ class Po2Md:
 
         self.link_references = None
         self._current_imgspan = {}
+        # links and images inside an image alternative text
+        self._imgspan_nested_deep = 0
 
         # current table head alignments
         self._current_thead_aligns = []
@@ -723,8 +726,19 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan and span in {
+            md4c.SpanType.A, md4c.SpanType.IMG,
+        }:
+            # only the text is rendered inside image alternative texts
+            self._imgspan_nested_deep += 1
+            return
+
         with contextlib.suppress(KeyError):
-            if self._inside_aspan:  # span inside link text
+            if self._current_imgspan:  # span inside image alternative text
+                self._current_imgspan['text'] += self._enterspan_replacer[
+                    span.value
+                ]
+            elif self._inside_aspan:  # span inside link text
                 self._current_aspan_text += self._enterspan_replacer[span.value]
             else:
                 self.current_msgid += self._enterspan_replacer[span.value]
@@ -754,10 +768,13 @@ class Po2Md:
                         break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-            self._codespan_start_index = len(
-                self._current_aspan_text if self._inside_aspan
-                else self.current_msgid,
-            ) - 1
+            if self._current_imgspan:
+                markup = self._current_imgspan['text']
+            elif self._inside_aspan:
+                markup = self._current_aspan_text
+            else:
+                markup = self.current_msgid
+            self._codespan_start_index = len(markup) - 1
             self._codespan_inside_current_msgid = True
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
@@ -799,6 +816,12 @@ class Po2Md:
         ):
             return
 
+        if self._imgspan_nested_deep and span in {
+            md4c.SpanType.A, md4c.SpanType.IMG,
+        }:
+            self._imgspan_nested_deep -= 1
+            return
+
         if span is md4c.SpanType.WIKILINK:
             text = self.current_msgid[self._wikilink_text_start_index:]
             if text != self._current_wikilink_target:
@@ -809,7 +832,12 @@ class Po2Md:
                 )
             self._current_wikilink_target = None
 
-        if self._inside_aspan:  # span inside link text
+        if self._current_imgspan:  # span inside image alternative text
+            with contextlib.suppress(KeyError):
+                self._current_imgspan['text'] += self._leavespan_replacer[
+                    span.value
+                ]
+        elif self._inside_aspan:  # span inside link text
             with contextlib.suppress(KeyError):
                 self._current_aspan_text += self._leavespan_replacer[
                     span.value
@@ -855,7 +883,11 @@ class Po2Md:
             self._current_aspan_text = ''
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = False
-            if self._inside_aspan:
+            if self._current_imgspan:
+                self._current_imgspan['text'] = self._escape_codespan(
+                    self._current_imgspan['text'],
+                )
+            elif self._inside_aspan:
                 self._current_aspan_text = self._escape_codespan(
                     self._current_aspan_text,
                 )
@@ -922,7 +954,7 @@ class Po2Md:
                 if self._inside_liblock and text == '\n':
                     text = ' '
                 if self._current_imgspan:
-                    self._current_imgspan['text'] = text
+                    self._current_imgspan['text'] += text.replace('\n', ' ')
                     return
                 if self._inside_codespan:
                     # literal characters, must not be escaped
-- 
2.43.0


From 17e4da2233586ce852501f127f2e49244c05a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 06/96] fix: keep strikethrough translating Markdown

---
 src/mdpo/po2md/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a25971f..a4308a9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -236,12 +236,14 @@ class Po2Md:
             md4c.SpanType.STRONG.value: self.bold_start_string,
             md4c.SpanType.EM.value: self.italic_start_string,
             md4c.SpanType.CODE.value: self.code_start_string,
+            md4c.SpanType.DEL.value: '~~',
         }
 
         self._leavespan_replacer = {
             md4c.SpanType.STRONG.value: self.bold_end_string,
             md4c.SpanType.EM.value: self.italic_end_string,
             md4c.SpanType.CODE.value: self.code_end_string,
+            md4c.SpanType.DEL.value: '~~',
         }
 
         self.wikilink_start_string = '[['
-- 
2.43.0


From 224c66be1a0dba11cad0588a20b3c92d183dfa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 07/96] fix: keep inline equations inside links and images
 translating Markdown

---
 src/mdpo/po2md/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a4308a9..ae00a37 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -270,6 +270,10 @@ class Po2Md:
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
+            self._enterspan_replacer[md4c.SpanType.LATEXMATH.value] = \
+                self.latexmath_start_string
+            self._leavespan_replacer[md4c.SpanType.LATEXMATH.value] = \
+                self.latexmath_end_string
             self.latexmath_display_start_string = kwargs.get(
                 'latexmath_display_start_string',
                 '$$',
@@ -792,8 +796,6 @@ class Po2Md:
                 details['target'],
             )
             self._wikilink_text_start_index = len(self.current_msgid)
-        elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -929,8 +931,6 @@ class Po2Md:
                 self.current_msgid += img_markup
 
             self._current_imgspan = {}
-        elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_end_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_line += self.latexmath_display_start_string
-- 
2.43.0


From 86496abcc3f5b1bca900f49eda0767f64db94a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 08/96] fix: translate links whose text has line breaks

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ae00a37..9f394d4 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -970,7 +970,7 @@ class Po2Md:
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
                 if self._inside_aspan:
-                    self._current_aspan_text += text
+                    self._current_aspan_text += text.replace('\n', ' ')
                     return
 
                 if self._inside_pblock:
-- 
2.43.0


From 969f044698b05ff15a6d0d8be135bd37e808b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 09/96] fix: translate documents that start with an empty quote

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 9f394d4..a367a3b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -705,7 +705,7 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == '>':
+            if self.outputlines and self.outputlines[-1] == '>':
                 self.outputlines.pop()
             if not self._inside_liblock:
                 self._save_current_line()
-- 
2.43.0


From 5fdcb9c2705d86396d9c69fa779ccbbba7f74522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 10/96] fix: keep HTML blocks located at the end of documents
 translating Markdown

---
 src/mdpo/po2md/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a367a3b..ff35e45 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -720,6 +720,9 @@ class Po2Md:
             else:
                 self.current_line = self.current_line.rstrip('\n')
             self._inside_htmlblock[0] = False
+        elif block is md4c.BlockType.DOC and self.current_line.strip():
+            # HTML block at the end of the document
+            self._save_current_line()
 
     def enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From 087e553a27a20287c1a850eb185d0349861408bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 11/96] fix: recognise mdpo commands whose text has punctuation

---
 src/mdpo/command.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/command.py b/src/mdpo/command.py
index 2b24866..89f7374 100644
--- a/src/mdpo/command.py
+++ b/src/mdpo/command.py
@@ -1,7 +1,9 @@
 """mdpo HTML commands related utilities."""
 
 
-COMMAND_SEARCH_REGEX = r'<\!\-\-\s{0,}([^\s]+)\s{0,}([\w\s]+)?\-\->'
+COMMAND_SEARCH_REGEX = (
+    r'<\!\-\-\s{0,}((?:(?!\-\->)[^\s])+)\s{0,}((?:(?!\-\->)[\w\W])+)?\-\->'
+)
 
 MDPO_COMMANDS = [
     'context',
-- 
2.43.0


From 25ccd4891b7c7644823ff4fce031bb3f6260afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 12/96] fix: keep HTML comments with text that are not commands
 translating Markdown

---
 src/mdpo/po2md/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ff35e45..05d86b4 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -369,13 +369,16 @@ class Po2Md:
         if original_command is None:
             return False
 
-        self._inside_htmlblock[1] = True
-
         try:
             command = self.command_aliases[original_command]
         except KeyError:  # not custom command
             command = original_command
 
+        if comment and not command.startswith('mdpo-'):
+            return False  # HTML comment that is not a command
+
+        self._inside_htmlblock[1] = True
+
         # process solved command
         self.command(command, comment, original_command)
 
-- 
2.43.0


From 0ae98826e8923eec92d19d4b6f98ace0f5623c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 13/96] fix: do not split headers in several lines wrapping
 Markdown

---
 src/mdpo/po2md/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 05d86b4..d6e7b42 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -461,10 +461,15 @@ class Po2Md:
             #
             # Only execute it for text outside tables
             if not self._inside_codeblock and not self._current_thead_aligns:
+                # headers can't be splitted in lines
+                wrapwidth = (
+                    INFINITE_WRAPWIDTH if self._inside_hblock
+                    else self.wrapwidth
+                )
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
-                    self.wrapwidth,
-                    self.wrapwidth + first_line_width_diff,
+                    wrapwidth,
+                    wrapwidth + first_line_width_diff,
                 )
 
                 if not any([
-- 
2.43.0


From 2925feeb0d5dcba7b0982ddb616dd676fa9bb7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 14/96] fix: keep all the lines of code blocks inside lists and
 quotes translating Markdown

---
 src/mdpo/po2md/__init__.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d6e7b42..0b32ebe 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -479,7 +479,7 @@ class Po2Md:
                 ]):
                     translation += '\n'
 
-        if translation.rstrip('\n'):
+        if self._inside_codeblock or translation.rstrip('\n'):
             self.current_line += translation
 
         self.current_msgid = ''
@@ -538,6 +538,8 @@ class Po2Md:
                     self.current_line += attribute_to_string(details['lang'])
             else:
                 self._inside_indented_codeblock = True
+                if self._inside_quoteblock:
+                    self.current_line = ''
 
             if self.current_line:
                 self._save_current_line()
@@ -645,17 +647,24 @@ class Po2Md:
             indent = ''
             if self._inside_liblock:
                 indent += '   ' * len(self._current_list_type)
-            self.current_line = self.current_line.rstrip('\n')
-            self._save_current_line()
+            elif self._inside_quoteblock:
+                indent += '> '
+            # all the lines of the code are placed inside the container block
+            if self.current_line:
+                if self.current_line.endswith('\n'):
+                    self.current_line = self.current_line[:-1]
+                self.outputlines.extend(
+                    f'{indent}{line}' if line else indent.rstrip()
+                    for line in self.current_line.split('\n')
+                )
+                self.current_line = ''
             if not self._inside_indented_codeblock:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
-
-            self._save_current_line()
-            # prevent two newlines after indented code block
-            if not self._inside_liblock and (
-                    not self._inside_indented_codeblock
-            ):
+                self._save_current_line()
+            # prevent a new line after fenced code blocks inside lists
+            if not self._inside_liblock or self._inside_indented_codeblock:
+                self.current_line += indent.rstrip()
                 self._save_current_line()
             self._inside_indented_codeblock = False
         elif block is md4c.BlockType.H:
@@ -992,10 +1001,6 @@ class Po2Md:
 
                 self.current_msgid += text
             else:
-                if self._inside_liblock:
-                    indent = '   ' * len(self._current_list_type)
-                    if self.current_line[:len(indent) + 1] != indent:
-                        self.current_line += indent
                 self.current_msgid += text
         elif not self._process_command(text):
             self.current_line += text
-- 
2.43.0


From af591797ab5c9e73aa530729a90b3cfbb9150d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 15/96] fix: keep the complete info string of code blocks
 translating Markdown

---
 src/mdpo/po2md/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0b32ebe..fe686c7 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -534,8 +534,7 @@ class Po2Md:
             if details['fence_char'] is not None:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
-                if details['lang']:
-                    self.current_line += attribute_to_string(details['lang'])
+                self.current_line += attribute_to_string(details['info'])
             else:
                 self._inside_indented_codeblock = True
                 if self._inside_quoteblock:
-- 
2.43.0


From 749d724763327556af0c13a2ae5a483c9843211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 16/96] fix: use fences longer than the ones inside code blocks
 translating Markdown

---
 src/mdpo/po2md/__init__.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index fe686c7..c1138e2 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -649,16 +649,28 @@ class Po2Md:
             elif self._inside_quoteblock:
                 indent += '> '
             # all the lines of the code are placed inside the container block
+            fence_chars = (details['fence_char'] or '') * 3
             if self.current_line:
                 if self.current_line.endswith('\n'):
                     self.current_line = self.current_line[:-1]
+                lines = self.current_line.split('\n')
+                if fence_chars:
+                    # the fence must be longer than the ones inside the code
+                    while any(
+                        line.lstrip().startswith(fence_chars) for line in lines
+                    ):
+                        fence_chars += details['fence_char']
+                    self.outputlines[-1] = self.outputlines[-1].replace(
+                        details['fence_char'] * 3,
+                        fence_chars,
+                        1,
+                    )
                 self.outputlines.extend(
                     f'{indent}{line}' if line else indent.rstrip()
-                    for line in self.current_line.split('\n')
+                    for line in lines
                 )
                 self.current_line = ''
             if not self._inside_indented_codeblock:
-                fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
                 self._save_current_line()
             # prevent a new line after fenced code blocks inside lists
-- 
2.43.0


From f9e6a91d3c9b4e08d4c320625bf6dd37fb88b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 17/96] fix: keep the text of items before ordered lists nested
 inside unordered lists

---
 src/mdpo/po2md/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c1138e2..59542b7 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -549,10 +549,6 @@ class Po2Md:
         elif block is md4c.BlockType.LI:
             if self._current_list_type[-1][0] == 'ol':
                 # inside OL
-                if len(self._ol_marks) > 1:
-                    self._save_current_msgid()
-                    if not self._ol_marks[-1][0]:
-                        self._save_current_line()
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
                 self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
@@ -574,6 +570,9 @@ class Po2Md:
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
+            if self._current_list_type:
+                self._save_current_msgid()
+                self._save_current_line()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
-- 
2.43.0


From 81f38fdf9038962a20fce008c5333dfff7514c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 18/96] fix: place HTML blocks inside their lists and quotes
 translating Markdown

---
 src/mdpo/po2md/__init__.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 59542b7..ba104ad 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -606,6 +606,10 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
+            if self._inside_liblock and not self._inside_pblock:
+                self._save_current_msgid()
+                if self.current_line:
+                    self._save_current_line()
             self._inside_htmlblock = [True, False]
 
     def leave_block(self, block, details):
@@ -742,14 +746,20 @@ class Po2Md:
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
-            if not self._inside_htmlblock[1]:
-                self.current_line += '\n'
-            else:
+            if self._inside_htmlblock[1]:
+                self.current_line = self.current_line.strip('\n')
+                if self.current_line.strip(' >'):
+                    # HTML next to a command
+                    self.current_line += '\n'
+                    self._save_current_line()
+            elif self._inside_quoteblock and not self._inside_liblock:
                 self.current_line = self.current_line.rstrip('\n')
+                self._save_current_line()
+                self.current_line += '>'
+                self._save_current_line()
+            else:
+                self._save_current_line()
             self._inside_htmlblock[0] = False
-        elif block is md4c.BlockType.DOC and self.current_line.strip():
-            # HTML block at the end of the document
-            self._save_current_line()
 
     def enter_span(self, span, details):
         # raise 'enter_span' event
@@ -1013,6 +1023,12 @@ class Po2Md:
             else:
                 self.current_msgid += text
         elif not self._process_command(text):
+            if text != '\n' and self.current_line[-1:] in {'', '\n'}:
+                # HTML lines are placed inside the container block
+                if self._inside_liblock:
+                    self.current_line += '   ' * len(self._current_list_type)
+                elif self._inside_quoteblock:
+                    self.current_line += '> '
             self.current_line += text
 
     def _append_link_references(self):
-- 
2.43.0


From 19b9cb252df5c671a20b7c850e341ab2cb3ae206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 19/96] fix: keep inside list items the blocks that follow
 nested lists translating Markdown

---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ba104ad..63c1435 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -694,7 +694,9 @@ class Po2Md:
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             self._save_current_msgid()
-            self._inside_liblock = False
+            # the parent item continues after a nested list
+            self._inside_liblock = len(self._current_list_type) > 1
+            self._inside_liblock_first_p = False
             if self.current_line:
                 self._save_current_line()
         elif block is md4c.BlockType.UL:
-- 
2.43.0


From f5844f6481566049d4a26916aa61dd12bd25281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 20/96] fix: place headers inside their list items translating
 Markdown

---
 src/mdpo/po2md/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 63c1435..3de6f1e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -544,6 +544,8 @@ class Po2Md:
                 self._save_current_line()
         elif block is md4c.BlockType.H:
             self._inside_hblock = True
+            if self._inside_liblock and not self.current_line:
+                self.current_line += '   ' * len(self._current_list_type)
             hash_signs = '#' * details['level']
             self.current_line += f'{hash_signs} '
         elif block is md4c.BlockType.LI:
-- 
2.43.0


From 605a7bfb987e75770f40745a6d505bcea4a36351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 21/96] fix: keep together the paragraphs of quotes inside
 lists translating Markdown

---
 src/mdpo/po2md/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 3de6f1e..3a5e8f8 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -641,7 +641,10 @@ class Po2Md:
 
             self._inside_pblock = False
             if self._inside_quoteblock:
-                self.current_line = '>'
+                self.current_line = (
+                    f'{"   " * len(self._current_list_type)}>'
+                    if self._inside_liblock else '>'
+                )
                 self._save_current_line()
 
         elif block is md4c.BlockType.CODE:
@@ -740,7 +743,7 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines and self.outputlines[-1] == '>':
+            if self.outputlines and self.outputlines[-1].strip() == '>':
                 self.outputlines.pop()
             if not self._inside_liblock:
                 self._save_current_line()
-- 
2.43.0


From cce3611c6b497133d8d7549a6aed12afbbd5a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 22/96] fix: extract separately the items of ordered lists
 nested after other ordered lists

---
 src/mdpo/md2po/__init__.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index c055392..fa8cdf8 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -126,7 +126,7 @@ class Md2Po:
         '_inside_aspan',
         '_inside_liblock',
         '_inside_codespan',
-        '_inside_olblock',
+        '_ols_deep',
         '_inside_hblock',
         '_quoteblocks_deep',
         '_codespan_start_index',
@@ -373,7 +373,7 @@ class Md2Po:
         self._inside_pblock = False
         self._inside_liblock = False
         self._inside_hblock = False
-        self._inside_olblock = False
+        self._ols_deep = 0
         self._inside_codespan = False
 
         self._quoteblocks_deep = 0
@@ -583,7 +583,7 @@ class Md2Po:
                 self._inside_hblock,
                 self._uls_deep,
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.P.value
@@ -592,7 +592,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.CODE.value
@@ -600,12 +600,12 @@ class Md2Po:
             self._inside_liblock = True
         elif block is md4c.BlockType.UL:
             self._uls_deep += 1
-            if self._uls_deep > 1 or self._inside_olblock:
+            if self._uls_deep > 1 or self._ols_deep:
                 # changing UL deeep
                 self._save_current_msgid()
             elif not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
@@ -614,7 +614,7 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.H.value
@@ -629,26 +629,26 @@ class Md2Po:
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-                self._inside_olblock,
+                self._ols_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.OL.value
 
-            if self._inside_olblock or self._uls_deep:
+            if self._ols_deep or self._uls_deep:
                 self._save_current_msgid()
-            self._inside_olblock = True
+            self._ols_deep += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
             if not any([
                 self._quoteblocks_deep,
-                self._inside_olblock,
+                self._ols_deep,
                 self._uls_deep,
             ]):
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.HTML.value
         elif block is md4c.BlockType.TABLE and not any([
             self._quoteblocks_deep,
-            self._inside_olblock,
+            self._ols_deep,
             self._uls_deep,
         ]):
             self._current_top_level_block_number += 1
@@ -681,7 +681,7 @@ class Md2Po:
             elif block is md4c.BlockType.QUOTE:
                 self._quoteblocks_deep -= 1
             elif block is md4c.BlockType.OL:
-                self._inside_olblock = False
+                self._ols_deep -= 1
             self._save_current_msgid()
 
     def enter_span(self, span, details):
-- 
2.43.0


From 830a3bd846711d5181077109710d30194a19c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 23/96] fix: apply commands to quotes located after lists

---
 src/mdpo/md2po/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index fa8cdf8..f894de0 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -673,7 +673,8 @@ class Md2Po:
             if block is md4c.BlockType.P:
                 self._inside_pblock = False
             elif block is md4c.BlockType.LI:
-                self._inside_liblock = True
+                # the parent item continues after a nested list
+                self._inside_liblock = self._uls_deep + self._ols_deep > 1
             elif block is md4c.BlockType.UL:
                 self._uls_deep -= 1
             elif block is md4c.BlockType.H:
-- 
2.43.0


From 1fb8f1747ec7202c7ec02a6f4cbe1b561f8ed466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 24/96] fix: apply commands to the next message in extractions
 and translations

---
 src/mdpo/md2po/__init__.py | 14 +++++++++-----
 src/mdpo/po2md/__init__.py |  4 ++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index f894de0..129e49d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -494,11 +494,12 @@ class Md2Po:
                         flags=['fuzzy'] if fuzzy else [],
                     ),
                 )
-        self.disable_next_block = False
-        self.enable_next_block = False
-        self.current_msgid = ''
-        self.current_tcomment = None
-        self.current_msgctxt = None
+            # the commands waiting for a message apply only to that one
+            self.disable_next_block = False
+            self.enable_next_block = False
+            self.current_msgid = ''
+            self.current_tcomment = None
+            self.current_msgctxt = None
 
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
@@ -639,6 +640,9 @@ class Md2Po:
             self._ols_deep += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
+            if self.current_msgid:
+                # the commands do not affect to the text before them
+                self._save_current_msgid()
             if not any([
                 self._quoteblocks_deep,
                 self._ols_deep,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 3a5e8f8..b054ae5 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -410,6 +410,10 @@ class Po2Md:
             return msgstr or msgid
 
     def _save_current_msgid(self):
+        if not self.current_msgid:
+            # the commands waiting for a message still apply to the next one
+            return
+
         # raise 'msgid' event
         if raise_skip_event(
             self.events,
-- 
2.43.0


From d87b2ebc594dae7aba9c4bf0a21b264f597ae302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 25/96] fix: check obsolete, fuzzy and empty entries of PO
 files in po2md and mdpo2html CLIs

---
 src/mdpo/mdpo2html/__main__.py | 11 ++++++++---
 src/mdpo/po2md/__main__.py     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index a5d42e6..0bea1db 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -129,7 +129,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -152,7 +152,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -169,8 +169,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4b271ea..4438792 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -153,7 +153,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -176,7 +176,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -193,8 +193,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From 9d047ee5d2976c39e96715ec2efaa29532b6f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 26/96] fix: keep the order of PO files passed to po2md and
 mdpo2html CLIs

---
 src/mdpo/mdpo2html/__main__.py | 3 ++-
 src/mdpo/po2md/__main__.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 0bea1db..4a3ba01 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -93,7 +93,8 @@ def parse_options(args):
         opts.command_aliases,
     )
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    # flatten keeping the order, as the last translations take precedence
+    opts.pofiles = list(dict.fromkeys(itertools.chain(*opts.pofiles)))
 
     return opts
 
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4438792..8f306c4 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -111,7 +111,8 @@ def parse_options(args):
     )
     opts.events = parse_event_argument(opts.events)
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    # flatten keeping the order, as the last translations take precedence
+    opts.pofiles = list(dict.fromkeys(itertools.chain(*opts.pofiles)))
 
     return opts
 
-- 
2.43.0


From 62ba989f4bbff153b420c4fc7306825115bb4e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 27/96] fix: remove all the obsolete entries found again
 extracting messages

---
 src/mdpo/po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 61ebb8b..88a581e 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -63,7 +63,7 @@ def mark_not_found_entries_as_obsoletes(
         entries (list): Entries to search against.
     """
     obsolete = False
-    for entry in pofile:
+    for entry in list(pofile):  # some entries could be removed
         if not find_entry_in_entries(
             entry,
             entries,
-- 
2.43.0


From ddf4159d1a5c52448316c978569e07d529200873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 28/96] fix: do not mark as obsolete the found entries with
 other translation

---
 src/mdpo/po.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 88a581e..31112d0 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -67,13 +67,15 @@ def mark_not_found_entries_as_obsoletes(
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
                 entry,
                 entries,
                 compare_obsolete=False,
-                compare_occurrences=False,
+                compare_msgstr=False,
+            compare_occurrences=False,
             )
             if _equal_not_obsolete_found:
                 pofile.remove(entry)
@@ -98,13 +100,15 @@ def remove_not_found_entries(pofile, entries):
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
                 entry,
                 entries,
                 compare_obsolete=False,
-                compare_occurrences=False,
+                compare_msgstr=False,
+            compare_occurrences=False,
             )
             if not _equal_not_obsolete_found:
                 entries_to_remove.append(entry)
-- 
2.43.0


From 5074803f4e4c91f3b5c4278e913c1d7d3bb6952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 29/96] fix: distinguish messages with context '0' from
 messages without context

---
 src/mdpo/polib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/polib.py b/src/mdpo/polib.py
index cacaccb..8261cbb 100644
--- a/src/mdpo/polib.py
+++ b/src/mdpo/polib.py
@@ -38,8 +38,8 @@ def poentry__cmp__(
             return 1
         if occ1 < occ2:
             return -1
-    msgctxt = self.msgctxt or '0'
-    othermsgctxt = other.msgctxt or '0'
+    msgctxt = self.msgctxt or ''
+    othermsgctxt = other.msgctxt or ''
     if msgctxt > othermsgctxt:
         return 1
     if msgctxt < othermsgctxt:
-- 
2.43.0


From 0ac2db6fd34d8792d0969dffdc2f9bc6f13310c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 30/96] fix: do not apply the commands of a file to the next
 ones

---
 src/mdpo/md2po/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 129e49d..130cac0 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1050,6 +1050,7 @@ class Md2Po:
         if hasattr(self, 'content'):
             _parse(self.content)
         else:
+            include_codeblocks = self.include_codeblocks
             for filepath in self.filepaths:
                 with open(filepath, encoding=md_encoding) as f:
                     self.content = f.read()
@@ -1060,6 +1061,9 @@ class Md2Po:
                 self.disable_next_block = False
                 self.disable = False
                 self.enable_next_block = False
+                self.current_tcomment = None
+                self.current_msgctxt = None
+                self.include_codeblocks = include_codeblocks
                 self.include_next_codeblock = False
                 self.disable_next_codeblock = False
                 self.link_references = None
-- 
2.43.0


From 988e35f6f6cbab0543c60c3b9ef9fd24a4097cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 31/96] fix: wrap PO files with the width passed to md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 39a4554..029d628 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -154,7 +154,6 @@ def markdown_to_pofile_to_markdown(
                 command_aliases=command_aliases,
                 debug=debug,
                 location=location,
-                wrapwidth=po_wrapwidth,
                 include_codeblocks=include_codeblocks,
                 _check_saved_files_changed=_check_saved_files_changed,
                 **(md2po_kwargs or {}),
@@ -164,6 +163,7 @@ def markdown_to_pofile_to_markdown(
                 po_filepath=po_filepath,
                 po_encoding=po_encoding,
                 md_encoding=md_encoding,
+                wrapwidth=po_wrapwidth,
             )
             if _check_saved_files_changed and _saved_files_changed is False:
                 _saved_files_changed = md2po._saved_files_changed
-- 
2.43.0


From 7af884ca25d282f6224e1f963ea93f39a4b1b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 32/96] fix: parse Markdown with the same extensions extracting
 and translating in md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 029d628..3b09195 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -176,7 +176,7 @@ def markdown_to_pofile_to_markdown(
                 po_encoding=po_encoding,
                 wrapwidth=md_wrapwidth,
                 _check_saved_files_changed=_check_saved_files_changed,
-                **(po2md_kwargs or {}),
+                **{'extensions': extensions, **(po2md_kwargs or {})},
             )
             po2md.translate(
                 filepath,
-- 
2.43.0


From fc06dd2246d4cc7f0b1afed41a0026900ebf2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 33/96] fix: accept contexts without translations translating
 HTML

---
 src/mdpo/mdpo2html/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9afd363..1d2afc2 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -261,9 +261,9 @@ class MdPo2HTML(HTMLParser):
             )
         else:
             if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt[
-                    self.current_msgctxt
-                ].get(_current_replacement)
+                replacement = self.translations_with_msgctxt.get(
+                    self.current_msgctxt, {},
+                ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
             if not replacement:
-- 
2.43.0


From 35b28471a1398f3adf10f88ba6b0fb9bcfe10c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 34/96] fix: do not discard translations found empty in other
 PO files

---
 src/mdpo/po.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 31112d0..9954b9e 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -132,6 +132,8 @@ def pofiles_to_unique_translations_dicts(pofiles):
     translations, translations_with_msgctxt = {}, {}
     for pofile in pofiles:
         for entry in pofile:
+            if not entry.msgstr:
+                continue
             if entry.msgctxt:
                 if entry.msgctxt not in translations_with_msgctxt:
                     translations_with_msgctxt[entry.msgctxt] = {}
-- 
2.43.0


From a7ced4623ae8c7cc47361d8600ae37632ca03f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 35/96] fix: extract code blocks separately from the text of
 their list items

---
 src/mdpo/md2po/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 130cac0..67fb862 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -590,6 +590,9 @@ class Md2Po:
                 self._current_top_level_block_type = md4c.BlockType.P.value
         elif block is md4c.BlockType.CODE:
             self._inside_codeblock = True
+            if self.current_msgid:
+                # text of the list item located before the code
+                self._save_current_msgid()
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-- 
2.43.0


From b8a5ddf102aeb6b35862da58e51076156ff9982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 36/96] fix: place inside its list item the text that follows
 code blocks translating Markdown

---
 src/mdpo/po2md/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index b054ae5..ad91b72 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -484,6 +484,14 @@ class Po2Md:
                     translation += '\n'
 
         if self._inside_codeblock or translation.rstrip('\n'):
+            if (
+                self._inside_liblock
+                and not self.current_line
+                and not self._inside_pblock
+                and not self._inside_codeblock
+            ):
+                # text of a tight list item located after other blocks
+                self.current_line += '   ' * len(self._current_list_type)
             self.current_line += translation
 
         self.current_msgid = ''
-- 
2.43.0


From 393262f476e3cc559561f09d9e89c76236d6848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 37/96] fix: do not extract titles from disabled content in
 plain text mode

---
 src/mdpo/md2po/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 67fb862..5aa5f9b 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -698,7 +698,10 @@ class Md2Po:
             return
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
-                details['title']:
+                details['title'] and (
+                    (not self.disable_next_block and not self.disable)
+                    or self.enable_next_block
+        ):
             self._save_msgid(attribute_to_string(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
-- 
2.43.0


From a50bc723bc2922c71d3535d8bedd62c18e4b5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 38/96] fix: include the X-Generator header in plain text mode
 and do not change passed metadata

---
 src/mdpo/md2po/__init__.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 5aa5f9b..82f5783 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -239,7 +239,12 @@ class Md2Po:
             False if kwargs.get('_check_saved_files_changed') else None
         )
 
-        self.metadata = kwargs.get('metadata') or {}
+        self.metadata = dict(kwargs.get('metadata') or {})
+
+        if kwargs.get('xheader', False):
+            from mdpo.compat import importlib_metadata
+            version = importlib_metadata.version('mdpo')
+            self.metadata.update({'X-Generator': f'mdpo v{version}'})
 
         self.location = kwargs.get('location', True)
         # "top level" here because blocks inside blocks are not taken into
@@ -275,13 +280,6 @@ class Md2Po:
                 self.code_end_string,
             )
 
-            _include_xheader = kwargs.get('xheader', False)
-
-            if _include_xheader:
-                from mdpo.compat import importlib_metadata
-                version = importlib_metadata.version('mdpo')
-                self.metadata.update({'X-Generator': f'mdpo v{version}'})
-
             self._enterspan_replacer = {
                 md4c.SpanType.STRONG.value: self.bold_start_string,
                 md4c.SpanType.EM.value: self.italic_start_string,
-- 
2.43.0


From 1cf87cb6262da1952c1f9ed727f6ef3bdc64d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 39/96] fix: do not apply pending comments and contexts to link
 references

---
 src/mdpo/md2po/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 82f5783..45b1400 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -967,8 +967,11 @@ class Md2Po:
 
     def _dump_link_references(self):
         if self.link_references:
+            # pending commands are not related with link references
             self.disable_next_block = False
             self.disable = False
+            self.current_tcomment = None
+            self.current_msgctxt = None
 
             # 'link_reference' event
             pre_events = self.events.get('link_reference')
-- 
2.43.0


From 9924991c111881ba727c96fc22ff47de202e8dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 40/96] fix: use the default msgstr for titles in plain text
 mode

---
 src/mdpo/md2po/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 45b1400..7c106d6 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -700,7 +700,10 @@ class Md2Po:
                     (not self.disable_next_block and not self.disable)
                     or self.enable_next_block
         ):
-            self._save_msgid(attribute_to_string(details['title']))
+            self._save_msgid(
+                attribute_to_string(details['title']),
+                msgstr=self.msgstr,
+            )
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From a9151ea0a39dba4d303ac19d88d652b1123dd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:28 +0000
Subject: [PATCH 41/96] fix: apply the commands before included messages only
 to them translating Markdown

---
 src/mdpo/po2md/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ad91b72..6ec636e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -363,6 +363,12 @@ class Po2Md:
                 self.current_msgctxt = comment
             elif mdpo_command == 'mdpo-translator':
                 self.current_tcomment = comment
+            elif mdpo_command == 'mdpo-include':
+                # the commands waiting for a message apply to this one
+                self.disable_next_block = False
+                self.enable_next_block = False
+                self.current_msgctxt = None
+                self.current_tcomment = None
 
     def _process_command(self, text):
         original_command, comment = parse_mdpo_html_command(text)
-- 
2.43.0


From f0c00a8ed3febd8cd88c1c42c8e1b7649991c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:47 +0000
Subject: [PATCH 42/96] fix: separate tables from the next blocks of their
 quotes translating Markdown

---
 src/mdpo/po2md/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6ec636e..e8d8533 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -767,7 +767,11 @@ class Po2Md:
                 self._save_current_line()
             self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
-            if not self._inside_quoteblock and not self._current_list_type:
+            if self._inside_quoteblock:
+                # separate from the next block of the quote
+                self.current_line = '   ' * len(self._current_list_type) + '>'
+                self._save_current_line()
+            elif not self._current_list_type:
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
-- 
2.43.0


From cd8e83271c5a4b9d1f368633df48fc53d9abd187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 43/96] fix: separate tables from the next blocks of their list
 items translating Markdown

---
 src/mdpo/po2md/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e8d8533..e10b3ee 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -109,6 +109,7 @@ class Po2Md:
         '_inside_pblock',
         '_inside_liblock',
         '_inside_liblock_first_p',
+        '_inside_liblock_after_table',
         '_inside_hblock',
         '_inside_aspan',
         '_inside_codespan',
@@ -294,6 +295,7 @@ class Po2Md:
         self._inside_liblock = False
         # first li block paragraph (li block "title")
         self._inside_liblock_first_p = False
+        self._inside_liblock_after_table = False
 
         self._inside_codespan = False
         self._codespan_start_index = None
@@ -537,6 +539,13 @@ class Po2Md:
             }
         ):
             self.current_line += '> '
+        if self._inside_liblock_after_table:
+            if not self._inside_quoteblock and block in {
+                md4c.BlockType.H, md4c.BlockType.CODE, md4c.BlockType.HTML,
+            }:
+                # separate from the previous table of the list item
+                self._save_current_line()
+            self._inside_liblock_after_table = False
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
@@ -773,6 +782,8 @@ class Po2Md:
                 self._save_current_line()
             elif not self._current_list_type:
                 self._save_current_line()
+            else:
+                self._inside_liblock_after_table = True
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
             if self._inside_htmlblock[1]:
-- 
2.43.0


From d192293f924d5e30c86df2a9ccd2d9f9a81b4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 44/96] fix: keep inside quotes the HTML next to commands
 translating Markdown

---
 src/mdpo/po2md/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e10b3ee..a64f218 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -790,7 +790,11 @@ class Po2Md:
                 self.current_line = self.current_line.strip('\n')
                 if self.current_line.strip(' >'):
                     # HTML next to a command
-                    self.current_line += '\n'
+                    if self._inside_quoteblock and not self._inside_liblock:
+                        self._save_current_line()
+                        self.current_line += '>'
+                    else:
+                        self.current_line += '\n'
                     self._save_current_line()
             elif self._inside_quoteblock and not self._inside_liblock:
                 self.current_line = self.current_line.rstrip('\n')
@@ -1063,6 +1067,12 @@ class Po2Md:
             else:
                 self.current_msgid += text
         elif not self._process_command(text):
+            if (
+                text == '\n'
+                and self._inside_htmlblock[1]
+                and not self.current_line.strip(' >')
+            ):
+                return  # line of a command, which is not written
             if text != '\n' and self.current_line[-1:] in {'', '\n'}:
                 # HTML lines are placed inside the container block
                 if self._inside_liblock:
-- 
2.43.0


From 69e1b316d0c91bd436d3ac4ea6c76f7f93e98723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 45/96] fix: do not remove from PO files entries of other
 context

---
 src/mdpo/po.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 9954b9e..3870c7a 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -48,6 +48,14 @@ def find_entry_in_entries(entry, entries, **kwargs):
     return response
 
 
+def _remove_entry(pofile, entry):
+    """Remove an entry from a PO file, and not other that compares equal."""
+    for i, other in enumerate(pofile):
+        if other is entry:
+            del pofile[i]
+            break
+
+
 def mark_not_found_entries_as_obsoletes(
     pofile,
     entries,
@@ -78,7 +86,7 @@ def mark_not_found_entries_as_obsoletes(
             compare_occurrences=False,
             )
             if _equal_not_obsolete_found:
-                pofile.remove(entry)
+                _remove_entry(pofile, entry)
             else:
                 entry.obsolete = True
                 obsolete = True
@@ -113,7 +121,7 @@ def remove_not_found_entries(pofile, entries):
             if not _equal_not_obsolete_found:
                 entries_to_remove.append(entry)
     for entry in entries_to_remove:
-        pofile.remove(entry)
+        _remove_entry(pofile, entry)
 
 
 def pofiles_to_unique_translations_dicts(pofiles):
-- 
2.43.0


From a815586ee45c8402dfba4a6a944c727fe7abd75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 46/96] fix: translate without the latex math extension in
 po2md

---
 src/mdpo/po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a64f218..6a55a7c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -265,9 +265,9 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
-        if 'latex_math_spans' in self.extensions:
-            self._inside_latexmath_display = False
+        self._inside_latexmath_display = False
 
+        if 'latex_math_spans' in self.extensions:
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
-- 
2.43.0


From 6ccf33f6c712f3a74c772ac804076b07326043b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 47/96] fix: do not decode entities twice translating HTML

---
 src/mdpo/mdpo2html/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 1d2afc2..2343cc8 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -1,7 +1,6 @@
 """HTML-produced-from-Markdown files translator using PO files as reference."""
 
 import contextlib
-import html
 import re
 import warnings
 from collections import OrderedDict
@@ -246,8 +245,6 @@ class MdPo2HTML(HTMLParser):
                     )
                     raw_html_template += f'<{handled}{attrs_repr}/>'
 
-        _current_replacement = html.unescape(_current_replacement)
-
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
             replacement = _current_replacement
-- 
2.43.0


From 68505779682fe87f6a54c682af9fcb5e8b4b5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 48/96] fix: translate the contents located after void elements
 without slash in HTML

---
 src/mdpo/mdpo2html/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 2343cc8..7be7522 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -25,6 +25,7 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+VOID_TAGS = frozenset(['br', 'hr', 'img'])
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -308,7 +309,10 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
-        if tag in self.ignore_grouper_tags:
+        if tag in VOID_TAGS:
+            # void elements do not have end tags
+            self.handle_startendtag(tag, attrs)
+        elif tag in self.ignore_grouper_tags:
             self.context.append(tag)
             attrs_repr = (
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
-- 
2.43.0


From 8f3c3342bdd463a489b41cc98be79bca4331331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 49/96] fix: keep the markup at the ends of the blocks and the
 braces translating HTML

---
 src/mdpo/mdpo2html/__init__.py | 59 +++++++++++++---------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 7be7522..1b4fd45 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -152,7 +152,10 @@ class MdPo2HTML(HTMLParser):
     def _process_replacer(self):
 
         template_tags = []
-        raw_html_template, _current_replacement = ('', '')
+        _current_replacement = ''
+
+        # HTML located before and after the inline content to replace
+        html_before, html_after, inside_content = ('', '', False)
 
         _current_link_target = ''
 
@@ -168,34 +171,21 @@ class MdPo2HTML(HTMLParser):
                     f' {_html_attrs_to_str(attrs)}' if attrs else ''
                 )
 
+                markup = ''
                 if handled in self.code_tags:
                     _current_replacement += '`'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.link_tags:
                     title, href = attrs.get('title'), attrs['href']
                     _current_link_target += f'({href}'
                     if title:
                         _current_link_target += f' "{title}"'
                     _current_link_target += ')'
-
-                    raw_html_template += f'<{handled}'
-
-                    for attr in attrs:
-                        if attr in ['title', 'href']:
-                            raw_html_template += f' {attr}="{{}}"'
-                        #     These attributes are not included in output
-                    # if attrs_except_href_title:
-                    # raw_html_template += _html_attrs_to_str(
-                    #     attrs_except_href_title) + '>'
-                    raw_html_template += '>'
                 else:
-                    raw_html_template += f'<{handled}{attrs_repr}>'
+                    markup = f'<{handled}{attrs_repr}>'
                 _last_start_tag = handled
                 if _last_start_tag == 'code':
                     _inside_code = True
@@ -205,11 +195,11 @@ class MdPo2HTML(HTMLParser):
                     while '  ' in handled:
                         handled = handled.replace('  ', ' ')
 
+                markup = ''
                 if all((ch in ALIGNMENT_CHARS) for ch in handled):
-                    raw_html_template += handled
+                    markup = handled
                     _current_replacement += handled
                 else:
-                    raw_html_template += '{}'
                     if _current_link_target:
                         _current_replacement += (
                             f'[{handled}]{_current_link_target}'
@@ -218,18 +208,20 @@ class MdPo2HTML(HTMLParser):
                     else:
                         _current_replacement += handled
             elif handle == 'end':
-                raw_html_template += f'</{handled}>'
+                markup = ''
                 if handled in self.code_tags:
                     _current_replacement += '`'
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
+                elif handled not in self.link_tags:
+                    markup = f'</{handled}>'
                 _last_end_tag = handled
                 if _last_end_tag == 'code':
                     _inside_code = False
             elif handle == 'comment':
-                raw_html_template += f'<!--{handled}-->'
+                markup = f'<!--{handled}-->'
             elif handle == 'startend':
                 if handled in self.image_tags:
                     alt, src = attrs.get('alt', ''), attrs['src']
@@ -238,13 +230,20 @@ class MdPo2HTML(HTMLParser):
                     if title:
                         _current_replacement += f' "{title}"'
                     _current_replacement += ')'
-
-                    raw_html_template += '{}'
+                    markup = ''
                 else:
                     attrs_repr = (
                         f' {_html_attrs_to_str(attrs)}' if attrs else ''
                     )
-                    raw_html_template += f'<{handled}{attrs_repr}/>'
+                    markup = f'<{handled}{attrs_repr}/>'
+
+            if not markup:
+                inside_content = True
+                html_after = ''
+            elif inside_content:
+                html_after += markup
+            else:
+                html_before += markup
 
         if (self.disable and not self.enable_next_block) \
                 or self.disable_next_block:
@@ -274,25 +273,13 @@ class MdPo2HTML(HTMLParser):
                         if tag not in template_tags:
                             template_tags.append(tag)
 
-        html_before_first_replacement = raw_html_template.split('{')[0]
-        html_after_last_replacement = raw_html_template.split('}')[-1]
-        for tags_group in [self.bold_tags, self.italic_tags, self.code_tags]:
-            for tag in tags_group:
-                html_before_first_replacement = \
-                    html_before_first_replacement.split(f'<{tag}>')[0]
-                html_after_last_replacement = \
-                    html_after_last_replacement.split(f'</{tag}>')[-1]
-            html_before_first_replacement = \
-                html_before_first_replacement.split('<a href="')[0]
-
         html_inner = '\n'.join(
             self.html_renderer.parse(replacement).split('\n')[:-1],
         )
         html_inner = '>'.join(html_inner.split('>')[1:])
         html_inner = '<'.join(html_inner.split('<')[:-1])
 
-        html_template = html_before_first_replacement + html_inner + \
-            html_after_last_replacement
+        html_template = html_before + html_inner + html_after
 
         if self.merge_adjacent_markups:
             html_template = self._merge_adyacent_tags(
-- 
2.43.0


From 22485d84cd8cf4f3c30d329ac1a648bd087c6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 50/96] fix: keep the markup inside links and the escapes of
 titles translating HTML

---
 src/mdpo/mdpo2html/__init__.py | 46 +++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 1b4fd45..3343f23 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -26,6 +26,7 @@ PROCESS_REPLACER_TAGS = [
     'h4', 'h5', 'h6', 'td', 'th',
 ]
 VOID_TAGS = frozenset(['br', 'hr', 'img'])
+AUTOLINK_REGEX = re.compile(r'[A-Za-z][A-Za-z0-9+.-]+:[^\s<>]*$')
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -157,7 +158,8 @@ class MdPo2HTML(HTMLParser):
         # HTML located before and after the inline content to replace
         html_before, html_after, inside_content = ('', '', False)
 
-        _current_link_target = ''
+        # attributes and start of the text of the links being processed
+        _current_links = []
 
         _last_start_tag = None
         _last_end_tag = None
@@ -179,11 +181,11 @@ class MdPo2HTML(HTMLParser):
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
                 elif handled in self.link_tags:
-                    title, href = attrs.get('title'), attrs['href']
-                    _current_link_target += f'({href}'
-                    if title:
-                        _current_link_target += f' "{title}"'
-                    _current_link_target += ')'
+                    _current_links.append((attrs, len(_current_replacement)))
+                    if 'href' in attrs:
+                        _current_replacement += '['
+                    else:
+                        markup = f'<{handled}{attrs_repr}>'
                 else:
                     markup = f'<{handled}{attrs_repr}>'
                 _last_start_tag = handled
@@ -200,13 +202,7 @@ class MdPo2HTML(HTMLParser):
                     markup = handled
                     _current_replacement += handled
                 else:
-                    if _current_link_target:
-                        _current_replacement += (
-                            f'[{handled}]{_current_link_target}'
-                        )
-                        _current_link_target = ''
-                    else:
-                        _current_replacement += handled
+                    _current_replacement += handled
             elif handle == 'end':
                 markup = ''
                 if handled in self.code_tags:
@@ -215,7 +211,27 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
-                elif handled not in self.link_tags:
+                elif handled in self.link_tags and _current_links:
+                    link_attrs, start = _current_links.pop()
+                    if 'href' in link_attrs:
+                        href = link_attrs['href']
+                        title = link_attrs.get('title')
+                        text = _current_replacement[start + 1:]
+                        if (
+                            text == href and not title
+                            and AUTOLINK_REGEX.match(href)
+                        ):
+                            _current_replacement = (
+                                f'{_current_replacement[:start]}<{href}>'
+                            )
+                        else:
+                            title_part = (
+                                f' "{polib.escape(title)}"' if title else ''
+                            )
+                            _current_replacement += f']({href}{title_part})'
+                    else:
+                        markup = f'</{handled}>'
+                else:
                     markup = f'</{handled}>'
                 _last_end_tag = handled
                 if _last_end_tag == 'code':
@@ -228,7 +244,7 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
                     if title:
-                        _current_replacement += f' "{title}"'
+                        _current_replacement += f' "{polib.escape(title)}"'
                     _current_replacement += ')'
                     markup = ''
                 else:
-- 
2.43.0


From d5a9a84473840fc2dd95721122af26be3cc4ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:11 +0000
Subject: [PATCH 51/96] fix: apply the next block commands like the other
 programs translating HTML

---
 src/mdpo/mdpo2html/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 3343f23..c2ca551 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -261,8 +261,10 @@ class MdPo2HTML(HTMLParser):
             else:
                 html_before += markup
 
-        if (self.disable and not self.enable_next_block) \
-                or self.disable_next_block:
+        if (
+            (self.disable or self.disable_next_block)
+            and not self.enable_next_block
+        ):
             replacement = _current_replacement
 
             self.disabled_entries.append(
-- 
2.43.0


From af2582ca85da0b32c3caf08dab68881880ffbbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 52/96] fix: translate ordered and nested lists in HTML

---
 src/mdpo/mdpo2html/__init__.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index c2ca551..ff2aea4 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -25,6 +25,9 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+CONTAINER_TAGS = [
+    'ul', 'ol', 'blockquote', 'table', 'thead', 'tbody', 'tr',
+]
 VOID_TAGS = frozenset(['br', 'hr', 'img'])
 AUTOLINK_REGEX = re.compile(r'[A-Za-z][A-Za-z0-9+.-]+:[^\s<>]*$')
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
@@ -261,6 +264,12 @@ class MdPo2HTML(HTMLParser):
             else:
                 html_before += markup
 
+        if not inside_content:
+            # only the markup of blocks with other blocks inside
+            self.output += html_before
+            self.context = []
+            return
+
         if (
             (self.disable or self.disable_next_block)
             and not self.enable_next_block
@@ -314,6 +323,14 @@ class MdPo2HTML(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
 
+        if self.replacer and (
+            tag in CONTAINER_TAGS
+            or tag in PROCESS_REPLACER_TAGS
+            or tag in self.ignore_grouper_tags
+        ):
+            # block inside another one, like nested lists
+            self._process_replacer()
+
         if tag in VOID_TAGS:
             # void elements do not have end tags
             self.handle_startendtag(tag, attrs)
@@ -325,8 +342,7 @@ class MdPo2HTML(HTMLParser):
             self.output += f'<{tag}{attrs_repr}>'
         elif (
             (self.context and self.context[0] in self.ignore_grouper_tags)
-            or (tag == 'ul' and not self.context)
-            or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
+            or tag in CONTAINER_TAGS
         ):
             attrs_repr = (
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
@@ -355,7 +371,7 @@ class MdPo2HTML(HTMLParser):
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-        elif tag in ['ul', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif tag in CONTAINER_TAGS:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
-- 
2.43.0


From 3891948a1cc643dc087e02538dc246a5d40660ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 53/96] fix: keep code blocks translating HTML

---
 src/mdpo/mdpo2html/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index ff2aea4..4079cc5 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -119,7 +119,8 @@ class MdPo2HTML(HTMLParser):
         # image markup
         self.image_tags = image_tags
 
-        self.ignore_grouper_tags = ignore_grouper_tags
+        # code blocks are never translated
+        self.ignore_grouper_tags = frozenset([*ignore_grouper_tags, 'pre'])
 
         self.markup_tags = []
         self.markup_tags.extend(self.code_tags)
-- 
2.43.0


From 425f8c34c683ff5bbde42d79c515a0412bc95e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 54/96] fix: escape attributes and contents not translated in
 HTML

---
 src/mdpo/mdpo2html/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 4079cc5..9fcf655 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -1,6 +1,7 @@
 """HTML-produced-from-Markdown files translator using PO files as reference."""
 
 import contextlib
+import html
 import re
 import warnings
 from collections import OrderedDict
@@ -46,7 +47,7 @@ def _html_attrs_to_str(attrs):
     for name, value in attrs.items():
         response += name
         if value is not None:
-            response += f'="{value}"'
+            response += f'="{html.escape(value)}"'
         response += ' '
     return response.rstrip(' ')
 
@@ -131,7 +132,7 @@ class MdPo2HTML(HTMLParser):
 
         super().__init__()
 
-    def _merge_adyacent_tags(self, html, template_tags):
+    def _merge_adyacent_tags(self, html_text, template_tags):
         for tags_group in [self.bold_tags, self.italic_tags]:
             regexes = []
             for tag in tags_group:
@@ -145,9 +146,9 @@ class MdPo2HTML(HTMLParser):
                         regexes.append(regex)
 
             for regex in regexes:
-                html = re.sub(regex, ' ', html)
+                html_text = re.sub(regex, ' ', html_text)
 
-        return html
+        return html_text
 
     def _remove_lastline_from_output_if_empty(self):
         split_output = self.output.split('\n')
@@ -397,7 +398,9 @@ class MdPo2HTML(HTMLParser):
                 )
                 or not self.context
             ):
-                self.output += data
+                # the content of elements like `script` is not escaped
+                self.output += data if self.cdata_elem \
+                    else html.escape(data, quote=False)
             else:
                 if self.context:
                     data = data.replace('\n', ' ')
-- 
2.43.0


From 54279841147d3ce114cf9e291f9e413e899b928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 55/96] fix: keep elements outside blocks, declarations and the
 end of the content translating HTML

---
 src/mdpo/mdpo2html/__init__.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9fcf655..9d7265c 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -350,6 +350,9 @@ class MdPo2HTML(HTMLParser):
                 f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
             )
             self.output += f'<{tag}{attrs_repr}>'
+        elif not self.replacer and tag not in PROCESS_REPLACER_TAGS:
+            # element outside the blocks
+            self.output += self.get_starttag_text()
         else:
             if tag == 'a' and self.real_link_reference_targets is None:
                 # extend translations to populate link reference msgid-msgstrs
@@ -373,7 +376,7 @@ class MdPo2HTML(HTMLParser):
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-        elif tag in CONTAINER_TAGS:
+        elif tag in CONTAINER_TAGS or not self.replacer:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
@@ -406,6 +409,12 @@ class MdPo2HTML(HTMLParser):
                     data = data.replace('\n', ' ')
                 self.replacer.append(('data', data, None))
 
+    def handle_decl(self, decl):
+        self.output += f'<!{decl}>'
+
+    def handle_pi(self, data):
+        self.output += f'<?{data}>'
+
     def handle_comment(self, data):
 
         if self.replacer:
@@ -460,6 +469,10 @@ class MdPo2HTML(HTMLParser):
         )
 
         self.feed(content)
+        self.close()
+        if self.replacer:
+            # last block without end tag
+            self._process_replacer()
 
         if save:
             if self._saved_files_changed is False:
-- 
2.43.0


From eaf63726163bdb7b1106170412e23be76debdd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 56/96] fix: solve titles of link references and references in
 contexts translating HTML

---
 src/mdpo/md.py                 |  8 ++++++--
 src/mdpo/mdpo2html/__init__.py | 11 ++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 033fade..3e72332 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -48,6 +48,10 @@ def solve_link_reference_targets(translations):
     link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
+    def link_target(link_reference):
+        _, href, title = link_reference
+        return f'{href} "{title}"' if title else href
+
     solutions = {}
 
     # dictionary with defined link references and their targets
@@ -97,7 +101,7 @@ def solve_link_reference_targets(translations):
                     )
                     replacement = (
                         f'[{msgid_linkr_group[0]}]'
-                        f'({link_reference_text_targets[0][1]})'
+                        f'({link_target(link_reference_text_targets[0])})'
                     )
 
                     if new_msgid is None:
@@ -119,7 +123,7 @@ def solve_link_reference_targets(translations):
                     )
                     replacement = (
                         f'[{msgstr_linkr_group[0]}]'
-                        f'({link_reference_text_targets[1][1]})'
+                        f'({link_target(link_reference_text_targets[1])})'
                     )
 
                     if new_msgstr is None:
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9d7265c..1d272ed 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -15,7 +15,7 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import solve_link_reference_targets
+from mdpo.md import LINK_REFERENCE_REGEX, solve_link_reference_targets
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
@@ -362,6 +362,15 @@ class MdPo2HTML(HTMLParser):
                 )
                 self.translations.update(self.real_link_reference_targets)
 
+                link_references = {
+                    msgid: msgstr for msgid, msgstr in self.translations.items()
+                    if re.match(LINK_REFERENCE_REGEX, msgid)
+                }
+                for translations in self.translations_with_msgctxt.values():
+                    translations.update(solve_link_reference_targets(
+                        {**link_references, **translations},
+                    ))
+
             self.replacer.append(('start', tag, OrderedDict(attrs)))
             self.context.append(tag)
 
-- 
2.43.0


From 8cf1d54c27823746cd381f7574b30d7100f1cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 57/96] fix: report all the obsolete and empty entries of PO
 files without blank lines between entries

---
 src/mdpo/po.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 3870c7a..68f09af 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -254,14 +254,23 @@ def parse_obsoletes_from_content_lines(
     Returns:
         list(str): error locations found.
     """
-    inside_obsolete_message = False
+    inside_obsolete_message, msgid_found = (False, False)
     for i, line in enumerate(content_lines):
-        if not inside_obsolete_message and line[0:3] == b'#~ ':
-            inside_obsolete_message = True
+        if line[0:3] != b'#~ ':
+            inside_obsolete_message = False
+            continue
+
+        is_msgid = line.startswith(b'#~ msgid ')
+        if (
+            not inside_obsolete_message
+            # not separated from the previous message by an empty line
+            or line.startswith(b'#~ msgctxt ')
+            or (is_msgid and msgid_found)
+        ):
+            inside_obsolete_message, msgid_found = (True, False)
 
             yield f'{location_prefix}{i + 1}'
-        elif inside_obsolete_message and line[0:3] != b'#~ ':
-            inside_obsolete_message = False
+        msgid_found = msgid_found or is_msgid
 
 
 def parse_fuzzy_from_content_lines(
@@ -301,5 +310,7 @@ def parse_empty_msgstr_from_content_lines(
             line.startswith(b'msgstr ""') or line.startswith(b'#~ msgstr ""')
         ) and not content_lines[i - 1].startswith(b'msgid ""'):
             next_i = i + 1
-            if next_i == n_lines or not content_lines[next_i].strip():
+            if next_i == n_lines or not content_lines[next_i].startswith(
+                (b'"', b'#~ "'),
+            ):
                 yield f'{location_prefix}{next_i}'
-- 
2.43.0


From 4d4b17de2f31a88a07a2b121e11a43940b02b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 58/96] fix: rewrite output files whose previous content can
 not be decoded

---
 src/mdpo/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 6ba8f2e..c57c316 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -123,9 +123,11 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
             f.write(content)
         return True
 
-    with open(filepath, encoding=encoding) as f:
-        prev_content = f.read()
-    changed = prev_content != content
+    try:
+        with open(filepath, encoding=encoding) as f:
+            changed = f.read() != content
+    except UnicodeError:  # previous content written using other encoding
+        changed = True
     if changed:
         with open(filepath, 'w', encoding=encoding) as f:
             f.write(content)
-- 
2.43.0


From fe97e1b75db8b84355dcb6c664f78f48f28809b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 59/96] fix: unescape all the separators of the key in escaped
 pairs

---
 src/mdpo/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index c0c4939..dcdd426 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -106,7 +106,11 @@ def parse_escaped_pair(value, separator=':'):
     if len(splits) == 1:
         raise ValueError()
     return (
-        (splits[0] + splits[1][0]).replace(rf'\\{separator}', separator, 1),
+        re.sub(
+            r'\\{1,2}' + re.escape(separator),
+            separator,
+            splits[0] + splits[1][0],
+        ),
         splits[2].lstrip(),
     )
 
-- 
2.43.0


From c354cd3d4722bde9c4ee22aa8e31778c1ce7b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 60/96] fix: reject signed nan values as wrap widths

---
 src/mdpo/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index dcdd426..1a09628 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -152,10 +152,10 @@ def parse_strint_0_inf(value):
     Args:
         value (str): Value to parse.
     """
-    if isinstance(value, str) and value.lower() == 'nan':
+    num = float(value)
+    if num != num:  # not a number
         raise ValueError(f"invalid strict converting of '{value}' to number")
 
-    num = float(value)
     try:
         return int(num) if num > 0 else INFINITE_WRAPWIDTH
     except OverflowError:  # cannot convert float infinity to integer
-- 
2.43.0


From 2ac37a36fc3614886ab30a62e5659770f06ec03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:59 +0000
Subject: [PATCH 61/96] fix: read the file of --ignore-msgids as UTF-8 by
 default

---
 src/mdpo/md2po/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 5f390e0..699f9a4 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -182,7 +182,10 @@ def parse_options(args):
         opts.extensions = DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 
     if opts.ignore_msgids is not None:
-        with open(opts.ignore_msgids, encoding=opts.po_encoding) as f:
+        with open(
+            opts.ignore_msgids,
+            encoding=opts.po_encoding or 'utf-8',
+        ) as f:
             opts.ignore_msgids = f.read().splitlines()
     else:
         opts.ignore_msgids = []
-- 
2.43.0


From 9fe586c4ff870311469459fbde603ec2130ad67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 62/96] fix: read and write Markdown files as UTF-8 by default
 in md2po2md API

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 3b09195..97ec17d 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -24,7 +24,7 @@ def markdown_to_pofile_to_markdown(
     po_wrapwidth=78,
     md_wrapwidth=80,
     po_encoding=None,
-    md_encoding=None,
+    md_encoding='utf-8',
     include_codeblocks=False,
     md2po_kwargs=None,
     po2md_kwargs=None,
-- 
2.43.0


From 22addc31ea8dc40829ac689c9be5b480c5a98a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 63/96] fix: messages skipped by msgid events are not part of
 the next ones

---
 src/mdpo/md2po/__init__.py | 5 +++++
 src/mdpo/po2md/__init__.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 7c106d6..c7c15ab 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -470,6 +470,11 @@ class Md2Po:
             self.current_tcomment,
             ['fuzzy'] if fuzzy else [],
         ):
+            if self.current_msgid:
+                # must not be part of the next message
+                self.current_msgid = ''
+                self.current_tcomment = None
+                self.current_msgctxt = None
             return
 
         if self.current_msgid:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6a55a7c..f9230a3 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -433,6 +433,10 @@ class Po2Md:
             self.current_tcomment,
             [],
         ):
+            # must not be part of the next message
+            self.current_msgid = ''
+            self.current_tcomment = None
+            self.current_msgctxt = None
             return
 
         if (not self.disable and not self.disable_next_block) or \
-- 
2.43.0


From 50d5fe428de8bcbdc3d3359d05e50822178c4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 64/96] fix: event files do not clash with modules of the same
 name

---
 src/mdpo/event.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 3f7ca7f..f1d4ce7 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -175,7 +175,8 @@ def parse_events_kwarg(events_kwarg):
                         f" '{event_name}' not found",
                     )
 
-                modname = os.path.splitext(fpath)[0].replace(os.sep, '.')
+                # the absolute path doesn't clash with other modules
+                modname = os.path.abspath(fpath)
                 if modname in sys.modules:
                     mod = sys.modules[modname]
                 else:
-- 
2.43.0


From 2c32c48dbffd0cf1217cfef7d9a0af39787fc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 65/96] fix: select existing files with square brackets in
 their names

---
 src/mdpo/io.py                | 17 ++++++++++++++++-
 src/mdpo/md2po/__init__.py    |  4 ++--
 src/mdpo/md2po2md/__init__.py |  4 ++--
 src/mdpo/po.py                |  6 ++----
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index c57c316..8df2046 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -76,6 +76,21 @@ def to_file_content_if_is_file(value, encoding='utf-8'):
     return value
 
 
+def path_or_glob_to_paths(value):
+    """Convert a path or a glob to the paths of the files that it matches.
+
+    The path of an existing file is not interpreted as a glob, so the files
+    with square brackets in their names can be selected.
+
+    Args:
+        value (str): File path or glob.
+
+    Returns:
+        list: Paths matched.
+    """
+    return [value] if os.path.isfile(value) else glob.glob(value)
+
+
 def to_files_or_content(value):
     """File path/glob/content disambiguator.
 
@@ -92,7 +107,7 @@ def to_files_or_content(value):
         a list of files is passed or a string).
     """
     try:
-        parsed = glob.glob(value)
+        parsed = path_or_glob_to_paths(value)
     except TypeError:
         # inferes list
         return (True, value)
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index c7c15ab..c85c127 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1,7 +1,6 @@
 """Markdown to PO files extractor according to mdpo specification."""
 
 import contextlib
-import glob
 import os
 
 import md4c
@@ -15,6 +14,7 @@ from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import (
     filter_paths,
     flatten,
+    path_or_glob_to_paths,
     save_file_checking_file_changed,
     to_files_or_content,
 )
@@ -145,7 +145,7 @@ class Md2Po:
         is_glob, files_or_content = to_files_or_content(files_or_content)
         if is_glob:
             self.filepaths = filter_paths(
-                flatten(glob.glob(globpath) for globpath in files_or_content),
+                flatten(map(path_or_glob_to_paths, files_or_content)),
                 ignore_paths=kwargs.get('ignore', []),
             )
         else:
diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 97ec17d..2e2e305 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -1,8 +1,8 @@
 """Markdown to PO file to Markdown translator."""
 
-import glob
 import os
 
+from mdpo.io import path_or_glob_to_paths
 from mdpo.md2po import Md2Po
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
@@ -89,7 +89,7 @@ def markdown_to_pofile_to_markdown(
         )
 
     try:
-        input_paths_glob_ = glob.glob(input_paths_glob)
+        input_paths_glob_ = path_or_glob_to_paths(input_paths_glob)
     except Exception as err:
         if (
             err.__module__ in ['re', 'sre_constants']
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 68f09af..ff0dcbd 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -1,10 +1,8 @@
 """PO files related stuff."""
 
-import glob
-
 import polib
 
-from mdpo.io import filter_paths
+from mdpo.io import filter_paths, path_or_glob_to_paths
 from mdpo.polib import poentry__cmp__
 
 
@@ -172,7 +170,7 @@ def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
 
     for pofiles_glob in pofiles_globs:
         for po_filepath in filter_paths(
-            glob.glob(pofiles_glob),
+            path_or_glob_to_paths(pofiles_glob),
             ignore_paths=ignore,
         ):
             if po_filepath not in _po_filepaths:
-- 
2.43.0


From 63aae8ce669ab8a5da7da62301e9d00476967e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 66/96] fix: run all the functions passed to --event for the
 same event and explain the ones that can't be parsed

---
 src/mdpo/cli.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/cli.py b/src/mdpo/cli.py
index 497fbd3..87c1da9 100644
--- a/src/mdpo/cli.py
+++ b/src/mdpo/cli.py
@@ -329,12 +329,20 @@ def parse_event_argument(value):
             ``event_name: path/to/file.py::func``.
 
     Returns:
-        dict: Mapping of event names and `file::function` paths.
+        dict: Mapping of event names and lists of `file::function` paths.
     """
     events = {}
     for event_name_filefunc in value:
-        event_name, filefunc = event_name_filefunc.split(':', maxsplit=1)
-        events[event_name.strip()] = filefunc.strip()
+        event_name, sep, filefunc = event_name_filefunc.partition(':')
+        if not sep:
+            sys.stderr.write(
+                f"The value '{event_name_filefunc}' passed to argument --event"
+                " can't be parsed. Please, separate the pair"
+                " '<event_name:path/to/file.py::function>' with a ':'"
+                ' character.\n',
+            )
+            sys.exit(1)
+        events.setdefault(event_name.strip(), []).append(filefunc.strip())
     return events
 
 
-- 
2.43.0


From de3fe6209baa53641468950c18dfb1db8f2b617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 67/96] fix: mdpo2html explains that --po-files is missing
 instead of crashing

---
 src/mdpo/mdpo2html/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 4a3ba01..c66474b 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -44,7 +44,7 @@ def build_parser():
     )
     parser.add_argument(
         '-p', '--po-files', '--pofiles', metavar='POFILES', action='append',
-        nargs='*', dest='pofiles',
+        nargs='*', dest='pofiles', required=True,
         help='Glob matching a set of PO files from where to extract references'
              ' to make the replacements translating strings. This argument'
              ' can be passed multiple times.',
-- 
2.43.0


From 1bed95e083ffb9da151ed38547c3b2fa6b8de545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 68/96] fix: md2po options that forbid entries without a PO
 file don't crash

---
 src/mdpo/md2po/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 699f9a4..98abef1 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -242,7 +242,7 @@ def run(args=frozenset()):
         if opts.check_saved_files_changed and md2po._saved_files_changed:
             exitcode = 2
 
-        if opts.no_obsolete:
+        if opts.no_obsolete and opts.po_filepath:
             locations = list(check_obsolete_entries_in_filepaths(
                 (opts.po_filepath,),
             ))
@@ -259,7 +259,7 @@ def run(args=frozenset()):
                             f'Found obsolete entry at {location}\n')
                 exitcode = 3
 
-        if opts.no_fuzzy:
+        if opts.no_fuzzy and opts.po_filepath:
             locations = list(check_fuzzy_entries_in_filepaths(
                 (opts.po_filepath,),
             ))
@@ -277,7 +277,7 @@ def run(args=frozenset()):
                         )
                 exitcode = 4
 
-        if opts.no_empty_msgstr:
+        if opts.no_empty_msgstr and opts.po_filepath:
             locations = list(check_empty_msgstrs_in_filepaths(
                 (opts.po_filepath,),
             ))
-- 
2.43.0


From 5d2c0c6afbc230876aefba72057fd424e994e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 69/96] fix: md2po doesn't crash if the enter_block event of
 the first block of a file is skipped

---
 src/mdpo/md2po/__init__.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index c85c127..5de70a9 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -412,28 +412,19 @@ class Md2Po:
 
         occurrence = None
         if self.location and self._current_markdown_filepath:
-            # here could happen a KeyError if someone has aborted an ,
-            # enter event, in which case we do not have access to the
-            # block type because ``self._current_top_level_block_type is None``
-            current_block_name = READABLE_BLOCK_NAMES[
-                self._current_top_level_block_type
-            ]
-            # TODO: when all tests added and the location feature is fully
-            #       tested, we could ignore the KeyError event keeping an
-            #       incomplete occurrence place string, and raising a warning
-            #       if the user has configured an `enter_block` or
-            #       `leave_block` event remembering that
-            #       `_current_top_level_block_number` and
+            # the block type is not known if the 'enter_block' event of the
+            # first block has been aborted
+            current_block_name = READABLE_BLOCK_NAMES.get(
+                self._current_top_level_block_type,
+            )
+            # TODO: `_current_top_level_block_number` and
             #       `_current_top_level_block_type` properties must be handled
-            #       accordingly
+            #       when the user aborts `enter_block` or `leave_block` events
 
-            occurrence = (
-                self._current_markdown_filepath,
-                (
-                    f'block {self._current_top_level_block_number}'
-                    f' ({current_block_name})'
-                ),
-            )
+            block_location = f'block {self._current_top_level_block_number}'
+            if current_block_name:
+                block_location += f' ({current_block_name})'
+            occurrence = (self._current_markdown_filepath, block_location)
 
             if occurrence not in entry.occurrences:
                 entry.occurrences.append(occurrence)
-- 
2.43.0


From 0ac15a7140b0e79ef861f6bb490ac74a5a5bb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 70/96] fix: content with null characters and glob characters
 is not a glob

---
 src/mdpo/io.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 8df2046..21867e0 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -2,6 +2,7 @@
 
 import glob
 import os
+import re
 from contextlib import contextmanager
 
 
@@ -111,11 +112,9 @@ def to_files_or_content(value):
     except TypeError:
         # inferes list
         return (True, value)
-    except Exception as err:
-        # some strings like '[s-m]' will produce
-        if err.__module__ == 're' and err.__class__.__name__ == 'error':
-            return (False, value)
-        raise err
+    except (re.error, ValueError):
+        # strings like '[s-m]' or with null characters are not valid globs
+        return (False, value)
     if not parsed:
         # assumes it is content
         return (False, value)
-- 
2.43.0


From 6e3defe68ef221b3bc67574ecf76a83c94acedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 71/96] fix: LaTeX maths displays inside text don't split their
 message, neither are altered translating

---
 src/mdpo/md2po/__init__.py | 40 ++++++++++++++++++-------------
 src/mdpo/po2md/__init__.py | 49 ++++++++++++++++++++++++++++----------
 2 files changed, 60 insertions(+), 29 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 5de70a9..73f668c 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -134,8 +134,8 @@ class Md2Po:
         '_current_aspan_ref_target',
         '_current_wikilink_target',
         '_wikilink_text_start_index',
-        '_inside_latexmath_display',
-        '_inside_latexmath_display_text',
+        '_latexmathdisplay_start_index',
+        '_latexmathdisplay_msgid',
         '_current_imgspan',
         '_imgspan_nested_deep',
         '_uls_deep',
@@ -252,7 +252,9 @@ class Md2Po:
         self._current_top_level_block_number = 0
         self._current_top_level_block_type = None
         self._current_markdown_filepath = None
-        self._inside_latexmath_display = False
+        self._latexmathdisplay_start_index = 0
+        # text of the current message if it is only a LaTeX maths display
+        self._latexmathdisplay_msgid = None
 
         if not self.plaintext:
             self.bold_start_string = kwargs.get('bold_start_string', '**')
@@ -332,8 +334,6 @@ class Md2Po:
                     md4c.SpanType.LATEXMATH_DISPLAY.value
                 ] = self.latexmathdisplay_end_string
 
-                self._inside_latexmath_display_text = ''
-
             if 'wikilinks' in self.extensions:
                 self.wikilink_start_string = kwargs.get(
                     'wikilink_start_string', '[[',
@@ -673,6 +673,17 @@ class Md2Po:
         else:
             if block is md4c.BlockType.P:
                 self._inside_pblock = False
+                if (
+                    self.current_msgid == self._latexmathdisplay_msgid
+                    and not self._inside_liblock
+                    and not self._quoteblocks_deep
+                ):
+                    # paragraph with only a LaTeX maths display
+                    self.current_msgid = self.current_msgid[
+                        len(self.latexmathdisplay_start_string):
+                        -len(self.latexmathdisplay_end_string)
+                    ].strip()
+                self._latexmathdisplay_msgid = None
             elif block is md4c.BlockType.LI:
                 # the parent item continues after a nested list
                 self._inside_liblock = self._uls_deep + self._ols_deep > 1
@@ -725,7 +736,11 @@ class Md2Po:
                     self._current_aspan_text += self._enterspan_replacer[
                         span.value
                     ]
-            elif span is not md4c.SpanType.LATEXMATH_DISPLAY:
+            else:
+                if span is md4c.SpanType.LATEXMATH_DISPLAY:
+                    self._latexmathdisplay_start_index = len(
+                        self.current_msgid,
+                    )
                 with contextlib.suppress(KeyError):
                     self.current_msgid += (
                         self._enterspan_replacer[span.value]
@@ -787,8 +802,6 @@ class Md2Po:
                 details['target'],
             )
             self._wikilink_text_start_index = len(self.current_msgid)
-        elif span is md4c.SpanType.LATEXMATH_DISPLAY:
-            self._inside_latexmath_display = True
 
     def leave_span(self, span, details):
         # raise 'leave_span' event
@@ -836,7 +849,7 @@ class Md2Po:
                     self._current_aspan_text += self._leavespan_replacer[
                         span.value
                     ]
-            elif not self._inside_latexmath_display:
+            else:
                 with contextlib.suppress(KeyError):
                     self.current_msgid += (
                         self._leavespan_replacer[span.value]
@@ -915,10 +928,8 @@ class Md2Po:
         elif span is md4c.SpanType.U:
             self._inside_uspan = False
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
-            self._inside_latexmath_display = False
-            self.current_msgid += self._inside_latexmath_display_text
-            self._inside_latexmath_display_text = ''
-            self._save_current_msgid()
+            if self._latexmathdisplay_start_index == 0:
+                self._latexmathdisplay_msgid = self.current_msgid
 
     def text(self, block, text):
         # raise 'text' event
@@ -953,9 +964,6 @@ class Md2Po:
                         return
                 if self._inside_pblock:
                     text = text.replace('\n', ' ')
-                if self._inside_latexmath_display:
-                    self._inside_latexmath_display_text += text.strip()
-                    return
                 self.current_msgid += text
             elif not self.disable_next_codeblock and (
                 self.include_codeblocks or self.include_next_codeblock
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f9230a3..8b6253e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -113,7 +113,8 @@ class Po2Md:
         '_inside_hblock',
         '_inside_aspan',
         '_inside_codespan',
-        '_inside_latexmath_display',
+        '_latexmath_display_start_index',
+        '_latexmath_display_msgid',
         '_codespan_start_index',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
@@ -265,7 +266,9 @@ class Po2Md:
             self._leavespan_replacer[md4c.SpanType.WIKILINK.value] = \
                 self.wikilink_end_string
 
-        self._inside_latexmath_display = False
+        self._latexmath_display_start_index = 0
+        # text of the current message if it is only a LaTeX maths display
+        self._latexmath_display_msgid = None
 
         if 'latex_math_spans' in self.extensions:
             self.latexmath_start_string = kwargs.get(
@@ -283,6 +286,12 @@ class Po2Md:
                 'latexmath_display_end_string',
                 '$$',
             )
+            self._enterspan_replacer[
+                md4c.SpanType.LATEXMATH_DISPLAY.value
+            ] = self.latexmath_display_start_string
+            self._leavespan_replacer[
+                md4c.SpanType.LATEXMATH_DISPLAY.value
+            ] = self.latexmath_display_end_string
 
         self._inside_htmlblock = [
             False,  # the parser is inside an HTML block
@@ -657,7 +666,24 @@ class Po2Md:
             return
 
         if block is md4c.BlockType.P:
-            self._save_current_msgid()
+            if (
+                self.current_msgid == self._latexmath_display_msgid
+                and not self._inside_liblock
+                and not self._inside_quoteblock
+            ):
+                # paragraph with only a LaTeX maths display
+                self.current_line += self.latexmath_display_start_string
+                self._save_current_line()
+                self.current_msgid = self.current_msgid[
+                    len(self.latexmath_display_start_string):
+                    -len(self.latexmath_display_end_string)
+                ].strip()
+                self._save_current_msgid()
+                self.current_line += self.latexmath_display_end_string
+                self._save_current_line()
+            else:
+                self._save_current_msgid()
+            self._latexmath_display_msgid = None
 
             if self._inside_liblock:
                 if self._inside_quoteblock:
@@ -835,6 +861,10 @@ class Po2Md:
             elif self._inside_aspan:  # span inside link text
                 self._current_aspan_text += self._enterspan_replacer[span.value]
             else:
+                if span is md4c.SpanType.LATEXMATH_DISPLAY:
+                    self._latexmath_display_start_index = len(
+                        self.current_msgid,
+                    )
                 self.current_msgid += self._enterspan_replacer[span.value]
 
         if span is md4c.SpanType.A:
@@ -884,8 +914,6 @@ class Po2Md:
                 details['target'],
             )
             self._wikilink_text_start_index = len(self.current_msgid)
-        elif span is md4c.SpanType.LATEXMATH_DISPLAY:
-            self._inside_latexmath_display = True
 
     def _escape_codespan(self, markup):
         """Rebuild the code span located at the end of a string."""
@@ -934,7 +962,7 @@ class Po2Md:
                 self._current_aspan_text += self._leavespan_replacer[
                     span.value
                 ]
-        elif not self._inside_latexmath_display:
+        else:
             with contextlib.suppress(KeyError):
                 self.current_msgid += self._leavespan_replacer[span.value]
 
@@ -1020,13 +1048,8 @@ class Po2Md:
 
             self._current_imgspan = {}
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
-            self._inside_latexmath_display = False
-            self.current_line += self.latexmath_display_start_string
-            self._save_current_line()
-            self.current_msgid = self.current_msgid.strip()
-            self._save_current_msgid()
-            self.current_line += self.latexmath_display_end_string
-            self._save_current_line()
+            if self._latexmath_display_start_index == 0:
+                self._latexmath_display_msgid = self.current_msgid
 
     def text(self, block, text):
         # raise 'text' event
-- 
2.43.0


From 05e656a6ee90759f5aebda8230b1b223b94fe992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 72/96] fix: separate the text of tight list items from the
 headings and horizontal rules that follow it

---
 src/mdpo/md2po/__init__.py |  3 +++
 src/mdpo/po2md/__init__.py | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 73f668c..d48ad71 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -608,6 +608,9 @@ class Md2Po:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.UL.value
         elif block is md4c.BlockType.H:
+            if self.current_msgid:
+                # text of the list item located before the heading
+                self._save_current_msgid()
             self._inside_hblock = True
             if not any([
                 self._quoteblocks_deep,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 8b6253e..b9355ee 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -559,6 +559,17 @@ class Po2Md:
                 # separate from the previous table of the list item
                 self._save_current_line()
             self._inside_liblock_after_table = False
+        inside_tight_li = (
+            bool(self.current_msgid) and self._inside_liblock
+            and block in {md4c.BlockType.H, md4c.BlockType.HR}
+        )
+        if inside_tight_li:
+            # the text of the list item located before the block
+            self._save_current_msgid()
+            self._save_current_line()
+            if self._inside_quoteblock:
+                self.current_line += '> '
+
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
@@ -618,7 +629,11 @@ class Po2Md:
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
-            if self._current_list_type and not self.current_line:
+            if (
+                self._current_list_type
+                and not self.current_line
+                and not inside_tight_li
+            ):
                 self._save_current_line()
             indent = (
                 '   ' * len(self._current_list_type)
-- 
2.43.0


From 68ea983865aadbd5826ec1d4704401d178f51d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 73/96] fix: do not fail wrapping list items and quotes with
 small widths

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index b9355ee..4d9536a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -494,7 +494,7 @@ class Po2Md:
                 translation = md_ulb_pwrap.ulb_wrap_paragraph(
                     translation,
                     wrapwidth,
-                    wrapwidth + first_line_width_diff,
+                    max(wrapwidth + first_line_width_diff, 0),
                 )
 
                 if not any([
-- 
2.43.0


From 490e2a7e37905e54dfdda18c15183e7e29fd382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 74/96] fix: keep escaped characters inside the alternative
 texts of images

---
 src/mdpo/md2po/__init__.py | 10 +++++-----
 src/mdpo/po2md/__init__.py |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d48ad71..1f9f615 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -946,11 +946,6 @@ class Md2Po:
                 ]) and text == '\n':
                     text = ' '
                 if not self.plaintext:
-                    if self._current_imgspan:
-                        self._current_imgspan['text'] += text.replace(
-                            '\n', ' ',
-                        )
-                        return
                     if self._inside_codespan:
                         # literal characters, must not be escaped
                         pass
@@ -962,6 +957,11 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
+                    if self._current_imgspan:
+                        self._current_imgspan['text'] += text.replace(
+                            '\n', ' ',
+                        )
+                        return
                     if self._inside_aspan:
                         self._current_aspan_text += text
                         return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4d9536a..7f3c60f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1081,9 +1081,6 @@ class Po2Md:
             if not self._inside_codeblock:
                 if self._inside_liblock and text == '\n':
                     text = ' '
-                if self._current_imgspan:
-                    self._current_imgspan['text'] += text.replace('\n', ' ')
-                    return
                 if self._inside_codespan:
                     # literal characters, must not be escaped
                     pass
@@ -1095,6 +1092,9 @@ class Po2Md:
                     text = self.code_end_string_escaped
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
+                if self._current_imgspan:
+                    self._current_imgspan['text'] += text.replace('\n', ' ')
+                    return
                 if self._inside_aspan:
                     self._current_aspan_text += text.replace('\n', ' ')
                     return
-- 
2.43.0


From 66032bba8fa7e366e5d601b4ada3c33122eef0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 75/96] fix: extract and translate the text of underline spans

---
 src/mdpo/md2po/__init__.py | 22 +++++++++++-----------
 src/mdpo/po2md/__init__.py | 19 +++++++++++++++++++
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 1f9f615..9d4a823 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -119,7 +119,7 @@ class Md2Po:
         'underline_start_string',
         'underline_end_string',
 
-        '_inside_uspan',
+        '_uspans_deep',
         '_inside_htmlblock',
         '_inside_codeblock',
         '_inside_pblock',
@@ -361,10 +361,8 @@ class Md2Po:
                 self._leavespan_replacer[md4c.SpanType.U.value] = \
                     self.underline_end_string
 
-            # optimization to skip checking for
-            # ``self.md4c_generic_parser_kwargs.get('underline')``
-            # inside spans
-            self._inside_uspan = False
+            # number of underline spans inside which the parser is
+            self._uspans_deep = 0
 
         self._inside_htmlblock = False
         self._inside_codeblock = False
@@ -727,8 +725,11 @@ class Md2Po:
             self._imgspan_nested_deep += 1
             return
 
+        if span is md4c.SpanType.U:
+            self._uspans_deep += 1
+
         # underline spans for double '_' character enters two times
-        if not self._inside_uspan:
+        if span is not md4c.SpanType.U or self._uspans_deep == 1:
             if self._current_imgspan:  # span inside image alternative text
                 with contextlib.suppress(KeyError):
                     self._current_imgspan['text'] += self._enterspan_replacer[
@@ -798,8 +799,6 @@ class Md2Po:
                 details['title'],
             )
             self._current_imgspan['text'] = ''
-        elif span is md4c.SpanType.U:
-            self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = attribute_to_string(
                 details['target'],
@@ -832,7 +831,10 @@ class Md2Po:
             self._imgspan_nested_deep -= 1
             return
 
-        if not self._inside_uspan:
+        if span is md4c.SpanType.U:
+            self._uspans_deep -= 1
+
+        if span is not md4c.SpanType.U or not self._uspans_deep:
             if span is md4c.SpanType.WIKILINK:
                 text = self.current_msgid[self._wikilink_text_start_index:]
                 if text != self._current_wikilink_target:
@@ -928,8 +930,6 @@ class Md2Po:
                 self._current_aspan_text += img_markup
             else:
                 self.current_msgid += img_markup
-        elif span is md4c.SpanType.U:
-            self._inside_uspan = False
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             if self._latexmathdisplay_start_index == 0:
                 self._latexmathdisplay_msgid = self.current_msgid
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7f3c60f..fe90ab4 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -123,6 +123,7 @@ class Po2Md:
         '_current_aspan_text',
         '_current_imgspan',
         '_imgspan_nested_deep',
+        '_uspans_deep',
         '_current_thead_aligns',
         '_aimg_title_inside_current_msgid',
         '_ul_marks',
@@ -293,6 +294,13 @@ class Po2Md:
                 md4c.SpanType.LATEXMATH_DISPLAY.value
             ] = self.latexmath_display_end_string
 
+        if 'underline' in self.extensions:
+            self._enterspan_replacer[md4c.SpanType.U.value] = '__'
+            self._leavespan_replacer[md4c.SpanType.U.value] = '__'
+
+        # number of underline spans inside which the parser is
+        self._uspans_deep = 0
+
         self._inside_htmlblock = [
             False,  # the parser is inside an HTML block
             None,  # a mdpo command has been found in the HTML block
@@ -868,6 +876,12 @@ class Po2Md:
             self._imgspan_nested_deep += 1
             return
 
+        if span is md4c.SpanType.U:
+            self._uspans_deep += 1
+            if self._uspans_deep > 1:
+                # underline spans for double '_' character enters two times
+                return
+
         with contextlib.suppress(KeyError):
             if self._current_imgspan:  # span inside image alternative text
                 self._current_imgspan['text'] += self._enterspan_replacer[
@@ -957,6 +971,11 @@ class Po2Md:
             self._imgspan_nested_deep -= 1
             return
 
+        if span is md4c.SpanType.U:
+            self._uspans_deep -= 1
+            if self._uspans_deep:
+                return
+
         if span is md4c.SpanType.WIKILINK:
             text = self.current_msgid[self._wikilink_text_start_index:]
             if text != self._current_wikilink_target:
-- 
2.43.0


From 8e16eb527447737c14650a3d51fdfc9f5ab8f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 76/96] fix: Keep the spaces inside code marked with custom
 code tags in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 1d272ed..73a0fde 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -194,7 +194,7 @@ class MdPo2HTML(HTMLParser):
                 else:
                     markup = f'<{handled}{attrs_repr}>'
                 _last_start_tag = handled
-                if _last_start_tag == 'code':
+                if _last_start_tag in self.code_tags:
                     _inside_code = True
 
             elif handle == 'data':
@@ -239,7 +239,7 @@ class MdPo2HTML(HTMLParser):
                 else:
                     markup = f'</{handled}>'
                 _last_end_tag = handled
-                if _last_end_tag == 'code':
+                if _last_end_tag in self.code_tags:
                     _inside_code = False
             elif handle == 'comment':
                 markup = f'<!--{handled}-->'
-- 
2.43.0


From eb3daf038194c1c18234f14bce77065fe0b2f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 77/96] fix: Rebuild code spans with backticks in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 73a0fde..5a61ce6 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -20,6 +20,7 @@ from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
 )
+from mdpo.text import wrap_codespan
 
 
 PROCESS_REPLACER_TAGS = [
@@ -166,6 +167,9 @@ class MdPo2HTML(HTMLParser):
         # attributes and start of the text of the links being processed
         _current_links = []
 
+        # start of the text of the code spans being processed
+        _codespan_starts = []
+
         _last_start_tag = None
         _last_end_tag = None
         _inside_code = False
@@ -180,7 +184,7 @@ class MdPo2HTML(HTMLParser):
 
                 markup = ''
                 if handled in self.code_tags:
-                    _current_replacement += '`'
+                    _codespan_starts.append(len(_current_replacement))
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
@@ -211,7 +215,13 @@ class MdPo2HTML(HTMLParser):
             elif handle == 'end':
                 markup = ''
                 if handled in self.code_tags:
-                    _current_replacement += '`'
+                    start = (
+                        _codespan_starts.pop() if _codespan_starts
+                        else len(_current_replacement)
+                    )
+                    _current_replacement = _current_replacement[:start] + (
+                        wrap_codespan(_current_replacement[start:])
+                    )
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
-- 
2.43.0


From 293684383770c2e3ef15e721bd4d11d819db4acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 78/96] fix: Parse link references with any title, not inside
 code, and match their titles

---
 src/mdpo/md.py             | 86 +++++++++++++++++++++++++++++++-------
 src/mdpo/md2po/__init__.py | 42 +++++++------------
 src/mdpo/po2md/__init__.py | 46 +++++++-------------
 3 files changed, 102 insertions(+), 72 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 3e72332..7d6af82 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -2,10 +2,33 @@
 
 
 LINK_REFERENCE_REGEX = (
-    r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
+    r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?'
+    r'(?:\s+(?:"(.*)"|\'(.*)\'|\((.*)\)))?\s*$'
 )
 
 
+def parse_link_reference(text):
+    """Parses the definition of a link reference.
+
+    Args:
+        text (str): Line with the definition.
+
+    Returns:
+        tuple: Target, href and title (``None`` if it does not have title) or
+        ``None`` if the text is not a link reference definition.
+    """
+    import re
+
+    match = re.search(LINK_REFERENCE_REGEX, text.strip())
+    if not match:
+        return None
+    target, href, *titles = match.groups()
+    title = ''.join(filter(None, titles))
+    # remove backslash escapes
+    title = re.sub(r'\\([!-/:-@\[-`{-~])', r'\1', title)
+    return target, href, title or None
+
+
 def parse_link_references(content):
     """Parses link references found in a Markdown content.
 
@@ -18,15 +41,47 @@ def parse_link_references(content):
     """
     import re
 
-    link_reference_re = re.compile(LINK_REFERENCE_REGEX)
+    list_item_re = re.compile(r'(?:[-*+]|\d+[.)])(?:\s|$)')
+    # fences can be opened inside list items and quotes
+    fence_re = re.compile(
+        r'((?:(?:[-*+]|\d+[.)])\s+|>\s*)*)(`{3,}(?=[^`]*$)|~{3,})',
+    )
 
     response = []
-    for line in content.splitlines():
+    inside_list = False
+    # prefix and characters of the opening of the current fenced code block
+    prefix, fence = ('', None)
+    for line in content.expandtabs(4).splitlines():
         linestrip = line.strip()
-        if linestrip and linestrip.startswith('['):
-            match = re.search(link_reference_re, linestrip)
-            if match:
-                response.append(match.groups())
+        indent = len(line) - len(line.lstrip())
+        if fence is not None:
+            closing = linestrip
+            if '>' in prefix:
+                if not linestrip.startswith('>'):  # out of the quote
+                    fence = None
+                closing = linestrip.lstrip('> ')
+            if fence is not None:
+                if (
+                    (inside_list or indent < 4)
+                    and closing.startswith(fence)
+                    and not closing.strip(fence[0])
+                ):
+                    fence = None
+                continue
+        if linestrip and not indent:
+            inside_list = (
+                bool(list_item_re.match(linestrip))
+                and len(set(linestrip) - {' '}) > 1  # thematic break
+            )
+        if indent > 3 and not inside_list:
+            continue  # indented code block
+        fence_match = fence_re.match(linestrip)
+        if fence_match:
+            prefix, fence = fence_match.groups()
+        elif linestrip.startswith('['):
+            link_reference = parse_link_reference(linestrip)
+            if link_reference:
+                response.append(link_reference)
     return response
 
 
@@ -45,12 +100,13 @@ def solve_link_reference_targets(translations):
     """
     import re
 
+    import polib
+
     link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
-    link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
     def link_target(link_reference):
         _, href, title = link_reference
-        return f'{href} "{title}"' if title else href
+        return f'{href} "{polib.escape(title)}"' if title else href
 
     solutions = {}
 
@@ -64,13 +120,13 @@ def solve_link_reference_targets(translations):
     # discover link reference definitions
     for msgid, msgstr in translations.items():
         if msgid.startswith('['):  # filter for performance improvement
-            msgid_match = re.search(link_reference_re, msgid.lstrip(' '))
-            if msgid_match:
-                msgstr_match = re.search(link_reference_re, msgstr.lstrip(' '))
-                if msgstr_match:
+            msgid_reference = parse_link_reference(msgid)
+            if msgid_reference:
+                msgstr_reference = parse_link_reference(msgstr)
+                if msgstr_reference:
                     link_references_text_targets.append((
-                        msgid_match.groups(),
-                        msgstr_match.groups(),
+                        msgid_reference,
+                        msgstr_reference,
                     ))
         msgid_matchs = re.findall(link_refereced_link_re, msgid)
         if msgid_matchs:
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 9d4a823..3497d9a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -761,20 +761,14 @@ class Md2Po:
             current_aspan_href = attribute_to_string(details['href'])
             self._current_aspan_ref_target = None
 
-            if details['title']:
-                current_aspan_title = attribute_to_string(details['title'])
-                for target, href, title in self.link_references:
-                    if (
-                        href == current_aspan_href
-                        and title == current_aspan_title
-                    ):
-                        self._current_aspan_ref_target = target
-                        break
-            else:
-                for target, href, _ in self.link_references:
-                    if href == current_aspan_href:
-                        self._current_aspan_ref_target = target
-                        break
+            current_aspan_title = attribute_to_string(details['title']) or None
+            for target, href, title in self.link_references:
+                if (
+                    href == current_aspan_href
+                    and title == current_aspan_title
+                ):
+                    self._current_aspan_ref_target = target
+                    break
 
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
@@ -900,19 +894,13 @@ class Md2Po:
                 self.current_msgid = self._escape_codespan(self.current_msgid)
             self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
-            referenced_target, imgspan_title = (None, None)
+            referenced_target = None
             imgspan_src = attribute_to_string(details['src'])
-            if details['title']:
-                imgspan_title = attribute_to_string(details['title'])
-                for target, href, title in self.link_references:
-                    if href == imgspan_src and title == imgspan_title:
-                        referenced_target = target
-                        break
-            else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
-                        referenced_target = target
-                        break
+            imgspan_title = attribute_to_string(details['title']) or None
+            for target, href, title in self.link_references:
+                if href == imgspan_src and title == imgspan_title:
+                    referenced_target = target
+                    break
 
             alt_text = self._current_imgspan['text']
             img_markup = f'![{alt_text}]'
@@ -998,7 +986,7 @@ class Md2Po:
                 self.current_msgid = '[{}]:{}{}'.format(
                     target,
                     f' {href}' if href else '',
-                    f' "{title}"' if title else '',
+                    f' "{polib.escape(title)}"' if title else '',
                 )
                 self._save_current_msgid(
                     msgstr=self.current_msgid,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index fe90ab4..f658f69 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -905,20 +905,14 @@ class Po2Md:
             self._current_aspan_href = attribute_to_string(details['href'])
             self._current_aspan_ref_target = None
 
-            if details['title']:
-                current_aspan_title = attribute_to_string(details['title'])
-                for target, href, title in self.link_references:
-                    if (
-                        href == self._current_aspan_href
-                        and title == current_aspan_title
-                    ):
-                        self._current_aspan_ref_target = target
-                        break
-            else:
-                for target, href, _ in self.link_references:
-                    if href == self._current_aspan_href:
-                        self._current_aspan_ref_target = target
-                        break
+            current_aspan_title = attribute_to_string(details['title']) or None
+            for target, href, title in self.link_references:
+                if (
+                    href == self._current_aspan_href
+                    and title == current_aspan_title
+                ):
+                    self._current_aspan_ref_target = target
+                    break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
             if self._current_imgspan:
@@ -1049,21 +1043,13 @@ class Po2Md:
                 self.current_msgid = self._escape_codespan(self.current_msgid)
             self._codespan_start_index = None
         elif span is md4c.SpanType.IMG:
-            referenced_target, imgspan_title = (None, None)
+            referenced_target = None
             imgspan_src = attribute_to_string(details['src'])
-            if details['title']:
-                imgspan_title = polib.escape(
-                    attribute_to_string(details['title']),
-                )
-                for target, href, title in self.link_references:
-                    if href == imgspan_src and title == imgspan_title:
-                        referenced_target = target
-                        break
-            else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
-                        referenced_target = target
-                        break
+            imgspan_title = attribute_to_string(details['title']) or None
+            for target, href, title in self.link_references:
+                if href == imgspan_src and title == imgspan_title:
+                    referenced_target = target
+                    break
 
             alt_text = self._current_imgspan['text']
             img_markup = f'![{alt_text}]'
@@ -1072,7 +1058,7 @@ class Po2Md:
             else:
                 img_markup += f'({imgspan_src}'
                 if imgspan_title:
-                    img_markup += f' "{imgspan_title}"'
+                    img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
 
             if self._inside_aspan:
@@ -1159,7 +1145,7 @@ class Po2Md:
                             skip = True
                     if skip:
                         continue
-                title_part = f' "{title}"' if title else ''
+                title_part = f' "{polib.escape(title)}"' if title else ''
                 href_title = f' {href}{title_part}'
                 if href_title in added_references:
                     continue
-- 
2.43.0


From a1417d51a08450e2f1b038e69c80b40ae085b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 79/96] fix: Solve all references of links and images in
 mdpo2html

---
 src/mdpo/md.py                 | 118 +++++++++------------------------
 src/mdpo/mdpo2html/__init__.py |  38 ++++++-----
 2 files changed, 54 insertions(+), 102 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 7d6af82..2017128 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -102,95 +102,41 @@ def solve_link_reference_targets(translations):
 
     import polib
 
-    link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
-
-    def link_target(link_reference):
-        _, href, title = link_reference
-        return f'{href} "{polib.escape(title)}"' if title else href
-
-    solutions = {}
-
-    # dictionary with defined link references and their targets
-    link_references_text_targets = []
-
-    # compound by dictionaries with `original_msgid`, `original_msgstr` and
-    # `link_reference_matchs`
-    msgid_msgstrs_with_links = []
+    link_refereced_link_re = re.compile(
+        # the texts can contain pairs of brackets, like those of images
+        r'(!?)\[((?:[^\[\]]|\[[^\[\]]*\])*)\]\[([^\]\s]+)\]',
+    )
 
-    # discover link reference definitions
+    # link references with their translations
+    link_references = []
     for msgid, msgstr in translations.items():
         if msgid.startswith('['):  # filter for performance improvement
             msgid_reference = parse_link_reference(msgid)
-            if msgid_reference:
-                msgstr_reference = parse_link_reference(msgstr)
-                if msgstr_reference:
-                    link_references_text_targets.append((
-                        msgid_reference,
-                        msgstr_reference,
-                    ))
-        msgid_matchs = re.findall(link_refereced_link_re, msgid)
-        if msgid_matchs:
-            msgstr_matchs = re.findall(link_refereced_link_re, msgstr)
-            if msgstr_matchs:
-                msgid_msgstrs_with_links.append((
-                    msgid, msgstr, msgid_matchs, msgstr_matchs,
-                ))
-
-    # original msgid, original msgstr,
-    # msgid link reference matchs, msgstr link reference matchs
-    for (
-            orig_msgid, orig_msgstr, msgid_linkr_groups, msgstr_linkr_groups,
-    ) in msgid_msgstrs_with_links:
-        # search if msgid and link reference matchs are inside
-        # `link_references_text_targets`
-        #
-        # if so, replace in original messages link referenced targets with
-        # real targets and store them in solutions
-        new_msgid, new_msgstr = (None, None)
-
-        for msgid_linkr_group in msgid_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[0][0] == msgid_linkr_group[1]:
-                    replacer = (
-                        f'[{msgid_linkr_group[0]}][{msgid_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgid_linkr_group[0]}]'
-                        f'({link_target(link_reference_text_targets[0])})'
-                    )
-
-                    if new_msgid is None:
-                        # first referenced link replacement in msgid
-                        new_msgid = orig_msgid.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgid = new_msgid.replace(replacer, replacement)
-                    break
-
-        # the same game as above, but now for msgstrs
-
-        for msgstr_linkr_group in msgstr_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[1][0] == msgstr_linkr_group[1]:
-                    replacer = (
-                        f'[{msgstr_linkr_group[0]}][{msgstr_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgstr_linkr_group[0]}]'
-                        f'({link_target(link_reference_text_targets[1])})'
-                    )
-
-                    if new_msgstr is None:
-                        # first referenced link replacement in msgid
-                        new_msgstr = orig_msgstr.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgstr = new_msgstr.replace(replacer, replacement)
-                    break
-
-        # store in solutions
-        solutions[new_msgid] = new_msgstr
+            msgstr_reference = parse_link_reference(msgstr)
+            if msgid_reference and msgstr_reference:
+                link_references.append((msgid_reference, msgstr_reference))
+
+    def solve(message, references):
+        def inline_link(match):
+            image, text, match_target = match.groups()
+            for target, href, title in references:
+                if target == match_target:
+                    if title:
+                        href = f'{href} "{polib.escape(title)}"'
+                    elif text == href and not image:
+                        return f'<{href}>'
+                    return f'{image}[{solve(text, references)}]({href})'
+            return match.group()
+
+        return re.sub(link_refereced_link_re, inline_link, message)
+
+    solutions = {}
+    for msgid, msgstr in translations.items():
+        solved_msgid = solve(msgid, [ref for ref, _ in link_references])
+        if solved_msgid != msgid:
+            solutions[solved_msgid] = solve(
+                msgstr,
+                [ref for _, ref in link_references],
+            )
 
     return solutions
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5a61ce6..f86aecf 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -333,6 +333,24 @@ class MdPo2HTML(HTMLParser):
         self.enable_next_block = False
         self.current_msgctxt = None
 
+    def _solve_link_references(self):
+        """Extend translations with their link references solved."""
+        if self.real_link_reference_targets is not None:
+            return
+        self.real_link_reference_targets = (
+            solve_link_reference_targets(self.translations)
+        )
+        self.translations.update(self.real_link_reference_targets)
+
+        link_references = {
+            msgid: msgstr for msgid, msgstr in self.translations.items()
+            if re.match(LINK_REFERENCE_REGEX, msgid)
+        }
+        for translations in self.translations_with_msgctxt.values():
+            translations.update(solve_link_reference_targets(
+                {**link_references, **translations},
+            ))
+
     def handle_starttag(self, tag, attrs):
 
         if self.replacer and (
@@ -364,22 +382,8 @@ class MdPo2HTML(HTMLParser):
             # element outside the blocks
             self.output += self.get_starttag_text()
         else:
-            if tag == 'a' and self.real_link_reference_targets is None:
-                # extend translations to populate link reference msgid-msgstrs
-                # with real targets
-                self.real_link_reference_targets = (
-                    solve_link_reference_targets(self.translations)
-                )
-                self.translations.update(self.real_link_reference_targets)
-
-                link_references = {
-                    msgid: msgstr for msgid, msgstr in self.translations.items()
-                    if re.match(LINK_REFERENCE_REGEX, msgid)
-                }
-                for translations in self.translations_with_msgctxt.values():
-                    translations.update(solve_link_reference_targets(
-                        {**link_references, **translations},
-                    ))
+            if tag == 'a':
+                self._solve_link_references()
 
             self.replacer.append(('start', tag, OrderedDict(attrs)))
             self.context.append(tag)
@@ -407,6 +411,8 @@ class MdPo2HTML(HTMLParser):
         if not self.replacer:
             self.output += self.get_starttag_text()
         else:
+            if tag == 'img':
+                self._solve_link_references()
             self.replacer.append(('startend', tag, OrderedDict(attrs)))
 
     def handle_data(self, data):
-- 
2.43.0


From 5c812fb1db59b4136cdd1ae8765a6e9f8d642230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 80/96] fix: Keep links to relative paths with their own text
 and destinations with spaces or parentheses

---
 docs/dev/implementation-notes.rst |  2 +-
 src/mdpo/md.py                    |  4 +++-
 src/mdpo/md2po/__init__.py        | 14 +++++++++----
 src/mdpo/po2md/__init__.py        | 10 +++++----
 src/mdpo/text.py                  | 35 +++++++++++++++++++++++++++++++
 5 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/docs/dev/implementation-notes.rst b/docs/dev/implementation-notes.rst
index 07f0612..5f6e5e9 100644
--- a/docs/dev/implementation-notes.rst
+++ b/docs/dev/implementation-notes.rst
@@ -17,7 +17,7 @@ like ``[title](https://github.com)``.
 
 MD4C parser doesn't distinguish between an autolink and a link whose text and
 destination is the same. So, mdpo will treat all links whose text and
-destination is the same as autolinks.
+destination is the same absolute URI as autolinks.
 
 If a link has inside his text markup characters, even if its content if the
 same as its target, will be treated as different and rendered as a link. So,
diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 2017128..4754805 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,5 +1,7 @@
 """Markdown related utilities for mdpo."""
 
+from mdpo.text import is_autolink_uri
+
 
 LINK_REFERENCE_REGEX = (
     r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?'
@@ -123,7 +125,7 @@ def solve_link_reference_targets(translations):
                 if target == match_target:
                     if title:
                         href = f'{href} "{polib.escape(title)}"'
-                    elif text == href and not image:
+                    elif text == href and not image and is_autolink_uri(href):
                         return f'<{href}>'
                     return f'{image}[{solve(text, references)}]({href})'
             return match.group()
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 3497d9a..093a68f 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -30,7 +30,12 @@ from mdpo.po import (
     po_escaped_string,
     remove_not_found_entries,
 )
-from mdpo.text import parse_wrapwidth_argument, wrap_codespan
+from mdpo.text import (
+    is_autolink_uri,
+    link_destination,
+    parse_wrapwidth_argument,
+    wrap_codespan,
+)
 
 
 class Md2Po:
@@ -865,7 +870,7 @@ class Md2Po:
             else:
                 title = attribute_to_string(details['title'])
                 href = attribute_to_string(details['href'])
-                if href and self._current_aspan_text == href:
+                if self._current_aspan_text == href and is_autolink_uri(href):
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
@@ -874,7 +879,8 @@ class Md2Po:
                 else:
                     title_part = f' "{polib.escape(title)}"' if title else ''
                     self.current_msgid += (
-                        f'[{self._current_aspan_text}]({href}{title_part})'
+                        f'[{self._current_aspan_text}]'
+                        f'({link_destination(href)}{title_part})'
                     )
             self._inside_aspan = False
             self._current_aspan_text = ''
@@ -907,7 +913,7 @@ class Md2Po:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
+                img_markup += f'({link_destination(imgspan_src)}'
                 if imgspan_title:
                     img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f658f69..7140f0e 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -24,6 +24,8 @@ from mdpo.po import (
 )
 from mdpo.text import (
     INFINITE_WRAPWIDTH,
+    is_autolink_uri,
+    link_destination,
     parse_wrapwidth_argument,
     wrap_codespan,
 )
@@ -1003,8 +1005,8 @@ class Po2Md:
                     )
                 self._current_aspan_ref_target = None
             elif (
-                self._current_aspan_href
-                and self._current_aspan_text == self._current_aspan_href
+                self._current_aspan_text == self._current_aspan_href
+                and is_autolink_uri(self._current_aspan_href)
             ):
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
@@ -1017,7 +1019,7 @@ class Po2Md:
             elif self._current_aspan_href is not None:
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
-                    f'({self._current_aspan_href}'
+                    f'({link_destination(self._current_aspan_href)}'
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
@@ -1056,7 +1058,7 @@ class Po2Md:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
+                img_markup += f'({link_destination(imgspan_src)}'
                 if imgspan_title:
                     img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index 1a09628..9fcb77f 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -1,6 +1,7 @@
 """Text utilities for mdpo."""
 
 import os
+import re
 import sys
 
 
@@ -82,6 +83,40 @@ def wrap_codespan(text, start_char='`', end_char='`'):
     return f'{start_char * n_chars}{padding}{text}{padding}{end_char * n_chars}'
 
 
+def is_autolink_uri(text):
+    """Return if a text can be written as an autolink, like ``<text>``.
+
+    Args:
+        text (str): Text to check.
+
+    Returns:
+        bool: If the text is an absolute URI.
+    """
+    return bool(re.match(r'[a-zA-Z][a-zA-Z0-9+.-]{1,31}:[^\s<>]*$', text))
+
+
+def link_destination(href):
+    """Write the destination of an inline link.
+
+    Destinations with spaces or unbalanced parentheses are enclosed between
+    ``<`` and ``>`` characters.
+
+    Args:
+        href (str): Destination of the link.
+
+    Returns:
+        str: Destination ready to be included in the markup of the link.
+    """
+    deep = 0
+    for ch in href:
+        deep += {'(': 1, ')': -1}.get(ch, 0)
+        if deep < 0:
+            break
+    if deep or re.search(r'\s', href):
+        return f'<{href}>'
+    return href
+
+
 def parse_escaped_pair(value, separator=':'):
     r"""Escapes a pair key-value separated by a character.
 
-- 
2.43.0


From 12d2accca0997f9f9dc4dce18c4ee642b3a2f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 81/96] fix: keep the content of files that can't be written in
 their encoding

---
 src/mdpo/io.py                 | 22 ++++++++++++++++++----
 src/mdpo/md2po/__init__.py     |  7 ++++++-
 src/mdpo/mdpo2html/__init__.py |  9 ++++++---
 src/mdpo/po2md/__init__.py     |  9 ++++++---
 4 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 21867e0..07069c3 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -121,6 +121,22 @@ def to_files_or_content(value):
     return (True, parsed)
 
 
+def write_file(filepath, content, encoding='utf-8'):
+    """Write a text file.
+
+    The content is encoded before opening the file, so a file with content is
+    not truncated if the new one can't be written in that encoding.
+
+    Args:
+        filepath (str): Path to the file to write.
+        content (str): Content to write.
+        encoding (str): Encoding to use writing the file.
+    """
+    content.encode(encoding)
+    with open(filepath, 'w', encoding=encoding) as f:
+        f.write(content)
+
+
 def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
     """Save a file checking if the content has changed.
 
@@ -133,8 +149,7 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
         bool: If the PO file content has been changed.
     """
     if not os.path.isfile(filepath):
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
+        write_file(filepath, content, encoding=encoding)
         return True
 
     try:
@@ -143,8 +158,7 @@ def save_file_checking_file_changed(filepath, content, encoding='utf-8'):
     except UnicodeError:  # previous content written using other encoding
         changed = True
     if changed:
-        with open(filepath, 'w', encoding=encoding) as f:
-            f.write(content)
+        write_file(filepath, content, encoding=encoding)
     return changed
 
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 093a68f..eb5e549 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -17,6 +17,7 @@ from mdpo.io import (
     path_or_glob_to_paths,
     save_file_checking_file_changed,
     to_files_or_content,
+    write_file,
 )
 from mdpo.md import parse_link_references
 from mdpo.md4c import (
@@ -1103,7 +1104,11 @@ class Md2Po:
                     encoding=self.pofile.encoding,
                 )
             else:
-                self.pofile.save(fpath=po_filepath)
+                write_file(
+                    po_filepath,
+                    str(self.pofile),
+                    encoding=self.pofile.encoding,
+                )
         if mo_filepath:
             self.pofile.save_as_mofile(mo_filepath)
         return self.pofile
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index f86aecf..fbe9158 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -14,7 +14,11 @@ from mdpo.command import (
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
 )
-from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
+from mdpo.io import (
+    save_file_checking_file_changed,
+    to_file_content_if_is_file,
+    write_file,
+)
 from mdpo.md import LINK_REFERENCE_REGEX, solve_link_reference_targets
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
@@ -507,8 +511,7 @@ class MdPo2HTML(HTMLParser):
                     encoding=html_encoding,
                 )
             else:
-                with open(save, 'w', encoding=html_encoding) as f:
-                    f.write(self.output)
+                write_file(save, self.output, encoding=html_encoding)
 
         self.reset()
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7140f0e..0c92885 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -11,7 +11,11 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
-from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
+from mdpo.io import (
+    save_file_checking_file_changed,
+    to_file_content_if_is_file,
+    write_file,
+)
 from mdpo.md import parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
@@ -1203,8 +1207,7 @@ class Po2Md:
                     encoding=md_encoding,
                 )
             else:
-                with open(save, 'w', encoding=md_encoding) as f:
-                    f.write(self.output)
+                write_file(save, self.output, encoding=md_encoding)
         return self.output
 
 
-- 
2.43.0


From 15cd07c020bef465480db3db0eef666a8ef320fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 82/96] fix: don't break lines where it changes the meaning of
 paragraphs

---
 src/mdpo/po2md/__init__.py |  4 +-
 src/mdpo/text.py           | 99 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 101 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0c92885..906fe56 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -3,7 +3,6 @@
 import contextlib
 
 import md4c
-import md_ulb_pwrap
 import polib
 
 from mdpo.command import (
@@ -32,6 +31,7 @@ from mdpo.text import (
     link_destination,
     parse_wrapwidth_argument,
     wrap_codespan,
+    wrap_paragraph,
 )
 
 
@@ -505,7 +505,7 @@ class Po2Md:
                     INFINITE_WRAPWIDTH if self._inside_hblock
                     else self.wrapwidth
                 )
-                translation = md_ulb_pwrap.ulb_wrap_paragraph(
+                translation = wrap_paragraph(
                     translation,
                     wrapwidth,
                     max(wrapwidth + first_line_width_diff, 0),
diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index 9fcb77f..285cc8c 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -3,10 +3,28 @@
 import os
 import re
 import sys
+import unicodedata
+
+import md_ulb_pwrap
 
 
 INFINITE_WRAPWIDTH = 65535
 
+# words that would open another block at the start of a line
+BLOCK_MARKER_REGEX = re.compile(
+    r'([-+*=_|:]+|#{1,6}|\d{1,9}[.)])(\s|$)|>|```|~~~|<!--',
+)
+
+# parts of links, comments, autolinks and code spans where a new line is not
+# like a space
+UNBREAKABLE_SPANS_REGEX = re.compile(
+    r'\[\[[^\[\]]*\]\]|\]\((<[^<>]*>|[^\s()]*)|<!--.*?-->|<[^\s<>]*>'
+    r'|(?<=``) | (?=``)',
+)
+
+# character used instead of those next to which a line can't be broken
+UNBREAKABLE_CHAR = '\ue000'
+
 
 def and_join(values):
     """Comma and space join using "and" between the last and penultimate items.
@@ -117,6 +135,87 @@ def link_destination(href):
     return href
 
 
+def _unbreakable_slice(text, start, end, spans):
+    """Slice of a text to join to prevent breaking a line between two words.
+
+    Args:
+        text (str): Text of a paragraph.
+        start (int): End of the last word of the line.
+        end (int): Start of the first word of the next line.
+        spans (list): Slices of the text in which lines can't be broken.
+
+    Returns:
+        tuple: Start and end of the slice, empty if the line can be broken
+        between both words.
+    """
+    if any(span[0] < end and start < span[1] for span in spans):
+        return (start, end) if start < end else (start - 1, end + 1)
+    if start == end:
+        # inside a word
+        chars = text[start - 1:end + 1]
+        if (
+            {'W', 'F'}.isdisjoint(map(unicodedata.east_asian_width, chars))
+            or re.search(r'[\s!-/:-@[-`{-~]', chars)
+        ):
+            return (start - 1, end + 1)
+    elif BLOCK_MARKER_REGEX.match(text, end) or text[start - 1] == '\\':
+        return (start, end)
+    return (start, start)
+
+
+def wrap_paragraph(text, wrapwidth, first_line_wrapwidth):
+    r"""Wrap the text of a Markdown paragraph.
+
+    The lines are broken using the Unicode Line Breaking Algorithm, except
+    where a new line would change the meaning of the paragraph: inside words
+    (unless their script does not separate words with spaces), inside targets
+    of links, after a ``\`` and before words like ``#`` or ``1.``, that
+    would open another block.
+
+    Args:
+        text (str): Text to wrap.
+        wrapwidth (int): Maximum width of the lines.
+        first_line_wrapwidth (int): Maximum width of the first line.
+
+    Returns:
+        str: Wrapped text.
+    """
+    spans = [match.span() for match in UNBREAKABLE_SPANS_REGEX.finditer(text)]
+    masked_text = text
+
+    while True:
+        wrapped = md_ulb_pwrap.ulb_wrap_paragraph(
+            masked_text,
+            wrapwidth,
+            first_line_wrapwidth,
+        )
+        response, i = '', 0
+        for char in wrapped:
+            if char != '\n':
+                response += text[i]
+                i += 1
+                continue
+            start, end = i, i
+            while end < len(text) and masked_text[end] in ' \t':
+                end += 1
+            if end < len(text) and text[end] == '\n':
+                i = end + 1
+            else:
+                i = end
+                start, end = _unbreakable_slice(text, start, end, spans)
+                if masked_text[start:end].strip(UNBREAKABLE_CHAR):
+                    break
+            response += '\n'
+        else:
+            return response
+
+        masked_text = (
+            masked_text[:start]
+            + UNBREAKABLE_CHAR * (end - start)
+            + masked_text[end:]
+        )
+
+
 def parse_escaped_pair(value, separator=':'):
     r"""Escapes a pair key-value separated by a character.
 
-- 
2.43.0


From ec8a5e402e171ab0d27099b91ac22f105e33bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 83/96] fix: don't write tabs and line breaks of titles as
 escape sequences

---
 src/mdpo/md.py                 |  6 ++----
 src/mdpo/md2po/__init__.py     |  9 +++++----
 src/mdpo/mdpo2html/__init__.py |  6 +++---
 src/mdpo/po2md/__init__.py     |  9 +++++----
 src/mdpo/text.py               | 12 ++++++++++++
 5 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 4754805..0474ea9 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,6 +1,6 @@
 """Markdown related utilities for mdpo."""
 
-from mdpo.text import is_autolink_uri
+from mdpo.text import escape_title, is_autolink_uri
 
 
 LINK_REFERENCE_REGEX = (
@@ -102,8 +102,6 @@ def solve_link_reference_targets(translations):
     """
     import re
 
-    import polib
-
     link_refereced_link_re = re.compile(
         # the texts can contain pairs of brackets, like those of images
         r'(!?)\[((?:[^\[\]]|\[[^\[\]]*\])*)\]\[([^\]\s]+)\]',
@@ -124,7 +122,7 @@ def solve_link_reference_targets(translations):
             for target, href, title in references:
                 if target == match_target:
                     if title:
-                        href = f'{href} "{polib.escape(title)}"'
+                        href = f'{href} "{escape_title(title)}"'
                     elif text == href and not image and is_autolink_uri(href):
                         return f'<{href}>'
                     return f'{image}[{solve(text, references)}]({href})'
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index eb5e549..50a0a5e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -32,6 +32,7 @@ from mdpo.po import (
     remove_not_found_entries,
 )
 from mdpo.text import (
+    escape_title,
     is_autolink_uri,
     link_destination,
     parse_wrapwidth_argument,
@@ -875,10 +876,10 @@ class Md2Po:
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
-                        self.current_msgid += f' "{polib.escape(title)}"'
+                        self.current_msgid += f' "{escape_title(title)}"'
                     self.current_msgid += '>'
                 else:
-                    title_part = f' "{polib.escape(title)}"' if title else ''
+                    title_part = f' "{escape_title(title)}"' if title else ''
                     self.current_msgid += (
                         f'[{self._current_aspan_text}]'
                         f'({link_destination(href)}{title_part})'
@@ -916,7 +917,7 @@ class Md2Po:
             else:
                 img_markup += f'({link_destination(imgspan_src)}'
                 if imgspan_title:
-                    img_markup += f' "{polib.escape(imgspan_title)}"'
+                    img_markup += f' "{escape_title(imgspan_title)}"'
                 img_markup += ')'
 
             self._current_imgspan = {}
@@ -993,7 +994,7 @@ class Md2Po:
                 self.current_msgid = '[{}]:{}{}'.format(
                     target,
                     f' {href}' if href else '',
-                    f' "{polib.escape(title)}"' if title else '',
+                    f' "{escape_title(title)}"' if title else '',
                 )
                 self._save_current_msgid(
                     msgstr=self.current_msgid,
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index fbe9158..6950c88 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -24,7 +24,7 @@ from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
 )
-from mdpo.text import wrap_codespan
+from mdpo.text import escape_title, wrap_codespan
 
 
 PROCESS_REPLACER_TAGS = [
@@ -245,7 +245,7 @@ class MdPo2HTML(HTMLParser):
                             )
                         else:
                             title_part = (
-                                f' "{polib.escape(title)}"' if title else ''
+                                f' "{escape_title(title)}"' if title else ''
                             )
                             _current_replacement += f']({href}{title_part})'
                     else:
@@ -263,7 +263,7 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
                     if title:
-                        _current_replacement += f' "{polib.escape(title)}"'
+                        _current_replacement += f' "{escape_title(title)}"'
                     _current_replacement += ')'
                     markup = ''
                 else:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 906fe56..862684a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -27,6 +27,7 @@ from mdpo.po import (
 )
 from mdpo.text import (
     INFINITE_WRAPWIDTH,
+    escape_title,
     is_autolink_uri,
     link_destination,
     parse_wrapwidth_argument,
@@ -1015,7 +1016,7 @@ class Po2Md:
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
                 if details['title']:
-                    escaped_title = polib.escape(
+                    escaped_title = escape_title(
                         attribute_to_string(details['title']),
                     )
                     self.current_msgid += f' "{escaped_title}"'
@@ -1027,7 +1028,7 @@ class Po2Md:
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(
+                    escaped_title = escape_title(
                         attribute_to_string(details['title']),
                     )
                     self.current_msgid += f' "{escaped_title}"'
@@ -1064,7 +1065,7 @@ class Po2Md:
             else:
                 img_markup += f'({link_destination(imgspan_src)}'
                 if imgspan_title:
-                    img_markup += f' "{polib.escape(imgspan_title)}"'
+                    img_markup += f' "{escape_title(imgspan_title)}"'
                 img_markup += ')'
 
             if self._inside_aspan:
@@ -1151,7 +1152,7 @@ class Po2Md:
                             skip = True
                     if skip:
                         continue
-                title_part = f' "{polib.escape(title)}"' if title else ''
+                title_part = f' "{escape_title(title)}"' if title else ''
                 href_title = f' {href}{title_part}'
                 if href_title in added_references:
                     continue
diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index 285cc8c..61f1c48 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -216,6 +216,18 @@ def wrap_paragraph(text, wrapwidth, first_line_wrapwidth):
         )
 
 
+def escape_title(title):
+    """Write the title of a link or image to be included between double quotes.
+
+    Args:
+        title (str): Title of the link or image.
+
+    Returns:
+        str: Title in one line, with the needed characters escaped.
+    """
+    return re.sub(r'(["\\])', r'\\\1', re.sub(r'\s*\n\s*', ' ', title))
+
+
 def parse_escaped_pair(value, separator=':'):
     r"""Escapes a pair key-value separated by a character.
 
-- 
2.43.0


From 659ae7dbe6f694aca194dc1360d692d06282c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 84/96] fix: keep nested quotes and what follows them
 translating Markdown

---
 src/mdpo/po2md/__init__.py | 65 +++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 862684a..ecfdfb3 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -125,6 +125,7 @@ class Po2Md:
         '_codespan_start_index',
         '_codespan_inside_current_msgid',
         '_inside_quoteblock',
+        '_quotes_deep',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -326,6 +327,8 @@ class Po2Md:
         self._codespan_inside_current_msgid = False
 
         self._inside_quoteblock = False
+        # number of quotes inside which the parser is
+        self._quotes_deep = 0
 
         self._inside_aspan = False
         self._current_aspan_ref_target = None
@@ -540,6 +543,9 @@ class Po2Md:
         self._codespan_inside_current_msgid = False
         self._aimg_title_inside_current_msgid = False
 
+    def _quote_mark(self):
+        return '> ' * self._quotes_deep
+
     def _save_current_line(self):
         # strip all spaces according to unicodedata database ignoring newlines,
         # see https://docs.python.org/3/library/stdtypes.html#str.splitlines
@@ -559,6 +565,13 @@ class Po2Md:
             return
 
         if (
+            block is md4c.BlockType.QUOTE
+            and self._inside_quoteblock
+            and not self.current_line.strip(' >')
+        ):
+            # the mark is written by the first block of the inner quote
+            self.current_line = ''
+        elif (
             self._inside_quoteblock
             and (not self.current_line or self.current_line[0] != '>')
             and not self._current_thead_aligns
@@ -566,7 +579,7 @@ class Po2Md:
                 md4c.BlockType.TABLE, md4c.BlockType.THEAD, md4c.BlockType.TR,
             }
         ):
-            self.current_line += '> '
+            self.current_line += self._quote_mark()
         if self._inside_liblock_after_table:
             if not self._inside_quoteblock and block in {
                 md4c.BlockType.H, md4c.BlockType.CODE, md4c.BlockType.HTML,
@@ -583,7 +596,7 @@ class Po2Md:
             self._save_current_msgid()
             self._save_current_line()
             if self._inside_quoteblock:
-                self.current_line += '> '
+                self.current_line += self._quote_mark()
 
         if block is md4c.BlockType.P:
             self._inside_pblock = True
@@ -658,12 +671,12 @@ class Po2Md:
             self._save_current_line()
             if not self._inside_liblock:
                 if self._inside_quoteblock:
-                    self.current_line += f'{indent}>'
+                    self.current_line += f'{indent}{self._quote_mark().rstrip()}'
                 self._save_current_line()
         elif block is md4c.BlockType.TR:
             self.current_line += '   ' * len(self._current_list_type)
             if self._inside_quoteblock and self._current_thead_aligns:
-                self.current_line += '> '
+                self.current_line += self._quote_mark()
         elif block is md4c.BlockType.TH:
             self.current_line += '| '
             self._current_thead_aligns.append(details['align'].value)
@@ -674,6 +687,7 @@ class Po2Md:
                 self._save_current_msgid()
                 self._save_current_line()
             self._inside_quoteblock = True
+            self._quotes_deep += 1
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
@@ -728,9 +742,10 @@ class Po2Md:
 
             self._inside_pblock = False
             if self._inside_quoteblock:
+                mark = self._quote_mark().rstrip()
                 self.current_line = (
-                    f'{"   " * len(self._current_list_type)}>'
-                    if self._inside_liblock else '>'
+                    '   ' * len(self._current_list_type) + mark
+                    if self._inside_liblock else mark
                 )
                 self._save_current_line()
 
@@ -742,7 +757,7 @@ class Po2Md:
             if self._inside_liblock:
                 indent += '   ' * len(self._current_list_type)
             elif self._inside_quoteblock:
-                indent += '> '
+                indent += self._quote_mark()
             # all the lines of the code are placed inside the container block
             fence_chars = (details['fence_char'] or '') * 3
             if self.current_line:
@@ -777,12 +792,12 @@ class Po2Md:
             self._save_current_msgid()
             if self._inside_quoteblock:
                 self._save_current_line()
-                self.current_line += '> '
+                self.current_line += self._quote_mark()
             else:
                 self.current_line += '\n'
             self._save_current_line()
             if self._inside_quoteblock:
-                self.current_line += '> '
+                self.current_line += self._quote_mark()
             self._inside_hblock = False
         elif block is md4c.BlockType.LI:
             self._save_current_msgid()
@@ -795,14 +810,14 @@ class Po2Md:
             self._ul_marks.pop()
             self._current_list_type.pop()
             if self._inside_quoteblock:
-                self.current_line += '> '
+                self.current_line += self._quote_mark()
             if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
                 self._save_current_line()
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
             if self._inside_quoteblock:
-                self.current_line += '> '
+                self.current_line += self._quote_mark()
             if not self._ol_marks and self.outputlines[-1]:
                 self._save_current_line()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
@@ -815,7 +830,7 @@ class Po2Md:
             # build thead separator
             thead_separator = ''
             if self._inside_quoteblock:
-                thead_separator += '> '
+                thead_separator += self._quote_mark()
             for align in self._current_thead_aligns:
                 if align == 0:
                     thead_separator += '| --- '
@@ -830,15 +845,27 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines and self.outputlines[-1].strip() == '>':
+            mark = self._quote_mark().rstrip()
+            if self.outputlines and self.outputlines[-1].strip() == mark:
                 self.outputlines.pop()
-            if not self._inside_liblock:
+            self._quotes_deep -= 1
+            self._inside_quoteblock = self._quotes_deep > 0
+            if self._inside_quoteblock:
+                # separate from the next block of the outer quote
+                self.current_line = (
+                    '   ' * len(self._current_list_type)
+                    + self._quote_mark().rstrip()
+                )
+                self._save_current_line()
+            elif not self._inside_liblock:
                 self._save_current_line()
-            self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
             if self._inside_quoteblock:
                 # separate from the next block of the quote
-                self.current_line = '   ' * len(self._current_list_type) + '>'
+                self.current_line = (
+                    '   ' * len(self._current_list_type)
+                    + self._quote_mark().rstrip()
+                )
                 self._save_current_line()
             elif not self._current_list_type:
                 self._save_current_line()
@@ -852,14 +879,14 @@ class Po2Md:
                     # HTML next to a command
                     if self._inside_quoteblock and not self._inside_liblock:
                         self._save_current_line()
-                        self.current_line += '>'
+                        self.current_line += self._quote_mark().rstrip()
                     else:
                         self.current_line += '\n'
                     self._save_current_line()
             elif self._inside_quoteblock and not self._inside_liblock:
                 self.current_line = self.current_line.rstrip('\n')
                 self._save_current_line()
-                self.current_line += '>'
+                self.current_line += self._quote_mark().rstrip()
                 self._save_current_line()
             else:
                 self._save_current_line()
@@ -1132,7 +1159,7 @@ class Po2Md:
                 if self._inside_liblock:
                     self.current_line += '   ' * len(self._current_list_type)
                 elif self._inside_quoteblock:
-                    self.current_line += '> '
+                    self.current_line += self._quote_mark()
             self.current_line += text
 
     def _append_link_references(self):
-- 
2.43.0


From 56003d4a627380d0fae8f6bbf9c5c39eba8c6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 85/96] fix: keep autolinks inside the texts of links

---
 src/mdpo/md2po/__init__.py | 13 +++++++++++++
 src/mdpo/po2md/__init__.py | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 50a0a5e..21ade1f 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -131,6 +131,7 @@ class Md2Po:
         '_inside_codeblock',
         '_inside_pblock',
         '_inside_aspan',
+        '_inside_nested_aspan',
         '_inside_liblock',
         '_inside_codespan',
         '_ols_deep',
@@ -385,6 +386,7 @@ class Md2Po:
         self._codespan_start_index = None
 
         self._inside_aspan = False
+        self._inside_nested_aspan = False
         self._current_aspan_text = ''
         # indicates the target of the current link, which is referenced and
         # extracted without using MD4C, so we can preserve it as referenced
@@ -732,6 +734,12 @@ class Md2Po:
             self._imgspan_nested_deep += 1
             return
 
+        if span is md4c.SpanType.A and self._inside_aspan:
+            # autolink inside the text of a link
+            self._inside_nested_aspan = True
+            self._current_aspan_text += '<'
+            return
+
         if span is md4c.SpanType.U:
             self._uspans_deep += 1
 
@@ -832,6 +840,11 @@ class Md2Po:
             self._imgspan_nested_deep -= 1
             return
 
+        if span is md4c.SpanType.A and self._inside_nested_aspan:
+            self._inside_nested_aspan = False
+            self._current_aspan_text += '>'
+            return
+
         if span is md4c.SpanType.U:
             self._uspans_deep -= 1
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ecfdfb3..744914f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -119,6 +119,7 @@ class Po2Md:
         '_inside_liblock_after_table',
         '_inside_hblock',
         '_inside_aspan',
+        '_inside_nested_aspan',
         '_inside_codespan',
         '_latexmath_display_start_index',
         '_latexmath_display_msgid',
@@ -331,6 +332,7 @@ class Po2Md:
         self._quotes_deep = 0
 
         self._inside_aspan = False
+        self._inside_nested_aspan = False
         self._current_aspan_ref_target = None
         self._current_aspan_href = None
         self._current_aspan_text = ''
@@ -910,6 +912,12 @@ class Po2Md:
             self._imgspan_nested_deep += 1
             return
 
+        if span is md4c.SpanType.A and self._inside_aspan:
+            # autolink inside the text of a link
+            self._inside_nested_aspan = True
+            self._current_aspan_text += '<'
+            return
+
         if span is md4c.SpanType.U:
             self._uspans_deep += 1
             if self._uspans_deep > 1:
@@ -999,6 +1007,11 @@ class Po2Md:
             self._imgspan_nested_deep -= 1
             return
 
+        if span is md4c.SpanType.A and self._inside_nested_aspan:
+            self._inside_nested_aspan = False
+            self._current_aspan_text += '>'
+            return
+
         if span is md4c.SpanType.U:
             self._uspans_deep -= 1
             if self._uspans_deep:
-- 
2.43.0


From db2497ecf76f40e8642f0d2763cfabd3ff268ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 86/96] fix: don't take for link references lines inside
 paragraphs

---
 src/mdpo/md.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 0474ea9..80b7779 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -49,8 +49,13 @@ def parse_link_references(content):
         r'((?:(?:[-*+]|\d+[.)])\s+|>\s*)*)(`{3,}(?=[^`]*$)|~{3,})',
     )
 
+    # blocks that can be followed by a link reference without a blank line
+    single_line_re = re.compile(r'#{1,6}(\s|$)|([-_*=]\s*)+$|.*-->$')
+
     response = []
     inside_list = False
+    # kind of the first of the contiguous lines that precede the current one
+    previous = None
     # prefix and characters of the opening of the current fenced code block
     prefix, fence = ('', None)
     for line in content.expandtabs(4).splitlines():
@@ -80,10 +85,19 @@ def parse_link_references(content):
         fence_match = fence_re.match(linestrip)
         if fence_match:
             prefix, fence = fence_match.groups()
-        elif linestrip.startswith('['):
+            previous = None
+        elif (
+            not linestrip.strip('> ') or single_line_re.match(linestrip)
+        ):
+            previous = None
+        elif re.match(r'\[[^\]]+\]:', linestrip) and previous != 'text':
+            previous = 'reference'
             link_reference = parse_link_reference(linestrip)
             if link_reference:
                 response.append(link_reference)
+        elif previous is None:
+            # references can't interrupt paragraphs
+            previous = 'text'
     return response
 
 
-- 
2.43.0


From 7f9248d7fd8ce5eb48d7c9e513dcf857e1a4e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 87/96] fix: don't take the lines that continue list items for
 the end of the list finding link references

---
 src/mdpo/md.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 80b7779..121b522 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -75,7 +75,11 @@ def parse_link_references(content):
                 ):
                     fence = None
                 continue
-        if linestrip and not indent:
+        if linestrip and not indent and (
+            previous is None  # otherwise can continue a list item
+            or list_item_re.match(linestrip)
+            or single_line_re.match(linestrip)
+        ):
             inside_list = (
                 bool(list_item_re.match(linestrip))
                 and len(set(linestrip) - {' '}) > 1  # thematic break
-- 
2.43.0


From 79625afbb14e12923fe5e1a4ea5cf14658e0d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:25 +0000
Subject: [PATCH 88/96] fix: don't write link references breaking the lines of
 paragraphs

---
 src/mdpo/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index 61f1c48..966c7be 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -19,7 +19,9 @@ BLOCK_MARKER_REGEX = re.compile(
 # like a space
 UNBREAKABLE_SPANS_REGEX = re.compile(
     r'\[\[[^\[\]]*\]\]|\]\((<[^<>]*>|[^\s()]*)|<!--.*?-->|<[^\s<>]*>'
-    r'|(?<=``) | (?=``)',
+    r'|(?<=``) | (?=``)'
+    # must not be a link reference followed by another paragraph
+    r'|^\[[^\]]*\]:\s+\S+\s+(("[^"]*"|\'[^\']*\'|\([^()]*\))\s+)?',
 )
 
 # character used instead of those next to which a line can't be broken
-- 
2.43.0


From 04404374a1087def8fe0367ac34e47870b5b532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:34 +0000
Subject: [PATCH 89/96] fix: find link references after blank lines with
 spaces, not after comments inside paragraphs

---
 src/mdpo/md.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 121b522..802510e 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -50,7 +50,8 @@ def parse_link_references(content):
     )
 
     # blocks that can be followed by a link reference without a blank line
-    single_line_re = re.compile(r'#{1,6}(\s|$)|([-_*=]\s*)+$|.*-->$')
+    single_line_re = re.compile(r'#{1,6}(\s|$)|([-_*=]\s*)+$|<!--.*-->$')
+    comment_re = re.compile(r'((?:[-*+]|\d+[.)])\s+|>\s*)*<!--')
 
     response = []
     inside_list = False
@@ -84,7 +85,7 @@ def parse_link_references(content):
                 bool(list_item_re.match(linestrip))
                 and len(set(linestrip) - {' '}) > 1  # thematic break
             )
-        if indent > 3 and not inside_list:
+        if linestrip and indent > 3 and not inside_list:
             continue  # indented code block
         fence_match = fence_re.match(linestrip)
         if fence_match:
@@ -94,6 +95,9 @@ def parse_link_references(content):
             not linestrip.strip('> ') or single_line_re.match(linestrip)
         ):
             previous = None
+        elif comment_re.match(linestrip) or previous == 'comment':
+            # comments that don't start blocks are part of paragraphs
+            previous = None if '-->' in linestrip else 'comment'
         elif re.match(r'\[[^\]]+\]:', linestrip) and previous != 'text':
             previous = 'reference'
             link_reference = parse_link_reference(linestrip)
-- 
2.43.0


From 1bed61e3678e43fc400d462975a0eca36c348026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:35 +0000
Subject: [PATCH 90/96] fix: join the lines of headings underlined with equals
 signs or dashes

---
 src/mdpo/md2po/__init__.py | 2 +-
 src/mdpo/po2md/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 21ade1f..6d6a5fb 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -974,7 +974,7 @@ class Md2Po:
                     if self._inside_aspan:
                         self._current_aspan_text += text
                         return
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 self.current_msgid += text
             elif not self.disable_next_codeblock and (
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 744914f..31f5860 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1151,7 +1151,7 @@ class Po2Md:
                     self._current_aspan_text += text.replace('\n', ' ')
                     return
 
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if text == self._current_aspan_href:
                     # self-referenced wiki or inline link
-- 
2.43.0


From fedaeccff1d45d9ea04ce93806a23d740a72c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:37 +0000
Subject: [PATCH 91/96] fix: don't write the indentation of the commands that
 are removed translating Markdown

---
 src/mdpo/po2md/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 31f5860..e35aeb3 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -111,6 +111,7 @@ class Po2Md:
         '_leavespan_replacer',
 
         '_inside_htmlblock',
+        '_htmlline_indentation',
         '_inside_codeblock',
         '_inside_indented_codeblock',
         '_inside_pblock',
@@ -314,6 +315,8 @@ class Po2Md:
             False,  # the parser is inside an HTML block
             None,  # a mdpo command has been found in the HTML block
         ]
+        # spaces at the start of the current line of an HTML block
+        self._htmlline_indentation = ''
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
         self._inside_hblock = False
@@ -1160,13 +1163,20 @@ class Po2Md:
                 self.current_msgid += text
             else:
                 self.current_msgid += text
-        elif not self._process_command(text):
+        elif not text.strip(' '):
+            self._htmlline_indentation = text
+        else:
+            indentation = self._htmlline_indentation
+            self._htmlline_indentation = ''
+            if self._process_command(text):
+                return  # neither is the indentation of commands written
             if (
                 text == '\n'
                 and self._inside_htmlblock[1]
                 and not self.current_line.strip(' >')
             ):
                 return  # line of a command, which is not written
+            text = indentation + text
             if text != '\n' and self.current_line[-1:] in {'', '\n'}:
                 # HTML lines are placed inside the container block
                 if self._inside_liblock:
-- 
2.43.0


From 8127a822c8f633fa39a3fa7da18482082b6ff983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 92/96] fix: don't use obsolete entries in place of the
 translations of other ones

---
 src/mdpo/po.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index ff0dcbd..e4214ec 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -136,18 +136,19 @@ def pofiles_to_unique_translations_dicts(pofiles):
         tuple: dictionaries with translations.
     """
     translations, translations_with_msgctxt = {}, {}
-    for pofile in pofiles:
-        for entry in pofile:
-            if not entry.msgstr:
-                continue
-            if entry.msgctxt:
-                if entry.msgctxt not in translations_with_msgctxt:
-                    translations_with_msgctxt[entry.msgctxt] = {}
-                translations_with_msgctxt[
-                    entry.msgctxt
-                ][entry.msgid] = entry.msgstr
-            else:
-                translations[entry.msgid] = entry.msgstr
+    entries = [entry for pofile in pofiles for entry in pofile]
+    # obsolete entries don't replace the translations of other ones
+    for entry in sorted(entries, key=lambda entry: not entry.obsolete):
+        if not entry.msgstr:
+            continue
+        if entry.msgctxt:
+            if entry.msgctxt not in translations_with_msgctxt:
+                translations_with_msgctxt[entry.msgctxt] = {}
+            translations_with_msgctxt[
+                entry.msgctxt
+            ][entry.msgid] = entry.msgstr
+        else:
+            translations[entry.msgid] = entry.msgstr
     return (translations, translations_with_msgctxt)
 
 
-- 
2.43.0


From 445582df190fa544972f6fc38756effc12bfe9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:25 +0000
Subject: [PATCH 93/96] fix: execute the files of events again in each call,
 after they fail or change

---
 src/mdpo/event.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index f1d4ce7..301e2e5 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -147,6 +147,7 @@ def parse_events_kwarg(events_kwarg):
         dict: Event names mapping to a list of functions to execute.
     """
     events = {}
+    modules = {}  # files executed in this call, they can change before others
     for event_name, funcs_func_or_filefuncs in events_kwarg.items():
         funcs_or_filefuncs = (
             [funcs_func_or_filefuncs]
@@ -177,8 +178,8 @@ def parse_events_kwarg(events_kwarg):
 
                 # the absolute path doesn't clash with other modules
                 modname = os.path.abspath(fpath)
-                if modname in sys.modules:
-                    mod = sys.modules[modname]
+                if modname in modules:
+                    mod = modules[modname]
                 else:
                     spec = importlib.util.spec_from_file_location(
                         modname, fpath,
@@ -186,6 +187,7 @@ def parse_events_kwarg(events_kwarg):
                     mod = importlib.util.module_from_spec(spec)
                     sys.modules[modname] = mod
                     spec.loader.exec_module(mod)
+                    modules[modname] = mod
 
                 func_owner = mod
                 if '.' in funcname:
-- 
2.43.0


From d2120ec92060e626b0f829de2f2105f11bb1463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:46 +0000
Subject: [PATCH 94/96] fix: don't break the lines of indented code blocks at
 form feeds and Unicode separators

---
 src/mdpo/po2md/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e35aeb3..224cd05 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1,6 +1,7 @@
 """Markdown files translator using PO files as reference."""
 
 import contextlib
+import re
 
 import md4c
 import polib
@@ -491,7 +492,9 @@ class Po2Md:
 
         if self._inside_indented_codeblock:
             new_translation = ''
-            for line in translation.splitlines():
+            # other characters taken as line boundaries by `str.splitlines`
+            # are part of the code
+            for line in re.split(r'\r\n?|\n', translation.rstrip('\r\n')):
                 new_translation += f'    {line}\n'
             translation = new_translation
         else:
-- 
2.43.0


From 78c9b974918f7da4acd49b9fc693acf8332fa5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:08 +0000
Subject: [PATCH 95/96] fix: don't find link references after form feeds and
 Unicode separators inside lines

---
 src/mdpo/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 802510e..111c729 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -59,7 +59,7 @@ def parse_link_references(content):
     previous = None
     # prefix and characters of the opening of the current fenced code block
     prefix, fence = ('', None)
-    for line in content.expandtabs(4).splitlines():
+    for line in re.split(r'\r\n?|\n', content.expandtabs(4)):
         linestrip = line.strip()
         indent = len(line) - len(line.lstrip())
         if fence is not None:
-- 
2.43.0


From b4589bf7b1bc7116217dc33f9b53fb06100f2fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:11 +0000
Subject: [PATCH 96/96] fix: read the messages to ignore from a file separated
 only by new lines

---
 src/mdpo/md2po/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__main__.py b/src/mdpo/md2po/__main__.py
index 98abef1..3e29929 100755
--- a/src/mdpo/md2po/__main__.py
+++ b/src/mdpo/md2po/__main__.py
@@ -186,7 +186,7 @@ def parse_options(args):
             opts.ignore_msgids,
             encoding=opts.po_encoding or 'utf-8',
         ) as f:
-            opts.ignore_msgids = f.read().splitlines()
+            opts.ignore_msgids = f.read().split('\n')
     else:
         opts.ignore_msgids = []
 
-- 
2.43.0


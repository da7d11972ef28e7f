From 339a1f2ead14345fb17efc6544249a0dd1082dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 01/47] fix: keep escaped slashes at the edges of section names

The placeholder used for escaped slashes (0x1f) counts as whitespace, so a
leading or trailing escaped slash was stripped off the section name and a
literal 0x1f in a name was turned into a slash.
---
 skops/card/_model_card.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c635f0a..0a5d0d1 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -70,10 +70,10 @@ def split_subsection_names(key: str) -> list[str]:
         The individual (sub)sections.
 
     """
-    placeholder = "\x1f"  # unit separator control character (ASCII control char 31)
-    key = key.replace("\\/", placeholder)
-    parts = (part.strip() for part in key.split("/"))
-    return [part.replace(placeholder, "/") for part in parts]
+    # only split on slashes that are not escaped; unescape after stripping so that
+    # escaped slashes at the start or end of a name are preserved
+    parts = (part.strip() for part in re.split(r"(?<!\\)/", key))
+    return [part.replace("\\/", "/") for part in parts]
 
 
 @dataclass
-- 
2.43.0


From 250fa9261d656f7ce9f6d513c7f03237b4514264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 02/47] fix: do not list subsections of folded sections in the
 TOC

render() does not emit the subsections of a folded section, so get_toc() listed
headings that are not part of the rendered card.
---
 skops/card/_model_card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 0a5d0d1..1f95680 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1273,7 +1273,7 @@ class Card:
             title = val.title
             yield title, level
 
-            if val.subsections:
+            if val.subsections and not val.folded:
                 yield from self._iterate_key_section_content(
                     val.subsections,
                     level=level + 1,
-- 
2.43.0


From 76a260fc7526150e38d9130e4d6fbf116a7277dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 03/47] fix: use the last path part as title in Card.add_table

The whole path was used as heading when adding a table to a subsection.
---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 1f95680..02a8c7d 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -930,8 +930,9 @@ class Card:
         """
         description = description or ""
         for key, val in kwargs.items():
+            title = split_subsection_names(key)[-1]
             section = TableSection(
-                title=key, content=description, table=val, folded=folded
+                title=title, content=description, table=val, folded=folded
             )
             self._add_single(key, section)
         return self
-- 
2.43.0


From 66c72ba4ffbef33d1049284a3ffdf1b4b39b7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 04/47] fix: default the alt text of each plot to its own title

When several plots were added with one call, the title of the first plot was
used as the alt text of all of them.
---
 skops/card/_model_card.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 02a8c7d..2bee772 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -860,11 +860,10 @@ class Card:
         description = description or ""
         for section_name, plot_path in kwargs.items():
             title = split_subsection_names(section_name)[-1]
-            alt_text = alt_text or title
             section = PlotSection(
                 title=title,
                 content=description,
-                alt_text=alt_text,
+                alt_text=alt_text or title,
                 path=plot_path,
                 folded=folded,
             )
-- 
2.43.0


From eaac64d858c65be9fe528fb7d7cec8901111753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 05/47] fix: render table headers and cells as their text on a
 single row

Carriage returns and line breaks in column names broke the table into extra
rows, non-string column names raised an AttributeError and float32 values of a
DataFrame were not shown as their own text.
---
 skops/card/_model_card.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 2bee772..20d10d6 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -40,6 +40,10 @@ def wrap_as_details(text: str, folded: bool) -> str:
     return f"<details>\n<summary> Click to expand </summary>\n\n{text}\n\n</details>"
 
 
+def _replace_line_breaks(value: Any) -> str:
+    return re.sub(r"\r\n|\r|\n", "<br />", str(value))
+
+
 def split_subsection_names(key: str) -> list[str]:
     r"""Split a string containing multiple sections into a list of strings for
     each.
@@ -203,10 +207,13 @@ class TableSection(Section):
         table = PrettyTable()
         table.set_style(TableStyle.MARKDOWN)
         for key, values in self.table.items():
-            # replace \n with <br /> (html new line tag) so that line breaks are
+            # iterating over a pandas series converts its values to Python types,
+            # which changes the text of e.g. float32 values
+            values = values.array if self._is_pandas_df else values
+            # replace line breaks with <br /> (html new line tag) so that they are
             # not converted into new rows with PrettyTable.
-            values = [str(value).replace("\n", "<br />") for value in values]
-            table.add_column(key, values)
+            values = [_replace_line_breaks(value) for value in values]
+            table.add_column(_replace_line_breaks(key), values)
 
         table = table.get_string()
 
-- 
2.43.0


From 13cdbc1412b05ddfd5642fc247cea7b4e6c2a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 06/47] fix: give each parsed header its own, correctly nested
 section

Slashes in headings were treated as path separators, headings of the same name
under the same parent overwrote each other, and skipped header levels resulted
in the wrong parent section.
---
 skops/card/_parser.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 35a0ad4..813ce26 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -59,13 +59,20 @@ class PandocParser:
             raise ValueError(f"Markup of type {markup_type} is not supported (yet)")
 
     def _add_section(
-        self, section_name: str, card: Card, section_trace: list[str]
+        self, section_name: str, card: Card, section_trace: list[tuple[int, Section]]
     ) -> Section:
         # Add a new section to the card, which can be a subsection, and return
-        # it.
-        section_name = "/".join(section_trace)
-        cur_section = card._add_single(section_name, "")
-        return cur_section
+        # it. The name is the text of a header, not a path, so the section is
+        # added directly to its parent. Each header results in its own section,
+        # even if there is already a sibling of the same name.
+        siblings = section_trace[-1][1].subsections if section_trace else card._select([])
+        key, count = section_name, 1
+        while key in siblings:
+            count += 1
+            key = f"{section_name} ({count})"
+
+        siblings[key] = Section(title=section_name, content="")
+        return siblings[key]
 
     def _add_content(self, content: str, section: Section | None) -> None:
         # Add content to the current section
@@ -86,9 +93,7 @@ class PandocParser:
             # should we require each Formattable to have an update method?
             raise ValueError(f"Could not modify content of {section.content}")
 
-    def _parse_header(
-        self, item: PandocItem, section_trace: list[str]
-    ) -> tuple[str, int]:
+    def _parse_header(self, item: PandocItem) -> tuple[str, int]:
         # Headers are the only type of item that needs to be handled
         # differently. This is because we structure the underlying model card
         # data as a tree with nodes corresponding to headers. To assign the
@@ -96,7 +101,8 @@ class PandocParser:
         # headers. This cannot be done on the level of the markdown mapping,
         # since it is not aware of the tree structure.
         level, _, _ = item["c"]
-        content = self.mapping(item)
+        # a markdown heading consists of a single line
+        content = self.mapping(item).replace("\n", " ")
         return content, level
 
     def _post_process(self, res: str) -> str:
@@ -119,7 +125,8 @@ class PandocParser:
             model card.
         """
         section: Section | None = None
-        section_trace: list[str] = []
+        # the current section and its ancestors, together with their header level
+        section_trace: list[tuple[int, Section]] = []
         card = Card(None, template=None)
 
         # Parsing the flat structure, not recursively as in pandocfilters. After
@@ -128,10 +135,13 @@ class PandocParser:
         # nodes.
         for item in json.loads(self.source)["blocks"]:
             if item["t"] == "Header":
-                content, level = self._parse_header(item, section_trace=section_trace)
+                content, level = self._parse_header(item)
                 res = self._post_process(content)
-                section_trace = section_trace[: level - 1] + [res]
+                # the parent is the nearest preceding header of a lower level
+                while section_trace and section_trace[-1][0] >= level:
+                    section_trace.pop()
                 section = self._add_section(res, card=card, section_trace=section_trace)
+                section_trace.append((level, section))
             else:
                 res = self._post_process(self.mapping(item))
                 self._add_content(res, section=section)
-- 
2.43.0


From adf76e8eca1415496164875ea74cf0dfa30ab23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 07/47] fix: do not leak state between conversions of markup
 elements

The indentation stayed incremented when an element inside a list or div could
not be converted and converting a figure modified the figure.
---
 skops/card/_markup.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 2e42a25..35e2e61 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -71,8 +71,10 @@ class Markdown:
     def _indented(self, *, spaces: int):
         """Temporarily increment indentation by one"""
         self._indent_trace.append(spaces)
-        yield
-        self._indent_trace.pop(-1)
+        try:
+            yield
+        finally:
+            self._indent_trace.pop(-1)
 
     def _get_indent(self, *, incr: int = 0) -> str:
         """Get current indentation, optionally incremented"""
@@ -169,9 +171,8 @@ class Markdown:
         if body_type != "Plain":
             raise ValueError(f"Cannot deal with figure of type '{body_type}'")
 
-        plain_fig = body["c"][0]["c"]
-        plain_fig[2][1] = "fig:"
-        return self._image(plain_fig)
+        attr, fig_caption, (dest, _) = body["c"][0]["c"]
+        return self._image((attr, fig_caption, (dest, "fig:")))
 
     @staticmethod
     def _code_block(item: tuple[tuple[int, list[str], list[str]], str]) -> str:
-- 
2.43.0


From 3728d621dfa54fbf39037c0393f413abe764ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 08/47] fix: keep all rows of parsed tables

Additional header rows, groups of rows, and footer rows were silently dropped.
---
 skops/card/_markup.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 35e2e61..c449fb8 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -222,7 +222,7 @@ class Markdown:
     def _table_body_new(self, items) -> list[list[str]]:  # pragma: no cover
         body = []
         fn = self.__call__
-        for _, row_items in items:
+        for row_items in items:
             row = []
             for col_row_item in row_items:
                 _, alignment, _, _, content = col_row_item
@@ -239,16 +239,19 @@ class Markdown:
 
     def _table_new(self, item) -> tuple[list[str], list[list[str]]]:  # pragma: no cover
         # pandoc >= 2.10
-        # attr capt specs thead tbody tfoot
-        _, _, _, thead, tbody, _ = item
+        # attr capt specs thead tbodies tfoot
+        _, _, _, (_, thead_rows), tbodies, (_, tfoot_rows) = item
+        # there may be several header rows, groups of rows, and footer rows, but
+        # markdown only knows a single header row
+        (_, header), *rows = thead_rows
+        # attr rhc hd bd
+        for _, _, head_rows, body_rows in tbodies:
+            rows += head_rows + body_rows
+        rows += tfoot_rows
         # header
-        (_, thead_bodies) = thead
-        (attr, thead_body) = thead_bodies[0]  # multiple headers?
-        columns = self._table_cols_new(thead_body)
+        columns = self._table_cols_new(header)
         # rows
-        # attr rhc hd bd
-        _, _, _, trows = tbody[0]  # multiple groups of rows?
-        body = self._table_body_new(trows)
+        body = self._table_body_new([cells for _, cells in rows])
         return columns, body
 
     def _table(self, item) -> str:
-- 
2.43.0


From edac6dba42005ea3b84ddcc2365f012b2e797107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 09/47] fix: replace the output of skops update atomically

Relative output paths with a directory failed because the directory did not
exist below the temporary directory, and if the temporary directory was on a
different file system the output was copied, i.e. left incomplete if the process
died. Write the new archive next to the output and replace it in one step.
---
 skops/cli/_update.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skops/cli/_update.py b/skops/cli/_update.py
index e3edecc..b535e8b 100644
--- a/skops/cli/_update.py
+++ b/skops/cli/_update.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import argparse
 import json
 import logging
-import shutil
+import os
 import tempfile
 import zipfile
 from pathlib import Path
@@ -74,10 +74,13 @@ def _update_file(
         )
         return None
 
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        tmp_output_file = Path(tmp_dir) / f"{output_file}.tmp"
+    output_path = Path(output_file)
+    # Write to a temporary directory next to the output file, so that the last step is
+    # an atomic replacement on the same file system.
+    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:
+        tmp_output_file = Path(tmp_dir) / output_path.name
         dump(input_model, tmp_output_file)
-        shutil.move(str(tmp_output_file), str(output_file))
+        os.replace(tmp_output_file, output_path)
     logger.info(f"Updated skops file written to {output_file}")
 
 
-- 
2.43.0


From f64b1c771658461bb0036fc71909b460dcc07ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 10/47] fix: don't let skops update overwrite its input without
 --inplace

Passing the input as output file altered the input even though the inplace flag
was not set.
---
 skops/cli/_update.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skops/cli/_update.py b/skops/cli/_update.py
index b535e8b..2c61087 100644
--- a/skops/cli/_update.py
+++ b/skops/cli/_update.py
@@ -75,6 +75,12 @@ def _update_file(
         return None
 
     output_path = Path(output_file)
+    if not inplace and output_path.exists() and output_path.samefile(input_file):
+        raise ValueError(
+            "The output file is the same as the input file. Please use the inplace flag"
+            " to overwrite the input file."
+        )
+
     # Write to a temporary directory next to the output file, so that the last step is
     # an atomic replacement on the same file system.
     with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:
-- 
2.43.0


From b43f06d2737561f49e433ffc51db94fe6fdd3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 11/47] fix: do not memoize the constructor of reduce nodes
 under an id of the loading process

---
 skops/io/_sklearn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 3baee2b..08b0e65 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -165,7 +165,6 @@ class ReduceNode(Node):
                 {
                     "__class__": constructor.__name__,
                     "__module__": get_module(constructor),
-                    "__id__": id(constructor),
                 },
                 load_context,
                 trusted=trusted,
-- 
2.43.0


From b533da613ecd7919348d9edf23a2de3693aa78f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:17 +0000
Subject: [PATCH 12/47] fix: do not import the loss named by an archive before
 the audit

---
 skops/io/_sklearn.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 08b0e65..cb3acb8 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -153,19 +153,23 @@ class ReduceNode(Node):
         self,
         state: dict[str, Any],
         load_context: LoadContext,
-        constructor: Type[Any],
+        constructor: Type[Any] | tuple[str, str],
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
         reduce = state["__reduce__"]
+        # the constructor is either a known type, or the module and the name of a type,
+        # which must not be imported before the audit
+        if isinstance(constructor, tuple):
+            constructor_module, constructor_name = constructor
+        else:
+            constructor_module = get_module(constructor)
+            constructor_name = constructor.__name__
         self.children = {
             "attrs": get_tree(state["content"], load_context, trusted=trusted),
             "args": get_tree(reduce["args"], load_context, trusted=trusted),
             "constructor": TypeNode(
-                {
-                    "__class__": constructor.__name__,
-                    "__module__": get_module(constructor),
-                },
+                {"__class__": constructor_name, "__module__": constructor_module},
                 load_context,
                 trusted=trusted,
             ),
@@ -254,7 +258,7 @@ class LossNode(ReduceNode):
         super().__init__(
             state,
             load_context,
-            constructor=gettype(state["__module__"], state["__class__"]),
+            constructor=(state["__module__"], state["__class__"]),
             trusted=self.trusted,
         )
 
-- 
2.43.0


From 12cfa8156b1d8a1b58c3aadc166260887070b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:12 +0000
Subject: [PATCH 13/47] fix: only load methods of the module that was audited,
 do not replace methods

---
 skops/io/_general.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 07cdfd5..d090413 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -509,12 +509,18 @@ def method_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # dependent on a specific instance of an object.
     # It stores the state of the object the method is bound to,
     # and prepares both to be persisted.
+    name = obj.__func__.__name__
+    resolved = getattr(obj.__self__, name, obj)
+    if getattr(resolved, "__func__", None) is not obj.__func__:
+        # e.g. a method of the parent class: its name leads to a different method
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(obj),
         "__loader__": "MethodNode",
         "content": {
-            "func": obj.__func__.__name__,
+            "func": name,
             "obj": get_state(obj.__self__, save_context),
         },
     }
@@ -539,6 +545,18 @@ class MethodNode(Node):
     def _construct(self):
         loaded_obj = self.children["obj"].construct()
         method = getattr(loaded_obj, self.children["func"])
+        # the name that was audited only covers the module of the method, thus make
+        # sure that we really found a method of this object and of this module
+        if (
+            not isinstance(method, MethodType)
+            or method.__self__ is not loaded_obj
+            or get_module(method) != self.module_name
+            or type(method).__name__ != self.class_name
+        ):
+            raise TypeError(
+                f"{self.children['func']!r} is not a method of the loaded object that"
+                f" is defined in {self.module_name}"
+            )
         return method
 
 
-- 
2.43.0


From c9ee01f22e36a5eddfbe7801d80099dc2490bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:12 +0000
Subject: [PATCH 14/47] fix: only create the operator types that were audited

---
 skops/io/_general.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index d090413..76dd142 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -680,6 +680,16 @@ class OperatorFuncNode(Node):
         self.children["attrs"] = get_tree(state["attrs"], load_context, trusted=trusted)
 
     def _construct(self):
+        # only the name of the class is used below, make sure that it belongs to the
+        # type that was audited
+        if self.module_name != "operator" or self.class_name not in (
+            "attrgetter",
+            "itemgetter",
+            "methodcaller",
+        ):
+            raise TypeError(
+                f"{self.module_name}.{self.class_name} is not an operator type"
+            )
         op = getattr(operator, self.class_name)
         attrs = self.children["attrs"].construct()
         return op(*attrs)
-- 
2.43.0


From d4e3c95d425a99b2fed79f2a951630fe8fd3f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:12 +0000
Subject: [PATCH 15/47] fix: refuse to dump methodcallers with keyword
 arguments, which were lost

---
 skops/io/_general.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 76dd142..8ddbf26 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -658,7 +658,10 @@ class BytearrayNode(BytesNode):
 
 
 def operator_func_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    _, attrs = obj.__reduce__()
+    constructor, attrs = obj.__reduce__()
+    if constructor is not type(obj):
+        # methodcaller with keyword arguments, which would be lost
+        raise UnsupportedTypeException(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": "operator",
-- 
2.43.0


From 6d036849f316dc4b79ea9719181617866bf6d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:12 +0000
Subject: [PATCH 16/47] fix: refuse subclasses of partial instead of changing
 their type

---
 skops/io/_general.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 8ddbf26..ab1e27b 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -273,9 +273,11 @@ class FunctionNode(Node):
 
 
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not partial:  # don't allow any subclass
+        raise UnsupportedTypeException(obj)
     _, _, (func, args, kwds, namespace) = obj.__reduce__()
     res = {
-        "__class__": "partial",  # don't allow any subclass
+        "__class__": "partial",
         "__module__": get_module(type(obj)),
         "__loader__": "PartialNode",
         "content": {
@@ -308,6 +310,9 @@ class PartialNode(Node):
         }
 
     def _construct(self):
+        # the type that was audited has to be the one that is used below
+        if f"{self.module_name}.{self.class_name}" != "functools.partial":
+            raise TypeError(f"{self.module_name}.{self.class_name} is not a partial")
         func = self.children["func"].construct()
         args = self.children["args"].construct()
         kwds = self.children["kwds"].construct()
-- 
2.43.0


From eff54bb14b9e6ad1d58f28fdd17d1eab01537b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 17/47] fix: keep the attributes and the type of instances of
 subclasses of containers

---
 skops/io/_general.py | 70 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index ab1e27b..2b056c1 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copyreg
 import io
 import json
 import operator
@@ -36,6 +37,37 @@ arepr = Repr()
 arepr.maxstring = 24
 
 
+def attrs_get_state(
+    obj: Any, res: dict[str, Any], save_context: SaveContext
+) -> dict[str, Any]:
+    # Add the attributes of instances of subclasses of the container types, such as
+    # sklearn.utils.Bunch, to their state.
+    slots = copyreg._slotnames(type(obj))  # type: ignore
+    if any(hasattr(obj, name) for name in slots):
+        raise UnsupportedTypeException(obj)
+    attrs = getattr(obj, "__dict__", None)
+    if attrs:
+        res["attrs"] = get_state(attrs, save_context)
+    return res
+
+
+def attrs_get_tree(
+    state: dict[str, Any],
+    load_context: LoadContext,
+    trusted: Optional[Sequence[str]] = None,
+) -> dict[str, Any]:
+    # The children for the attributes written by attrs_get_state
+    if "attrs" not in state:
+        return {}
+    return {"attrs": get_tree(state["attrs"], load_context, trusted=trusted)}
+
+
+def attrs_construct(instance: Any, children: dict[str, Any]) -> Any:
+    if "attrs" in children:
+        instance.__dict__.update(children["attrs"].construct())
+    return instance
+
+
 def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
         "__class__": obj.__class__.__name__,
@@ -54,7 +86,7 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         content[key] = get_state(value, save_context)
     res["content"] = content
     res["key_types"] = key_types
-    return res
+    return attrs_get_state(obj, res, save_context)
 
 
 class DictNode(Node):
@@ -72,6 +104,7 @@ class DictNode(Node):
                 key: get_tree(value, load_context, trusted=trusted)
                 for key, value in state["content"].items()
             },
+            **attrs_get_tree(state, load_context, trusted),
         }
 
     def _construct(self):
@@ -79,7 +112,7 @@ class DictNode(Node):
         key_types = self.children["key_types"].construct()
         for k_type, (key, val) in zip(key_types, self.children["content"].items()):
             content[k_type(key)] = val.construct()
-        return content
+        return attrs_construct(content, self.children)
 
 
 def defaultdict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -130,7 +163,7 @@ def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     content = [get_state(value, save_context) for value in obj]
 
     res["content"] = content
-    return res
+    return attrs_get_state(obj, res, save_context)
 
 
 class ListNode(Node):
@@ -146,12 +179,16 @@ class ListNode(Node):
             "content": [
                 get_tree(value, load_context, trusted=trusted)
                 for value in state["content"]
-            ]
+            ],
+            **attrs_get_tree(state, load_context, trusted),
         }
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
-        return content_type([item.construct() for item in self.children["content"]])
+        instance = content_type(
+            [item.construct() for item in self.children["content"]]
+        )
+        return attrs_construct(instance, self.children)
 
 
 def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -162,7 +199,7 @@ def set_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     }
     content = [get_state(value, save_context) for value in obj]
     res["content"] = content
-    return res
+    return attrs_get_state(obj, res, save_context)
 
 
 class SetNode(Node):
@@ -178,12 +215,16 @@ class SetNode(Node):
             "content": [
                 get_tree(value, load_context, trusted=trusted)
                 for value in state["content"]
-            ]
+            ],
+            **attrs_get_tree(state, load_context, trusted),
         }
 
     def _construct(self):
         content_type = gettype(self.module_name, self.class_name)
-        return content_type([item.construct() for item in self.children["content"]])
+        instance = content_type(
+            [item.construct() for item in self.children["content"]]
+        )
+        return attrs_construct(instance, self.children)
 
 
 def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -194,7 +235,7 @@ def tuple_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     }
     content = tuple(get_state(value, save_context) for value in obj)
     res["content"] = content
-    return res
+    return attrs_get_state(obj, res, save_context)
 
 
 class TupleNode(Node):
@@ -210,18 +251,21 @@ class TupleNode(Node):
             "content": [
                 get_tree(value, load_context, trusted=trusted)
                 for value in state["content"]
-            ]
+            ],
+            **attrs_get_tree(state, load_context, trusted),
         }
 
     def _construct(self):
-        # Returns a tuple or a namedtuple instance.
+        # Returns a tuple or an instance of a subclass, such as a namedtuple.
 
         cls = gettype(self.module_name, self.class_name)
         content = tuple(value.construct() for value in self.children["content"])
 
         if self.isnamedtuple(cls):
-            return cls(*content)
-        return content
+            instance = cls(*content)
+        else:
+            instance = tuple.__new__(cls, content)
+        return attrs_construct(instance, self.children)
 
     def isnamedtuple(self, t) -> bool:
         # This is needed since namedtuples need to have the args when
-- 
2.43.0


From 4dcb69cbf77687169ce1fc59fa3a45828a8ec06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 18/47] fix: keep dict keys that JSON strings cannot represent

---
 skops/io/_general.py | 65 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 2b056c1..9820123 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -68,6 +68,26 @@ def attrs_construct(instance: Any, children: dict[str, Any]) -> Any:
     return instance
 
 
+def _json_key(key: Any) -> str | None:
+    # The string that represents the key of a dict in JSON, or None if calling the type
+    # of the key with that string would not result in the same key.
+    key_type = type(key)
+    if issubclass(key_type, (np.integer, np.floating)):
+        if key_type not in np.sctypeDict.values() or key_type is np.timedelta64:
+            return None
+        key = key.item()
+        key_type = type(key)
+    if key_type is str:
+        try:
+            key.encode()
+        except UnicodeEncodeError:
+            return None
+        return key
+    if key_type in (int, float):
+        return json.dumps(key)
+    return None
+
+
 def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
         "__class__": obj.__class__.__name__,
@@ -75,17 +95,20 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "DictNode",
     }
 
-    key_types = get_state([type(key) for key in obj.keys()], save_context)
-    content = {}
-    for key, value in obj.items():
-        if isinstance(value, property):
-            continue
-        if np.isscalar(key) and hasattr(key, "item"):
-            # convert numpy value to python object
-            key = key.item()  # type: ignore
-        content[key] = get_state(value, save_context)
-    res["content"] = content
-    res["key_types"] = key_types
+    keys = list(obj.keys())
+    json_keys = [_json_key(key) for key in keys]
+    if (None in json_keys) or (len(set(json_keys)) < len(keys)):
+        # Some of the keys cannot be recovered from a JSON string and their type, or
+        # different keys have the same JSON string, therefore store the keys on their
+        # own.
+        res["keys"] = get_state(keys, save_context)
+        json_keys = [str(i) for i in range(len(keys))]
+    else:
+        res["key_types"] = get_state([type(key) for key in keys], save_context)
+    res["content"] = {
+        json_key: get_state(value, save_context)
+        for json_key, value in zip(json_keys, obj.values())
+    }
     return attrs_get_state(obj, res, save_context)
 
 
@@ -99,7 +122,10 @@ class DictNode(Node):
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [dict, "collections.OrderedDict"])
         self.children = {
-            "key_types": get_tree(state["key_types"], load_context, trusted=trusted),
+            **{
+                name: get_tree(state[name], load_context, trusted=trusted)
+                for name in ("keys" if "keys" in state else "key_types",)
+            },
             "content": {
                 key: get_tree(value, load_context, trusted=trusted)
                 for key, value in state["content"].items()
@@ -109,9 +135,18 @@ class DictNode(Node):
 
     def _construct(self):
         content = gettype(self.module_name, self.class_name)()
-        key_types = self.children["key_types"].construct()
-        for k_type, (key, val) in zip(key_types, self.children["content"].items()):
-            content[k_type(key)] = val.construct()
+        if "keys" in self.children:
+            keys = self.children["keys"].construct()
+        else:
+            key_types = self.children["key_types"].construct()
+            if not all(isinstance(k_type, type) for k_type in key_types):
+                raise TypeError("The types of the keys of a dict have to be types")
+            keys = [
+                k_type(key)
+                for k_type, key in zip(key_types, self.children["content"].keys())
+            ]
+        for key, val in zip(keys, self.children["content"].values()):
+            content[key] = val.construct()
         return attrs_construct(content, self.children)
 
 
-- 
2.43.0


From a42ee93e59c8961c39716156de792080df0c2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 19/47] fix: keep the keys and the type of defaultdicts,
 respect the trusted list

---
 skops/io/_general.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 9820123..d26dbfa 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -162,7 +162,7 @@ def defaultdict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
     content["main"] = get_state(dict(obj), save_context)
     content["default_factory"] = get_state(obj.default_factory, save_context)
     res["content"] = content
-    return res
+    return attrs_get_state(obj, res, save_context)
 
 
 class DefaultDictNode(Node):
@@ -173,7 +173,7 @@ class DefaultDictNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = ["collections.defaultdict"]
+        self.trusted = self._get_trusted(trusted, ["collections.defaultdict"])
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "default_factory": get_tree(
@@ -181,12 +181,14 @@ class DefaultDictNode(Node):
                 load_context,
                 trusted=trusted,
             ),
+            **attrs_get_tree(state, load_context, trusted),
         }
 
     def _construct(self):
-        instance = defaultdict(**self.children["main"].construct())
+        instance = gettype(self.module_name, self.class_name)()
+        instance.update(self.children["main"].construct())
         instance.default_factory = self.children["default_factory"].construct()
-        return instance
+        return attrs_construct(instance, self.children)
 
 
 def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From 4464e738145bd9b0fe2fc0df689865a538882c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 20/47] fix: support frozensets, refuse subclasses of bytes

---
 skops/io/_general.py | 4 ++++
 skops/io/_numpy.py   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index d26dbfa..525aa92 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -686,6 +686,9 @@ class JsonNode(Node):
 
 
 def bytes_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) not in (bytes, bytearray):
+        # subclasses would be loaded as plain bytes
+        raise UnsupportedTypeException(obj)
     f_name = f"{uuid.uuid4()}.bin"
     save_context.zip_file.writestr(f_name, obj)
     res = {
@@ -794,6 +797,7 @@ GET_STATE_DISPATCH_FUNCTIONS = [
     (defaultdict, defaultdict_get_state),
     (list, list_get_state),
     (set, set_get_state),
+    (frozenset, set_get_state),
     (tuple, tuple_get_state),
     (bytes, bytes_get_state),
     (bytearray, bytearray_get_state),
diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f87c8d9..834134d 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -260,6 +260,7 @@ class DTypeNode(Node):
 # tuples of type and function that gets the state of that type
 GET_STATE_DISPATCH_FUNCTIONS = [
     (np.generic, ndarray_get_state),
+    (np.bytes_, ndarray_get_state),
     (np.ndarray, ndarray_get_state),
     (np.ma.MaskedArray, maskedarray_get_state),
     (np.ufunc, function_get_state),
-- 
2.43.0


From 5c209211c48df344fcbc699cac730820d797042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 21/47] fix: report the type named by slices, keep the items of
 slices

---
 skops/io/_general.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 525aa92..b376343 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -442,14 +442,30 @@ def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__module__": get_module(type(obj)),
         "__loader__": "SliceNode",
         "content": {
-            "start": obj.start,
-            "stop": obj.stop,
-            "step": obj.step,
+            name: _slice_item_get_state(getattr(obj, name), save_context)
+            for name in ("start", "stop", "step")
         },
     }
     return res
 
 
+def _slice_item_get_state(item: Any, save_context: SaveContext) -> Any:
+    if item is None or type(item) in (bool, int, float):
+        # these are directly stored in the schema
+        return item
+    return get_state(item, save_context)
+
+
+def _slice_item_get_tree(
+    item: Any, load_context: LoadContext, trusted: Optional[Sequence[str]] = None
+) -> Node:
+    if not isinstance(item, dict):
+        # a value that is directly stored in the schema
+        item = {"__class__": "str", "__module__": "builtins", "content": json.dumps(item)}
+        return JsonNode(item, load_context, trusted=trusted)
+    return get_tree(item, load_context, trusted=trusted)
+
+
 class SliceNode(Node):
     def __init__(
         self,
@@ -460,19 +476,15 @@ class SliceNode(Node):
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [slice])
         self.children = {
-            "start": state["content"]["start"],
-            "stop": state["content"]["stop"],
-            "step": state["content"]["step"],
+            name: _slice_item_get_tree(state["content"][name], load_context, trusted)
+            for name in ("start", "stop", "step")
         }
 
     def _construct(self):
         return slice(
-            self.children["start"], self.children["stop"], self.children["step"]
+            *(self.children[name].construct() for name in ("start", "stop", "step"))
         )
 
-    def get_unsafe_set(self):
-        return set()
-
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # This method is for objects which can either be persisted with json, or
-- 
2.43.0


From 00412d805e39d416defc046355586192aed81acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 22/47] fix: report the type named by json nodes

---
 skops/io/_general.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index b376343..ccc4071 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -674,17 +674,6 @@ class JsonNode(Node):
         self.children = {}
         self.trusted = self._get_trusted(trusted, PRIMITIVE_TYPE_NAMES)
 
-    def is_safe(self) -> bool:
-        # JsonNode is always considered safe.
-        # TODO: should we consider a JsonNode always safe?
-        return True
-
-    def is_self_safe(self) -> bool:
-        return True
-
-    def get_unsafe_set(self) -> set[str]:
-        return set()
-
     def _construct(self):
         return json.loads(self.content)
 
-- 
2.43.0


From 328022104adfc179cb356856bffcc67b892b05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 23/47] fix: refuse objects that their attributes cannot
 restore

---
 skops/io/_general.py | 53 +++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index ccc4071..53b0e1c 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -20,6 +20,7 @@ from ._trusted_types import (
     NUMPY_DTYPE_TYPE_NAMES,
     NUMPY_UFUNC_TYPE_NAMES,
     PRIMITIVE_TYPE_NAMES,
+    PRIMITIVES_TYPES,
     SCIPY_UFUNC_TYPE_NAMES,
     SKLEARN_ESTIMATOR_TYPE_NAMES,
 )
@@ -30,6 +31,7 @@ from ._utils import (
     get_module,
     get_state,
     gettype,
+    whichmodule,
 )
 from .exceptions import UnsupportedTypeException
 
@@ -491,10 +493,13 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # the ones for which we can get/set attributes through
     # __getstate__/__setstate__ or reading/writing to __dict__.
 
-    # We first check if the object can be serialized using json.
-    try:
-        # if we can simply use json, then we're done.
+    # We first check if the object can be serialized using json. Subclasses of the
+    # JSON types would be loaded as instances of the JSON types.
+    if obj is None or type(obj) in PRIMITIVES_TYPES:
         obj_str = json.dumps(obj)
+        if isinstance(obj, str) and json.loads(obj_str) != obj:
+            # surrogate pairs, which JSON cannot tell from the character they encode
+            raise UnsupportedTypeException(obj)
         return {
             "__class__": "str",
             "__module__": "builtins",
@@ -502,39 +507,51 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             "content": obj_str,
             "is_json": True,
         }
-    except Exception:
-        pass
 
     # Then we check if the output of __reduce__ is of the form
     # (constructor, (constructor_args,))
     # If the constructor is the same as the object's type, then we consider it
     # safe to call it with the specified arguments.
 
-    reduce_output = obj.__reduce__()
-    if len(reduce_output) == 2 and reduce_output[0] is type(obj):
+    reduce_output = obj.__reduce_ex__(2)
+    if isinstance(reduce_output, str):
+        # the object is a global variable, it can only be loaded by its name
+        return {
+            "__class__": reduce_output,
+            "__module__": whichmodule(obj, reduce_output),
+            "__loader__": "TypeNode",
+        }
+
+    constructor, args = reduce_output[:2]
+    attrs = reduce_output[2] if len(reduce_output) > 2 else None
+    items = reduce_output[3:]
+    if len(reduce_output) == 2 and constructor is type(obj):
         return {
             "__class__": type(obj).__name__,
             "__module__": get_module(type(obj)),
             "__loader__": "ConstructorFromReduceNode",
-            "content": get_state(reduce_output[1], save_context),
+            "content": get_state(args, save_context),
         }
 
-    # Otherwise we recover the object from the __dict__ or __getstate__
+    # Otherwise we recover the object from its attributes, if these are all that is
+    # needed after calling __new__ without further arguments.
+    if (
+        len(args) != 1
+        or args[0] is not type(obj)
+        or (attrs is None and constructor is not copyreg.__newobj__)
+        or any(item is not None for item in items)
+        or not (
+            attrs is None or isinstance(attrs, dict) or hasattr(obj, "__setstate__")
+        )
+    ):
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "ObjectNode",
     }
 
-    # __getstate__ takes priority over __dict__, and if non exist, we only save
-    # the type of the object, and loading would mean instantiating the object.
-    if hasattr(obj, "__getstate__"):
-        attrs = obj.__getstate__()
-    elif hasattr(obj, "__dict__"):
-        attrs = obj.__dict__
-    else:
-        return res
-
     content = get_state(attrs, save_context)
     # it's sufficient to store the "content" because we know that this dict can
     # only have str type keys
-- 
2.43.0


From be63ba3fa34757089cc451bf171c0a318cbde2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 24/47] fix: refuse objects whose name leads to a different
 object

---
 skops/io/_utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index a3519ab..dc5a48f 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -10,6 +10,7 @@ from typing import Any, Type
 from zipfile import ZipFile
 
 from ._protocol import PROTOCOL
+from .exceptions import UnsupportedTypeException
 
 
 # The following two functions are copied from cpython's pickle.py file.
@@ -174,6 +175,14 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
 
     res = _get_state(value, save_context)
 
+    # The name of the object, or of its type, must not lead to something else, e.g. the
+    # name of a nested class to that of a class of the module.
+    if res["__loader__"] not in ("JsonNode", "MethodNode", "DTypeNode"):
+        module = sys.modules.get(res["__module__"])
+        named = getattr(module, "__dict__", {}).get(res["__class__"], value)
+        if named is not value and named is not type(value):
+            raise UnsupportedTypeException(value)
+
     res["__id__"] = __id__
     return res
 
-- 
2.43.0


From 7122c75714dfe723f65cbf62a1a2f3ee90dae0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 25/47] fix: only create bit generators to restore random
 generators

---
 skops/io/_numpy.py        | 15 ++++++++++++---
 skops/io/old/_numpy_v0.py |  5 +++--
 skops/io/old/_numpy_v1.py |  5 ++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 834134d..040dd26 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -143,6 +143,17 @@ class MaskedArrayNode(Node):
         return np.ma.MaskedArray(data, mask)
 
 
+def get_bit_generator_type(name: str) -> Any:
+    # The name is not part of the audit, thus only allow bit generators.
+    bit_generator_cls = gettype("numpy.random", name)
+    if not (
+        isinstance(bit_generator_cls, type)
+        and issubclass(bit_generator_cls, np.random.BitGenerator)
+    ):
+        raise TypeError(f"{name} is not a bit generator of numpy")
+    return bit_generator_cls
+
+
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     content = get_state(obj.get_state(legacy=False), save_context)
     res = {
@@ -214,9 +225,7 @@ class RandomGeneratorNode(Node):
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_type(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls(seed_seq)
         bit_generator.state = bit_generator_state
 
diff --git a/skops/io/old/_numpy_v0.py b/skops/io/old/_numpy_v0.py
index 356f67d..30cfc85 100644
--- a/skops/io/old/_numpy_v0.py
+++ b/skops/io/old/_numpy_v0.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node
+from skops.io._numpy import get_bit_generator_type
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 0
@@ -23,8 +24,8 @@ class RandomGeneratorNode(Node):
 
     def _construct(self):
         # first restore the state of the bit generator
-        bit_generator = gettype(
-            "numpy.random", self.children["bit_generator_state"]["bit_generator"]
+        bit_generator = get_bit_generator_type(
+            self.children["bit_generator_state"]["bit_generator"]
         )()
         bit_generator.state = self.children["bit_generator_state"]
 
diff --git a/skops/io/old/_numpy_v1.py b/skops/io/old/_numpy_v1.py
index 7e4b2b3..27bd8f9 100644
--- a/skops/io/old/_numpy_v1.py
+++ b/skops/io/old/_numpy_v1.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node, get_tree
+from skops.io._numpy import get_bit_generator_type
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 1
@@ -28,9 +29,7 @@ class RandomGeneratorNode(Node):
     def _construct(self):
         # first restore the state of the bit generator
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = get_bit_generator_type(bit_generator_state["bit_generator"])
         bit_generator = bit_generator_cls()
         bit_generator.state = bit_generator_state
 
-- 
2.43.0


From 172dbb85bd53b10c2d849c6d0424d61eb289ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 26/47] fix: restore RandomStates over every bit generator

---
 skops/io/_numpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 040dd26..56b14e3 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -180,8 +180,10 @@ class RandomStateNode(Node):
         self.trusted = self._get_trusted(trusted, [np.random.RandomState])
 
     def _construct(self):
-        random_state = gettype(self.module_name, self.class_name)()
-        random_state.set_state(self.children["content"].construct())
+        state = self.children["content"].construct()
+        bit_generator_cls = get_bit_generator_type(state["bit_generator"])
+        random_state = gettype(self.module_name, self.class_name)(bit_generator_cls())
+        random_state.set_state(state)
         return random_state
 
 
-- 
2.43.0


From 3f67e5c467695c1bc7fbad11995a15ca305f82cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 27/47] fix: keep the shape and the type of object arrays and
 array subclasses

---
 skops/io/_numpy.py | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 56b14e3..9253236 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -20,12 +20,17 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "NdArrayNode",
     }
 
+    if getattr(obj, "__dict__", None):
+        # subclass of np.ndarray with attributes, which would be lost
+        raise UnsupportedTypeException(obj)
+
     try:
         # If the dtype is object, np.save should not work with
         # allow_pickle=False, therefore we convert them to a list and
         # recursively call get_state on it.
         if obj.dtype == object:
-            obj_serialized = get_state(obj.tolist(), save_context)
+            values = obj.tolist() if obj.ndim else [obj[()]]
+            obj_serialized = get_state(values, save_context)
             res["content"] = obj_serialized["content"]
             res["type"] = "json"
             res["shape"] = get_state(obj.shape, save_context)
@@ -86,9 +91,9 @@ class NdArrayNode(Node):
         # Dealing with a regular numpy array, where dtype != object
         if self.type == "numpy":
             content = np.load(self.children["content"], allow_pickle=False)
-            if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
-                content = gettype(self.module_name, self.class_name)(content)
-            return content
+            if not isinstance(content, np.ndarray):
+                raise TypeError(f"Expected a numpy array, got {type(content)}")
+            return self._as_type(content)
 
         if self.type == "json":
             # We explicitly set the dtype to "O" since we only save object
@@ -96,19 +101,33 @@ class NdArrayNode(Node):
             shape = self.children["shape"].construct()
             tmp = [o.construct() for o in self.children["content"]]
 
-            # TODO: this is a hack to get the correct shape of the array. We
-            # should find _a better way_ to do this.
-            if len(shape) == 1:
-                content = np.ndarray(shape=len(tmp), dtype="O")
-                for i, v in enumerate(tmp):
-                    content[i] = v
-            else:
-                content = np.array(tmp, dtype="O")
+            # The values are nested lists according to the shape. Flatten them, then
+            # set them one by one, as the values themselves can be sequences too.
+            for length in shape[1:]:
+                if not all(isinstance(v, list) and len(v) == length for v in tmp):
+                    raise ValueError(f"The content does not have the shape {shape}.")
+                tmp = [v for values in tmp for v in values]
+            content = np.empty(len(tmp), dtype="O")
+            for i, v in enumerate(tmp):
+                content[i] = v
 
-            return content
+            return self._as_type(content.reshape(shape))
 
         raise ValueError(f"Unknown type for a numpy object: {self.type}.")
 
+    def _as_type(self, content):
+        # Convert the array to the subclass or to the scalar type that was dumped.
+        if f"{self.module_name}.{self.class_name}" == "numpy.ndarray":
+            return content
+        cls = gettype(self.module_name, self.class_name)
+        if issubclass(cls, np.ndarray):
+            return content.view(cls)
+        if not issubclass(cls, np.generic):
+            raise TypeError(f"{cls} is not a type of numpy arrays or scalars")
+        if content.ndim == 0 and type(content[()]) is cls:
+            return content[()]
+        return cls(content)
+
 
 def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     res = {
-- 
2.43.0


From 6921b980a8a9bb9fc5d204b6cbfbe74c78e37195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 28/47] fix: keep numpy strings with trailing NULs, refuse
 unknown scalar types

---
 skops/io/_numpy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 9253236..2d468be 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -20,6 +20,16 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__loader__": "NdArrayNode",
     }
 
+    if isinstance(obj, np.generic) and type(obj) not in np.sctypeDict.values():
+        # subclasses of scalar types, which cannot be recovered from an array
+        raise UnsupportedTypeException(obj)
+
+    if isinstance(obj, np.character) and np.asarray(obj)[()] != obj:
+        # arrays of strings drop NULs at the end
+        res["__loader__"] = "ConstructorFromReduceNode"
+        res["content"] = get_state((obj.item(),), save_context)
+        return res
+
     if getattr(obj, "__dict__", None):
         # subclass of np.ndarray with attributes, which would be lost
         raise UnsupportedTypeException(obj)
-- 
2.43.0


From ae7acfbc6ec76af1de71e89475f1aba07211deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 29/47] fix: keep the fill value and the hard mask of masked
 arrays

---
 skops/io/_numpy.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 2d468be..33ae7e5 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -140,7 +140,10 @@ class NdArrayNode(Node):
 
 
 def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    res = {
+    if type(obj) is not np.ma.MaskedArray or obj._optinfo:
+        raise UnsupportedTypeException(obj)
+
+    res: dict[str, Any] = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
         "__loader__": "MaskedArrayNode",
@@ -149,6 +152,11 @@ def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
             "mask": get_state(obj.mask, save_context),
         },
     }
+    # only store the fill value if it was set by the user
+    if obj._fill_value is not None:
+        res["content"]["fill_value"] = get_state(obj._fill_value, save_context)
+    if obj.hardmask:
+        res["content"]["hard_mask"] = get_state(obj.hardmask, save_context)
     return res
 
 
@@ -165,11 +173,15 @@ class MaskedArrayNode(Node):
             "data": get_tree(state["content"]["data"], load_context, trusted=trusted),
             "mask": get_tree(state["content"]["mask"], load_context, trusted=trusted),
         }
+        for name in ("fill_value", "hard_mask"):
+            if name in state["content"]:
+                self.children[name] = get_tree(
+                    state["content"][name], load_context, trusted=trusted
+                )
 
     def _construct(self):
-        data = self.children["data"].construct()
-        mask = self.children["mask"].construct()
-        return np.ma.MaskedArray(data, mask)
+        kwargs = {name: child.construct() for name, child in self.children.items()}
+        return np.ma.MaskedArray(**kwargs)
 
 
 def get_bit_generator_type(name: str) -> Any:
-- 
2.43.0


From 426e8db30790373c88836e06221018727a6d20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 30/47] fix: refuse subarray dtypes

---
 skops/io/_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 33ae7e5..7559c89 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -280,6 +280,9 @@ def dtype_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # we use numpy's internal save mechanism to store the dtype by
     # saving/loading an empty array with that dtype.
     tmp: np.typing.NDArray = np.ndarray(0, dtype=obj)
+    if tmp.dtype != obj:
+        # subarray dtypes become part of the shape of the array
+        raise UnsupportedTypeException(obj)
     res = {
         "__class__": "dtype",
         "__module__": "numpy",
-- 
2.43.0


From 50b7ede0e14fc246e11960ad4346b52ddb132aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 31/47] fix: only load sparse matrices of the type that was
 audited

---
 skops/io/_scipy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skops/io/_scipy.py b/skops/io/_scipy.py
index e482a1a..300a2c4 100644
--- a/skops/io/_scipy.py
+++ b/skops/io/_scipy.py
@@ -53,7 +53,15 @@ class SparseMatrixNode(Node):
     def _construct(self):
         # scipy load_npz uses numpy.save with allow_pickle=False under the
         # hood, so we're safe using it
-        return load_npz(self.children["content"])
+        matrix = load_npz(self.children["content"])
+        # the file also determines the type, make sure it's the one that was audited
+        if f"{get_module(type(matrix))}.{type(matrix).__name__}" != (
+            f"{self.module_name}.{self.class_name}"
+        ):
+            raise TypeError(
+                f"Expected {self.module_name}.{self.class_name}, got {type(matrix)}"
+            )
+        return matrix
 
 
 # tuples of type and function that gets the state of that type
-- 
2.43.0


From 3d19cd2e2532ab959f8c5baf144b10aebbac2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:31 +0000
Subject: [PATCH 32/47] fix: keep the attributes of array subclasses

---
 skops/io/_numpy.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 7559c89..4889220 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -6,7 +6,12 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from ._audit import Node, get_tree
-from ._general import function_get_state
+from ._general import (
+    attrs_construct,
+    attrs_get_state,
+    attrs_get_tree,
+    function_get_state,
+)
 from ._protocol import PROTOCOL
 from ._trusted_types import NUMPY_DTYPE_TYPE_NAMES
 from ._utils import LoadContext, SaveContext, get_module, get_state, gettype
@@ -30,10 +35,6 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         res["content"] = get_state((obj.item(),), save_context)
         return res
 
-    if getattr(obj, "__dict__", None):
-        # subclass of np.ndarray with attributes, which would be lost
-        raise UnsupportedTypeException(obj)
-
     try:
         # If the dtype is object, np.save should not work with
         # allow_pickle=False, therefore we convert them to a list and
@@ -64,7 +65,7 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             "report your error"
         )
 
-    return res
+    return attrs_get_state(obj, res, save_context)
 
 
 class NdArrayNode(Node):
@@ -96,6 +97,7 @@ class NdArrayNode(Node):
             }
         else:
             raise ValueError(f"Unknown type {self.type}.")
+        self.children.update(attrs_get_tree(state, load_context, trusted))
 
     def _construct(self):
         # Dealing with a regular numpy array, where dtype != object
@@ -131,7 +133,7 @@ class NdArrayNode(Node):
             return content
         cls = gettype(self.module_name, self.class_name)
         if issubclass(cls, np.ndarray):
-            return content.view(cls)
+            return attrs_construct(content.view(cls), self.children)
         if not issubclass(cls, np.generic):
             raise TypeError(f"{cls} is not a type of numpy arrays or scalars")
         if content.ndim == 0 and type(content[()]) is cls:
-- 
2.43.0


From 053ad883741071e06f453478d634bdc827cd9352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 33/47] fix: report the function of protocol 0 functions, audit
 shared nodes only once

---
 skops/io/_audit.py          | 92 +++++++++++++++++++------------------
 skops/io/_general.py        | 10 ----
 skops/io/old/_general_v0.py | 23 ++--------
 3 files changed, 53 insertions(+), 72 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index ac93662..9f305a4 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -217,54 +217,58 @@ class Node:
         unsafe_set : set
             A set of unsafe types.
         """
-        if hasattr(self, "_computing_unsafe_set"):
-            # this means we're already computing this node's unsafe set, so we
-            # return an empty set and let the computation of the parent node
-            # continue. This is to avoid infinite recursion.
-            return set()
-
-        with temp_setattr(self, _computing_unsafe_set=True):
-            res = set()
-            if not self.is_self_safe():
-                res.add(self.module_name + "." + self.class_name)
-
-            for child in self.children.values():
-                if child is None:
-                    continue
-
-                # Get the safety set based on the type of the child. In most cases
-                # other than ListNode and DictNode, children are all of type Node.
+        # Nodes can be shared by several parents and can be part of cycles, thus visit
+        # each node only once.
+        unsafe: set[str] = set()
+        seen: set[int] = set()
+        nodes: list[Node] = [self]
+        while nodes:
+            node = nodes.pop()
+            if id(node) in seen:
+                continue
+            seen.add(id(node))
+            unsafe.update(node.get_self_unsafe_set())
+
+            for child in node.children.values():
+                # In most cases other than ListNode and DictNode, children are all of
+                # type Node.
                 if isinstance(child, list):
-                    # iterate through the list
-                    for value in child:
-                        res.update(value.get_unsafe_set())
+                    nodes.extend(child)
                 elif isinstance(child, dict):
-                    # iterate through the values of the dict only
+                    # go through the values of the dict only
                     # TODO: should we check the types of the keys?
-                    for value in child.values():
-                        res.update(value.get_unsafe_set())
+                    nodes.extend(child.values())
                 elif isinstance(child, Node):
-                    # delegate to the child Node
-                    res.update(child.get_unsafe_set())
-                elif type(child) is type:
-                    # the if condition bellow is not merged with the previous
-                    # one because if the above condition is True, the following
-                    # conditions about BytesIO, etc should be ignored.
-                    if not check_type(get_module(child), child.__name__, self.trusted):
-                        # if the child is a type, we check its safety
-                        res.add(get_module(child) + "." + child.__name__)
-                elif isinstance(child, (io.BytesIO, str)):
-                    # We trust BytesIO objects, which are read by other
-                    # libraries such as numpy, scipy. We trust str but have to
-                    # be careful that anything with str is dealt with
-                    # appropriately.
-                    continue
-                else:
-                    raise ValueError(
-                        f"Cannot determine the safety of type {type(child)}. Please"
-                        " open an issue at https://github.com/skops-dev/skops/issues"
-                        " for us to fix the issue."
-                    )
+                    nodes.append(child)
+
+        return unsafe
+
+    def get_self_unsafe_set(self) -> set[str]:
+        """Get the set of unsafe types of this node, without its child nodes."""
+        res = set()
+        if not self.is_self_safe():
+            res.add(self.module_name + "." + self.class_name)
+
+        for child in self.children.values():
+            if child is None or isinstance(child, (list, dict, Node)):
+                # child nodes are not checked here
+                continue
+            elif type(child) is type:
+                if not check_type(get_module(child), child.__name__, self.trusted):
+                    # if the child is a type, we check its safety
+                    res.add(get_module(child) + "." + child.__name__)
+            elif isinstance(child, (io.BytesIO, str)):
+                # We trust BytesIO objects, which are read by other
+                # libraries such as numpy, scipy. We trust str but have to
+                # be careful that anything with str is dealt with
+                # appropriately.
+                continue
+            else:
+                raise ValueError(
+                    f"Cannot determine the safety of type {type(child)}. Please"
+                    " open an issue at https://github.com/skops-dev/skops/issues"
+                    " for us to fix the issue."
+                )
 
         return res
 
diff --git a/skops/io/_general.py b/skops/io/_general.py
index 53b0e1c..fdd82b5 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -344,16 +344,6 @@ class FunctionNode(Node):
     def _construct(self):
         return gettype(self.module_name, self.class_name)
 
-    def _get_function_name(self) -> str:
-        return f"{self.module_name}.{self.class_name}"
-
-    def get_unsafe_set(self) -> set[str]:
-        fn_name = self._get_function_name()
-        if (self.trusted is True) or (fn_name in self.trusted):
-            return set()
-
-        return {fn_name}
-
 
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     if type(obj) is not partial:  # don't allow any subclass
diff --git a/skops/io/old/_general_v0.py b/skops/io/old/_general_v0.py
index 4078227..42774f2 100644
--- a/skops/io/old/_general_v0.py
+++ b/skops/io/old/_general_v0.py
@@ -19,26 +19,13 @@ class FunctionNode(Node):
         super().__init__(state, load_context, trusted)
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, default=SCIPY_UFUNC_TYPE_NAMES)
-        self.children: dict = {"content": state["content"]}
+        # The function is what is going to be used, not the type of the function
+        self.module_name = state["content"]["module_path"]
+        self.class_name = state["content"]["function"]
+        self.children = {}
 
     def _construct(self):
-        return _import_obj(
-            self.children["content"]["module_path"],
-            self.children["content"]["function"],
-        )
-
-    def _get_function_name(self) -> str:  # pragma: no cover
-        return (
-            self.children["content"]["module_path"]
-            + "."
-            + self.children["content"]["function"]
-        )
-
-    def get_unsafe_set(self) -> set[str]:  # pragma: no cover
-        if (self.trusted is True) or (self._get_function_name() in self.trusted):
-            return set()
-
-        return {self._get_function_name()}
+        return _import_obj(self.module_name, self.class_name)
 
 
 NODE_TYPE_MAPPING = {
-- 
2.43.0


From f24f5b9127b2607d1356c9910de0803335a3875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 34/47] fix: check the number of classes before creating a tree

---
 skops/io/_sklearn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index cb3acb8..f80210b 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import Any, Optional, Sequence, Type
 
+import numpy as np
 from sklearn.cluster import Birch
 from sklearn.tree._tree import Tree
 
@@ -221,6 +222,13 @@ class TreeNode(ReduceNode):
         self.trusted = self._get_trusted(trusted, [get_module(Tree) + ".Tree"])
         super().__init__(state, load_context, constructor=Tree, trusted=self.trusted)
 
+    def _construct(self):
+        # Tree does not check that there is a number of classes for each output
+        _, n_classes, n_outputs = self.children["args"].construct()
+        if not isinstance(n_classes, np.ndarray) or n_classes.shape != (n_outputs,):
+            raise ValueError("The number of classes does not match the outputs.")
+        return super()._construct()
+
 
 def loss_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     reduce = obj.__reduce__()
-- 
2.43.0


From bf2af606c1d6ff8247036af69ae1dac298bf5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 35/47] fix: visualize every node, show unsafe content of
 arrays and dict keys

---
 skops/io/_visualize.py | 148 +++++++++++++++++++++--------------------
 1 file changed, 77 insertions(+), 71 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 3c3c2c3..d763ced 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -8,12 +8,19 @@ from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
 
 from ._audit import VALID_NODE_CHILD_TYPES, Node, get_tree
-from ._general import BytearrayNode, BytesNode, FunctionNode, JsonNode, ListNode
+from ._general import (
+    BytearrayNode,
+    BytesNode,
+    DictNode,
+    FunctionNode,
+    JsonNode,
+    ListNode,
+)
 from ._numpy import NdArrayNode
 from ._scipy import SparseMatrixNode
 from ._utils import LoadContext
 
-# The children of these types are not visualized
+# The children of these types are not visualized, unless they are unsafe
 SKIPPED_TYPES = (
     BytearrayNode,
     BytesNode,
@@ -201,7 +208,6 @@ def walk_tree(
     node: VALID_NODE_CHILD_TYPES | dict[str, VALID_NODE_CHILD_TYPES],
     node_name: str = "root",
     level: int = 0,
-    is_last: bool = False,
 ) -> Iterator[NodeInfo]:
     """Visit all nodes of the tree and yield their important attributes.
 
@@ -220,90 +226,90 @@ def walk_tree(
     Parameters
     ----------
     node: :class:`skops.io._audit.Node`
-        The current node to visit. Children are visited recursively.
+        The current node to visit. Its children are visited too.
 
     node_name: str (default="root")
-        The key to the current node. If "key_types" is encountered, it is
-        skipped.
+        The key to the current node.
 
     level: int (default=0)
         The current level of nesting.
 
-    is_last: bool (default=False)
-        Whether this is the last node among its sibling nodes.
-
     Yields
     ------
     :class:`~NodeInfo`:
         A dataclass containing the aforementioned information.
 
     """
-    # key_types is not helpful, as it is artificially added by skops to
-    # circumvent the fact that json only allows keys to be strings. It is not
-    # useful to the user and adds a lot of noise, thus skip key_types.
-    if node_name == "key_types":
-        if isinstance(node, ListNode) and node.is_safe():
-            return
-        raise ValueError(
-            "An invalid 'key_types' node was encountered, please report the issue "
-            "here: https://github.com/skops-dev/skops/issues"
+    # Use a stack instead of recursion, as archives can be deeply nested. It contains
+    # the nodes that are left to visit, i.e. the next one is at the end.
+    stack = _get_rows(node, node_name, level)
+    while stack:
+        node, node_name, level, is_last_sibling = stack.pop()
+
+        # YIELDING THE ACTUAL NODE INFORMATION HERE
+
+        # Note: calling node.is_safe() on all nodes is potentially wasteful because
+        # it already visits all child nodes, i.e. child nodes will be checked many
+        # times. A solution to this would be to add caching to its call.
+        is_safe = node.is_safe()
+        yield NodeInfo(
+            level=level,
+            key=node_name,
+            val=node.format(),
+            is_self_safe=node.is_self_safe(),
+            is_safe=is_safe,
+            is_last=is_last_sibling,
         )
 
-    if isinstance(node, dict):
-        num_nodes = len(node)
-        for i, (key, val) in enumerate(node.items(), start=1):
-            yield from walk_tree(
-                val,
-                node_name=key,
-                level=level,
-                is_last=i == num_nodes,
-            )
-        return
-
-    if isinstance(node, (list, tuple)):
-        num_nodes = len(node)
-        for i, val in enumerate(node, start=1):
-            yield from walk_tree(
-                val,
-                node_name=node_name,
-                level=level,
-                is_last=i == num_nodes,
-            )
-        return
+        # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT
+        # unless there is something unsafe inside
+        if isinstance(node, SKIPPED_TYPES) and is_safe:
+            continue
 
-    # NO MATCH: RAISE ERROR
-    if not isinstance(node, Node):
-        raise TypeError(
-            f"Cannot deal with {type(node)}, please report the issue here: "
-            "https://github.com/skops-dev/skops/issues"
-        )
+        children = dict(node.children)
+        if isinstance(node, DictNode):
+            # key_types is not helpful, as it is artificially added by skops to
+            # circumvent the fact that json only allows keys to be strings. It is not
+            # useful to the user and adds a lot of noise, thus skip key_types.
+            key_types = children.get("key_types")
+            if isinstance(key_types, ListNode) and key_types.is_safe():
+                del children["key_types"]
+
+        stack.extend(_get_rows(children, node_name, level + 1))
+
+
+def _get_rows(
+    node: VALID_NODE_CHILD_TYPES | dict[str, VALID_NODE_CHILD_TYPES],
+    node_name: str,
+    level: int,
+) -> list[tuple[Node, str, int, bool]]:
+    """Get the nodes inside of (nested) dicts and lists in reverse order.
+
+    Returns the nodes with their key and level, and whether they are the last one.
+
+    """
+    rows: list[tuple[Node, str, int, bool]] = []
+
+    def add_rows(node, node_name):
+        if isinstance(node, dict):
+            for key, val in node.items():
+                add_rows(val, key)
+        elif isinstance(node, (list, tuple)):
+            for val in node:
+                add_rows(val, node_name)
+        elif isinstance(node, Node):
+            rows.append((node, node_name, level, False))
+        elif not (node is None or isinstance(node, (str, type, io.BytesIO))):
+            # NO MATCH: RAISE ERROR
+            raise TypeError(
+                f"Cannot deal with {type(node)}, please report the issue here: "
+                "https://github.com/skops-dev/skops/issues"
+            )
 
-    # YIELDING THE ACTUAL NODE INFORMATION HERE
-
-    # Note: calling node.is_safe() on all nodes is potentially wasteful because
-    # it is already a recursive call, i.e. child nodes will be checked many
-    # times. A solution to this would be to add caching to its call.
-    yield NodeInfo(
-        level=level,
-        key=node_name,
-        val=node.format(),
-        is_self_safe=node.is_self_safe(),
-        is_safe=node.is_safe(),
-        is_last=is_last,
-    )
-
-    # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT
-    # TODO: For better security, we should check the schema if we return early,
-    # otherwise something nefarious could be hidden inside (however, if there
-    # is, the node should be marked as unsafe)
-    if isinstance(node, SKIPPED_TYPES):
-        return
-
-    yield from walk_tree(
-        node.children,
-        node_name=node_name,
-        level=level + 1,
-    )
+    add_rows(node, node_name)
+    if rows:
+        rows[-1] = (*rows[-1][:3], True)
+    return rows[::-1]
 
 
 def visualize(
-- 
2.43.0


From afaf2ebc5a6079bbda629526a890fb4b7716c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 36/47] fix: visualize trusted nodes below untrusted nodes

---
 skops/io/_visualize.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index d763ced..8047a74 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import io
 import json
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pathlib import Path
 from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
@@ -126,21 +126,28 @@ def _traverse_tree(nodes_iter, show, **kwargs):
     yield node, label, 0, True  # node, label, level, is_first_node
 
     prev_level = node.level  # should be 0
+    # whether each of the ancestors of the current node, and the node itself, is visible
+    path_visible = [True]
 
     for node in nodes_iter:
-        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
-        if not visible:
-            continue
-
-        level_diff = prev_level - node.level
-        if level_diff < -1:
+        if not 0 < node.level <= len(path_visible):
             # this would mean it is a "(great-)grandchild" node
+            level_diff = len(path_visible) - 1 - node.level
             raise ValueError(
                 "While constructing the tree of the object, a level difference of "
                 f"{level_diff} was encountered, which should not be possible, please "
                 "report the issue here: https://github.com/skops-dev/skops/issues"
             )
 
+        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
+        del path_visible[node.level :]
+        path_visible.append(visible)
+        if not visible:
+            continue
+
+        # show the node below the closest ancestor that is visible
+        node = replace(node, level=sum(path_visible) - 1)
+        level_diff = prev_level - node.level
         label = _get_node_label(node, **kwargs)
         yield node, label, level_diff, False
         prev_level = node.level
-- 
2.43.0


From eab2bf93631a923de3c050062ffcfbdddabb07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 37/47] fix: escape names in the visualization

---
 skops/io/_visualize.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 8047a74..760c85b 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -153,19 +153,39 @@ def _traverse_tree(nodes_iter, show, **kwargs):
         prev_level = node.level
 
 
+def _get_printable(text: str) -> str:
+    """Escape line breaks and other characters that cannot be printed."""
+    return "".join(
+        char if char.isprintable() else char.encode("unicode_escape").decode()
+        for char in text
+    )
+
+
 def pretty_print_tree(
     nodes_iter: Iterator[NodeInfo],
     show: Literal["all", "untrusted", "trusted"],
     **kwargs: Any,
 ) -> None:
+    # each node has to be on a single row
+    nodes_iter = (
+        replace(node, key=_get_printable(node.key), val=_get_printable(node.val))
+        for node in nodes_iter
+    )
+
     try:
         from rich.console import Console
+        from rich.markup import escape
         from rich.tree import Tree
 
         console = Console()
 
+        # brackets in the names of keys and types are not markup
+        escaped_iter = (
+            replace(node, key=escape(node.key), val=escape(node.val))
+            for node in nodes_iter
+        )
         for node, label, level_diff, is_first_node in _traverse_tree(
-            nodes_iter, show, **kwargs
+            escaped_iter, show, **kwargs
         ):
             if is_first_node:
                 tree = Tree(f"{node.key}: {label}", guide_style="gray50")
-- 
2.43.0


From 04223ce8df3c0815fc0341e0d596fcbca77ae8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:56 +0000
Subject: [PATCH 38/47] fix: limit the number of rows of the visualization

---
 skops/io/_visualize.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 760c85b..fa5cdc5 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -339,6 +339,27 @@ def _get_rows(
     return rows[::-1]
 
 
+def _count_values(schema: Any) -> int:
+    """Count the values inside of (nested) dicts and lists."""
+    count = 0
+    values = [schema]
+    while values:
+        value = values.pop()
+        count += 1
+        if isinstance(value, dict):
+            values.extend(value.values())
+        elif isinstance(value, list):
+            values.extend(value)
+    return count
+
+
+def _limit_rows(nodes_iter: Iterator[NodeInfo], max_rows: int) -> Iterator[NodeInfo]:
+    for i, node in enumerate(nodes_iter):
+        if i >= max_rows:
+            raise ValueError("The archive has more nodes than its schema contains.")
+        yield node
+
+
 def visualize(
     file: Path | str | bytes,
     *,
@@ -415,6 +436,8 @@ def visualize(
         load_context = LoadContext(src=zip_file, protocol=schema["protocol"])
         tree = get_tree(schema, load_context=load_context, trusted=trusted)
 
-    nodes = walk_tree(tree)
+    # Nodes that are shared are visited each time, which can be very often in an archive
+    # that was not written by skops.
+    nodes = _limit_rows(walk_tree(tree), _count_values(schema))
     # TODO: it would be nice to print html representation if inside a notebook
     sink(nodes, show, **kwargs)
-- 
2.43.0


From 2a0e099fa0ffb44ed0affeca709b8ce11cbf6bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 39/47] fix: store the data of objects that are referenced
 several times once

---
 skops/io/_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index dc5a48f..721167e 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -111,6 +111,7 @@ class SaveContext:
     zip_file: ZipFile
     protocol: int = PROTOCOL
     memo: dict[int, Any] = field(default_factory=dict)
+    states: dict[int, dict[str, Any]] = field(default_factory=dict)
 
     def memoize(self, obj: Any) -> int:
         # Currently, the only purpose for saving the object id is to make sure
@@ -124,6 +125,7 @@ class SaveContext:
 
     def clear_memo(self) -> None:
         self.memo.clear()
+        self.states.clear()
 
 
 @dataclass(frozen=True)
@@ -173,6 +175,11 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
 
     __id__ = save_context.memoize(obj=value)
 
+    if __id__ in save_context.states:
+        # The object was already saved. Saving it again would also store its data, e.g.
+        # that of masked arrays, once more.
+        return save_context.states[__id__]
+
     res = _get_state(value, save_context)
 
     # The name of the object, or of its type, must not lead to something else, e.g. the
@@ -184,6 +191,7 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
             raise UnsupportedTypeException(value)
 
     res["__id__"] = __id__
+    save_context.states[__id__] = res
     return res
 
 
-- 
2.43.0


From 9a0f623d59c1b23bb752423fb2e173b88083a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 40/47] fix: resolve the audited name of sparse matrices

---
 skops/io/_scipy.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skops/io/_scipy.py b/skops/io/_scipy.py
index 300a2c4..bab3381 100644
--- a/skops/io/_scipy.py
+++ b/skops/io/_scipy.py
@@ -7,7 +7,7 @@ from scipy.sparse import load_npz, save_npz, spmatrix
 
 from ._audit import Node
 from ._protocol import PROTOCOL
-from ._utils import LoadContext, SaveContext, get_module
+from ._utils import LoadContext, SaveContext, get_module, gettype
 
 
 def sparse_matrix_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -55,9 +55,7 @@ class SparseMatrixNode(Node):
         # hood, so we're safe using it
         matrix = load_npz(self.children["content"])
         # the file also determines the type, make sure it's the one that was audited
-        if f"{get_module(type(matrix))}.{type(matrix).__name__}" != (
-            f"{self.module_name}.{self.class_name}"
-        ):
+        if type(matrix) is not gettype(self.module_name, self.class_name):
             raise TypeError(
                 f"Expected {self.module_name}.{self.class_name}, got {type(matrix)}"
             )
-- 
2.43.0


From fd971b517a50952d788199596b840b14a8430944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 41/47] fix: use the loader of the smallest protocol that is
 not below the archive's

---
 skops/io/_audit.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/skops/io/_audit.py b/skops/io/_audit.py
index 9f305a4..dea2f40 100644
--- a/skops/io/_audit.py
+++ b/skops/io/_audit.py
@@ -349,26 +349,20 @@ def get_tree(
 
     loader: str = state["__loader__"]
     protocol = load_context.protocol
-    key = (loader, protocol)
-
-    if key in NODE_TYPE_MAPPING:
-        node_cls = NODE_TYPE_MAPPING[key]
-    else:
-        # What probably happened here is that we released a new protocol. If
-        # there is no specific key for the old protocol, it means it is safe to
-        # use the current protocol instead, because this node was not changed.
-        key_new = (loader, PROTOCOL)
-        try:
-            node_cls = NODE_TYPE_MAPPING[key_new]
-        except KeyError:
-            # If we still cannot find the loader for this key, something went
-            # wrong.
-            type_name = f"{state['__module__']}.{state['__class__']}"
-            raise TypeError(
-                f" Can't find loader {state['__loader__']} for type {type_name} and "
-                f"protocol {protocol}. You might need to update skops to load this "
-                "file."
-            )
+    # If there is no specific loader for the old protocol, this node was not changed
+    # when the protocol was bumped. Its state is thus the same as in the next protocol
+    # that does have a loader.
+    versions = [v for name, v in NODE_TYPE_MAPPING if name == loader and v >= protocol]
+    try:
+        node_cls = NODE_TYPE_MAPPING[(loader, min(versions, default=PROTOCOL))]
+    except KeyError:
+        # If we cannot find the loader for this key, something went wrong.
+        type_name = f"{state['__module__']}.{state['__class__']}"
+        raise TypeError(
+            f" Can't find loader {state['__loader__']} for type {type_name} and "
+            f"protocol {protocol}. You might need to update skops to load this "
+            "file."
+        )
 
     loaded_tree = node_cls(state, load_context, trusted=trusted)
     return loaded_tree
-- 
2.43.0


From 922310cc75db116d98b1f62b5d1572d2030268be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 42/47] fix: persist the attributes of subclasses of
 RandomState and Generator

---
 skops/io/_numpy.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 4889220..b0b1c5b 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -205,7 +205,7 @@ def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any
         "__loader__": "RandomStateNode",
         "content": content,
     }
-    return res
+    return attrs_get_state(obj, res, save_context)
 
 
 class RandomStateNode(Node):
@@ -218,7 +218,8 @@ class RandomStateNode(Node):
         super().__init__(state, load_context, trusted)
         # TODO
         self.children = {
-            "content": get_tree(state["content"], load_context, trusted=trusted)
+            "content": get_tree(state["content"], load_context, trusted=trusted),
+            **attrs_get_tree(state, load_context, trusted),
         }
         self.trusted = self._get_trusted(trusted, [np.random.RandomState])
 
@@ -227,7 +228,7 @@ class RandomStateNode(Node):
         bit_generator_cls = get_bit_generator_type(state["bit_generator"])
         random_state = gettype(self.module_name, self.class_name)(bit_generator_cls())
         random_state.set_state(state)
-        return random_state
+        return attrs_construct(random_state, self.children)
 
 
 def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -239,7 +240,7 @@ def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str,
         "__loader__": "RandomGeneratorNode",
         "content": {"bit_generator": bit_generator_state, "seed_seq": seed_seq_state},
     }
-    return res
+    return attrs_get_state(obj, res, save_context)
 
 
 class RandomGeneratorNode(Node):
@@ -257,6 +258,7 @@ class RandomGeneratorNode(Node):
             "seed_seq_state": get_tree(
                 state["content"]["seed_seq"], load_context, trusted=trusted
             ),
+            **attrs_get_tree(state, load_context, trusted),
         }
         self.trusted = self._get_trusted(trusted, [np.random.Generator])
 
@@ -275,7 +277,10 @@ class RandomGeneratorNode(Node):
         bit_generator.state = bit_generator_state
 
         # next create the generator instance
-        return gettype(self.module_name, self.class_name)(bit_generator=bit_generator)
+        generator = gettype(self.module_name, self.class_name)(
+            bit_generator=bit_generator
+        )
+        return attrs_construct(generator, self.children)
 
 
 def dtype_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From 0045137a786332e365c4090e7a8bce0764a8c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 43/47] fix: load masked arrays with the fill value that numpy
 computed by default

---
 skops/io/_numpy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index b0b1c5b..ae6662a 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -183,7 +183,13 @@ class MaskedArrayNode(Node):
 
     def _construct(self):
         kwargs = {name: child.construct() for name, child in self.children.items()}
-        return np.ma.MaskedArray(**kwargs)
+        fill_value = kwargs.pop("fill_value", None)
+        array = np.ma.MaskedArray(**kwargs)
+        if fill_value is not None:
+            # set it directly, as the default fill value, which is also stored here by
+            # numpy, does not always have (or even fit) the dtype of the array
+            array._fill_value = np.asarray(fill_value)
+        return array
 
 
 def get_bit_generator_type(name: str) -> Any:
-- 
2.43.0


From dce06054ace71fe03cf8d29aea64f1c31a137b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 44/47] fix: load types such as NoneType that are not
 accessible through builtins

---
 skops/io/_general.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index fdd82b5..392beba 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -4,6 +4,7 @@ import copyreg
 import io
 import json
 import operator
+import types
 import uuid
 from collections import defaultdict
 from functools import partial
@@ -399,9 +400,13 @@ class PartialNode(Node):
 def type_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # To serialize a type, we first need to set the metadata to tell that it's
     # a type, then store the type's info itself in the content field.
+    module = get_module(obj)
+    if module == "builtins" and getattr(types, obj.__name__, None) is obj:
+        # e.g. NoneType, which cannot be accessed through builtins
+        module = "types"
     res = {
         "__class__": obj.__name__,
-        "__module__": get_module(obj),
+        "__module__": module,
         "__loader__": "TypeNode",
     }
     return res
-- 
2.43.0


From af127b846952afaa1fe90a268c1f55eb92e7ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 45/47] fix: keep NULs at the end of numpy strings and the fold
 of datetimes

---
 skops/io/_general.py | 2 +-
 skops/io/_numpy.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 392beba..330c044 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -508,7 +508,7 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # If the constructor is the same as the object's type, then we consider it
     # safe to call it with the specified arguments.
 
-    reduce_output = obj.__reduce_ex__(2)
+    reduce_output = obj.__reduce_ex__(4)
     if isinstance(reduce_output, str):
         # the object is a global variable, it can only be loaded by its name
         return {
diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index ae6662a..035a031 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -30,9 +30,10 @@ def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         raise UnsupportedTypeException(obj)
 
     if isinstance(obj, np.character) and np.asarray(obj)[()] != obj:
-        # arrays of strings drop NULs at the end
+        # arrays of strings drop NULs at the end, and so does obj.item()
+        value = str.__str__(obj) if isinstance(obj, str) else bytes(obj)
         res["__loader__"] = "ConstructorFromReduceNode"
-        res["content"] = get_state((obj.item(),), save_context)
+        res["content"] = get_state((value,), save_context)
         return res
 
     try:
-- 
2.43.0


From a4b6db01ec4f1a22977919bf080748217167ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 46/47] fix: loading damaged KD-trees, distance metrics or
 trees crashed the interpreter

---
 skops/io/_general.py | 19 +++++++++++++++++++
 skops/io/_sklearn.py |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 330c044..f0adb5d 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -572,6 +572,24 @@ class ConstructorFromReduceNode(Node):
         )
 
 
+# The compiled objects of these modules read this many items of the state in
+# __setstate__ without checking that there are as many.
+COMPILED_STATE_LENGTHS = {
+    "sklearn.metrics._dist_metrics": 3,
+    "sklearn.neighbors._ball_tree": 13,
+    "sklearn.neighbors._kd_tree": 13,
+}
+
+
+def _check_compiled_state(instance: Any, state: Any) -> None:
+    for cls in type(instance).__mro__:
+        length = COMPILED_STATE_LENGTHS.get(cls.__module__, 0)
+        if cls.__name__.startswith("PyFuncDistance"):
+            length += 2
+        if length and len(state) < length:
+            raise ValueError(f"The state of {cls} is incomplete.")
+
+
 class ObjectNode(Node):
     def __init__(
         self,
@@ -607,6 +625,7 @@ class ObjectNode(Node):
         attrs = self.children["attrs"].construct()
         if attrs is not None:
             if hasattr(instance, "__setstate__"):
+                _check_compiled_state(instance, attrs)
                 instance.__setstate__(attrs)
             else:
                 instance.__dict__.update(attrs)
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index f80210b..45f169d 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -227,6 +227,10 @@ class TreeNode(ReduceNode):
         _, n_classes, n_outputs = self.children["args"].construct()
         if not isinstance(n_classes, np.ndarray) or n_classes.shape != (n_outputs,):
             raise ValueError("The number of classes does not match the outputs.")
+        # nor that there is an array of nodes
+        attrs = self.children["attrs"].construct()
+        if isinstance(attrs, dict) and "nodes" in attrs and np.ndim(attrs["nodes"]) != 1:
+            raise ValueError("The nodes of the tree are not a list of nodes.")
         return super()._construct()
 
 
-- 
2.43.0


From c540bff0e32623c98cddd4eed53f824c34f00aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 47/47] fix: add_permutation_importances saves its own figure,
 not the current one of pyplot

The current figure is shared by the threads of a process: a plot could be
saved under the name given for the one of another card.
---
 skops/card/_model_card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 20d10d6..2531fcb 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1024,7 +1024,7 @@ class Card:
                 " different filename for the plot."
             )
         sorted_importances_idx = permutation_importances.importances_mean.argsort()
-        _, ax = plt.subplots()
+        fig, ax = plt.subplots()
         boxplot(
             ax,
             x=permutation_importances.importances[sorted_importances_idx].T,
@@ -1033,7 +1033,7 @@ class Card:
         )
         ax.set_title(plot_name)
         ax.set_xlabel("Decrease in Score")
-        plt.savefig(plot_file)
+        fig.savefig(plot_file)
         self.add_plot(description=description, alt_text=None, **{plot_name: plot_file})
 
         return self
-- 
2.43.0


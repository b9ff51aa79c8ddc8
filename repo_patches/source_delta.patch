From 5d627dfbb0c24b3d417fab22e237d52e3a116a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 01/51] fix: pass build options by name so that line numbers,
 handrails and linting are honoured

---
 rsm/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 19c3bee..2d99ec3 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -242,7 +242,14 @@ class FullBuildApp(ProcessorApp):
         run_linter: bool = False,
     ):
         super().__init__(
-            srcpath, plain, loglevel, log_format, log_time, handrails, run_linter
+            srcpath,
+            plain,
+            loglevel,
+            log_format,
+            log_time,
+            log_lineno,
+            handrails=handrails,
+            run_linter=run_linter,
         )
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
@@ -302,6 +309,7 @@ def make(
     return FullBuildApp(
         srcpath=path,
         plain=source,
+        handrails=handrails,
         run_linter=lint,
         loglevel=loglevel,
         log_format=log_format,
-- 
2.43.0


From 95bd1760c3f31d5d600dc0102665feee5255d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 02/51] fix: keep p tags balanced around display equations
 wherever they appear

---
 rsm/translator.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e487f5d..4118058 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -689,7 +689,7 @@ class Translator:
         #
         # A paragraph cannot start with a mathblock.
         items: list[EditCommand] = [AppendNodeTag(node, "div")]  #
-        if node.first_of_type(nodes.MathBlock):
+        if node.first_of_type((nodes.MathBlock, nodes.ClaimBlock)):
             items.append(AppendOpenTagManualClose(tag="p", newline_inner=False))
         else:
             items.append(AppendOpenTag(tag="p", newline_inner=False))
@@ -767,14 +767,15 @@ class Translator:
             ]
         )
 
+    def _close_p_tag(self, node: nodes.MathBlock | nodes.ClaimBlock) -> list[EditCommand]:
+        # Only the contents of a Paragraph are enclosed in <p> tags.  (See comment in
+        # visit_paragraph().)
+        return [AppendText("</p>")] if type(node.parent) is nodes.Paragraph else []
+
     def visit_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-        assert isinstance(node.parent, nodes.Paragraph)
         return AppendBatchAndDefer(
             [
-                # A paragraph that contains a mathblock cannot _start_ with a mathblock,
-                # so this mathblock must always contain some previous siblings that must
-                # be enclosed in <p> tags.  (See comment in visit_paragraph().)
-                AppendText("</p>"),
+                *self._close_p_tag(node),
                 # This is the actual tag corresponding to the mathblock.
                 AppendNodeTag(node, "div"),
                 # The contents of a mathblock must be enclosed in '$$' and '$$' due to
@@ -785,16 +786,20 @@ class Translator:
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
         # See also the comment in visit_paragraph().
-        batch = self.leave_node(node)
+        return self._reopen_p_tag(node, self.leave_node(node))
 
-        # The paragraph-specific logic only applies when the parent is a BaseParagraph
+    def _reopen_p_tag(
+        self, node: nodes.MathBlock | nodes.ClaimBlock, batch: EditCommandBatch
+    ) -> EditCommand:
+        # The paragraph-specific logic only applies when the parent is a Paragraph
         # With grammar changes, MathBlocks can now have other types of parents
-        if not isinstance(node.parent, nodes.BaseParagraph):
+        if type(node.parent) is not nodes.Paragraph:
             return batch
 
         # In case this mathblock is the last child of the paragraph, there is nothing
         # special to do since visit_mathblock() already handled the remaining </p> tag.
         if not node.next_sibling():
+            node.parent._must_close_p_tag = False
             return batch
 
         # If there are more children, we need to close this mathblock, start a new <p>
@@ -921,7 +926,10 @@ class Translator:
         )
 
     def visit_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
-        return AppendNodeTag(node)
+        return AppendBatchAndDefer([*self._close_p_tag(node), AppendNodeTag(node)])
+
+    def leave_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
+        return self._reopen_p_tag(node, self.leave_node(node))
 
     def _make_title_node(
         self, label: str, desc: str = "", types: list = ["hr-label"]
@@ -1822,9 +1830,9 @@ class HandrailsTranslator(Translator):
             collapse_in_hr=False,
             menu_label="Equation" if node.nonum else node.long_reftext,
         )
-        batch.items.insert(0, AppendText("</p>"))
         batch.items.append(AppendTextAndDefer("$$\n", "\n$$"))
-        batch.items[1].classes += ["hr-hidden", "hr-offset"]
+        batch.items[0].classes += ["hr-hidden", "hr-offset"]
+        batch.items = self._close_p_tag(node) + batch.items
         return batch
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-- 
2.43.0


From eb5b410fef29195b7639e0fd399a15d366217a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 03/51] fix: render bibliography entries that have no year

---
 rsm/translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 4118058..acd2c96 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1050,8 +1050,8 @@ class Translator:
                 items.append(node.publisher)
             else:
                 logger.warning(f"Bibitem {node.label} has no publisher")
-        if node.year:
-            items.append(node.year)
+        if node.year and node.year != -1:
+            items.append(str(node.year))
         else:
             logger.warning(f"Bibitem {node.label} has no year")
         text = ". ".join([i.strip(".") for i in items]) + "."
-- 
2.43.0


From e99e184d7ae81ebe562314e18b75235c50592732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 04/51] fix: treat a citation of something that is not a
 bibliography item as unknown

---
 rsm/transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eee8528..0f7c202 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -178,6 +178,13 @@ class Transformer:
             logger.warning(f'Reference to nonexistent label "{label}"')
             return default(f'[unknown label "{label}"]')
 
+    def _label_to_bibitem(self, label: str) -> nodes.Bibitem:
+        node = self._label_to_node(label, nodes.UnknownBibitem)
+        if not isinstance(node, nodes.Bibitem):
+            logger.warning(f'Citation of "{label}", which is not a bibliography item')
+            node = nodes.UnknownBibitem(f'[unknown label "{label}"]')
+        return node
+
     def resolve_pending_references(self) -> None:
         classes = [
             nodes.PendingReference,
@@ -200,8 +207,7 @@ class Transformer:
                     )
             elif isinstance(pending, nodes.PendingCite):
                 targets = [
-                    self._label_to_node(label, nodes.UnknownBibitem)
-                    for label in pending.targetlabels
+                    self._label_to_bibitem(label) for label in pending.targetlabels
                 ]
                 cite = nodes.Cite(targets=targets)
                 cite.label = f"cite-{next(counter)}"
-- 
2.43.0


From 2ffa8691a62a5b98bcd317acb7dff56b9164aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 05/51] fix: emit the label of a figure as an id only once

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index acd2c96..d9659e6 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1096,7 +1096,7 @@ class Translator:
                 AppendText(
                     _make_tag(
                         "img",
-                        id_=node.label,
+                        id_="",
                         classes=[],
                         src=node.path,
                         alt=f"{node.__class__.__name__} {node.full_number}.",
-- 
2.43.0


From f07f1d411469ef7e50f9d833c5b99ceeb123048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 06/51] fix: render an author without data with handrails

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index d9659e6..18fb690 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -629,7 +629,7 @@ class Translator:
                 ]
             )
         else:
-            return AppendNodeTag(node)
+            return AppendBatchAndDefer([AppendNodeTag(node)])
 
     def visit_abstract(self, node: nodes.Abstract) -> EditCommand:
         return AppendBatchAndDefer(
-- 
2.43.0


From b4e8b36372dbfcd735efd3bf6c026f6f4472054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 07/51] fix: keep the tree unchanged when an edit is refused

---
 rsm/nodes.py | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 669f1ae..c8c3130 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -389,17 +389,16 @@ class Node:
 
     @parent.setter
     def parent(self, node: Optional["NodeWithChildren"]) -> None:
-        if node is None:
-            self._parent = None
-        elif not self.__class__.possible_parents:
-            self._parent = node
-        else:
-            possible_parents = self.__class__.possible_parents
-            if possible_parents and type(node) not in possible_parents:
-                raise RSMNodeError(
-                    f"Node of type {type(self)} cannot have parent of type {type(node)}"
-                )
-            self._parent = node
+        if node is not None:
+            self._check_parent(node)
+        self._parent = node
+
+    def _check_parent(self, node: "NodeWithChildren") -> None:
+        possible_parents = self.__class__.possible_parents
+        if possible_parents and type(node) not in possible_parents:
+            raise RSMNodeError(
+                f"Node of type {type(self)} cannot have parent of type {type(node)}"
+            )
 
     @property
     def children(self) -> tuple:
@@ -811,14 +810,17 @@ class Node:
         ids = [id(c) for c in self.parent.children]
         index = ids.index(id(self))
         parent = self.parent
+        reps = [replacement] if isinstance(replacement, Node) else list(replacement)
+        if any(rep.parent and rep is not self for rep in reps):
+            raise RSMNodeError("Attempting to replace with a node that has a parent")
+        if len({id(rep) for rep in reps}) < len(reps):
+            raise RSMNodeError("Attempting to replace with the same node twice")
+        for rep in reps:
+            rep._check_parent(parent)
         self.parent.remove(self)
-        if not isinstance(replacement, Node):
-            for idx, rep in enumerate(replacement):
-                parent._children.insert(index + idx, rep)
-                rep.parent = parent
-        else:
-            parent._children.insert(index, replacement)
-            replacement.parent = parent
+        for idx, rep in enumerate(reps):
+            parent._children.insert(index + idx, rep)
+            rep.parent = parent
 
     def remove_self(self) -> None:
         """Remove this Node from its parent's children.
@@ -940,8 +942,8 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent:
                 raise RSMNodeError("Attempting to append child to a new parent")
-            self._children.append(child)
             child.parent = self
+            self._children.append(child)
         else:
             raise TypeError("Can only append a Node or iterable of Nodes as children")
         return self
@@ -962,8 +964,10 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
                 raise RSMNodeError("Attempting to prepend child to a different parent")
-            self._children.insert(0, child)
+            if child.parent is self:
+                self.remove(child)
             child.parent = self
+            self._children.insert(0, child)
         else:
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
         return self
-- 
2.43.0


From 70b6130f4f4224bf7575bc17d7aa2b40a81cfe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 08/51] fix: letter only the sections of an appendix, however
 many there are

---
 rsm/transformer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 0f7c202..74d6d66 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -26,7 +26,7 @@ place is of utmost importance.
 
 import logging
 from collections import defaultdict
-from itertools import count
+from itertools import count, product
 from string import ascii_uppercase
 from typing import Generator, Optional, Type
 
@@ -41,6 +41,13 @@ class RSMTransformerError(Exception):
     pass
 
 
+def _appendix_letters() -> Generator[str, None, None]:
+    """Generate A, B, ..., Z, AA, AB, ..."""
+    for length in count(start=1):
+        for letters in product(ascii_uppercase, repeat=length):
+            yield "".join(letters)
+
+
 class Transformer:
     """Apply transformations to the abstract syntax tree.
 
@@ -282,7 +289,7 @@ class Transformer:
         within_appendix = False
         for node in self.tree.traverse():
             if isinstance(node, nodes.Appendix):
-                counts[nodes.Manuscript] = defaultdict(lambda: iter(ascii_uppercase))
+                counts[nodes.Manuscript][nodes.Section] = _appendix_letters()
                 within_appendix = True
                 continue
             if isinstance(node, (nodes.Proof, nodes.Subproof)):
-- 
2.43.0


From 2e129f29cd5a90573080f8005b1dbb4038e8a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 09/51] fix: build the table of contents from the nesting of
 the sections

---
 rsm/transformer.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 74d6d66..14f8ec5 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -323,36 +323,25 @@ class Transformer:
         if toc is None:
             return
 
-        current_parent = toc
+        section_classes = (nodes.Section, nodes.Subsection, nodes.Subsubsection)
+        sec_to_item: dict[int, nodes.Item] = {}
         for sec in self.tree.traverse(nodeclass=nodes.Section):
             item = nodes.Item()
             reftext = f"{sec.title}" if sec.nonum else f"{sec.full_number}. {sec.title}"
             item.append(nodes.Reference(target=sec, overwrite_reftext=reftext))
+            sec_to_item[id(sec)] = item
 
-            # The order of the `if isinstance(...)` statements here matters because all
-            # Subsections are also Sections so isinstance(sec, nodes.Section) evaluates
-            # to True even when sec is a Subsection.  Thus, we have to go from smallest
-            # (Subsubsection) to largest (Section).
-            if isinstance(sec, nodes.Subsubsection):
-                current_parent.append(item)
-                if sec.parent.last_of_type(nodes.Subsubsection) is sec:
-                    current_parent = current_parent.parent.parent
-            elif isinstance(sec, nodes.Subsection):
-                current_parent.append(item)
-                if sec.first_of_type(nodes.Subsubsection):
-                    itemize = nodes.Itemize()
-                    item.append(itemize)
-                    current_parent = itemize
-                elif sec.parent.last_of_type(nodes.Subsection) is sec:
-                    current_parent = current_parent.parent.parent
-            elif isinstance(sec, nodes.Section):
+            # The entry of a section goes below that of the section that contains it.
+            outer = sec.first_ancestor_of_type(section_classes)
+            if outer is None:
                 toc.append(item)
-                if sec.first_of_type(nodes.Subsection):
-                    itemize = nodes.Itemize()
-                    item.append(itemize)
-                    current_parent = itemize
-            else:
-                raise RSMTransformerError("How did we get here?")
+                continue
+            outer_item = sec_to_item[id(outer)]
+            itemize = outer_item.first_of_type(nodes.Itemize)
+            if itemize is None:
+                itemize = nodes.Itemize()
+                outer_item.append(itemize)
+            itemize.append(item)
 
     def add_keywords_to_constructs(self) -> None:
         for construct in self.tree.traverse(nodeclass=nodes.Construct):
-- 
2.43.0


From 4b48e54023db8ab27c40709ed4ec8a42d04cbb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 10/51] fix: count every enclosing handrail once, whatever the
 kind of the theorem

---
 rsm/transformer.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 14f8ec5..d862155 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -352,16 +352,10 @@ class Transformer:
                 construct.types.append("assumption")
 
     def add_handrail_depth(self) -> None:
-        for nc in nodes.all_node_subtypes():
-            if nc.has_handrail:
-                self._add_handrail_depth_for_class(nc)
-
-    def _add_handrail_depth_for_class(self, nodeclass) -> None:
-        for node in self.tree.traverse(nodeclass=nodeclass):
+        for node in self.tree.traverse(condition=lambda n: n.has_handrail):
             for desc in node.traverse():
-                if desc == node:
-                    continue
-                desc.handrail_depth += 1
+                if desc is not node:
+                    desc.handrail_depth += 1
 
     def assign_node_ids(self) -> None:
         nodeid = 0
-- 
2.43.0


From aff0a6dab1f675e19deda6bd3685732ac99a7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 11/51] fix: leave the tree as it is when translating it

---
 rsm/translator.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 18fb690..98715c8 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -709,7 +709,9 @@ class Translator:
         return AppendNodeTag(node)
 
     def visit_section(self, node: nodes.Section) -> EditCommand:
-        node.types.insert(0, f"level-{node.level}")
+        level = f"level-{node.level}"
+        if node.types[:1] != [level]:
+            node.types.insert(0, level)
         heading = (
             f"{node.full_number}. {node.title}" if not node.nonum else f"{node.title}"
         )
@@ -978,7 +980,7 @@ class Translator:
 
     def visit_proof(self, node: nodes.Proof) -> EditCommandBatch:
         last = node.last_of_type(nodes.Step)
-        if last:
+        if last and "last" not in last.types:
             last.types.append("last")
 
         classname = node.__class__.__name__.lower()
@@ -1792,20 +1794,26 @@ class HandrailsTranslator(Translator):
         batch = AppendBatch(batch.items)
         return batch
 
+    def _is_followed_by_dot(self, node: nodes.Node) -> bool:
+        sib = node.next_sibling()
+        return type(sib) is nodes.Text and sib.text.startswith(".")
+
+    def visit_text(self, node: nodes.Text) -> EditCommand:
+        prev = node.prev_sibling()
+        if isinstance(prev, nodes.Math) and self._is_followed_by_dot(prev):
+            return AppendText(node.text[1:])
+        return super().visit_text(node)
+
     def visit_math(self, node: nodes.Math) -> EditCommand:
         batch = super().visit_math(node)
-        sib = node.next_sibling()
-        if not isinstance(sib, nodes.Text):
-            return batch
-        if not sib.text.startswith("."):
+        if not self._is_followed_by_dot(node):
             return batch
 
         # We reach this branch only if the Math node is immediately followed by Text
         # that starts with a dot "."; in this case, the math and the dot may be
         # separated if the browser's viewport is too narrow, which looks ugly.  The only
-        # way to fix it is to wrap the math and the dot in a span, and remove the dot
-        # from the subsequent text.  The span is then dealt with using CSS.
-        node._followed_by_dot = True
+        # way to fix it is to wrap the math and the dot in a span, and omit the dot from
+        # the subsequent text, see visit_text.  The span is then dealt with using CSS.
         batch.items.insert(
             0,
             AppendOpenTagManualClose(
@@ -1814,12 +1822,11 @@ class HandrailsTranslator(Translator):
                 newline_outer=False,
             ),
         )
-        sib.text = sib.text[1:]
         return batch
 
     def leave_math(self, node: nodes.Math) -> EditCommand:
         batch = self.leave_node(node)
-        if not getattr(node, "_followed_by_dot", False):
+        if not self._is_followed_by_dot(node):
             return batch
         batch.items.extend([AppendText("<span>.</span>"), AppendText("</span>")])
         return batch
-- 
2.43.0


From 0075401ae5a8370a7a5a1a3c4c03d571484c5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 12/51] fix: format lint records, which have no end point, in
 the rsm log format

---
 rsm/rsmlogger.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a7a613c..88adb20 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -49,6 +49,7 @@ class RSMFormatter(logging.Formatter):
     name = blue + "%(name)s " + reset
     msgformat = "%(levelname)-3s | %(message)s" + reset
     point = " | (%(start_row)d, %(start_col)d) - (%(end_row)d, %(end_col)d) | " + reset
+    start_point = " | (%(start_row)d, %(start_col)d) | " + reset
     suffix = grey + " (%(filename)s:%(lineno)d)" + reset
 
     COLORS = {
@@ -65,12 +66,16 @@ class RSMFormatter(logging.Formatter):
         self.log_lineno = log_lineno
 
     def format(self, record: logging.LogRecord) -> str:
+        point = ""
+        if hasattr(record, "start_row"):
+            # Records emitted by the linter have no end point.
+            point = self.point if hasattr(record, "end_row") else self.start_point
         fmt = (
             (self.time if self.log_time else "")
             + self.name
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
-            + (self.point if hasattr(record, "start_row") else "")
+            + point
             + self.suffix
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
-- 
2.43.0


From 969662e59b00d6463b098b39eee7cb4668b8520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 13/51] fix: leave line numbers out of the rsm log format when
 asked to

---
 rsm/rsmlogger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index 88adb20..78e8713 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -51,6 +51,7 @@ class RSMFormatter(logging.Formatter):
     point = " | (%(start_row)d, %(start_col)d) - (%(end_row)d, %(end_col)d) | " + reset
     start_point = " | (%(start_row)d, %(start_col)d) | " + reset
     suffix = grey + " (%(filename)s:%(lineno)d)" + reset
+    suffix_sans_lineno = grey + " (%(filename)s)" + reset
 
     COLORS = {
         logging.DEBUG: grey,
@@ -76,7 +77,7 @@ class RSMFormatter(logging.Formatter):
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
             + point
-            + self.suffix
+            + (self.suffix if self.log_lineno else self.suffix_sans_lineno)
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
-- 
2.43.0


From 1d27d632841520a000dc9a98ca4aef2f1d3a88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 14/51] fix: write exactly the events of the requested level,
 also when linting

---
 rsm/app.py       | 7 ++++++-
 rsm/rsmlogger.py | 3 +--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsm/app.py b/rsm/app.py
index 2d99ec3..1b3a759 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -197,7 +197,12 @@ class LinterApp(ParserApp):
         log_lineno: bool = True,
     ):
         super().__init__(
-            srcpath, plain, linter.Linter.LINT_LVL, log_format, log_time, log_lineno
+            srcpath,
+            plain,
+            min(loglevel, linter.Linter.LINT_LVL),
+            log_format,
+            log_time,
+            log_lineno,
         )
         mylinter = linter.Linter()
         self.add_task(Task("linter", mylinter, mylinter.lint))
diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index 78e8713..f81450a 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -185,5 +185,4 @@ def _set_level(level: int) -> None:
     level = max(level, logging.DEBUG)
     logger.setLevel(level)
     for h in logger.handlers:
-        if h.level > level:
-            h.setLevel(level)
+        h.setLevel(level)
-- 
2.43.0


From 828b31c6cacd22fc241421bb5564f10b72461558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 15/51] fix: keep what follows the subproof of a step instead
 of failing

---
 rsm/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index d862155..a6728ce 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -276,8 +276,8 @@ class Transformer:
                 subproof = nodes.Subproof()
                 subproof.append(children[split_at_idx:])
             elif isinstance(children[split_at_idx], nodes.Subproof):
-                assert split_at_idx == len(children) - 1
                 subproof = children[split_at_idx]
+                subproof.append(children[split_at_idx + 1 :])
             else:
                 raise RSMTransformerError("How did we get here?")
             step.append([statement, subproof])
-- 
2.43.0


From c3a155c1baea48ae634499fe1776dd9e671f9485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 16/51] fix: give captions no handrail info zone

---
 rsm/translator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index 98715c8..d87f835 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1726,6 +1726,10 @@ class HandrailsTranslator(Translator):
         batch.items.insert(-1, self._hr_info_zone_icon(getattr(node, "icon", None)))
         return batch
 
+    def leave_caption(self, node: nodes.Caption) -> EditCommand:
+        # A Caption is a Paragraph, but it has no handrail and thus no info zone.
+        return self.leave_node(node)
+
     def visit_theorem(self, node: nodes.Theorem) -> EditCommand:
         batch = super().visit_theorem(node)
         hr = self._replace_node_with_handrails(node, additional_classes=["hr-labeled"])
-- 
2.43.0


From e58edfcae909bcbf6eda4a511450953e7e480cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 17/51] fix: separate inline elements by a space exactly where
 the source has one

---
 rsm/tsparser.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 71bd272..c14e586 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -414,9 +414,26 @@ def _normalize_text(root: TSNode) -> str:
         # Finally we handle the space between non-Text children of a paragraph, for
         # example two Spans together, or a Span followed by a Construct.  In all cases,
         # we simply insert a single space between them.
-        classes = [nodes.Span, nodes.Construct, nodes.Math]
+        # if there is space between them in the source.
+        classes = [
+            nodes.Code,
+            nodes.Construct,
+            nodes.Draft,
+            nodes.Math,
+            nodes.Note,
+            nodes.PendingCite,
+            nodes.PendingPrev,
+            nodes.PendingReference,
+            nodes.Span,
+            nodes.URL,
+        ]
         sibling = node.next_sibling()
-        if sibling and type(node) in classes and type(sibling) in classes:
+        if (
+            sibling
+            and type(node) in classes
+            and type(sibling) in classes
+            and node.end_point != sibling.start_point
+        ):
             node.replace_self([node, nodes.Text(" ")])
 
         # Manage escaped characters.
-- 
2.43.0


From c3dd7c0751d705a0d4e192d6b0d1e94c83f3be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 18/51] fix: give unnumbered steps no number

---
 rsm/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index a6728ce..10f87e3 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -308,7 +308,9 @@ class Transformer:
                     )
 
     def _autonumber_steps(self, proof: nodes.Proof) -> None:
-        step_gen = (s for s in proof.children if isinstance(s, nodes.Step))
+        step_gen = (
+            s for s in proof.children if isinstance(s, nodes.Step) and not s.nonum
+        )
         for idx, step in enumerate(step_gen, start=1):
             step.number = idx
 
-- 
2.43.0


From 5e7915e3e77a1e3003d8b7f5ea9f12b17f2c905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 19/51] fix: give the DOI link of an unlabelled bibliography
 entry no id

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index d87f835..9021bd3 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1060,7 +1060,7 @@ class Translator:
         if node.doi:
             a_tag = _make_tag(
                 "a",
-                id_=f"{node.label}-doi",
+                id_=f"{node.label}-doi" if node.label else "",
                 classes=["bibitem-doi"],
                 href=f"https://doi.org/{node.doi}",
                 target="_blank",
-- 
2.43.0


From e7f0c8da7885d2318f6127e539927b3949d381f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:16 +0000
Subject: [PATCH 20/51] fix: refuse to put a node beneath itself

---
 rsm/nodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index c8c3130..94a794c 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -399,6 +399,11 @@ class Node:
             raise RSMNodeError(
                 f"Node of type {type(self)} cannot have parent of type {type(node)}"
             )
+        ancestor: Optional["Node"] = node
+        while ancestor is not None:
+            if ancestor is self:
+                raise RSMNodeError("Attempting to put a node beneath itself")
+            ancestor = ancestor.parent
 
     @property
     def children(self) -> tuple:
-- 
2.43.0


From 4664a857711f48f24fc77c806e8f2272de446c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:50 +0000
Subject: [PATCH 21/51] fix: resolve the escapes of the slash and of the
 closing brace

---
 rsm/tsparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index c14e586..f42cdac 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -62,7 +62,7 @@ class RSMParserError(Exception):
         super().__init__(self.msg)
 
 
-DELIMS = ":%$`*{#"
+DELIMS = ":%$`*/{}#"
 PUSH_THESE_TYPES = {
     "ERROR",
     "appendix",
-- 
2.43.0


From 915e74b11173bf7ac31701cb6d95091f9276f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 22/51] fix: give the constructs suppose and wlog a keyword
 instead of failing

---
 rsm/nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 94a794c..d733265 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -1191,6 +1191,8 @@ class Construct(NodeWithChildren):
         "prove": "PROVE",
         "pick": "PICK",
         "suffices": "SUFFICES",
+        "suppose": "SUPPOSE",
+        "wlog": "WLOG",
         "claim": "⊢",
         "claimblock": "⊢",
         "qed": "QED",
-- 
2.43.0


From e167c9ec857c061ef34c9f87fc610f92b280438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:33 +0000
Subject: [PATCH 23/51] fix: keep exercises, problems and porisms what they are

---
 rsm/tsparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index f42cdac..ff50d45 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -264,6 +264,7 @@ CST_TYPE_TO_AST_TYPE: dict[str, Callable] = {
     "definition": nodes.Definition,
     "draft": nodes.Draft,
     "example": nodes.Example,
+    "exercise": nodes.Exercise,
     "item": nodes.Item,
     "itemize": nodes.Itemize,
     "caption": nodes.Caption,
@@ -279,6 +280,8 @@ CST_TYPE_TO_AST_TYPE: dict[str, Callable] = {
     "prev2": nodes.PendingPrev,
     "prev3": nodes.PendingPrev,
     "previous": nodes.PendingPrev,
+    "porism": nodes.Porism,
+    "problem": nodes.Problem,
     "proof": nodes.Proof,
     "proposition": nodes.Proposition,
     "ref": nodes.PendingReference,
@@ -565,6 +568,9 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
         elif cst_node.type in ["block", "inline"]:
             tag = cst_node.child_by_field_name("tag")
             ast_node_type = tag.type
+            if ast_node_type == "theorem" and tag.text is not None:
+                # also the type that the grammar gives to some other tags
+                ast_node_type = tag.text.decode("utf-8").strip(":")
             skip_these_ids.add(tag.id)
 
         else:
-- 
2.43.0


From 7e5540b0b9d558d92d5f4f111cc90efe8abe2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 24/51] fix: survive and report errors inside metadata and
 bibliography entries

---
 rsm/tsparser.py | 50 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index ff50d45..e28b38f 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -334,13 +334,38 @@ def _parse_metakey_bool(cst_key: TSNode, _: TSNode) -> tuple[str, bool]:
     return key, True
 
 
+def _warn_cst_error(cst_node: TSNode) -> None:
+    start_row, start_col = cst_node.start_point
+    end_row, end_col = cst_node.end_point
+    logger.warning(
+        "The CST contains errors.",
+        extra=dict(
+            start_row=start_row,
+            start_col=start_col,
+            end_row=end_row,
+            end_col=end_col,
+        ),
+    )
+
+
+def _without_errors(node: TSNode) -> list[TSNode]:
+    parts = []
+    for child in node.named_children:
+        if child.type == "ERROR":
+            _warn_cst_error(child)
+        elif child.type != "comment":
+            parts.append(child)
+    return parts
+
+
 def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     pairs = {}
-    for pair in [c for c in node.named_children if c.type.endswith("pair")]:
-        if len(pair.named_children) == 1:  # bool meta key
-            cst_key, cst_val = pair.named_children[0], None
+    for pair in [c for c in _without_errors(node) if c.type.endswith("pair")]:
+        parts = _without_errors(pair)
+        if len(parts) == 1:  # bool meta key
+            cst_key, cst_val = parts[0], None
         else:
-            cst_key, cst_val = pair.named_children
+            cst_key, cst_val = parts
         key, val = globals()[f"_parse_{cst_key.type}"](cst_key, cst_val)
         pairs[key] = val
     return pairs
@@ -490,8 +515,11 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             bib_node = nodes.Bibitem()
             bib_node.kind = cst_node.child_by_field_name("kind").text.decode("utf-8")
             bib_node.label = cst_node.child_by_field_name("label").text.decode("utf-8")
-            for pair in [c for c in cst_node.named_children if c.type == "bibitempair"]:
-                key, value = pair.named_children
+            for pair in [c for c in _without_errors(cst_node) if c.type == "bibitempair"]:
+                parts = _without_errors(pair)
+                if len(parts) != 2:
+                    continue
+                key, value = parts
                 key, value = key.text.decode("utf-8"), value.text.decode("utf-8")
                 setattr(bib_node, key, value)
 
@@ -589,15 +617,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
         elif ast_node_type == "ERROR":
             start_row, start_col = cst_node.start_point
             end_row, end_col = cst_node.end_point
-            logger.warning(
-                "The CST contains errors.",
-                extra=dict(
-                    start_row=start_row,
-                    start_col=start_col,
-                    end_row=end_row,
-                    end_col=end_col,
-                ),
-            )
+            _warn_cst_error(cst_node)
             ast_node = nodes.Error(
                 f"[CST error at ({start_row}, {start_col}) - ({end_row}, {end_col})]",
                 start_point=cst_node.start_point,
-- 
2.43.0


From 03fb90e8cf504a0d81bd13226ad44e7495e47c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:50 +0000
Subject: [PATCH 25/51] fix: report errors inside references, table cells and
 the bibliography mark

---
 rsm/tsparser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index e28b38f..c66ce17 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -491,6 +491,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             and cst_node.children
             and cst_node.children[0].type == "bibliography"
         ):
+            _without_errors(cst_node)
             bibliography_node = nodes.Bibliography()
             ast_root_node.append(bibliography_node)
             continue
@@ -584,7 +585,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             # td tags are special because the entire contents are in the first children,
             # so we might as well add that with the current parent and ignore the
             # current node
-            stack.append((parent, cst_node.named_children[0]))
+            stack += [(parent, c) for c in _without_errors(cst_node)[:1]]
             continue
 
         elif cst_node.type == "paragraph":
@@ -658,12 +659,13 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
                 ast_node.kind = tag.type
 
         if ast_node_type in ["ref", "previous", "url"]:
-            target_node = cst_node.named_children[1]
+            parts = _without_errors(cst_node)
+            target_node = parts[1]
             ast_node.target = target_node.text.decode("utf-8")
             skip_these_ids.add(target_node.id)
 
-            if len(cst_node.named_children) > 2:
-                reftext_node = cst_node.named_children[2]
+            if len(parts) > 2:
+                reftext_node = parts[2]
                 ast_node.overwrite_reftext = reftext_node.text.decode("utf-8")
                 skip_these_ids.add(reftext_node.id)
 
@@ -675,7 +677,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             ast_node.target = target
 
         if ast_node_type == "cite":
-            target_node = cst_node.named_children[1]
+            target_node = _without_errors(cst_node)[1]
             labels = target_node.text.decode("utf-8").split(",")
             ast_node.targetlabels = [l.strip() for l in labels]
             skip_these_ids.add(target_node.id)
-- 
2.43.0


From 2a29bd1205652593becfb2a32781dc9ccd3e4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:09 +0000
Subject: [PATCH 26/51] fix: forget the labels of documents processed before

---
 rsm/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 10f87e3..a211c1f 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -142,6 +142,7 @@ class Transformer:
         """
         logger.info("Transforming...")
         self.tree = tree
+        self.labels_to_nodes = {}
 
         self.collect_labels()
         self.resolve_pending_references()
-- 
2.43.0


From f54bfce8a7764e24a0095a9c7f85f952685d4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 27/51] fix: take only the sources of images for assets, not
 text that looks like one

---
 rsm/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 3c8552f..fb4a4fa 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -45,7 +45,7 @@ class BaseBuilder(ABC):
 
     def find_required_assets(self) -> None:
         self.required_assets = [
-            Path(x) for x in re.findall(r'src="(.*?)"', str(self.body))
+            Path(x) for x in re.findall(r'<img\b[^<>]*?\ssrc="(.*?)"', str(self.body))
         ]
 
 
-- 
2.43.0


From f5904d9f47015859e158f17401aa5a991b5cf20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:42 +0000
Subject: [PATCH 28/51] fix: collapsing or expanding a handrail changes its own
 icon only

When the handrail was in that state already, for instance because of
"Collapse all", the icon of an element nested in it was changed instead.
---
 rsm/static/handrails.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 8b584ff..14119a9 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -71,7 +71,7 @@ function openHandrail(hr) {
   hr.classList.remove("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.remove("hide"); });
-  const icon = hr.querySelector("& .icon.expand");
+  const icon = hr.querySelector("& > .hr-collapse-zone .icon.expand, & > .hr-menu-zone .icon.expand");
   if (!icon) return;
   icon.classList.remove("expand");
   icon.classList.add("collapse");
@@ -89,7 +89,7 @@ function closeHandrail(hr) {
   hr.classList.add("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.add("hide"); });
-  const icon = hr.querySelector("& .icon.collapse");
+  const icon = hr.querySelector("& > .hr-collapse-zone .icon.collapse, & > .hr-menu-zone .icon.collapse");
   if (!icon) return;
   icon.classList.remove("collapse");
   icon.classList.add("expand");
-- 
2.43.0


From 4484e5693e62393c838bf7a75b15ee062ef13d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:42 +0000
Subject: [PATCH 29/51] fix: collapse or expand all according to the handrail's
 own menu entry

The entry of a step nested in the handrail was taken for its own.
---
 rsm/static/handrails.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 14119a9..8aa4d9a 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -125,7 +125,7 @@ export function collapseAll(target, withinSubproof = true) {
   }
 
   const hr = target.closest(".hr");
-  const ex_icon = hr.querySelector("& .icon.expand-all");
+  const ex_icon = hr.querySelector("& > .hr-menu-zone .icon.expand-all");
   if (ex_icon) {
     hr.querySelectorAll(qry).forEach(st => openHandrail(st));
     ex_icon.classList.remove("expand-all");
@@ -142,7 +142,7 @@ export function collapseAll(target, withinSubproof = true) {
     return;
   }
 
-  const co_icon = hr.querySelector("& .icon.collapse-all");
+  const co_icon = hr.querySelector("& > .hr-menu-zone .icon.collapse-all");
   if (co_icon) {
     hr.querySelectorAll(qry).forEach(st => closeHandrail(st));
     co_icon.classList.remove("collapse-all");
-- 
2.43.0


From 4209e711d564f45db7ad84c89d8c965772a765ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:42 +0000
Subject: [PATCH 30/51] fix: choosing to collapse all steps of a proof with the
 keyboard collapses them

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index b669d10..b0a90aa 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -108,7 +108,7 @@ function executeActiveMenuItem(el) {
       toggleHandrail(el);
       break;
     case "collapse-steps":
-      collapseAll(el);
+      collapseAll(el, el.classList.contains("step"));
       break;
     case true:
       console.log($`unknown item class: ${cls[0]}`);
-- 
2.43.0


From f68e68e9ed2ce1931265b81bdd6bc91f51cd5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:42 +0000
Subject: [PATCH 31/51] fix: the key to collapse all steps leaves disabled menu
 entries alone

---
 rsm/static/keyboard.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index b0a90aa..c0a533a 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -262,8 +262,8 @@ function toggleCollapse(el) {
 function toggleCollapseAll(el) {
   if (!el.classList.contains("hr")) return;
   const collAll = el.querySelector(`
-        & > .hr-menu-zone .collapse-all:not(.disabled),
-        & > .hr-menu-zone .expand-all:not(.disabled)
+        & > .hr-menu-zone .hr-menu-item:not(.disabled) > .collapse-all,
+        & > .hr-menu-zone .hr-menu-item:not(.disabled) > .expand-all
     `);
   const withinSubproof = el.classList.contains("step");
   if (collAll) collapseAll(el, withinSubproof);
-- 
2.43.0


From b0bfecce654aef29447586071a7c8de5e47a6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:42 +0000
Subject: [PATCH 32/51] fix: the key that goes back to the top knows where to
 look for it

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index c0a533a..b53736f 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -25,7 +25,7 @@ export function setup(root) {
 
   // Navigation: back to top
   root.addEventListener('keydown', (event) => {
-    if (event.key == "H") { event.stopPropagation(); focusTop(); };
+    if (event.key == "H") { event.stopPropagation(); focusTop(root); };
   });
 
   // Basic actions on the currently focused element
-- 
2.43.0


From 883e88385ddd41f515ba124e45530ba6804ecb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:42 +0000
Subject: [PATCH 33/51] fix: the arrow keys do nothing unless the focused
 element's menu is open

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index b53736f..d482d50 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -118,7 +118,7 @@ function executeActiveMenuItem(el) {
 
 function menuUpOrDown(el, direction) {
   const menu = el.querySelector("& > .hr-menu-zone");
-  if (!getComputedStyle(menu).display == "none") return;
+  if (!menu || getComputedStyle(menu).display == "none") return;
 
   const qry = `
       & > .hr-menu > .hr-menu-item:hover,
-- 
2.43.0


From a67925c8d738de4aee425e3556b4ceddad8adee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:15 +0000
Subject: [PATCH 34/51] fix: the navigation keys do nothing on a page without
 focusable elements

---
 rsm/static/keyboard.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index d482d50..ea4a802 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -79,6 +79,7 @@ export function setup(root) {
 
 function focusTop(root) {
   const focusable = getFocusableElements(root);
+  if (focusable.length == 0) return;
   focusable[0].focus();
   scrollToMiddle(focusable[0], "up");
 }
@@ -146,6 +147,7 @@ function menuUpOrDown(el, direction) {
 
 function focusUpOrDown(direction, root) {
   const focusableElements = getFocusableElements(root);
+  if (focusableElements.length == 0) return;
   let current = document.activeElement;
   let index = focusableElements.indexOf(current);
 
@@ -216,6 +218,7 @@ function focusUpOrDown(direction, root) {
 
 function focusPrevOrNext(direction, root) {
   const focusableElements = getFocusableElements(root);
+  if (focusableElements.length == 0) return;
   let index = focusableElements.indexOf(document.activeElement);
   console.log('index of current focused element:', index);
   if (index !== -1) {
-- 
2.43.0


From 73a568a2de9cdd9f797c6299c6117a23d0733bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:15 +0000
Subject: [PATCH 35/51] fix: the keys that go up and down focus the top element
 if nothing is focused

They only scrolled to it.
---
 rsm/static/keyboard.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index ea4a802..a1dfb61 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -153,6 +153,7 @@ function focusUpOrDown(direction, root) {
 
   // If not focused on anything, just focus the top element.
   if (index == -1) {
+    focusableElements[0].focus();
     maybeScrollToMiddle(focusableElements[0], direction);
     return;
   }
-- 
2.43.0


From 6a3abf10eb853f9faa99d9405deea4068eae05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:28 +0000
Subject: [PATCH 36/51] fix: pages without a minimap raise no errors when
 scrolled or focused

---
 rsm/static/minimap.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 491963e..47c1d4a 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -20,6 +20,7 @@ export function setup() {
   window.addEventListener('scroll', () => {
     const toc_mm = document.querySelector(".toc-wrapper > .minimap");
     const float_mm = document.querySelector(".float-minimap-wrapper > .minimap");
+    if (!toc_mm || !float_mm) return;
     if (withinView(toc_mm, false)) {
       float_mm.classList.add("hide");
     } else {
@@ -63,6 +64,6 @@ function withinView(el, top = true) {
 
 
 function highlightMinimap(percent, name) {
-  document.getElementById(`stop-follow-${name}-1`).setAttribute("offset", `${percent}%`);
-  document.getElementById(`stop-follow-${name}-2`).setAttribute("offset", `${percent}%`);
+  document.getElementById(`stop-follow-${name}-1`)?.setAttribute("offset", `${percent}%`);
+  document.getElementById(`stop-follow-${name}-2`)?.setAttribute("offset", `${percent}%`);
 }
-- 
2.43.0


From 0eb2a6efa8b165bcd18b99ca06581e2d0637c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 37/51] fix: keyboard navigation skips collapsed elements
 within hidden ones

They cannot be focused, so that the focus stayed where it was for good.
---
 rsm/static/keyboard.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index a1dfb61..1f257ef 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -288,9 +288,9 @@ function toggleMenu(el) {
 
 
 function isFocusable(el) {
-  if (el.classList.contains("hr-collapsed") && !el.classList.contains("hide")) return true;
-  if (el.closest(".hr-collapsed") || el.closest(".hide")) return false;
-  return true;
+  if (el.closest(".hide")) return false;
+  if (el.classList.contains("hr-collapsed")) return true;
+  return !el.closest(".hr-collapsed");
 }
 
 
-- 
2.43.0


From a5f0b7f1e47b3dd3dc6762bd87396b58a60245c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:12 +0000
Subject: [PATCH 38/51] fix: the copied link of an abstract or table of
 contents leads there

It led to the section around it.
---
 rsm/static/handrails.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 8aa4d9a..db3c1d5 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -169,7 +169,7 @@ async function copyLink(target) {
   if (!hr.classList.contains("heading")) {
     anchor = hr.id;
   } else {
-    const section = hr.closest("section");
+    const section = hr.parentElement;
     if (!section.classList.contains("level-1")) {
       anchor = section.id;
     } else {
-- 
2.43.0


From 995946edd1e49f416c3535242457b26078e26a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:25 +0000
Subject: [PATCH 39/51] fix: the minimap finds the mark of any section

Sections without a label were taken for the first of them, and labels
that are not valid CSS identifiers raised an error on every scroll or
found nothing.
---
 rsm/static/minimap.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 47c1d4a..7cf3e33 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -29,15 +29,16 @@ export function setup() {
   });
 
   const mm = document.querySelector(".float-minimap-wrapper > .minimap");
-  const sections = Array.from(document.querySelectorAll('section'));
+  // there is one circle for each section, in the same order
+  const sections = Array.from(document.querySelectorAll('section:is(.section, .subsection, .subsubsection)'));
+  const circles = mm ? mm.querySelectorAll('circle[id]') : [];
   window.addEventListener('scroll', () => {
     if (!mm) return;
 
     const isHidden = mm.classList.contains("hide") || getComputedStyle(mm).display == "none" || getComputedStyle(mm.parentElement).display == "none";
     if (isHidden) return;
 
-    const lastInViewport = sections.findLast(sec => withinView(sec, true));
-    const circle = document.querySelector(`#mm-${lastInViewport?.id}`)
+    const circle = circles[sections.findLastIndex(sec => withinView(sec, true))];
     let percent;
     if (circle) {
       const circle_rect = circle.getBoundingClientRect();
-- 
2.43.0


From 38b76466fb074f27030549c1db8263bafe4259d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:25 +0000
Subject: [PATCH 40/51] fix: tooltips of labels with any characters

A label with a quote or a parenthesis was not a valid selector, and no
other link of the page got a tooltip either.
---
 rsm/static/tooltips.js | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index b63294b..1e5ee8e 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -27,16 +27,14 @@ export function createTooltips() {
       }
       let content = "";
 
-      // escape '.' since it gets confused with a class
-      target = target.replaceAll(".", "\\.");
-      // escape ':' since it gets confused with the protocol
-      target = target.replaceAll(":", "\\:");
       if (target == "#") {
         content = '<span class="error">target node has no label</span>';
         setTooltipContent(instance, content);
         helper.origin.classList.add("error");
         return;
       };
+      // labels may contain characters with a meaning in selectors, such as '.' or ':'
+      target = "#" + $.escapeSelector(target.slice(1));
 
       let tag = $(target).prop('tagName');
 
-- 
2.43.0


From 531fe7fc0db391bea4f1ad42b76837336d117553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:25 +0000
Subject: [PATCH 41/51] fix: tooltips of lemmas, proofs, lists and others are
 not empty

Only some kinds of blocks were known, all others got an empty tooltip.
---
 rsm/static/tooltips.js | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index 1e5ee8e..8ec8f45 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -58,7 +58,7 @@ export function createTooltips() {
         content = `<div>${content}</div>`;
       } else if (tag == "DT") {
         content = $(target).next().html();
-      } else if (tag == "TABLE") {
+      } else if (["TABLE", "OL", "UL"].includes(tag)) {
         content = $(target)[0].outerHTML;
       } else if (tag == "SECTION") {
         clone = $(target).clone();
@@ -80,13 +80,10 @@ export function createTooltips() {
           case Array.from(classes).filter(cls => ["math", "algorithm"].includes(cls)).length > 0:
             content = $(target).html();
             break;
-          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem"].includes(cls)).length > 0:
+          default:
             clone = $(target).clone();
             stripHandrail(clone);
             content = $(clone).html();
-            break;
-          case true:
-            console.log(`tooltip target DIV with unknown class: ${classes}`)
         }
       } else {
         console.log(`tooltip target with unknown tag ${tag}`);
-- 
2.43.0


From c40dcaa84d7fbd9851689eed619f657076afadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:25 +0000
Subject: [PATCH 42/51] fix: render all algorithms of a page, not only the
 first

---
 rsm/static/onload.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index 5c6071a..38d1cdf 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -49,10 +49,10 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
 
       const elements = document.querySelectorAll("pre.pseudocode");
       if (elements.length) {
-        pseudocode.renderElement(elements[0], {
+        elements.forEach(el => pseudocode.renderElement(el, {
           lineNumber: true,
           noEnd: true,
-        });
+        }));
       }
     } catch (err) {
       console.error("Loading pseudocode FAILED!", err);
-- 
2.43.0


From 7e67bf58b75579ea9640fb96500edf73b14faffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:37 +0000
Subject: [PATCH 43/51] fix: report errors inside references and citations only
 once

---
 rsm/tsparser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index c66ce17..033c6a0 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -662,12 +662,11 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             parts = _without_errors(cst_node)
             target_node = parts[1]
             ast_node.target = target_node.text.decode("utf-8")
-            skip_these_ids.add(target_node.id)
+            skip_these_ids.update(c.id for c in cst_node.named_children)
 
             if len(parts) > 2:
                 reftext_node = parts[2]
                 ast_node.overwrite_reftext = reftext_node.text.decode("utf-8")
-                skip_these_ids.add(reftext_node.id)
 
         if ast_node_type.startswith("prev") and ast_node_type != "previous":
             if ast_node_type == "prev":
@@ -680,7 +679,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             target_node = _without_errors(cst_node)[1]
             labels = target_node.text.decode("utf-8").split(",")
             ast_node.targetlabels = [l.strip() for l in labels]
-            skip_these_ids.add(target_node.id)
+            skip_these_ids.update(c.id for c in cst_node.named_children)
 
         # If a text node ends in a newline (i.e. if the next sibling is in a new row),
         # then we assume the user means to leave a space in between them...
-- 
2.43.0


From 6a797f4f52b2f59e99abd687b6c2e77c29f13260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:37 +0000
Subject: [PATCH 44/51] fix: do not refuse a source because of a bibliography
 entry inside an error

---
 rsm/tsparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 033c6a0..4363f17 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -524,7 +524,8 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
                 key, value = key.text.decode("utf-8"), value.text.decode("utf-8")
                 setattr(bib_node, key, value)
 
-            parent.append(bib_node)
+            if isinstance(parent, nodes.NodeWithChildren):
+                parent.append(bib_node)
             continue
 
         # After this if statement, cst_node is the node that actually contains the
-- 
2.43.0


From 96e911c6f118a95ae698f9f08ff74e38f9a525cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:31 +0000
Subject: [PATCH 45/51] fix: accept metadata of table cells

---
 rsm/tsparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 4363f17..7bc7800 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -586,7 +586,8 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             # td tags are special because the entire contents are in the first children,
             # so we might as well add that with the current parent and ignore the
             # current node
-            stack += [(parent, c) for c in _without_errors(cst_node)[:1]]
+            contents = [c for c in _without_errors(cst_node) if c.type == "tdcontent"]
+            stack += [(parent, c) for c in contents]
             continue
 
         elif cst_node.type == "paragraph":
@@ -630,6 +631,8 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
 
         # process meta
         meta = cst_node.child_by_field_name("meta")
+        if ast_node_type == "tdcontent" and cst_node.parent.type == "td":
+            meta = cst_node.parent.child_by_field_name("meta")
         if meta:
             ast_node.ingest_dict_as_meta(_parse_meta_into_dict(meta))
 
-- 
2.43.0


From 14676fe93ad2d6760e21d4741d74073f55aceee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:07 +0000
Subject: [PATCH 46/51] fix: copy the link of an element with the keyboard

---
 rsm/static/handrails.js | 2 +-
 rsm/static/keyboard.js  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index db3c1d5..00abb65 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -160,7 +160,7 @@ export function collapseAll(target, withinSubproof = true) {
 
 };
 
-async function copyLink(target) {
+export async function copyLink(target) {
   const url = document.location.href.split('#')[0];
   const hr = target.closest(".hr")
   let needs_anchor = true;
diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 1f257ef..775f677 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -2,7 +2,7 @@
 //
 // Keyboard interaction
 //
-import { toggleHandrail, collapseAll } from '/static/handrails.js';
+import { toggleHandrail, collapseAll, copyLink } from '/static/handrails.js';
 
 export function setup(root) {
   // Nagivation: next or previous
@@ -111,6 +111,9 @@ function executeActiveMenuItem(el) {
     case "collapse-steps":
       collapseAll(el, el.classList.contains("step"));
       break;
+    case "link":
+      copyLink(el);
+      break;
     case true:
       console.log($`unknown item class: ${cls[0]}`);
   }
-- 
2.43.0


From 5138796f0032cb406d00fac892e6b878231a45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:07 +0000
Subject: [PATCH 47/51] fix: render the other algorithms if one cannot be
 rendered

---
 rsm/static/onload.js | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index 38d1cdf..c6c54da 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -49,10 +49,16 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
 
       const elements = document.querySelectorAll("pre.pseudocode");
       if (elements.length) {
-        elements.forEach(el => pseudocode.renderElement(el, {
-          lineNumber: true,
-          noEnd: true,
-        }));
+        elements.forEach(el => {
+          try {
+            pseudocode.renderElement(el, {
+              lineNumber: true,
+              noEnd: true,
+            });
+          } catch (err) {
+            console.error("Rendering an algorithm FAILED!", err);
+          }
+        });
       }
     } catch (err) {
       console.error("Loading pseudocode FAILED!", err);
-- 
2.43.0


From 9fc18b70237da7b2ee957bc3aa91cdb4ad9baa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:07 +0000
Subject: [PATCH 48/51] fix: an external library that does not arrive keeps
 only its users waiting

---
 rsm/static/onload.js | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index c6c54da..1dfd781 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -8,8 +8,6 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
   console.log("onload root:", root);
 
   try {
-    const libs = await import(`${path}libraries.js`);
-
     // Icons
     try {
       const icons = await import(`${path}icons.js`);
@@ -18,13 +16,6 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
       console.error("Loading icons.js FAILED!", err);
     }
 
-    // MathJax
-    try {
-      const math = await libs.loadMathJax();
-    } catch (err) {
-      console.error("Loading MathJax FAILED!", err);
-    }
-
     // Handrails
     try {
       const hr = await import(`${path}handrails.js`);
@@ -43,8 +34,27 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
       console.error("Loading keyboard.js FAILED!", err);
     }
 
+    // Minimap
+    try {
+      const mm = await import(`${path}minimap.js`);
+      mm.setup();
+    } catch (err) {
+      console.error("Loading minimap.js FAILED!", err);
+    }
+
+    // What needs external libraries comes last: one may keep it waiting
+
+    // MathJax
+    try {
+      const libs = await import(`${path}libraries.js`);
+      const math = await libs.loadMathJax();
+    } catch (err) {
+      console.error("Loading MathJax FAILED!", err);
+    }
+
     // Pseudocode
     try {
+      const libs = await import(`${path}libraries.js`);
       await libs.loadPseudocode();
 
       const elements = document.querySelectorAll("pre.pseudocode");
@@ -64,14 +74,6 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
       console.error("Loading pseudocode FAILED!", err);
     }
 
-    // Minimap
-    try {
-      const mm = await import(`${path}minimap.js`);
-      mm.setup();
-    } catch (err) {
-      console.error("Loading minimap.js FAILED!", err);
-    }
-
     // Tooltipster
     try {
       const tips = await import(`${path}tooltips.js`);
-- 
2.43.0


From d1731c3d8341f5e7d99992e136374e02124ce8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:07 +0000
Subject: [PATCH 49/51] fix: tooltips of table cells and captions are not empty

---
 rsm/static/tooltips.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index 8ec8f45..78d015c 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -47,7 +47,7 @@ export function createTooltips() {
 
       let clone = undefined;
 
-      if (["P", "LI", "FIGURE"].includes(tag)) {
+      if (["P", "LI", "FIGURE", "FIGCAPTION", "CAPTION", "TD"].includes(tag)) {
         content = $(target).html();
         content = `<div>${content}</div>`;
       } else if (tag == "SPAN" && classes.contains("math")) {
-- 
2.43.0


From 335f289f8be3ec8b9a9096457a1cd3d76259f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:27 +0000
Subject: [PATCH 50/51] fix: captions keep their label and types

---
 rsm/translator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 9021bd3..e7c116e 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1122,7 +1122,9 @@ class Translator:
         return AppendBatchAndDefer(
             [
                 AppendOpenTag(
-                    "figcaption" if isinstance(parent, nodes.Figure) else "caption"
+                    "figcaption" if isinstance(parent, nodes.Figure) else "caption",
+                    id=node.label,
+                    classes=list(dict.fromkeys(str(t) for t in node.types)),
                 ),
                 caption,
             ]
-- 
2.43.0


From 0c05bd1ff40159d229764779b18d304d0e8812d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:35 +0000
Subject: [PATCH 51/51] fix: read sources as UTF-8 in any locale

---
 rsm/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/reader.py b/rsm/reader.py
index 0c16b0f..7f805e0 100644
--- a/rsm/reader.py
+++ b/rsm/reader.py
@@ -43,6 +43,6 @@ class Reader:
         if not path:
             raise TypeError("Expected path, got None")
         self.path = Path(path)
-        with open(path) as file:
+        with open(path, encoding="utf-8") as file:
             self.src = file.read()
         return self.src
-- 
2.43.0


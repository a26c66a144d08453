From e83f6fd0caf770d197f3694de93dfb1d2f345bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 01/63] fix: terminate the &quot; entity in escaped attribute
 values

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f2da5d4..1618abb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -149,7 +149,7 @@ class HtmlEmitter:
         return escape(text)
 
     def attr_escape(self, text):
-        return self.html_escape(text).replace('"', '&quot')
+        return self.html_escape(text).replace('"', '&quot;')
 
     # *_emit methods for emitting nodes of the document:
 
-- 
2.43.0


From c542a3652a0f6b0f047514cff4317e017511c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 02/63] fix: escape the image target when it is used as title

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1618abb..13a7742 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -273,7 +273,7 @@ class HtmlEmitter:
                 if "|" in text:
                     title, size_str = text.split("|", 1)
                     if not title:
-                        title = target
+                        title = self.attr_escape(target)
                     w_str, h_str = size_str.split("x", 1)
                     width = int(w_str.strip())
                     height = int(h_str.strip())
-- 
2.43.0


From a4b63e0ade3298ee8be279c3f0f7cab679290cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 03/63] fix: <<toc>> doesn't change the given macros and
 respects a user defined toc macro

---
 creole/emitter/creol2html_emitter.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 13a7742..0718548 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -113,18 +113,19 @@ class HtmlEmitter:
             # The document has no <<toc>>
             self.toc = None
         else:
+            # Note: The given macros must not be changed here: They can be used for other documents, too.
             if isinstance(self.macros, dict):
-                if "toc" in self.macros:
-                    self.toc = self.macros["toc"]
-                else:
-                    self.toc = TableOfContent()
-                    self.macros["toc"] = self.toc
+                toc = self.macros.get("toc")
             else:
-                try:
-                    self.toc = getattr(self.macros, "toc")
-                except AttributeError:
-                    self.toc = TableOfContent()
-                    self.macros.toc = self.toc
+                toc = getattr(self.macros, "toc", None)
+
+            if toc is None:
+                self.toc = TableOfContent()
+            elif isinstance(toc, TableOfContent):
+                self.toc = toc
+            else:
+                # A user defined macro replaces the builtin <<toc>>
+                self.toc = None
 
         if verbose is None:
             self.verbose = 1
@@ -301,7 +302,9 @@ class HtmlEmitter:
         macro_kwargs["text"] = text
 
         exc_info = None
-        if isinstance(self.macros, dict):
+        if macro_name == "toc" and self.toc is not None:
+            macro = self.toc
+        elif isinstance(self.macros, dict):
             try:
                 macro = self.macros[macro_name]
             except KeyError:
-- 
2.43.0


From deee7b5d60b2c53703ebfce9c25931ac537a9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 04/63] fix: escape headlines in the table of contents

---
 creole/emitter/creol2html_emitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 0718548..2be9ebc 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -65,7 +65,9 @@ class TableOfContent:
         """Convert a python nested list like the one representing the toc to an html equivalent."""
         indent = "\t" * level
         if isinstance(nested_headlines, str):
-            return f'{indent}<li><a href="#{nested_headlines}">{nested_headlines}</a></li>\n'
+            text = escape(nested_headlines)
+            anchor = text.replace('"', '&quot;')
+            return f'{indent}<li><a href="#{anchor}">{text}</a></li>\n'
         elif isinstance(nested_headlines, list):
             html = f'{indent}<ul>\n'
             for elt in nested_headlines:
@@ -249,7 +251,7 @@ class HtmlEmitter:
         if self.toc is not None:
             self.toc.add_headline(node.level, node.content)
             # add link attribute for toc navigation
-            header = f'<a name="{self.html_escape(node.content)}">{header}</a>'
+            header = f'<a name="{self.attr_escape(node.content)}">{header}</a>'
 
         header += "\n"
         return header
-- 
2.43.0


From d4c45fc7b3ada1ba5da972edcc34adc71bdb4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 05/63] fix: report a non numeric <<toc>> depth as a macro
 error

---
 creole/emitter/creol2html_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 2be9ebc..2ca869d 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -27,9 +27,9 @@ class TableOfContent:
         if self._created:
             return "&lt;&lt;toc&gt;&gt;"
 
-        self._created = True
         if depth is not None:
-            self.max_depth = depth
+            self.max_depth = int(depth)
+        self._created = True
 
         return '<<toc>>'
 
-- 
2.43.0


From 427a88cc386a2fe2216f52f4a66e3246272e05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 06/63] fix: recognize block markup directly after a text line
 with wiki style line breaks

---
 creole/parser/creol2html_parser.py | 2 +-
 creole/parser/creol2html_rules.py  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index dd31a44..086bef2 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -126,7 +126,7 @@ class CreoleParser:
 
         text = groups.get('text', "")
 
-        if groups.get('space') and self.cur.children:
+        if groups.get('space') is not None and self.cur.children:
             # use wikipedia style line breaks and seperate a new line with one space
             text = " " + text
 
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 07754c9..b1e5acc 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -156,7 +156,9 @@ class BlockRules:
             self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
-            self.text = r'(?P<space> (?<!\\)$\n(?!\s*$) )? (?P<text> .+ )'
+            # Note: "space" only looks back to the line before: If it would consume the newline,
+            # then the other block rules can't match the beginning of the line.
+            self.text = r'(?P<text> (?P<space> (?<=[^\\]\n) )? .+ )'
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From 9a0072ac0a2983c0029155d072fd8aedf9fa7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 07/63] fix: don't join the continuation line of a list item
 with the line before (blog style line breaks)

---
 creole/parser/creol2html_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 086bef2..92d1449 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -126,6 +126,11 @@ class CreoleParser:
 
         text = groups.get('text', "")
 
+        if self.blog_line_breaks and self.cur.kind == 'list_item':
+            # The text continues a list item in a new line
+            if self.cur.children and self.cur.children[-1].kind != "break":
+                DocNode('break', self.cur, "")
+
         if groups.get('space') is not None and self.cur.children:
             # use wikipedia style line breaks and seperate a new line with one space
             text = " " + text
-- 
2.43.0


From c91e4d9902fbd49f5478ef7e671cad858aadc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 08/63] fix: a single backslash at the end of a line is not a
 forced line break

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index b1e5acc..eeac7e8 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -153,12 +153,12 @@ class BlockRules:
     def __init__(self, blog_line_breaks=True):
         if blog_line_breaks:
             # use blog style line breaks (every line break would be converted into <br />)
-            self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
+            self.text = r'(?P<text> .+ ) (?P<break> (?<!\\\\)$\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
             # Note: "space" only looks back to the line before: If it would consume the newline,
             # then the other block rules can't match the beginning of the line.
-            self.text = r'(?P<text> (?P<space> (?<=[^\\]\n) )? .+ )'
+            self.text = r'(?P<text> (?P<space> (?<=\n) (?<!\\\\\n) )? .+ )'
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From d57a8c60b4345ce8571edcd6619dba2b197d46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 09/63] fix: don't lose the text after a not terminated tag or
 entity at the end of html code

---
 creole/parser/html_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0b8e171..d3c5e74 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -155,6 +155,12 @@ class HtmlParser(HTMLParser):
 
         HTMLParser.feed(self, data)
 
+        # The data is complete: handle a not terminated tag or entity at the end as text
+        rest = self.rawdata
+        self.rawdata = ""
+        if rest:
+            self.handle_data(rest)
+
         return self.root
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From c94ed1bd460b65b0f5ba7d68b09d18b9b287bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 10/63] fix: don't lose the content after a needless html end
 tag

---
 creole/parser/html_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index d3c5e74..07895ba 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -252,9 +252,9 @@ class HtmlParser(HTMLParser):
         if tag in ("ul", "ol"):
             self.__list_level -= 1
 
-        if tag in BLOCK_TAGS or self.cur is None:
+        if tag in BLOCK_TAGS:
             self._go_up()
-        else:
+        elif self.cur.parent is not None:  # ignore a needless end tag on the top level
             self.cur = self.cur.parent
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From 9024b15d2552fda6586be60db3df67507824fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 11/63] fix: handle <hr> as an empty html tag

---
 creole/parser/html_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 07895ba..7923f98 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -202,8 +202,8 @@ class HtmlParser(HTMLParser):
             if tag in ("ul", "ol"):
                 self.__list_level += 1
             self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
-        elif tag in ("img", "br"):
-            # Work-a-round if img or br  tag is not marked as startendtag:
+        elif tag in ("img", "br", "hr"):
+            # Work-a-round if img, br or hr tag is not marked as startendtag:
             # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
             # right: <img src="/image.jpg" />
             DocNode(tag, self.cur, None, attrs)
@@ -244,7 +244,7 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("endtag", f"{tag!r}")
 
-        if tag == "br":  # handled in starttag
+        if tag in ("br", "hr"):  # handled in starttag
             return
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
-- 
2.43.0


From e814aa8127e5fb6f9e6c5c37028a27f09d06d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 12/63] fix: <h0> and <h10> are no headlines

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 7923f98..ecc2871 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -35,7 +35,7 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
-headline_tag_re = re.compile(r"h(\d)", re.UNICODE)
+headline_tag_re = re.compile(r"h([1-9])$")
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From 4a2e1cb8a140e9057f5488c5bce0cc2004a4b74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 13/63] fix: html list items without content or outside of a
 list

---
 creole/emitter/html2markdown_emitter.py | 6 ++----
 creole/parser/html_parser.py            | 2 ++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b9bf8a0..6240631 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -184,12 +184,10 @@ class MarkdownEmitter(BaseEmitter):
 
         list_node = node.parent
         list_kind = list_node.kind
-        if list_kind == 'ul':
-            prefix = '*'
-        elif list_kind == 'ol':
+        if list_kind == 'ol':
             prefix = '1.'
         else:
-            raise NotImplementedError(f'List type: {list_kind}')
+            prefix = '*'
 
         indent = '  ' * (list_level - 1)
 
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index ecc2871..7daf5a4 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -235,6 +235,8 @@ class HtmlParser(HTMLParser):
                 content=self.blockdata[id],
                 #                attrs = attr_dict
             )
+        elif tag == "li":
+            DocNode(tag, self.cur, None, attrs, level=self.__list_level)
         else:
             DocNode(tag, self.cur, None, attrs)
 
-- 
2.43.0


From 26a50d54a5eeb5a635f2c191f5a6a3c42b31a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 14/63] fix: html tags with the same name as an internal node,
 e.g.: <data>

---
 creole/shared/base_emitter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 35d7f88..45b93e4 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -19,6 +19,11 @@ class BaseEmitter:
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
     creole markup text.
     """
+    # Nodes generated by the html parser, which are not html tags:
+    INTERNAL_KINDS = (
+        "document", "headline", "data", "entityref", "charref",
+        "blockdata_pre", "blockdata_pass", "inlinedata_pre",
+    )
 
     def __init__(self, document_tree, unknown_emit=None, debug=False):
         self.root = document_tree
@@ -210,6 +215,9 @@ class BaseEmitter:
 
         method_name = f"{node.kind}_emit"
         emit_method = getattr(self, method_name, None)
+        if node.kind in self.INTERNAL_KINDS and node.content is None and node.level is None and node is not self.root:
+            # It's a html tag with the same name, e.g.: <data>
+            emit_method = None
 
         if emit_method:
             content = emit_method(node)
-- 
2.43.0


From 9d1608c4f4d61a429762c256936e5126cefda3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 15/63] fix: html tags with the same name as the <pre>
 placeholder

---
 creole/parser/html_parser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 7daf5a4..6829fc8 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -88,6 +88,7 @@ class HtmlParser(HTMLParser):
             self.result = []
 
         self.blockdata = []
+        self._placeholders = {}
 
         self.root = DocNode("document", None)
         self.cur = self.root
@@ -101,7 +102,9 @@ class HtmlParser(HTMLParser):
         assert isinstance(data, str), "blockdata is not unicode"
         self.blockdata.append(data)
         id = len(self.blockdata) - 1
-        return f'<{placeholder} type="{type}" id="{id}" />'
+        placeholder_tag = f'<{placeholder} type="{type}" id="{id}" />'
+        self._placeholders[placeholder_tag] = (id, type)
+        return placeholder_tag
 
     def _pre_pre_inline_cut(self, groups):
         return self._pre_cut(groups["pre_inline"], "pre", self._inline_placeholder)
@@ -225,12 +228,11 @@ class HtmlParser(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
         self.debug_msg("startendtag", f"{tag!r} atts: {attrs}")
-        attr_dict = dict(attrs)
-        if tag in (self._block_placeholder, self._inline_placeholder):
-            id = int(attr_dict["id"])
-#            block_type = attr_dict["type"]
+        placeholder = self._placeholders.get(self.get_starttag_text())
+        if placeholder is not None:
+            id, block_type = placeholder
             DocNode(
-                f"{tag}_{attr_dict['type']}",
+                f"{tag}_{block_type}",
                 self.cur,
                 content=self.blockdata[id],
                 #                attrs = attr_dict
-- 
2.43.0


From cf6ba7bfc8b67b47a35f95506a66cff6fe96cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 16/63] fix: html links and images with missing or empty
 attributes

---
 creole/emitter/html2creole_emitter.py   | 13 +++++++------
 creole/emitter/html2markdown_emitter.py | 13 ++++++++++---
 creole/emitter/html2rest_emitter.py     | 13 +++++++++----
 creole/emitter/html2textile_emitter.py  | 13 +++++++++----
 4 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index d745fe3..6eb8489 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -97,9 +97,8 @@ class CreoleEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        try:
-            url = node.attrs["href"]
-        except KeyError:
+        url = node.attrs.get("href")
+        if not url:
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
         if link_text == url:
@@ -108,13 +107,15 @@ class CreoleEmitter(BaseEmitter):
             return f"[[{url}|{link_text}]]"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src") or ""
+        if not src:
+            return ""
 
         if src.split(':')[0] == 'data':
             return ""
 
-        title = node.attrs.get("title", "")
-        alt = node.attrs.get("alt", "")
+        title = node.attrs.get("title") or ""
+        alt = node.attrs.get("alt") or ""
         width = node.attrs.get("height", None)
         height = node.attrs.get("width", None)
         if len(alt) > len(title):  # Use the longest one
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 6240631..a50b1bc 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -150,7 +150,11 @@ class MarkdownEmitter(BaseEmitter):
     def a_emit(self, node: DocNode):
         link_text = self.emit_children(node)
 
-        url = quote_link(node.attrs['href'])
+        url = node.attrs.get('href')
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
+        url = quote_link(url)
 
         title = node.attrs.get('title')
         if title:
@@ -159,10 +163,13 @@ class MarkdownEmitter(BaseEmitter):
             return f'[{link_text}]({url})'
 
     def img_emit(self, node: DocNode):
-        src = quote_link(node.attrs['src'])
+        src = node.attrs.get('src')
+        if not src:
+            return ''
+        src = quote_link(src)
 
         title = node.attrs.get('title')
-        alt = node.attrs.get('alt', '')
+        alt = node.attrs.get('alt') or ''
         if title and alt:
             return f'![{alt}]({src} "{title}")'
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 64891ca..365c0a9 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -203,7 +203,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href")
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
 
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
 
@@ -224,13 +227,15 @@ class ReStructuredTextEmitter(BaseEmitter):
             return f"`{link_text} <{url}>`_"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src") or ""
+        if not src:
+            return ""
 
         if src.split(':')[0] == 'data':
             return ""
 
-        title = node.attrs.get("title", "")
-        alt = node.attrs.get("alt", "")
+        title = node.attrs.get("title") or ""
+        alt = node.attrs.get("alt") or ""
         if len(alt) > len(title):  # Use the longest one
             substitution_text = alt
         else:
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 89623d4..4076435 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -96,17 +96,22 @@ class TextileEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href")
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src") or ""
+        if not src:
+            return ""
 
         if src.split(':')[0] == 'data':
             return ""
 
-        title = node.attrs.get("title", "")
-        alt = node.attrs.get("alt", "")
+        title = node.attrs.get("title") or ""
+        alt = node.attrs.get("alt") or ""
         if len(alt) > len(title):  # Use the longest one
             text = alt
         else:
-- 
2.43.0


From 5a133204be0ae8dc1071477b10a815acadf5fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 17/63] fix: don't lose cells of table rows with a different
 number of cells

README.rst and README.md regenerated: the generated table has lost its second column.
---
 README.md                     |  8 ++++----
 README.rst                    | 18 +++++++++---------
 creole/shared/markup_table.py |  9 ++++++---
 3 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/README.md b/README.md
index 047689f..5c33262 100644
--- a/README.md
+++ b/README.md
@@ -21,10 +21,10 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |
-| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    |
-| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            |
-| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        |
+| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |                                                                                                          |
+| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    | [coveralls.io/r/jedie/python-creole](https://coveralls.io/r/jedie/python-creole)                         |
+| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            | [landscape.io/github/jedie/python-creole/master](https://landscape.io/github/jedie/python-creole/master) |
+| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        | [pypi.org/project/python-creole/](https://pypi.org/project/python-creole/)                               |
 
 # install
 
diff --git a/README.rst b/README.rst
index 4f70129..bdadc7e 100644
--- a/README.rst
+++ b/README.rst
@@ -27,15 +27,15 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-+-----------------------------------+
-| |Build Status on github|          |
-+-----------------------------------+
-| |Coverage Status on coveralls.io| |
-+-----------------------------------+
-| |Status on landscape.io|          |
-+-----------------------------------+
-| |PyPi version|                    |
-+-----------------------------------+
++-----------------------------------+---------------------------------------------------+
+| |Build Status on github|          |                                                   |
++-----------------------------------+---------------------------------------------------+
+| |Coverage Status on coveralls.io| | `coveralls.io/r/jedie/python-creole`_             |
++-----------------------------------+---------------------------------------------------+
+| |Status on landscape.io|          | `landscape.io/github/jedie/python-creole/master`_ |
++-----------------------------------+---------------------------------------------------+
+| |PyPi version|                    | `pypi.org/project/python-creole/`_                |
++-----------------------------------+---------------------------------------------------+
 
 .. |Build Status on github| image:: https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master
 .. |Coverage Status on coveralls.io| image:: https://coveralls.io/repos/jedie/python-creole/badge.svg
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 70611c2..009a5dd 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -1,3 +1,6 @@
+from itertools import zip_longest
+
+
 class MarkupTable:
     """
     Container for holding table data and render the data in creole markup.
@@ -51,7 +54,7 @@ class MarkupTable:
             cells.append(line_cells)
 
         # Build a list of max len for every column
-        widths = [max(map(len, col)) for col in zip(*cells)]
+        widths = [max(map(len, col)) for col in zip_longest(*cells, fillvalue="")]
 
         return cells, widths
 
@@ -92,7 +95,7 @@ class MarkupTable:
                 lines.append(separator_line)
 
             # Join every line with ljust
-            cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+            cells = [cell.ljust(width) for cell, width in zip_longest(row, widths, fillvalue="")]
             lines.append("|" + "|".join(cells) + "|")
 
         lines.append(separator_line)
@@ -108,7 +111,7 @@ class MarkupTable:
             if no == 1 and self.has_header:
                 cells = ['-' * (width - 2) for width in widths]
                 lines.append(f'| {" | ".join(cells)} |')
-            cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+            cells = [cell.ljust(width) for cell, width in zip_longest(row, widths, fillvalue="")]
             lines.append(f'|{"|".join(cells)}|')
 
         result = "\n".join(lines)
-- 
2.43.0


From c3a12d732f0656225b393e1423bf43e362d182a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 18/63] fix: nested html tables and table cells outside of a
 table

---
 creole/emitter/html2markdown_emitter.py | 14 ++++++--------
 creole/emitter/html2rest_emitter.py     |  7 +++----
 creole/shared/base_emitter.py           | 22 ++++++++++++++++++----
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index a50b1bc..a125069 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -45,21 +45,19 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
-        self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
-        self.emit_children(node)
-        content = self._table.get_markdown_table()
+        table = self._fill_table(node, MarkupTable(head_prefix='', debug_msg=self.debug_msg))
+        content = table.get_markdown_table()
         return f'\n{content}\n'
 
-    def tr_emit(self, node):
-        self._table.add_tr()
-        self.emit_children(node)
-        return ''
-
     def th_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_th(self.emit_children(node))
         return ''
 
     def td_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_td(self.emit_children(node))
         return ''
     # --------------------------------------------------------------------------
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 365c0a9..eab4a3a 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -287,11 +287,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
-        self._table = MarkupTable(
+        table = self._fill_table(node, MarkupTable(
             head_prefix="",
             auto_width=True,
             debug_msg=self.debug_msg
-        )
-        self.emit_children(node)
-        content = self._table.get_rest_table()
+        ))
+        content = table.get_rest_table()
         return f"{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 45b93e4..f62bbaf 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -39,6 +39,7 @@ class BaseEmitter:
         self.deentity = Deentity()  # for replacing html entities
         self._inner_list = ""
         self._mask_linebreak = False
+        self._table = None  # The current table
 
     # --------------------------------------------------------------------------
 
@@ -129,17 +130,26 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _fill_table(self, node, table):
+        """ Collect all cells of the table. Note: A cell can contain a table, too. """
+        outer_table = self._table
+        self._table = table
+        self.emit_children(node)
+        self._table = outer_table
+        return table
+
     def table_emit(self, node):
-        self._table = MarkupTable(
+        table = self._fill_table(node, MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
-        )
-        self.emit_children(node)
-        content = self._table.get_table_markup()
+        ))
+        content = table.get_table_markup()
         return f"{content}\n"
 
     def tr_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_tr()
         self.emit_children(node)
         return ""
@@ -154,12 +164,16 @@ class BaseEmitter:
         return content
 
     def th_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_th(content)
         return ""
 
     def td_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_td(content)
-- 
2.43.0


From df13d7effa01e430a3ddeb7b9a20b686c187f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 19/63] fix: html2markdown lost a part of the preformatted code
 and prints debug output

---
 creole/emitter/html2markdown_emitter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index a125069..8fbd03f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -72,10 +72,10 @@ class MarkdownEmitter(BaseEmitter):
 
         if pre_content.endswith('</code>'):
             # TODO: The parser should parse this!
-            p = HtmlParser(debug=True)
+            p = HtmlParser()
             root_node: DocNode = p.feed(pre_content, preprocess=False)
             code_node: DocNode = root_node.children[0]
-            code = self.deentity.replace_all(code_node.children[0].content)
+            code = self._get_text(root_node)
 
             class_value = code_node.attrs.get('class')
             if class_value:
@@ -87,6 +87,14 @@ class MarkdownEmitter(BaseEmitter):
 
         return f'\n```{self.deentity.replace_all(pre_content)}```\n'
 
+    def _get_text(self, node: DocNode):
+        """the plain text of the node and all child nodes without any markup"""
+        if node.kind == 'entityref':
+            return self.entityref_emit(node)
+        elif node.kind == 'charref':
+            return self.charref_emit(node)
+        return (node.content or '') + ''.join(self._get_text(child) for child in node.children)
+
     def blockdata_pass_emit(self, node: DocNode):
         return f'\n{node.content}\n'
 
-- 
2.43.0


From c7c8e2db0d4e85a75b227d5abe571750edc3618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 20/63] fix: unknown named html entities in pre areas and
 character references without a unicode character

---
 creole/html_tools/deentity.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 16a7dfa..f8d8220 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -42,15 +42,21 @@ class Deentity:
     '&'
     """
 
+    def _replace_codepoint(self, text, base):
+        """ the character, or the unicode replacement character if there is no such character """
+        digits = text.lstrip("0")
+        unicode_no = int(digits, base) if 0 < len(digits) < 10 else 0x110000
+        if unicode_no > 0x10ffff or 0xd800 <= unicode_no <= 0xdfff:
+            return "\ufffd"
+        return chr(unicode_no)
+
     def replace_number(self, text):
         """ unicode number entity """
-        unicode_no = int(text)
-        return chr(unicode_no)
+        return self._replace_codepoint(text, base=10)
 
     def replace_hex(self, text):
         """ hex entity """
-        unicode_no = int(text, 16)
-        return chr(unicode_no)
+        return self._replace_codepoint(text, base=16)
 
     def replace_named(self, text):
         """ named entity """
@@ -68,7 +74,10 @@ class Deentity:
             for name, text in groups.items():
                 if text is not None:
                     replace_method = getattr(self, f'replace_{name}')
-                    return replace_method(text)
+                    try:
+                        return replace_method(text)
+                    except KeyError:  # unknown named entity
+                        return match.group(0)
 
             # Should never happen:
             raise RuntimeError("deentitfy re rules wrong!")
-- 
2.43.0


From f79a36570eb848ddc9baf0dca71dbb2886d622cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 21/63] fix: html2markdown quoted already quoted links again

---
 creole/emitter/html2markdown_emitter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 8fbd03f..e9a52ff 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -24,8 +24,11 @@ def quote_link(uri):
     >>> quote_link('https://foo.tld/a image.png?bar=1#anchor')
     'https://foo.tld/a%20image.png?bar=1#anchor'
     """
-    scheme, netloc, url, params, query, fragment = urlparse(uri)
-    url = quote(url)
+    try:
+        scheme, netloc, url, params, query, fragment = urlparse(uri)
+    except ValueError:  # not a valid URI
+        return uri
+    url = quote(url, safe='/%')  # don't quote already quoted characters
     return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))
 
 
-- 
2.43.0


From b64b654a86332463cbceaad9b7934642f52b485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 22/63] fix: html2rest mixed up the markup of nested lists with
 a different type

---
 creole/emitter/html2rest_emitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index eab4a3a..915d731 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -267,8 +267,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         return result
 
     def _list_emit(self, node, list_type):
+        outer_list_markup = self._list_markup
         self._list_markup = list_type
         content = self.emit_children(node)
+        self._list_markup = outer_list_markup
 
         if node.level == 1:
             # FIXME: This should be made ​​easier and better
-- 
2.43.0


From 6ff890e7edbf7b2ade4cd00ea7921690d7112694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 23/63] fix: html2markdown mixed up the language and the first
 line of preformatted code

---
 creole/emitter/html2markdown_emitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index e9a52ff..120b8dc 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -77,13 +77,14 @@ class MarkdownEmitter(BaseEmitter):
             # TODO: The parser should parse this!
             p = HtmlParser()
             root_node: DocNode = p.feed(pre_content, preprocess=False)
-            code_node: DocNode = root_node.children[0]
             code = self._get_text(root_node)
 
-            class_value = code_node.attrs.get('class')
+            class_value = root_node.children[0].attrs.get('class') if root_node.children else None
             if class_value:
                 if class_value.startswith('language-'):
                     language = class_value.partition('-')[2]
+                    if not code.startswith('\n'):
+                        code = f'\n{code}'
                     return f'\n```{language}{code}```\n'
 
             return f'\n```{code}```\n'
-- 
2.43.0


From dfa17c0a20e7047c0254c2216ad663abf6de09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 24/63] fix: command line tools don't destroy the destination
 file if the conversion failed

---
 creole/cmdline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 18d9074..b9b3782 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -49,10 +49,14 @@ class CreoleCLI:
         )
 
         with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            with codecs.open(destination, "w", encoding=encoding) as outfile:
-                content = infile.read()
-                converted = self.convert_func(content)
-                outfile.write(converted)
+            content = infile.read()
+
+        converted = self.convert_func(content).encode(encoding)
+
+        # Open the destination only if the conversion was successful: Don't destroy an existing file.
+        # Note: source and destination can be the same file
+        with open(destination, "wb") as outfile:
+            outfile.write(converted)
         print(f"done. {destination!r} created.")
 
 
-- 
2.43.0


From 2e56d931aea4afd8530b4901fd7433fdec837030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 25/63] fix: update of the generated README files if lines are
 removed or the file doesn't exist

---
 creole/setup_utils.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 2b716ea..9bc4c69 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -144,6 +144,19 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+def _is_up_to_date(readme_path, new_content):
+    """
+    Compare with the existing README, but without the appended note about generation with modification time.
+    """
+    if not readme_path.is_file():
+        return False
+
+    with readme_path.open('r') as f:
+        old_content = f.read()
+
+    return old_content.rsplit('\n', 4)[0] == new_content
+
+
 def update_rst_readme(package_root, filename='README.creole'):
     """
     Generate README.rst from README.creole
@@ -161,15 +174,7 @@ def update_rst_readme(package_root, filename='README.creole'):
 
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
 
-    # Check if content was changed
-    changed = False
-    with rest_readme_path.open('r') as f:
-        for new_line, old_line in zip(rest_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _is_up_to_date(rest_readme_path, rest_readme):
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return rest_readme_path
@@ -209,15 +214,7 @@ def update_markdown_readme(package_root, filename='README.creole'):
 
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
 
-    # # Check if content was changed
-    changed = False
-    with markdown_readme_path.open('r') as f:
-        for new_line, old_line in zip(markdown_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _is_up_to_date(markdown_readme_path, markdown_readme):
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return markdown_readme_path
-- 
2.43.0


From 6248bc51818433215435e92e151d5ca94c5e7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 26/63] fix: get_long_description() calls html2rest() with not
 existing arguments

---
 creole/setup_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 9bc4c69..bfb51c7 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -77,7 +77,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
         # convert html to ReSt
         long_description_rest = html2rest(
             long_description_html,
-            emitter_kwargs={'unknown_emit': unknown_emit}
+            unknown_emit=unknown_emit
         )
     except Exception:
         if raise_errors:
-- 
2.43.0


From 1f4968e08c1b7aa97da1d4f7ae3667990dd0d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 27/63] fix: escape the exception text in macro error messages

---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 2ca869d..29006dd 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -326,7 +326,7 @@ class HtmlEmitter:
         try:
             result = macro(**macro_kwargs)
         except TypeError as err:
-            msg = f"Macro '{macro_name}' error: {err}"
+            msg = f"Macro '{macro_name}' error: {self.html_escape(str(err))}"
             exc_info = sys.exc_info()
             if self.verbose > 1:
                 if self.verbose > 2:
@@ -353,14 +353,14 @@ class HtmlEmitter:
             return self.error(msg, exc_info)
         except Exception as err:
             return self.error(
-                f"Macro '{macro_name}' error: {err}",
+                f"Macro '{macro_name}' error: {self.html_escape(str(err))}",
                 exc_info=sys.exc_info()
             )
 
         if not isinstance(result, str):
             msg = f"Macro '{macro_name}' doesn't return a unicode string!"
             if self.verbose > 1:
-                msg += f" - returns: {result!r}, type {type(result)!r}"
+                msg += self.html_escape(f" - returns: {result!r}, type {type(result)!r}")
             return self.error(msg)
 
         if node.kind == "macro_block":
-- 
2.43.0


From 62821186252576e7d4be58cfbdbf2d188e72d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 28/63] fix: hexadecimal character references with an upper
 case X and named entities with digits in pre areas

---
 creole/html_tools/deentity.py | 4 ++--
 creole/shared/base_emitter.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index f8d8220..d1916c9 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -14,8 +14,8 @@ from html import entities
 
 entities_rules = '|'.join([
     r"(&\#(?P<number>\d+);)",
-    r"(&\#x(?P<hex>[a-fA-F0-9]+);)",
-    r"(&(?P<named>[a-zA-Z]+);)",
+    r"(&\#[xX](?P<hex>[a-fA-F0-9]+);)",
+    r"(&(?P<named>[a-zA-Z][a-zA-Z0-9]*);)",
 ])
 # print(entities_rules)
 entities_regex = re.compile(
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index f62bbaf..6d00c37 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -75,7 +75,7 @@ class BaseEmitter:
         """
         entity = node.content
 
-        if entity.startswith("x"):
+        if entity.startswith(("x", "X")):
             # entity in hex
             hex_no = entity[1:]
             return self.deentity.replace_hex(hex_no)
-- 
2.43.0


From 6398490f258287be03c8345eff755b4b9287032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 29/63] fix: recognize the html tags behind a not terminated
 tag or entity

---
 creole/parser/html_parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 6829fc8..09524d1 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -158,11 +158,14 @@ class HtmlParser(HTMLParser):
 
         HTMLParser.feed(self, data)
 
-        # The data is complete: handle a not terminated tag or entity at the end as text
-        rest = self.rawdata
-        self.rawdata = ""
-        if rest:
-            self.handle_data(rest)
+        # The data is complete: handle a not terminated tag or entity as text
+        while self.rawdata:
+            rest = self.rawdata
+            self.goahead(0)
+            if self.rawdata == rest:
+                count = len(rest) if self.cdata_elem else 1
+                self.handle_data(rest[:count])
+                self.rawdata = rest[count:]
 
         return self.root
 
-- 
2.43.0


From aaab0c0f05e167f17b2eb417fb0243295ad07479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 30/63] fix: the html attributes of unknown tags are no JSON
 strings

---
 creole/shared/document_tree.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/creole/shared/document_tree.py b/creole/shared/document_tree.py
index 7e22266..ed6fb0c 100644
--- a/creole/shared/document_tree.py
+++ b/creole/shared/document_tree.py
@@ -9,8 +9,7 @@
 
 import inspect
 import warnings
-
-from creole.shared.utils import dict2string
+from xml.sax.saxutils import escape
 
 
 class DocNode:
@@ -37,7 +36,7 @@ class DocNode:
 
     def get_attrs_as_string(self):
         """
-        FIXME: Find a better was to do this.
+        The attributes, as they must be written in a html tag.
 
         >>> node = DocNode(attrs={'foo':"bar", "no":123})
         >>> node.get_attrs_as_string()
@@ -46,8 +45,21 @@ class DocNode:
         >>> node = DocNode(attrs={"foo":'bar', "no":"ABC"})
         >>> node.get_attrs_as_string()
         'foo="bar" no="ABC"'
+
+        >>> node = DocNode(attrs={"foo": '1 < "2"', "checked": None})
+        >>> node.get_attrs_as_string()
+        'checked foo="1 &lt; &quot;2&quot;"'
         """
-        return dict2string(self.attrs)
+        attrs = []
+        for name, value in sorted(self.attrs.items()):
+            if value is None:  # attribute without a value
+                attrs.append(name)
+            elif isinstance(value, str):
+                value = escape(value, {'"': '&quot;'})
+                attrs.append(f'{name}="{value}"')
+            else:
+                attrs.append(f'{name}={value}')
+        return " ".join(attrs)
 
     def __str__(self):
         return str(self.__repr__())
-- 
2.43.0


From f63199078eb0d8c661a04dd320e9ae5a45b952de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 31/63] fix: links, images and macros with a | in table
 headline cells

---
 creole/parser/creol2html_parser.py | 4 ++--
 creole/parser/creol2html_rules.py  | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 92d1449..e0d5d22 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -324,12 +324,12 @@ class CreoleParser:
 
         for m in self.cell_re.finditer(row):
             cell = m.group('cell')
-            if cell:
+            if not m.group('head'):
                 text = cell.strip()
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
             else:
-                text = m.group('head').strip('= ')
+                text = cell.strip('= ')
                 self.cur = DocNode('table_head', tr)
                 self.text = DocNode('text', self.cur, "")
             self.parse_inline(text)
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index eeac7e8..a17701c 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -181,10 +181,8 @@ class SpecialRules:
     # For splitting table cells:
     cell = r'''
             \| \s*
-            (
-                (?P<head> [=][^|]+ ) |
-                (?P<cell> (  %s | [^|])+ )
-            ) \s*
+            (?P<head> [=] (?=[^|]) )?
+            (?P<cell> (  %s | [^|])+ ) \s*
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-- 
2.43.0


From 255ee77343d1f45dd2e8eb901cb53bcf854b04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 32/63] fix: html end tags close the element with the same name
 and tags without a content don't swallow the content behind

---
 creole/parser/html_parser.py        | 45 ++++++++++++-----------------
 creole/parser/html_parser_config.py |  8 ++++-
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 09524d1..b7f5726 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import BLOCK_TAGS, IGNORE_TAGS
+from creole.parser.html_parser_config import EMPTY_TAGS, IGNORE_TAGS, TABLE_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -171,23 +171,15 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
-    def _upto(self, node, kinds):
+    def _is_open(self, node, tag):
         """
-        Look up the tree to the first occurence
-        of one of the listed kinds of nodes or root.
-        Start at the node node.
+        Is the node created from a start tag with this name?
         """
-        while node is not None and node.parent is not None:
-            node = node.parent
-            if node.kind in kinds:
-                break
-
-        return node
-
-    def _go_up(self):
-        kinds = list(BLOCK_TAGS) + ["document"]
-        self.cur = self._upto(self.cur, kinds)
-        self.debug_msg("go up to", self.cur)
+        if headline_tag_re.match(tag):
+            return node.kind == "headline" and node.level is not None
+        if tag == "headline":
+            return node.kind == tag and node.level is None
+        return node.kind == tag
 
     # -------------------------------------------------------------------------
 
@@ -208,8 +200,8 @@ class HtmlParser(HTMLParser):
             if tag in ("ul", "ol"):
                 self.__list_level += 1
             self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
-        elif tag in ("img", "br", "hr"):
-            # Work-a-round if img, br or hr tag is not marked as startendtag:
+        elif tag in EMPTY_TAGS:
+            # Work-a-round if e.g. img, br or hr tag is not marked as startendtag:
             # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
             # right: <img src="/image.jpg" />
             DocNode(tag, self.cur, None, attrs)
@@ -251,17 +243,18 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("endtag", f"{tag!r}")
 
-        if tag in ("br", "hr"):  # handled in starttag
-            return
-
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
 
-        if tag in ("ul", "ol"):
-            self.__list_level -= 1
+        # Close the element with this name. Ignore a needless end tag and don't leave the current table cell:
+        node = self.cur
+        while node is self.root or not self._is_open(node, tag):
+            if node is self.root or node.kind == "table" or (node.kind in ("th", "td") and tag not in TABLE_TAGS):
+                return
+            node = node.parent
 
-        if tag in BLOCK_TAGS:
-            self._go_up()
-        elif self.cur.parent is not None:  # ignore a needless end tag on the top level
+        while self.cur is not node.parent:
+            if self.cur.kind in ("ul", "ol"):
+                self.__list_level -= 1
             self.cur = self.cur.parent
 
     # -------------------------------------------------------------------------
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 38557ed..39a3c6f 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -18,4 +18,10 @@ BLOCK_TAGS = (
     "p", "pre",
     "br"
 )
-IGNORE_TAGS = ("tbody",)
+IGNORE_TAGS = ("tbody", "thead", "tfoot")
+TABLE_TAGS = ("table", "tr", "th", "td")
+
+# Tags without a content and without an end tag:
+EMPTY_TAGS = (
+    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"
+)
-- 
2.43.0


From 6dc143e6a06eec6710f03373b135c5e45a7170fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 33/63] fix: don't lose the caption of html tables

---
 creole/emitter/html2markdown_emitter.py |  5 +++--
 creole/emitter/html2rest_emitter.py     |  7 ++++---
 creole/shared/base_emitter.py           | 19 +++++++++++--------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 120b8dc..2a95d19 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -48,9 +48,10 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
-        table = self._fill_table(node, MarkupTable(head_prefix='', debug_msg=self.debug_msg))
+        table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
+        outside = self._fill_table(node, table)
         content = table.get_markdown_table()
-        return f'\n{content}\n'
+        return f'\n{outside}{content}\n'
 
     def th_emit(self, node):
         if self._table is None:  # not in a table
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 915d731..f59b041 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -289,10 +289,11 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
-        table = self._fill_table(node, MarkupTable(
+        table = MarkupTable(
             head_prefix="",
             auto_width=True,
             debug_msg=self.debug_msg
-        ))
+        )
+        outside = self._fill_table(node, table)
         content = table.get_rest_table()
-        return f"{content}\n\n"
+        return f"{outside}{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 6d00c37..027ef00 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -131,28 +131,31 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def _fill_table(self, node, table):
-        """ Collect all cells of the table. Note: A cell can contain a table, too. """
+        """
+        Collect all cells of the table. Note: A cell can contain a table, too.
+        Returns the content that is not in a cell, e.g.: <caption>
+        """
         outer_table = self._table
         self._table = table
-        self.emit_children(node)
+        outside = self.emit_children(node).strip()
         self._table = outer_table
-        return table
+        return f"{outside}\n\n" if outside else ""
 
     def table_emit(self, node):
-        table = self._fill_table(node, MarkupTable(
+        table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
-        ))
+        )
+        outside = self._fill_table(node, table)
         content = table.get_table_markup()
-        return f"{content}\n"
+        return f"{outside}{content}\n"
 
     def tr_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
         self._table.add_tr()
-        self.emit_children(node)
-        return ""
+        return self.emit_children(node)
 
     def _escape_linebreaks(self, text):
         text = text.strip()
-- 
2.43.0


From 85e881e064abb0032931d6f78c39176e31c99d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 34/63] fix: whitespace around html block tags in upper case

---
 creole/html_tools/strip_html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 39613cc..7a1514e 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -59,7 +59,7 @@ def strip_html(html_code):
         block = match.group(0)
         end_tag = match.group("end") in ("/", "/")
         startend_tag = match.group("startend") in ("/", "/")
-        tag = match.group("tag")
+        tag = match.group("tag").lower()
 
 #        print("_"*40)
 #        print(match.groupdict())
-- 
2.43.0


From 6d5345fedf3b2d664bee2a17c37e9192a1d6095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 35/63] fix: html2markdown joined words with only a space
 between two tags

---
 creole/emitter/html2markdown_emitter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 2a95d19..19a646c 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -11,6 +11,7 @@
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser import HtmlParser
+from creole.parser.html_parser_config import BLOCK_TAGS
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
@@ -217,7 +218,12 @@ class MarkdownEmitter(BaseEmitter):
         content = node.content
         if content == ' ':
             # FIXME: Because of bug in creole.html_tools.strip_html.strip_html()
-            return ''
+            # Keep the space only between inline content
+            siblings = node.parent.children
+            index = siblings.index(node)
+            for sibling in siblings[max(0, index - 1):index], siblings[index + 1:index + 2]:
+                if not sibling or sibling[0].kind in BLOCK_TAGS or sibling[0].kind == 'headline':
+                    return ''
         return node.content
 
     def code_emit(self, node: DocNode):
-- 
2.43.0


From 50c3c832efac954727d1a335cab84134d501f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 36/63] fix: div and unknown html tags don't destroy the blocks
 they contain

---
 creole/emitter/html2markdown_emitter.py |  2 +-
 creole/emitter/html2rest_emitter.py     |  2 +-
 creole/shared/base_emitter.py           | 18 ++++++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 19a646c..809572a 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -227,7 +227,7 @@ class MarkdownEmitter(BaseEmitter):
         return node.content
 
     def code_emit(self, node: DocNode):
-        code_block = self._emit_content(node)
+        code_block = self._escape_linebreaks(self.emit_children(node))
         assert '\n' not in code_block
 
         if '`' in code_block:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index f59b041..9c917d3 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -257,7 +257,7 @@ class ReStructuredTextEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def code_emit(self, node):
-        return f"``{self._emit_content(node)}``"
+        return f"``{self._escape_linebreaks(self.emit_children(node))}``"
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 027ef00..8411732 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -184,8 +184,26 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _has_blocks(self, node):
+        """ Contains the node e.g. a paragraph, headline, list, table or preformatted area? """
+        return any(
+            child.kind in ("headline", "blockdata_pre", "inlinedata_pre")
+            or (child.kind in BLOCK_TAGS and child.kind != "br")
+            or self._has_blocks(child)
+            for child in node.children
+        )
+
+    def _is_inside(self, node, kinds):
+        while node.parent is not None:
+            node = node.parent
+            if node.kind in kinds:
+                return True
+        return False
+
     def _emit_content(self, node):
         content = self.emit_children(node)
+        if self._has_blocks(node) and not self._is_inside(node, ("li", "th", "td")):
+            return content.strip("\n") + "\n\n"
         content = self._escape_linebreaks(content)
         if node.kind in BLOCK_TAGS:
             content = f"{content}\n\n"
-- 
2.43.0


From 0d08cd20ffab0ec12f9ae3ef5059e72a9cfcc540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 37/63] fix: command line tools silently dropped a truncated
 character at the end of the source file

---
 creole/cmdline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index b9b3782..cfbe7a3 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -8,7 +8,6 @@
 
 
 import argparse
-import codecs
 
 from creole import VERSION_STRING, creole2html, html2creole, html2rest, html2textile
 
@@ -48,8 +47,8 @@ class CreoleCLI:
             f" (codec: {encoding})"
         )
 
-        with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            content = infile.read()
+        with open(sourcefile, "rb") as infile:
+            content = infile.read().decode(encoding)
 
         converted = self.convert_func(content).encode(encoding)
 
-- 
2.43.0


From d1394d1771b3176ffc0f8d40b947e8d9cc08665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 38/63] fix: README helpers depended on the locale's encoding
 and dropped a truncated character at the end

---
 creole/setup_utils.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index bfb51c7..920f767 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -12,7 +12,6 @@
     :license: GNU GPL v3 or above, see LICENSE for more details.
 """
 
-import codecs
 import datetime
 import os
 import sys
@@ -67,9 +66,8 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
     long_description_origin = ''
     try:
         # Read creole README
-        f = codecs.open(filepath, 'r', encoding='utf-8')
-        long_description_origin = f.read().strip()
-        f.close()
+        with open(filepath, 'rb') as f:
+            long_description_origin = f.read().decode('utf-8').strip()
 
         # convert creole into html
         long_description_html = creole2html(long_description_origin)
@@ -105,7 +103,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
 
 
 def _generate_rst_readme(*, creole_readme_path):
-    with creole_readme_path.open('r') as f:
+    with creole_readme_path.open('r', encoding='utf-8') as f:
         creole_readme = f.read().strip()
 
     # convert creole into html
@@ -131,7 +129,7 @@ def _generate_markdown_readme(*, creole_readme_path):
 
     # convert creole into html
     html_readme = creole2html(creole_readme)
-    creole_readme_path.with_suffix('.html').write_text(html_readme)
+    creole_readme_path.with_suffix('.html').write_text(html_readme, encoding='utf-8')
 
     # convert html to Markdown
     markdown_readme = html2markdown(
@@ -151,7 +149,7 @@ def _is_up_to_date(readme_path, new_content):
     if not readme_path.is_file():
         return False
 
-    with readme_path.open('r') as f:
+    with readme_path.open('r', encoding='utf-8') as f:
         old_content = f.read()
 
     return old_content.rsplit('\n', 4)[0] == new_content
@@ -179,7 +177,7 @@ def update_rst_readme(package_root, filename='README.creole'):
         print('nothing changed, ok.')
         return rest_readme_path
 
-    with rest_readme_path.open('w') as f:
+    with rest_readme_path.open('w', encoding='utf-8') as f:
         f.write(rest_readme)
 
         # Add a note about generation with modification time from source:
@@ -219,7 +217,7 @@ def update_markdown_readme(package_root, filename='README.creole'):
         print('nothing changed, ok.')
         return markdown_readme_path
 
-    with markdown_readme_path.open('w') as f:
+    with markdown_readme_path.open('w', encoding='utf-8') as f:
         f.write(markdown_readme)
 
         # Add a note about generation with modification time from source:
-- 
2.43.0


From 257d44b6a86f18716826f86fde09ca933dfacedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 39/63] fix: rest2html: no end tags of ignored divs, no empty
 ids attribute

---
 creole/rest_tools/clean_writer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index d71525c..69d9d8a 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -42,7 +42,7 @@ DEBUG = False
 #DEBUG = True
 
 IGNORE_ATTR = (
-    "start", "class", "classes", "frame", "rules",
+    "start", "class", "classes", "ids", "frame", "rules",
 )
 IGNORE_TAGS = (
     "div",
@@ -113,6 +113,14 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
             print(f"startag html: {html!r}")
         return html
 
+    def dispatch_departure(self, node):
+        """
+        remove the end tags of the <div>s which starttag() has ignored.
+        """
+        start = len(self.body)
+        super().dispatch_departure(node)
+        self.body[start:] = [part.replace('</div>\n', '\n') for part in self.body[start:]]
+
     def visit_section(self, node):
         self.section_level += 1
 
-- 
2.43.0


From bfa9801b44ae1f7f73d21e7d7642f84c0f2ff3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 40/63] fix: code macro: guess the lexer from the text

---
 creole/shared/example_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 635e920..0002a2e 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -55,7 +55,7 @@ def code(ext, text):
     except IndexError:
         source_type = ''
 
-    lexer = get_pygments_lexer(source_type, code)
+    lexer = get_pygments_lexer(source_type, text)
     formatter = get_pygments_formatter()
 
     try:
-- 
2.43.0


From c09dce37c5fdc9182f7207eb98677600f5ad04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:44 +0000
Subject: [PATCH 41/63] fix: rest2html: the text of a block quote ran into the
 text behind it

---
 creole/rest_tools/clean_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 69d9d8a..3df329a 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -132,7 +132,10 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
 
     # remove <blockquote> (e.g. in nested lists)
     visit_block_quote = _do_nothing
-    depart_block_quote = _do_nothing
+
+    def depart_block_quote(self, node):
+        if self.body and not self.body[-1].endswith('\n'):
+            self.body.append('\n')  # don't run into the following text
 
     # set only html_body, we used in rest2html() and don't surround it with <div>
     def depart_document(self, node):
-- 
2.43.0


From 5e7a6a03113788cfeeb81107dae801bf1c22b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 42/63] fix: rest2html: column widths counted the columns of
 the tables before

---
 creole/rest_tools/clean_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 3df329a..d5860fe 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -159,6 +159,7 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
         self.body.append(self.starttag(node, 'table'))
 
     def visit_tgroup(self, node):
+        self.colspecs = []
         node.stubs = []
 
     def visit_field_list(self, node):
-- 
2.43.0


From 412e200af246d11febf1937d82ae22cba849025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 43/63] fix: rest2html: no class attributes at notes, option
 lists, document infos and system messages

---
 creole/rest_tools/clean_writer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index d5860fe..5b343c5 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -14,6 +14,7 @@
 """
 
 
+import re
 import sys
 
 from creole.exceptions import DocutilsImportError
@@ -21,6 +22,7 @@ from creole.exceptions import DocutilsImportError
 
 try:
     import docutils
+    from docutils import nodes
     from docutils.core import publish_parts
     from docutils.writers import html4css1
 except ImportError:
@@ -47,6 +49,7 @@ IGNORE_ATTR = (
 IGNORE_TAGS = (
     "div",
 )
+CLASS_RE = re.compile(r'(<\w[^<>]*?) class="[^"]*"')
 
 
 class CleanHTMLWriter(html4css1.Writer):
@@ -113,13 +116,26 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
             print(f"startag html: {html!r}")
         return html
 
+    def dispatch_visit(self, node):
+        """
+        remove the classes of the tags which docutils writes without starttag().
+        """
+        start = len(self.body)
+        try:
+            return super().dispatch_visit(node)
+        finally:
+            if not isinstance(node, (nodes.raw, nodes.comment, nodes.math, nodes.math_block)):
+                self.body[start:] = [CLASS_RE.sub(r'\1', part) for part in self.body[start:]]
+
     def dispatch_departure(self, node):
         """
         remove the end tags of the <div>s which starttag() has ignored.
         """
         start = len(self.body)
         super().dispatch_departure(node)
-        self.body[start:] = [part.replace('</div>\n', '\n') for part in self.body[start:]]
+        self.body[start:] = [
+            CLASS_RE.sub(r'\1', part.replace('</div>\n', '\n')) for part in self.body[start:]
+        ]
 
     def visit_section(self, node):
         self.section_level += 1
-- 
2.43.0


From c523e7671000467fb589e857b1cd674ef043ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 44/63] fix: creole2html: empty table cells were lost

---
 creole/parser/creol2html_rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index a17701c..9c1876c 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -178,11 +178,11 @@ class SpecialRules:
         (?P<item_text> .*?)
     ) \s* $'''
 
-    # For splitting table cells:
+    # For splitting table cells, the last pipe only closes the row:
     cell = r'''
-            \| \s*
+            \| (?!\Z) \s*
             (?P<head> [=] (?=[^|]) )?
-            (?P<cell> (  %s | [^|])+ ) \s*
+            (?P<cell> (  %s | [^|])* ) \s*
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-- 
2.43.0


From 5018ecc39d3612a5c6e220fae617db2d9f5c5bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:47 +0000
Subject: [PATCH 45/63] fix: html2creole: two tables in succession were merged

---
 creole/emitter/html2creole_emitter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 6eb8489..06ef6a4 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -142,6 +142,14 @@ class CreoleEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def table_emit(self, node):
+        siblings = node.parent.children
+        index = siblings.index(node)
+        if index > 0 and siblings[index - 1].kind == "table":
+            # An empty line separates two tables
+            return f"\n{super().table_emit(node)}"
+        return super().table_emit(node)
+
     def div_emit(self, node):
         return self._emit_content(node)
 
-- 
2.43.0


From e47d3838bb158bb7f3934532634e6619d44ebe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 46/63] fix: html2textile: an empty line behind tables and
 preformatted text

---
 creole/emitter/html2textile_emitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 4076435..2306434 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -33,7 +33,7 @@ class TextileEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n"
+        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n\n"
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
@@ -44,6 +44,10 @@ class TextileEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def table_emit(self, node):
+        # Textile needs an empty line behind a table
+        return f"{super().table_emit(node)}\n"
+
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
 
-- 
2.43.0


From f309ea3eb5e6eaf8db4e1676fef7c9825654089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:56 +0000
Subject: [PATCH 47/63] fix: html2rest: tables with wide east asian characters
 were malformed

---
 creole/html_tools/text_tools.py | 14 ++++++++++++++
 creole/shared/markup_table.py   | 15 ++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/creole/html_tools/text_tools.py b/creole/html_tools/text_tools.py
index 7963bd6..becb41b 100644
--- a/creole/html_tools/text_tools.py
+++ b/creole/html_tools/text_tools.py
@@ -9,6 +9,7 @@
 
 
 import re
+from unicodedata import east_asian_width
 
 
 space_re = re.compile(r"^(\s*)(.*?)(\s*)$", re.DOTALL)
@@ -48,6 +49,19 @@ def clean_whitespace(txt):
     return space_re.sub(cleanup, txt)
 
 
+def display_width(txt):
+    """
+    The number of columns: Wide East Asian characters need two columns.
+
+    >>> display_width("foo")
+    3
+
+    >>> display_width("\u4e2d\u6587")
+    4
+    """
+    return sum(2 if east_asian_width(char) in "WF" else 1 for char in txt)
+
+
 if __name__ == '__main__':
     import doctest
     print(doctest.testmod())
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 009a5dd..291e161 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -1,5 +1,7 @@
 from itertools import zip_longest
 
+from creole.html_tools.text_tools import display_width
+
 
 class MarkupTable:
     """
@@ -39,7 +41,7 @@ class MarkupTable:
         self.debug_msg("Table.add_td", text)
         self.rows[self.row_index].append(text)
 
-    def _get_preformat_info(self):
+    def _get_preformat_info(self, get_width=len):
         cells = []
         for row in self.rows:
             line_cells = []
@@ -54,7 +56,7 @@ class MarkupTable:
             cells.append(line_cells)
 
         # Build a list of max len for every column
-        widths = [max(map(len, col)) for col in zip_longest(*cells, fillvalue="")]
+        widths = [max(map(get_width, col)) for col in zip_longest(*cells, fillvalue="")]
 
         return cells, widths
 
@@ -82,7 +84,7 @@ class MarkupTable:
     def get_rest_table(self):
         """ return the table data in ReSt markup. """
         # preformat every table cell
-        cells, widths = self._get_preformat_info()
+        cells, widths = self._get_preformat_info(get_width=display_width)
 
         separator_line = f"+{'+'.join(('-' * width) for width in widths)}+"
         headline_separator = f"+{'+'.join(('=' * width) for width in widths)}+"
@@ -94,8 +96,11 @@ class MarkupTable:
             else:
                 lines.append(separator_line)
 
-            # Join every line with ljust
-            cells = [cell.ljust(width) for cell, width in zip_longest(row, widths, fillvalue="")]
+            # Fill up every cell
+            cells = [
+                cell + " " * (width - display_width(cell))
+                for cell, width in zip_longest(row, widths, fillvalue="")
+            ]
             lines.append("|" + "|".join(cells) + "|")
 
         lines.append(separator_line)
-- 
2.43.0


From 50f517b8979dc325898f4ed75cd968e7c545168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 48/63] fix: html2rest: the first line of preformatted text
 lost its indent

---
 creole/emitter/html2rest_emitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 9c917d3..9dd81d4 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -57,8 +57,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        pre_block = self.deentity.replace_all(node.content).strip()
-        pre_block = "\n".join(f"    {line}" for line in pre_block.splitlines())
+        lines = self.deentity.replace_all(node.content).rstrip().splitlines()
+        while lines and not lines[0].strip():
+            del lines[0]  # Note: Don't remove the indent of the first line
+        pre_block = "\n".join(f"    {line}" for line in lines)
         return f"::\n\n{pre_block}\n\n"
 
     def inlinedata_pre_emit(self, node):
-- 
2.43.0


From 82cd2d84329f97ca004e5e3e82ee499e6f0b75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:14 +0000
Subject: [PATCH 49/63] fix: html2rest: underlines of short and of wide east
 asian headlines

---
 creole/emitter/html2rest_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 9dd81d4..f9b6b56 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -13,6 +13,7 @@
 
 import posixpath
 
+from creole.html_tools.text_tools import display_width
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.markup_table import MarkupTable
 
@@ -118,7 +119,8 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        markup = char * len(text)
+        # Note: "-" alone would be a list item
+        markup = char * max(2, display_width(text)) if text else ""
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
-- 
2.43.0


From bf68e29f39a3db0af7416c44f73301209f3f3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 50/63] fix: backslashes at the end of table cells, spans and
 code were lost

---
 creole/shared/base_emitter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 8411732..3525838 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -162,9 +162,7 @@ class BaseEmitter:
         text = text.split("\n")
         lines = [line.strip() for line in text]
         lines = [line for line in lines if line]
-        content = "\\\\".join(lines)
-        content = content.strip("\\")
-        return content
+        return "\\\\".join(lines)
 
     def th_emit(self, node):
         if self._table is None:  # not in a table
-- 
2.43.0


From 7e88f63ee39f245cfaaefe40c364c9abb194bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 51/63] fix: html2rest: exponential time and space with
 headlines inside of headlines

---
 creole/emitter/html2rest_emitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index f9b6b56..1d59cd2 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -120,7 +120,8 @@ class ReStructuredTextEmitter(BaseEmitter):
 
         char, both = self.HEADLINE_DATA[level]
         # Note: "-" alone would be a list item
-        markup = char * max(2, display_width(text)) if text else ""
+        width = max(display_width(line) for line in text.split("\n"))
+        markup = char * max(2, width) if text else ""
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
-- 
2.43.0


From f810cbcf1112ff17bd43c37f9b098c2050576b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 52/63] fix: html2x: exponential time and space with tables
 inside of table cells

---
 creole/emitter/html2markdown_emitter.py | 2 +-
 creole/emitter/html2rest_emitter.py     | 2 +-
 creole/shared/base_emitter.py           | 5 ++++-
 creole/shared/markup_table.py           | 4 ++++
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 809572a..70b3aed 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -51,7 +51,7 @@ class MarkdownEmitter(BaseEmitter):
     def table_emit(self, node):
         table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
         outside = self._fill_table(node, table)
-        content = table.get_markdown_table()
+        content = table.get_markdown_table() if self._table is None else table.get_nested_table()
         return f'\n{outside}{content}\n'
 
     def th_emit(self, node):
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 1d59cd2..50a175f 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -300,5 +300,5 @@ class ReStructuredTextEmitter(BaseEmitter):
             debug_msg=self.debug_msg
         )
         outside = self._fill_table(node, table)
-        content = table.get_rest_table()
+        content = table.get_rest_table() if self._table is None else table.get_nested_table()
         return f"{outside}{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 3525838..d28502e 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -148,7 +148,10 @@ class BaseEmitter:
             debug_msg=self.debug_msg
         )
         outside = self._fill_table(node, table)
-        content = table.get_table_markup()
+        if self._table is not None and self.table_auto_width:  # a table in a table cell
+            content = table.get_nested_table()
+        else:
+            content = table.get_table_markup()
         return f"{outside}{content}\n"
 
     def tr_emit(self, node):
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 291e161..b31c3c3 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -81,6 +81,10 @@ class MarkupTable:
         self.debug_msg("Table.get_table_markup", result)
         return result
 
+    def get_nested_table(self):
+        """ return the data of a table in a table cell: Without filling up the cells, it gets too big. """
+        return "\n".join(f"| {' | '.join(cell.strip() for cell in row)} |" for row in self.rows)
+
     def get_rest_table(self):
         """ return the table data in ReSt markup. """
         # preformat every table cell
-- 
2.43.0


From e5ebe58326e3592a96e36c5bfbda4be0dae5a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:17 +0000
Subject: [PATCH 53/63] fix: strip_html: words were joined by a tab in front of
 or behind an inline tag

---
 creole/html_tools/strip_html.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 7a1514e..c74bc51 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -71,8 +71,8 @@ def strip_html(html_code):
         if tag in BLOCK_TAGS:
             return block.strip()
 
-        space_start = block.startswith(" ")
-        space_end = block.endswith(" ")
+        space_start = block[0].isspace()
+        space_end = block[-1].isspace()
 
         result = block.strip()
 
-- 
2.43.0


From 230dc804660d8c9a4fd6110e69d24e50bbf4c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 54/63] fix: html2markdown: lists nested in numbered lists
 weren't below the item's text

---
 creole/emitter/html2markdown_emitter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 70b3aed..024e48b 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -199,8 +199,6 @@ class MarkdownEmitter(BaseEmitter):
     ol_emit = list_emit
 
     def li_emit(self, node: DocNode):
-        list_level = node.level
-
         list_node = node.parent
         list_kind = list_node.kind
         if list_kind == 'ol':
@@ -208,7 +206,13 @@ class MarkdownEmitter(BaseEmitter):
         else:
             prefix = '*'
 
-        indent = '  ' * (list_level - 1)
+        # a nested item has to start below the text of the item around it
+        lists = []
+        while list_node is not None:
+            if list_node.kind in ('ol', 'ul'):
+                lists.append(list_node)
+            list_node = list_node.parent
+        indent = ''.join('   ' if outer.kind == 'ol' else '  ' for outer in lists[1:])
 
         content = self.emit_children(node)
         return f"\n{indent}{prefix} {content}"
-- 
2.43.0


From f2d8db72200a54b8143f36c7c9f21b1fdc2df525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 55/63] fix: strip_html: an empty tag written without space
 before the slash wasn't recognized

---
 creole/html_tools/strip_html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index c74bc51..27ba545 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -18,7 +18,7 @@ strip_html_regex = re.compile(
         \s*
         <
             (?P<end>/{0,1})       # end tag e.g.: </end>
-            (?P<tag>[^ >]+)       # tag name
+            (?P<tag>[^\s>/]+)     # tag name
             .*?
             (?P<startend>/{0,1})  # closed tag e.g.: <closed />
         >
-- 
2.43.0


From 1ae81a1c4d6464b21666505a4ee1fdaa02ee90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 56/63] fix: html2rest: tabs in headlines and table cells broke
 the markup

---
 creole/emitter/html2rest_emitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 50a175f..3ca278b 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -56,6 +56,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def data_emit(self, node):
+        # Note: docutils expands tabs: headlines and table cells get wider
+        return super().data_emit(node).replace("\t", " ")
+
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
         lines = self.deentity.replace_all(node.content).rstrip().splitlines()
-- 
2.43.0


From 4d252bae82b6bab1a67b06582c9b4f2e5cc63998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 57/63] fix: html2rest: docutils reads paragraphs twice if the
 lines of a headline are too short

---
 creole/emitter/html2rest_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 3ca278b..206782d 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -123,9 +123,9 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        # Note: "-" alone would be a list item
+        # Note: shorter lines are not always taken as a part of the headline
         width = max(display_width(line) for line in text.split("\n"))
-        markup = char * max(2, width) if text else ""
+        markup = char * max(4, width) if text else ""
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
-- 
2.43.0


From 477d0f7e39f866ed6af8f42297f33830ed9ee045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:08 +0000
Subject: [PATCH 58/63] fix: html2creole: two tables were merged if the second
 one was in a div

---
 creole/emitter/html2creole_emitter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 06ef6a4..b720f7b 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -142,16 +142,22 @@ class CreoleEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def table_emit(self, node):
+    def _table_gap(self, node):
+        """ An empty line separates two tables """
         siblings = node.parent.children
         index = siblings.index(node)
         if index > 0 and siblings[index - 1].kind == "table":
-            # An empty line separates two tables
-            return f"\n{super().table_emit(node)}"
-        return super().table_emit(node)
+            while node.kind == "div" and node.children:
+                node = node.children[0]
+            if node.kind == "table":
+                return "\n"
+        return ""
+
+    def table_emit(self, node):
+        return f"{self._table_gap(node)}{super().table_emit(node)}"
 
     def div_emit(self, node):
-        return self._emit_content(node)
+        return f"{self._table_gap(node)}{self._emit_content(node)}"
 
     def span_emit(self, node):
         return self._emit_content(node)
-- 
2.43.0


From 4dd82b6621e9b60ed21615b3143b310034cee085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:18 +0000
Subject: [PATCH 59/63] fix: html2markdown: line breaks in table cells broke
 the table

---
 creole/emitter/html2markdown_emitter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 024e48b..322af7c 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -54,16 +54,21 @@ class MarkdownEmitter(BaseEmitter):
         content = table.get_markdown_table() if self._table is None else table.get_nested_table()
         return f'\n{outside}{content}\n'
 
+    def _cell(self, node):
+        # Note: A table row is always one line
+        lines = (line.strip() for line in self.emit_children(node).split('\n'))
+        return '<br />'.join(line for line in lines if line)
+
     def th_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
-        self._table.add_th(self.emit_children(node))
+        self._table.add_th(self._cell(node))
         return ''
 
     def td_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
-        self._table.add_td(self.emit_children(node))
+        self._table.add_td(self._cell(node))
         return ''
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From c8cd25da89c52ce0f7fe8f3595402c2d3b48f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:18 +0000
Subject: [PATCH 60/63] fix: html2markdown: a div was merged with the paragraph
 in front of it

---
 creole/emitter/html2markdown_emitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 322af7c..e687f8e 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -247,7 +247,10 @@ class MarkdownEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def div_emit(self, node: DocNode):
-        return self._emit_content(node)
+        content = self._emit_content(node)
+        if self._is_inside(node, ('li', 'th', 'td')):
+            return content
+        return f'\n{content}'
 
     def span_emit(self, node: DocNode):
         return self._emit_content(node)
-- 
2.43.0


From ca792ab426a057441e881d52dddd54fe5f69ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:18 +0000
Subject: [PATCH 61/63] fix: html2markdown: paragraphs and other blocks in list
 items weren't part of the item

---
 creole/emitter/html2markdown_emitter.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index e687f8e..2eca25c 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -211,16 +211,12 @@ class MarkdownEmitter(BaseEmitter):
         else:
             prefix = '*'
 
-        # a nested item has to start below the text of the item around it
-        lists = []
-        while list_node is not None:
-            if list_node.kind in ('ol', 'ul'):
-                lists.append(list_node)
-            list_node = list_node.parent
-        indent = ''.join('   ' if outer.kind == 'ol' else '  ' for outer in lists[1:])
-
-        content = self.emit_children(node)
-        return f"\n{indent}{prefix} {content}"
+        # everything in the item has to stand below its text
+        indent = ' ' * (len(prefix) + 1)
+        lines = self.emit_children(node).strip('\n').split('\n')
+        lines[1:] = [f'{indent}{line}' if line else line for line in lines[1:]]
+        content = '\n'.join(lines)
+        return f"\n{prefix} {content}"
 
     # --------------------------------------------------------------------------
     def data_emit(self, node: DocNode):
-- 
2.43.0


From a55c0b33f189e998e65507de896fbdd746f510e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 62/63] fix: html2textile: line breaks in lists and table cells
 were written in creole markup

---
 creole/emitter/html2textile_emitter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 2306434..a574c15 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -51,6 +51,14 @@ class TextileEmitter(BaseEmitter):
     def p_emit(self, node):
         return f"{self.emit_children(node)}\n\n"
 
+    def br_emit(self, node):
+        return "\n"
+
+    def _escape_linebreaks(self, text):
+        # Note: a line break is also in lists and tables a line break
+        lines = (line.strip() for line in text.strip().split("\n"))
+        return "\n".join(line for line in lines if line)
+
     def headline_emit(self, node):
         return f"h{node.level:d}. {self.emit_children(node)}\n\n"
 
-- 
2.43.0


From 8c9baad86060bb53fbcc325c962147c3e51feed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 63/63] fix: html2creole, html2textile: paragraphs in list
 items were joined or broke the list

---
 creole/emitter/html2creole_emitter.py  |  5 +----
 creole/emitter/html2textile_emitter.py |  2 +-
 creole/shared/base_emitter.py          | 11 +++++++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index b720f7b..217e4f8 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -46,10 +46,7 @@ class CreoleEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def p_emit(self, node):
-        result = self.emit_children(node)
-        if self._inner_list == "":
-            result += "\n\n"
-        return result
+        return self._paragraph(node)
 
     def br_emit(self, node):
         if self._inner_list != "":
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index a574c15..bd7fce2 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -49,7 +49,7 @@ class TextileEmitter(BaseEmitter):
         return f"{super().table_emit(node)}\n"
 
     def p_emit(self, node):
-        return f"{self.emit_children(node)}\n\n"
+        return self._paragraph(node)
 
     def br_emit(self, node):
         return "\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index d28502e..5d377cc 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -101,6 +101,17 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _paragraph(self, node):
+        content = self.emit_children(node)
+        if self._inner_list == "":
+            return f"{content}\n\n"
+        # Note: a list item has no paragraphs: The next one starts with a line break
+        siblings = node.parent.children
+        following = siblings[siblings.index(node) + 1:]
+        if following and following[0].kind == "p":
+            content += self.br_emit(node)
+        return content
+
     def li_emit(self, node):
         content = self.emit_children(node)
         return f"\n{self._inner_list} {content}"
-- 
2.43.0


From f22dd55672923fef3517fd375d82a34e189fce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 001/109] fix: byte offsets of tokens after a byte-order mark

The three bytes of a leading byte-order mark were not counted, so every
token offset was off by three and the text between 'cmake-format: off' and
'on' was copied from the wrong place.
---
 cmakelang/lex/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index f7ddcb9..8769f7e 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -186,13 +186,15 @@ def tokenize(contents):
   ], re.DOTALL)
 
   tokens_return = []
+  bom_size = 0
   if contents.startswith("\ufeff"):
+    bom_size = len(bytearray(contents[0], 'utf-8'))
     tokens_return = [
         Token(tok_type=TokenType.BYTEORDER_MARK,
               spelling=contents[0],
               index=-1,
               begin=SourceLocation((0, 0, 0)),
-              end=SourceLocation((0, 0, 0)))]
+              end=SourceLocation((0, 0, bom_size)))]
     contents = contents[1:]
 
   tokens, remainder = scanner.scan(contents)
@@ -205,7 +207,7 @@ def tokenize(contents):
   # inconsistent.
   lineno = 1
   col = 0
-  offset = 0
+  offset = bom_size
   for tok_index, (tok_type, spelling) in enumerate(tokens):
     if sys.version_info[0] < 3:
       assert isinstance(spelling, unicode)
-- 
2.43.0


From a80580433badee06ef3d2da102ff2334b47d2a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 002/109] fix: only complete format on/off markers act as
 switches

'# cmf: only in debug' or '# cmake-format: offset' were taken for switches,
text following a marker was discarded, a marker could extend over several
lines, and the carriage return of a windows line ending was swallowed by the
marker so that it was missing from the output.
---
 cmakelang/format/formatter.py | 22 ++++++++++++----------
 cmakelang/lex/__init__.py     |  4 ++--
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 06a345b..f221695 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -741,6 +741,16 @@ class OnOffSwitchNode(LayoutNode):
   def has_terminal_comment(self):
     return True
 
+  def _get_spelling(self):
+    """
+    Canonicalize the marker, which may be more generous in the input than this
+    exact string. Any words that follow the marker are retained.
+    """
+    token = self.pnode.children[0]
+    switch, rest = re.match(
+        r"#[ \t]*(?:cmake-format|cmf): (off|on)(.*)$", token.spelling).groups()
+    return "# cmake-format: {}{}".format(switch, rest.rstrip())
+
   def _reflow(self, stack_context, cursor, passno):
     """
     There is only one possible flow as this is a single-token
@@ -749,14 +759,7 @@ class OnOffSwitchNode(LayoutNode):
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
 
-    # Canonicalize the output. The input regex may be more generous than this
-    # exact string.
-    if token.type == TokenType.FORMAT_ON:
-      spelling = "# cmake-format: on"
-    elif token.type == TokenType.FORMAT_OFF:
-      spelling = "# cmake-format: off"
-
-    cursor = cursor + (0, len(spelling))
+    cursor = cursor + (0, len(self._get_spelling()))
     self._colextent = cursor[1]
     return cursor
 
@@ -765,8 +768,8 @@ class OnOffSwitchNode(LayoutNode):
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
 
+    spelling = self._get_spelling()
     if token.type == TokenType.FORMAT_ON:
-      spelling = "# cmake-format: on"
       if ctx.offswitch_location is None:
         logging.warning(
             "'#cmake-format: on' with no corresponding 'off' at %d:%d",
@@ -780,7 +783,6 @@ class OnOffSwitchNode(LayoutNode):
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
-      spelling = "# cmake-format: off"
       ctx.offswitch_location = token.end
 
     ctx.outfile.write_at(self.position, spelling)
diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 8769f7e..aa4ab55 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -172,9 +172,9 @@ def tokenize(contents):
       # NOTE(josh): don't match '\s' here or we'll miss some newline tokens
       # TODO(josh): should we match unicode whitespace too?
       (r"[ \t\f\v]+", lambda s, t: (TokenType.WHITESPACE, t)),
-      (r"#\s*(cmake-format|cmf): off[^\n]*",
+      (r"#[ \t]*(cmake-format|cmf): off(?!\S)[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_OFF, t)),
-      (r"#\s*(cmake-format|cmf): on[^\n]*",
+      (r"#[ \t]*(cmake-format|cmf): on(?!\S)[^\r\n]*",
        lambda s, t: (TokenType.FORMAT_ON, t)),
       # bracket comment
       (r"#\[(=*)\[.*?\]\1\]", lambda s, t: (TokenType.BRACKET_COMMENT, t)),
-- 
2.43.0


From 81066d4d36844b28bdc57c86bf51d8f7ba308de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 003/109] fix: never lose text after an unmatched or repeated
 'format: off'

Without a matching 'on' the rest of the file was dropped from the output, a
second 'off' discarded the text between the two markers, and the closing
parenthesis of a statement ending inside the region was written as well.
---
 cmakelang/format/formatter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index f221695..be9afed 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -624,6 +624,9 @@ class ParenNode(LayoutNode):
     return cursor + (0, 1)
 
   def write(self, config, ctx):
+    if not ctx.is_active():
+      return
+
     if self.node_type == NodeType.LPAREN:
       ctx.outfile.write_at(self.position, '(')
     elif self.node_type == NodeType.RPAREN:
@@ -783,6 +786,9 @@ class OnOffSwitchNode(LayoutNode):
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
+      if ctx.offswitch_location is not None:
+        # Already off, so this marker is part of the verbatim text
+        return
       ctx.offswitch_location = token.end
 
     ctx.outfile.write_at(self.position, spelling)
@@ -2012,4 +2018,8 @@ def write_tree(root_box, config, infile_content):
     logging.warning("'# cmake-format: off' is never turned back 'on'"
                     "at %d:%d", ctx.offswitch_location.line,
                     ctx.offswitch_location.col)
+    ctx.infile.seek(ctx.offswitch_location.offset, 0)
+    copy_text = ctx.infile.read().decode('utf-8')
+    # NOTE: getvalue() will add the final line ending
+    ctx.outfile.write(re.sub(r'\r?\n\Z', '', copy_text))
   return ctx.outfile.getvalue()
-- 
2.43.0


From 6506301d8e200ea37090f4cef4116ff5a14a6e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 004/109] fix: apply command line options to every file, not
 only the first

Consuming the options removed them from the dictionary that is shared by all
the files named on the command line.
---
 cmakelang/format/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index bbcbf98..cfbc9fe 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -508,7 +508,9 @@ def onefile_main(infile_path, args, argparse_dict):
     config_dict = get_config(infile_path, args.config_files)
 
   cfg = configuration.Configuration(**config_dict)
-  cfg.legacy_consume(argparse_dict)
+  # NOTE: legacy_consume removes the items that it consumes, and the options
+  # apply to each file
+  cfg.legacy_consume(dict(argparse_dict))
 
   if cfg.format.disable:
     return
-- 
2.43.0


From 85404deca655af6bc52bdc239943ecbff036b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 005/109] fix: 'line_ending: auto' crashed cmake-lint and
 cmake-genparsers

---
 cmakelang/genparsers.py    | 2 +-
 cmakelang/lint/__main__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 410f541..6a68aca 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -188,7 +188,7 @@ def process_file(config, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index a172290..7b81bbb 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -32,7 +32,7 @@ def process_file(config, local_ctx, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.set_line_ending(detected)
 
   checker = basic_checker.LintChecker(config, local_ctx)
   checker.check_basics(infile_content)
-- 
2.43.0


From e806e67423c76b817da54ed61e226cf24f1ae0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 006/109] fix: escape source text in annotated html

Source text containing '<', '>' or '&' was written to the page as markup.
---
 cmakelang/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/render.py b/cmakelang/render.py
index a7f77fe..d522d78 100644
--- a/cmakelang/render.py
+++ b/cmakelang/render.py
@@ -9,6 +9,7 @@ from __future__ import unicode_literals
 import io
 import logging
 import os
+from xml.sax.saxutils import escape
 
 from cmakelang import lex
 from cmakelang.parse.common import TreeNode
@@ -27,7 +28,7 @@ def dump_html(node, outfile):
     outfile.write('</span>')
   elif isinstance(node, lex.Token):
     outfile.write('<span class="cmf-{}">'.format(node.type.name))
-    outfile.write(node.spelling)
+    outfile.write(escape(node.spelling))
     outfile.write('</span>')
 
 
-- 
2.43.0


From 66604398edf9258850fd54df90877c8d2268db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 007/109] fix: cmake-annotate could not read an explicit
 configuration file

The path was passed on as if it were a list of paths, so each of its
characters was opened as a configuration file.
---
 cmakelang/annotate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index c8f387f..2d5f6e9 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -136,14 +136,16 @@ def main():
 
   argdict = __main__.get_argdict(args)
   output_format = argdict.pop("format")
+  config_file = argdict.pop("config_file", None)
+  config_files = None if config_file is None else [config_file]
 
   for infile_path in args.infilepaths:
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-      config_dict = __main__.get_config(os.getcwd(), args.config_file)
+      config_dict = __main__.get_config(os.getcwd(), config_files)
     else:
-      config_dict = __main__.get_config(infile_path, args.config_file)
+      config_dict = __main__.get_config(infile_path, config_files)
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-- 
2.43.0


From 677616ee526073cf10fef298832e175533fc0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 008/109] fix: add_library() with a single argument crashed
 when it ended the file

---
 cmakelang/parse/funs/add_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index bff1df7..64784c3 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -264,7 +264,8 @@ def parse_add_library(ctx, tokens, breakstack):
   # sortability unless it is a word that doesn't match any of the descriminator
   # flags
   sortable = True
-  if "${" in second_token.spelling or "${" in third_token.spelling:
+  if "${" in second_token.spelling or (
+      third_token is not None and "${" in third_token.spelling):
     sortable = False
   return parse_add_library_standard(ctx, tokens, breakstack, sortable)
 
-- 
2.43.0


From d375007d1b45000162ee262705fb250b4732d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 009/109] fix: format on/off markers were treated as arguments
 by some commands

In add_library(), add_executable() and property lists the markers were kept
as arguments, so the text after them ended up inside a comment. An argument
list that contains such a region cannot be reordered either. Comments and
whitespace inside of a property tuple now stay where they are, and the sort
tag is recognized in add_executable().
---
 cmakelang/format/formatter.py          |  4 +++-
 cmakelang/parse/additional_nodes.py    | 18 ++++++++++--------
 cmakelang/parse/funs/add_executable.py | 10 ++++++++--
 cmakelang/parse/funs/add_library.py    |  8 +++++++-
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index be9afed..92c72c7 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1228,7 +1228,9 @@ class PargGroupNode(LayoutNode):
   def lock(self, config, stmt_depth=0):
     if (config.format.autosort and
         isinstance(self.pnode, PositionalGroupNode) and
-        self.pnode.sortable):
+        self.pnode.sortable and
+        not any(child.node_type is NodeType.ONOFFSWITCH
+                for child in self._children)):
       self._children = sort_arguments(self._children)
 
     super(PargGroupNode, self).lock(config, stmt_depth)
diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index d843353..f6c953f 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -38,7 +38,6 @@ class TupleGroupNode(ArgGroupNode):
     tree = cls()
     tree.spec = PositionalSpec(ntup, flags=flags, legacy=True)
     subtree = None
-    active_depth = tree
 
     npargs_consumed = 0
     ntup_consumed = 0
@@ -54,6 +53,15 @@ class TupleGroupNode(ArgGroupNode):
       if should_break(tokens[0], breakstack):
         break
 
+      # Anything that is found between the members of a tuple belongs to it
+      active_depth = tree if subtree is None else subtree
+
+      # If it's a sentinel comment, then add it at the current depth
+      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
+                            lex.TokenType.FORMAT_ON):
+        active_depth.children.append(OnOffNode.consume(ctx, tokens))
+        continue
+
       # Otherwise we will consume the token
       token = tokens.pop(0)
 
@@ -68,16 +76,10 @@ class TupleGroupNode(ArgGroupNode):
       if token.type in (lex.TokenType.COMMENT,
                         lex.TokenType.BRACKET_COMMENT):
         child = CommentNode()
-        tree.children.append(child)
+        active_depth.children.append(child)
         child.children.append(token)
         continue
 
-      # If it's a sentinel comment, then add it at the current depth
-      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
-                            lex.TokenType.FORMAT_ON):
-        tree.children.append(OnOffNode.consume(ctx, tokens))
-        continue
-
       if subtree is None:
         subtree = PositionalGroupNode()
         subtree.spec = PositionalSpec(2, False, [], flags)
diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 3a59c63..8f773bf 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -4,7 +4,7 @@ from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
@@ -97,13 +97,19 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       if state_ > parsing_name:
         if get_tag(tokens[0]) in ("unsort", "unsortable"):
           sortable = False
-        elif get_tag(tokens[0]) in ("unsort", "unsortable"):
+        elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
       child = TreeNode(NodeType.COMMENT)
       active_depth.children.append(child)
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in (lex.TokenType.FORMAT_OFF,
+                          lex.TokenType.FORMAT_ON):
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 64784c3..a76b721 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -4,7 +4,7 @@ from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS,
     get_tag,
@@ -78,6 +78,12 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in (TokenType.FORMAT_OFF,
+                          TokenType.FORMAT_ON):
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
-- 
2.43.0


From 02545019030ea496acea4d980ac7125a0de712f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 010/109] fix: honour a 'format: on' marker inside a nested
 argument group

Groups nested in the disabled region were skipped as a whole, together with
the marker that ends the region, so that formatting stayed off to the end of
the file.
---
 cmakelang/format/formatter.py | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 92c72c7..cbee733 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -990,11 +990,6 @@ class StatementNode(LayoutNode):
     self._colextent = max(self._colextent, rparen.colextent)
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(StatementNode, self).write(config, ctx)
-
 
 class AtWordStatementNode(LayoutNode):
   """
@@ -1055,11 +1050,6 @@ class AtWordStatementNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(AtWordStatementNode, self).write(config, ctx)
-
 
 class KwargGroupNode(LayoutNode):
   """
@@ -1474,11 +1464,6 @@ class ArgGroupNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ArgGroupNode, self).write(config, ctx)
-
 
 class ParenGroupNode(LayoutNode):
   """
@@ -1582,11 +1567,6 @@ class ParenGroupNode(LayoutNode):
       column_cursor[0] = cursor[0]
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ParenGroupNode, self).write(config, ctx)
-
 
 class BodyNode(LayoutNode):
   """
-- 
2.43.0


From 79f681885297a6379b2a66e7206ae7f92f939daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 011/109] fix: trailing blanks inside multi-line arguments were
 removed

They are part of the value of a quoted or bracket argument.
---
 cmakelang/format/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index cbee733..bf0474f 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -104,10 +104,10 @@ def format_comment_lines(node, stack_context, line_width):
 
 def normalize_line_endings(instr):
   """
-  Remove trailing whitespace and replace line endings with unix line endings.
-  They will be replaced with config.endl during output
+  Replace line endings with unix line endings. They will be replaced with
+  config.endl during output
   """
-  return re.sub('[ \t\f\v]*((\r?\n)|(\r\n?))', '\n', instr)
+  return re.sub('(\r?\n)|(\r\n?)', '\n', instr)
 
 
 def count_indentation(linestr):
-- 
2.43.0


From 14cfbbe33e451ce09553107dc421d15e040130ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 012/109] fix: refuse truncated files with an error message

A file ending in the middle of a statement or without 'endif' caused an
IndexError, or was accepted by the parser when the 'endif' was missing.
---
 cmakelang/parse/argument_nodes.py |  6 +++++-
 cmakelang/parse/body_nodes.py     | 10 +++++-----
 cmakelang/parse/statement_node.py | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 7974758..9fb9023 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 import logging
 
 from cmakelang import lex
-from cmakelang.common import InternalError
+from cmakelang.common import InternalError, UserError
 from cmakelang.parse.printer import dump_tree_tostr
 from cmakelang.parse.util import (
     comment_belongs_up_tree,
@@ -489,6 +489,10 @@ class ParenGroupNode(TreeNode):
       subtree = ConditionalGroupNode.parse(ctx, tokens, [ParenBreaker()])
     tree.children.append(subtree)
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream, expecting r-paren")
+
     if tokens[0].type != lex.TokenType.RIGHT_PAREN:
       raise ValueError(
           "Unexpected {} token at {}, expecting r-paren, got {}"
diff --git a/cmakelang/parse/body_nodes.py b/cmakelang/parse/body_nodes.py
index 4b7cef5..3756807 100644
--- a/cmakelang/parse/body_nodes.py
+++ b/cmakelang/parse/body_nodes.py
@@ -157,10 +157,10 @@ class IfBlockNode(FlowControlNode):
       prev_open_stmt = open_stmt
       prev_body = body
 
-    if tokens:
-      close_stmt = StatementNode.consume(ctx, tokens)
-      tree.children.append(close_stmt)
-      tree.blocks.append(
-          FlowControlBlock(prev_open_stmt, prev_body, close_stmt))
+    # NOTE: raises an error if the ENDIF is missing
+    close_stmt = StatementNode.consume(ctx, tokens)
+    tree.children.append(close_stmt)
+    tree.blocks.append(
+        FlowControlBlock(prev_open_stmt, prev_body, close_stmt))
 
     return tree
diff --git a/cmakelang/parse/statement_node.py b/cmakelang/parse/statement_node.py
index 256e33f..4bfd665 100644
--- a/cmakelang/parse/statement_node.py
+++ b/cmakelang/parse/statement_node.py
@@ -50,6 +50,10 @@ class StatementNode(TreeNode):
     """
     node = cls()
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream, expecting a statement")
+
     # Consume the function name
     fnname = tokens[0].spelling.lower()
     node.funnode = funnode = FunctionNameNode.parse(ctx, tokens)
@@ -59,6 +63,11 @@ class StatementNode(TreeNode):
     while tokens and tokens[0].type in WHITESPACE_TOKENS:
       node.children.append(tokens.pop(0))
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream, expecting l-paren after {}"
+          .format(repr(fnname)))
+
     # TODO(josh): should the parens belong to the statement node or the
     # group node?
     if tokens[0].type != lex.TokenType.LEFT_PAREN:
@@ -75,6 +84,11 @@ class StatementNode(TreeNode):
       node.children.append(tokens.pop(0))
       continue
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of token stream, expecting r-paren after {}"
+          .format(repr(fnname)))
+
     breakstack = [ParenBreaker()]
 
     parse_fun = ctx.parse_db.get(fnname, None)
-- 
2.43.0


From 2bf1caf0f00c1ffd87e964c2faf7e11e4cdec8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 013/109] fix: scope of inline lint suppressions

A directive did not cover the last line of its block, directives in nested
blocks were applied at the wrong lines when an enclosing block has one too,
comments between the arguments of some commands were not considered, and
an unterminated variable reference could crash the linter.
---
 cmakelang/lint/basic_checker.py | 10 +++++++---
 cmakelang/lint/lint_util.py     | 12 +++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f4dd779..fc2363b 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -10,7 +10,6 @@ from cmakelang.parse.argument_nodes import (
     ArgGroupNode, ConditionalGroupNode, PositionalGroupNode
 )
 from cmakelang.parse.body_nodes import BodyNode, FlowControlNode
-from cmakelang.parse.simple_nodes import CommentNode
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.statement_node import StatementNode
 from cmakelang.parse.util import get_min_npargs
@@ -292,6 +291,7 @@ class LintChecker(object):
 
       match = missing_suffix.search(resolved)
       if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
+        catmatch = "".join(match.group(1, 2))
         local_ctx.record_lint(
             "W0106", "closing", catmatch, location=token.get_location())
         continue
@@ -543,8 +543,12 @@ class LintChecker(object):
       prevchild[1] = prevchild[0]
       prevchild[0] = child
 
-    lineno = node.get_tokens()[-1].get_location().line
     if suppressions:
+      # The suppressions are active through the last line of the body
+      last_token = node.get_tokens()[-1]
+      lineno = last_token.end.line
+      if last_token.type not in (TokenType.WHITESPACE, TokenType.NEWLINE):
+        lineno += 1
       local_ctx.unsuppress(lineno, suppressions)
 
   def check_arggroup(self, node):
@@ -812,7 +816,7 @@ class LintChecker(object):
       self.check_statement(node)
     elif isinstance(node, PositionalGroupNode):
       self.check_positional_group(node)
-    elif isinstance(node, CommentNode):
+    elif node.node_type is NodeType.COMMENT:
       self.check_comment(node)
 
     for child in node.children:
diff --git a/cmakelang/lint/lint_util.py b/cmakelang/lint/lint_util.py
index cca7224..f614444 100644
--- a/cmakelang/lint/lint_util.py
+++ b/cmakelang/lint/lint_util.py
@@ -101,8 +101,10 @@ class FileContext(object):
     # Remove any lint records that were suppressed at the line number where
     # they were recorded
     out = []
-    events = list(self._suppression_events)
-    active_suppressions = set()
+    # NOTE: the tree isn't visited in line order and blocks may be nested, so
+    # sort the events and count how many suppressions of each id are active
+    events = sorted(self._suppression_events, key=lambda event: event.lineno)
+    active_suppressions = collections.defaultdict(int)
 
     for record in records:
       if record.location:
@@ -110,13 +112,13 @@ class FileContext(object):
           event = events.pop(0)
           if event.mode == "add":
             for idstr in event.suppressions:
-              active_suppressions.add(idstr)
+              active_suppressions[idstr] += 1
           elif event.mode == "remove":
             for idstr in event.suppressions:
-              active_suppressions.discard(idstr)
+              active_suppressions[idstr] -= 1
           else:
             raise ValueError("Illegal suppression event {}".format(event.mode))
-      if record.spec.idstr in active_suppressions:
+      if active_suppressions[record.spec.idstr] > 0:
         continue
       out.append(record)
 
-- 
2.43.0


From cd99d1dfdfa708a46030e076300a16cbfc39ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 014/109] fix: cmake-lint of stdin and exit status of bad usage

Linting stdin crashed when the title was written, and an invalid command line
exited with status zero.
---
 cmakelang/lint/__main__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 7b81bbb..9c69002 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -144,12 +144,13 @@ def inner_main():
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
+    infile_arg = infile_path
     if infile_path == '-':
-      infile_path = os.dup(sys.stdin.fileno())
+      infile_arg = os.dup(sys.stdin.fileno())
 
     try:
       infile = io.open(
-          infile_path, mode='r', encoding=cfg.encode.input_encoding, newline='')
+          infile_arg, mode='r', encoding=cfg.encode.input_encoding, newline='')
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
@@ -183,8 +184,8 @@ def inner_main():
 def main():
   try:
     return inner_main()
-  except SystemExit:
-    return 0
+  except SystemExit as ex:
+    return ex.code
   except common.UserError as ex:
     logger.fatal(ex.msg)
     return 1
-- 
2.43.0


From 37acd71340ac0d291acddd25fdc0cb4fab023d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 015/109] fix: line length and line ending lint for windows
 line endings

The carriage return of the line ending was counted as content of the line, and
the position after the last line ending was reported as a line with the wrong
ending.
---
 cmakelang/lint/basic_checker.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index fc2363b..12965d2 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -213,20 +213,21 @@ class LintChecker(object):
       # NOTE(josh): The tokenizer starts lineno at "1", so we must do the same
       # here in order to be consistent.
       lineno += 1
-      if len(line) > cfg.format.line_width:
-        local_ctx.record_lint(
-            "C0301", len(line), cfg.format.line_width, location=(lineno,))
-
       if line.endswith("\r"):
         if cfg.format.line_ending == "unix":
           local_ctx.record_lint(
               "C0327", "windows", location=(lineno,))
         line = line[:-1]
-      else:
+      elif lineno < len(lines):
+        # NOTE: there is no line ending after the last item of the split
         if cfg.format.line_ending == "windows":
           local_ctx.record_lint(
               "C0327", "unix", location=(lineno,))
 
+      if len(line) > cfg.format.line_width:
+        local_ctx.record_lint(
+            "C0301", len(line), cfg.format.line_width, location=(lineno,))
+
       if len(line.rstrip()) != len(line):
         local_ctx.record_lint("C0303", location=(lineno,))
 
-- 
2.43.0


From 4f13d336fc2939dd35544a708ea1fdc775fc5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 016/109] fix: enable_sort = False did not disable sorting

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index bf0474f..2a745da 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1216,7 +1216,8 @@ class PargGroupNode(LayoutNode):
     return self.children[-1].has_terminal_comment()
 
   def lock(self, config, stmt_depth=0):
-    if (config.format.autosort and
+    if (config.format.enable_sort and
+        config.format.autosort and
         isinstance(self.pnode, PositionalGroupNode) and
         self.pnode.sortable and
         not any(child.node_type is NodeType.ONOFFSWITCH
-- 
2.43.0


From a95a6c2837b8c7bc33ab964a69d33bb421a472ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 017/109] fix: an argument with an escaped punctuation
 character was split in two

---
 cmakelang/lex/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index aa4ab55..14af254 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -110,10 +110,11 @@ def tokenize(contents):
           r'("[^"\\]*(?:\\.[^"\\]*)*")',
           # Any element except whitespace or one of '()#"\'
           r'([^\s\(\)#"\\])',
-          # Escape sequences
+          # Escape sequences. Any character may be escaped, it is not up to
+          # the formatter to reject the ones with no meaning
           # https://cmake.org/cmake/help/v3.0/manual/
           #   cmake-language.7.html#grammar-token-escape_sequence
-          r'(\\[\(\)#" \\\$@^trn;])'
+          r'(\\[^\r\n])'
       ])
   )
 
@@ -123,10 +124,11 @@ def tokenize(contents):
       "|".join([
           # Any element except whitespace or one of '()#"\'
           r'([^\s\(\)#"\\])',
-          # Escape sequences
+          # Escape sequences. Any character may be escaped, it is not up to
+          # the formatter to reject the ones with no meaning
           # https://cmake.org/cmake/help/v3.0/manual/
           #   cmake-language.7.html#grammar-token-escape_sequence
-          r'(\\[\(\)#" \\\$@^trn;])'
+          r'(\\[^\r\n])'
       ])
   )
 
-- 
2.43.0


From 5ce9496fcc359a16ccc60595f40d69f039a77516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:27 +0000
Subject: [PATCH 018/109] fix: a lone escaped space was not tokenized as an
 argument

---
 cmakelang/lex/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 14af254..17d7d26 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -149,14 +149,14 @@ def tokenize(contents):
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
+      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-z_][a-zA-Z0-9_]*}(?![^\s\)])",
+      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From ea02df7e3704305997d23efa4f825ee45a304841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 019/109] fix: a line comment and a bracket comment were
 merged, losing one or crashing

---
 cmakelang/parse/simple_nodes.py | 13 +++++++++----
 cmakelang/parse/util.py         |  9 +++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index c971e19..b7dc8a9 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -10,7 +10,7 @@ from cmakelang.parse.util import (
     COMMENT_TOKENS, WHITESPACE_TOKENS,
     are_column_aligned, next_is_trailing_comment,
     next_is_explicit_trailing_comment,
-    is_valid_trailing_comment
+    is_valid_trailing_line_comment
 )
 from cmakelang.parse.common import NodeType, TreeNode
 
@@ -138,8 +138,13 @@ class CommentNode(TreeNode):
     parent.children.append(node)
     comment_tokens = node.children
 
+    if tokens[0].type == lex.TokenType.BRACKET_COMMENT:
+      # Bracket comments get their own node, see consume()
+      node.children.append(tokens.pop(0))
+      return
+
     comment_tokens = []
-    while tokens and is_valid_trailing_comment(tokens[0]):
+    while tokens and is_valid_trailing_line_comment(tokens[0]):
       if (comment_tokens and
           not are_column_aligned(comment_tokens[-1], tokens[0])):
         break
@@ -152,7 +157,7 @@ class CommentNode(TreeNode):
       # a single block
       if (len(tokens) > 1 and
           tokens[0].type == lex.TokenType.NEWLINE and
-          is_valid_trailing_comment(tokens[1])):
+          is_valid_trailing_line_comment(tokens[1])):
         node.children.append(tokens.pop(0))
 
       # Multiple comments separated only by one newline and some whitespace are
@@ -162,7 +167,7 @@ class CommentNode(TreeNode):
       elif (len(tokens) > 2 and
             tokens[0].type == lex.TokenType.NEWLINE and
             tokens[1].type == lex.TokenType.WHITESPACE and
-            is_valid_trailing_comment(tokens[2])):
+            is_valid_trailing_line_comment(tokens[2])):
         node.children.append(tokens.pop(0))
         node.children.append(tokens.pop(0))
 
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 2f060be..842b7f2 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -126,6 +126,15 @@ def is_valid_trailing_comment(token):
           not comment_is_tag(token))
 
 
+def is_valid_trailing_line_comment(token):
+  """
+  Return true if the token is a valid trailing comment, and may be merged with
+  the lines around it
+  """
+  return (token.type == lex.TokenType.COMMENT and
+          is_valid_trailing_comment(token))
+
+
 def is_comment_matching_pattern(token, regex):
   """
   Return true if the token is an explicit trailing comment
-- 
2.43.0


From 12998f18251e2f6ae142205356b32ed494c3bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 020/109] fix: blank lines at the start of a file were removed
 one format at a time

---
 cmakelang/format/formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 2a745da..d364041 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1744,8 +1744,11 @@ def create_box_tree(pnode):
     if not isinstance(pchild, TreeNode):
       continue
 
+    # A blank line at the start of the file is not a separator, and
+    # it would not be recognized as such when formatting a second time
     if (pchild.node_type == NodeType.WHITESPACE
-        and pchild.count_newlines() < 2):
+        and (pchild.count_newlines() < 2
+             or pchild.children[0].index == 0)):
       continue
 
     if pchild.node_type in MATCH_TYPES:
-- 
2.43.0


From f76d79b9103f78825eb75c9417c9a3e0f1500ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 021/109] fix: a list bullet followed by a tab was recognised
 only on the second run

---
 cmakelang/markup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 1432ff1..8e8b913 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -18,10 +18,10 @@ RULER_PATTERN = r'^\s*[^\w\s]{3}.*[^\w\s]{3}$'
 RULER_REGEX = re.compile(RULER_PATTERN)
 
 # Matches lines that start a bulleted list
-BULLET_REGEX = re.compile(r'^(\s*)([\*-])( .+)$')
+BULLET_REGEX = re.compile(r'^(\s*)([\*-])(\s.+)$')
 
 # Matches lines that start an itemized list
-ENUM_REGEX = re.compile(r'^(\s*)\d+([.:])( .+)$')
+ENUM_REGEX = re.compile(r'^(\s*)\d+([.:])(\s.+)$')
 
 # Matches a verbatim fence
 FENCE_PATTERN = r'^\s*([`~]{3}[`~]*)(.*)$'
@@ -119,7 +119,7 @@ def parse(lines, config=None):
         if bullet_punctuation == '*':
           bullet_punctuation = r'\*'
         bullet_regex = re.compile(
-            '^{}{}( .*)$'.format(indent_str, bullet_punctuation))
+            r'^{}{}(\s.*)$'.format(indent_str, bullet_punctuation))
         continue
 
       match = ENUM_REGEX.match(line)
@@ -134,7 +134,7 @@ def parse(lines, config=None):
         # TODO(josh) We want to match lines with either the same number of
         # spaces or with the colon in the same column
         bullet_regex = re.compile(
-            r'^{}\d+{}( .*)$'.format(indent_str, bullet_punctuation))
+            r'^{}\d+{}(\s.*)$'.format(indent_str, bullet_punctuation))
         continue
 
       if NOTE_REGEX.match(line):
-- 
2.43.0


From 005f5ed960706cfd62bcedb12b9bcb6ebde93870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 022/109] fix: an argument followed directly by a comment was
 not recognised (keywords, strings)

---
 cmakelang/lex/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 17d7d26..8eef209 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -138,25 +138,25 @@ def tokenize(contents):
       # double quoted string
       # NOTE(josh): regex borrowed from
       # https://stackoverflow.com/a/37379449/141023
-      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)])',
+      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)#])',
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # single quoted string
-      (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)])",
+      (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)#])",
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # bracket argument
-      (r"(?<![^\s\(])\[(=*)\[.*?\]\1\](?![^\s\)])",
+      (r"(?<![^\s\(])\[(=*)\[.*?\]\1\](?![^\s\)#])",
        lambda s, t: (TokenType.BRACKET_ARGUMENT, t)),
-      (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
+      (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(#])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(#])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
+      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(#])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)])",
+      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)#])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From cadbf782024968a8137f9c321e0ac49915875530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 023/109] fix: $() was split into two arguments

---
 cmakelang/lex/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 8eef209..bc7c3e0 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -105,7 +105,7 @@ def tokenize(contents):
   legacy_pattern = "({})+".format(
       "|".join([
           # Make-style variable like $(MAKE)
-          r'(\$\([^\$\(\)]+\))',
+          r'(\$\([^\$\(\)]*\))',
           # Quoted-substring
           r'("[^"\\]*(?:\\.[^"\\]*)*")',
           # Any element except whitespace or one of '()#"\'
-- 
2.43.0


From b61bd5f4c9bd4a6b6835a49485e4368e907a508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:33 +0000
Subject: [PATCH 024/109] fix: tab indentation changed multi-line strings and
 format-off regions

---
 cmakelang/format/__main__.py  |  1 -
 cmakelang/format/formatter.py | 56 +++++++++++++++--------------------
 2 files changed, 24 insertions(+), 33 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index cfbc9fe..d7279df 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -172,7 +172,6 @@ def process_file(config, infile_content, dump=None):
   if config.encode.emit_byteorder_mark:
     outstr = "\ufeff" + outstr
 
-  outstr = formatter.replace_with_tabs(outstr, config)
   return (outstr, box_tree.reflow_valid)
 
 
diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index d364041..415f0c6 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -110,40 +110,27 @@ def normalize_line_endings(instr):
   return re.sub('(\r?\n)|(\r\n?)', '\n', instr)
 
 
-def count_indentation(linestr):
-  """return the number of spaces at the start of the line"""
-  for idx, char in enumerate(linestr):
-    if char != ' ':
-      return idx
-  return 0
-
-
-def replace_with_tabs(content, config):
+def get_indentation(num_spaces, config):
   """
-  Apply the tab policy to `content`. If config.use_tabchars is true, then
-  replace spaces at the beginning of every line with tabs according to
-  config.tab_size and config.fractional_tab_policy.
+  Return the whitespace for an indentation of `num_spaces` columns. If
+  config.use_tabchars is true, then use tabs according to config.tab_size and
+  config.fractional_tab_policy.
   """
   if not config.format.use_tabchars:
-    return content
-
-  outlines = []
-  for inline in content.split("\n"):
-    num_spaces = count_indentation(inline)
-    num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
-    outline = "\t" * num_tabs
-    if fractional:
-      if config.format.fractional_tab_policy == "use-space":
-        outline += " " * fractional
-      elif config.format.fractional_tab_policy == "round-up":
-        outline += "\t"
-      else:
-        raise UserError(
-            "Invalid fractional_tab_policy='{}'"
-            .format(config.format.fractional_tab_policy))
-    outline += inline[num_spaces:]
-    outlines.append(outline)
-  return "\n".join(outlines)
+    return " " * num_spaces
+
+  num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
+  outstr = "\t" * num_tabs
+  if fractional:
+    if config.format.fractional_tab_policy == "use-space":
+      outstr += " " * fractional
+    elif config.format.fractional_tab_policy == "round-up":
+      outstr += "\t"
+    else:
+      raise UserError(
+          "Invalid fractional_tab_policy='{}'"
+          .format(config.format.fractional_tab_policy))
+  return outstr
 
 
 def need_paren_space(spelling, config):
@@ -1941,7 +1928,12 @@ class CursorFile(object):
 
     cols = (cursor[1] - self._cursor[1])
     if cols:
-      self._fobj.write(' ' * cols)
+      # NOTE: only the indentation is subject to the tab policy. The lines of
+      # a multi-line argument or comment are written verbatim
+      if self._cursor[1] == 0:
+        self._fobj.write(get_indentation(cols, self._config))
+      else:
+        self._fobj.write(' ' * cols)
       self._cursor[1] += cols
 
     lines = text.split('\n')
-- 
2.43.0


From 3a97b36085ce5135b7284dc922cf71afff82388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:39 +0000
Subject: [PATCH 025/109] fix: wrong line endings were not reported with
 'line_ending: auto'

---
 cmakelang/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/configuration.py b/cmakelang/configuration.py
index 7ecebc5..41540f2 100644
--- a/cmakelang/configuration.py
+++ b/cmakelang/configuration.py
@@ -350,6 +350,7 @@ class FormattingConfig(ConfigObject):
     return self.line_width
 
   def set_line_ending(self, detected):
+    self.line_ending = detected
     self.endl = {
         "windows": "\r\n",
         "unix": "\n"
-- 
2.43.0


From 280879ffc1b1f1d23ecf4902721447f472aa4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 026/109] fix: an unbalanced '(' was accepted in add_library,
 add_executable and property lists

---
 cmakelang/parse/additional_nodes.py    | 7 +++++++
 cmakelang/parse/funs/add_executable.py | 6 ++++++
 cmakelang/parse/funs/add_library.py    | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index f6c953f..5ee9a5c 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -5,6 +5,7 @@ from __future__ import unicode_literals
 import logging
 
 from cmakelang import lex
+from cmakelang.common import UserError
 from cmakelang.parse.util import (
     WHITESPACE_TOKENS, pargs_are_full, should_break, get_normalized_kwarg
 )
@@ -80,6 +81,12 @@ class TupleGroupNode(ArgGroupNode):
         child.children.append(token)
         continue
 
+      # Parenthetical groups are not allowed as members of a tuple
+      if token.type == lex.TokenType.LEFT_PAREN:
+        raise UserError(
+            "Unexpected {} token at {}"
+            .format(token.type.name, token.get_location()))
+
       if subtree is None:
         subtree = PositionalGroupNode()
         subtree.spec = PositionalSpec(2, False, [], flags)
diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 8f773bf..a93967e 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -1,6 +1,7 @@
 import logging
 
 from cmakelang import lex
+from cmakelang.common import UserError
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
@@ -110,6 +111,11 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       active_depth.children.append(OnOffNode.consume(ctx, tokens))
       continue
 
+    if tokens[0].type is lex.TokenType.LEFT_PAREN:
+      raise UserError(
+          "Unexpected {} token at {}, parenthetical groups are not allowed in"
+          " add_executable()".format(tokens[0].type.name, tokens[0].get_location()))
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index a76b721..f729dc2 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -1,5 +1,6 @@
 import logging
 
+from cmakelang.common import UserError
 from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
@@ -84,6 +85,11 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       active_depth.children.append(OnOffNode.consume(ctx, tokens))
       continue
 
+    if tokens[0].type is TokenType.LEFT_PAREN:
+      raise UserError(
+          "Unexpected {} token at {}, parenthetical groups are not allowed in"
+          " add_library()".format(tokens[0].type.name, tokens[0].get_location()))
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
-- 
2.43.0


From 54827d827fc136261ffedece1d72438cb0c51e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 027/109] fix: sortability annotations were ignored in front of
 the arguments of generic commands

---
 cmakelang/parse/argument_nodes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 9fb9023..9b7219a 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -10,6 +10,7 @@ from cmakelang.common import InternalError, UserError
 from cmakelang.parse.printer import dump_tree_tostr
 from cmakelang.parse.util import (
     comment_belongs_up_tree,
+    get_first_semantic_token,
     get_normalized_kwarg,
     get_tag,
     npargs_is_exact,
@@ -29,6 +30,7 @@ logger = logging.getLogger(__name__)
 
 
 DEFAULT_PSPEC = PositionalSpec("*")
+SORTABILITY_TAGS = ("sortable", "sort", "unsortable", "unsort")
 
 
 class ArgGroupNode(TreeNode):
@@ -130,8 +132,15 @@ class StandardArgTree(ArgGroupNode):
                             lex.TokenType.BRACKET_COMMENT):
         if comment_belongs_up_tree(ctx, tokens, tree, breakstack):
           break
-        tree.children.append(CommentNode.consume(ctx, tokens))
-        continue
+        # NOTE: a sortability annotation in front of a positional argument
+        # belongs to the group of positional arguments that starts there
+        next_semantic = get_first_semantic_token(tokens)
+        if (get_tag(tokens[0]) not in SORTABILITY_TAGS
+            or next_semantic is None
+            or should_break(next_semantic, breakstack)
+            or get_normalized_kwarg(next_semantic) in kwargs):
+          tree.children.append(CommentNode.consume(ctx, tokens))
+          continue
 
       # If it's a sentinel comment, then add it at the current depth
       if tokens[0].type in (lex.TokenType.FORMAT_OFF,
-- 
2.43.0


From 61ce0f20b1ace22e672a299d79960cdee70588c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 028/109] fix: source lists were sorted when $ENV{} or $CACHE{}
 may hide the command form

---
 cmakelang/parse/funs/add_executable.py |  3 ++-
 cmakelang/parse/funs/add_library.py    |  5 +++--
 cmakelang/parse/util.py                | 11 +++++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index a93967e..0b24441 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -12,6 +12,7 @@ from cmakelang.parse.util import (
     get_tag,
     get_normalized_kwarg,
     iter_semantic_tokens,
+    has_variable_reference,
     only_comments_and_whitespace_remain,
     PositionalSpec
 )
@@ -193,7 +194,7 @@ def parse_add_executable(ctx, tokens, breakstack):
   # sortability unless it is a word that doesn't match any of the descriminator
   # flags
   sortable = True
-  if "${" in second_token.spelling:
+  if has_variable_reference(second_token):
     sortable = False
 
   return parse_add_executable_standard(ctx, tokens, breakstack, sortable)
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index f729dc2..ba3ceac 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -11,6 +11,7 @@ from cmakelang.parse.util import (
     get_tag,
     get_normalized_kwarg,
     iter_semantic_tokens,
+    has_variable_reference,
     only_comments_and_whitespace_remain,
     PositionalSpec,
     should_break
@@ -276,8 +277,8 @@ def parse_add_library(ctx, tokens, breakstack):
   # sortability unless it is a word that doesn't match any of the descriminator
   # flags
   sortable = True
-  if "${" in second_token.spelling or (
-      third_token is not None and "${" in third_token.spelling):
+  if has_variable_reference(second_token) or (
+      third_token is not None and has_variable_reference(third_token)):
     sortable = False
   return parse_add_library_standard(ctx, tokens, breakstack, sortable)
 
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 842b7f2..74d92a5 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -117,6 +117,17 @@ def is_variable_dereference(token):
   return token.type is lex.TokenType.DEREF
 
 
+VARIABLE_REFERENCE = re.compile(r"\$(ENV|CACHE)?\{")
+
+
+def has_variable_reference(token):
+  """
+  Return true if the token contains a normal, environment, or cache variable
+  reference
+  """
+  return VARIABLE_REFERENCE.search(token.spelling) is not None
+
+
 def is_valid_trailing_comment(token):
   """
   Return true if the token is a valid trailing comment
-- 
2.43.0


From 9445964a3328b67eeacb5d9822cff1e842044e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 029/109] fix: a number at the start of a line was removed
 inside an enumerated comment

---
 cmakelang/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 8e8b913..f5264e3 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -134,7 +134,8 @@ def parse(lines, config=None):
         # TODO(josh) We want to match lines with either the same number of
         # spaces or with the colon in the same column
         bullet_regex = re.compile(
-            r'^{}\d+{}(\s.*)$'.format(indent_str, bullet_punctuation))
+            r'^{}\d+{}(\s.*)$'.format(
+                indent_str, re.escape(bullet_punctuation)))
         continue
 
       if NOTE_REGEX.match(line):
-- 
2.43.0


From f5867335c6069f24fbcbead449f97dc0c2318a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 030/109] fix: deeply nested lists in comments crashed the
 formatter

---
 cmakelang/markup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index f5264e3..633f82d 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -217,10 +217,10 @@ def format_item(config, line_width, item):
     return common.stable_wrap(wrapper, '\n'.join(item.lines).strip())
 
   if item.kind == CommentType.BULLET_LIST:
-    assert line_width > 2
     outlines = []
 
-    wrapper = textwrap.TextWrapper(width=line_width - 2, **COMMON_KWARGS)
+    wrapper = textwrap.TextWrapper(
+        width=max(1, line_width - 2), **COMMON_KWARGS)
     for line in item.lines:
       increment_lines = common.stable_wrap(wrapper, line.strip())
       outlines.append(config.markup.bullet_char + ' ' + increment_lines[0])
@@ -228,9 +228,9 @@ def format_item(config, line_width, item):
     return outlines
 
   if item.kind == CommentType.ENUM_LIST:
-    assert line_width > 2
     outlines = []
-    wrapper = textwrap.TextWrapper(width=line_width - 2, **COMMON_KWARGS)
+    wrapper = textwrap.TextWrapper(
+        width=max(1, line_width - 2), **COMMON_KWARGS)
 
     digits = int(math.ceil(math.log(len(item.lines), 10)))
     fmt = '{:%dd}%s ' % (digits, config.markup.enum_char)
-- 
2.43.0


From 295c3331d203ae664e641c0a7c2bcdf48a829f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 031/109] fix: reflow of a long comment with double blanks
 crashed ('failed to converge')

---
 cmakelang/common.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cmakelang/common.py b/cmakelang/common.py
index 610b545..903e00e 100644
--- a/cmakelang/common.py
+++ b/cmakelang/common.py
@@ -72,28 +72,23 @@ class EnumObject(object):
 def stable_wrap(wrapper, paragraph_text):
   """
   textwrap doesn't appear to be stable. We run it multiple times until it
-  converges
+  converges. It does, because each pass can only remove blanks (where it breaks
+  a line), but the number of passes grows with the length of the text.
   """
 
-  history = [paragraph_text]
   prev_text = paragraph_text
   wrap_text = paragraph_text
-  for _ in range(8):
+  while True:
     lines = wrapper.wrap(wrap_text)
     next_text = '\n'.join(line for line in lines)
     if next_text == prev_text:
       return lines
     prev_text = next_text
-    history.append(next_text)
 
     lines[0] = lines[0][len(wrapper.initial_indent):]
     lines[1:] = [line[len(wrapper.subsequent_indent):] for line in lines[1:]]
     wrap_text = '\n'.join(lines)
 
-  assert False, ("textwrap failed to converge on:\n\n {}"
-                 .format('\n\n'.join(history)))
-  return []
-
 
 class UserError(Exception):
   """Raised when we encounter a fatal problem with usage: e.g. parse error,
-- 
2.43.0


From be08b9a89922ce3c1c1f1dbf331625babfd17cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 032/109] fix: literal comments lost hash characters at the
 start of their lines

---
 cmakelang/format/formatter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 415f0c6..9d0eb92 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -42,9 +42,9 @@ def clamp(value, min_value, max_value):
   return value
 
 
-def get_comment_lines(config, node):
+def get_comment_lines(config, node, literal=False):
   """Given a comment node, iterate through it's tokens and generate a list
-  of textual lines."""
+  of textual lines. If `literal` is true, each line is preserved entirely."""
   inlines = []
   for token in node.children:
     assert isinstance(token, lex.Token), (
@@ -57,7 +57,7 @@ def get_comment_lines(config, node):
         inlines.append(inline[len(config.markup.explicit_trailing_pattern):])
         continue
 
-      if not config.markup.enable_markup:
+      if literal or not config.markup.enable_markup:
         # If markup processing is disabled, preserve the entire line regardless
         # of content
         inlines.append(inline[1:])
@@ -78,6 +78,7 @@ def format_comment_lines(node, stack_context, line_width):
   """
   config = stack_context.config
   inlines = get_comment_lines(config, node)
+  literal_lines = get_comment_lines(config, node, literal=True)
 
   if (isinstance(node, simple_nodes.CommentNode) and node.is_explicit_trailing):
     prefix = config.markup.explicit_trailing_pattern
@@ -90,12 +91,12 @@ def format_comment_lines(node, stack_context, line_width):
   if config.markup.literal_comment_pattern is not None:
     literal_comment_regex = re.compile(config.markup.literal_comment_pattern)
     if literal_comment_regex.match('\n'.join(inlines)):
-      return [prefix + line.rstrip() for line in inlines]
+      return [prefix + line.rstrip() for line in literal_lines]
 
   if node.children[0] is stack_context.first_token and (
       config.markup.first_comment_is_literal
       or stack_context.first_token.spelling.startswith("#!")):
-    return [prefix + line.rstrip() for line in inlines]
+    return [prefix + line.rstrip() for line in literal_lines]
 
   items = markup.parse(inlines, config)
   markup_lines = markup.format_items(config, max(10, line_width - 2), items)
-- 
2.43.0


From 3974b25020e1a3265350e911f67c7a32e65ce302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 033/109] fix: explicit trailing comments were wrapped one
 column past the line width

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 9d0eb92..7fee486 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -99,7 +99,8 @@ def format_comment_lines(node, stack_context, line_width):
     return [prefix + line.rstrip() for line in literal_lines]
 
   items = markup.parse(inlines, config)
-  markup_lines = markup.format_items(config, max(10, line_width - 2), items)
+  markup_lines = markup.format_items(
+      config, max(10, line_width - len(prefix) - 1), items)
   return [prefix + (" " * len(line[:1])) + line for line in markup_lines]
 
 
-- 
2.43.0


From 0a3502e639ab6b4cab548ceaca584fd2918567a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 034/109] fix: never overwrite the input file piecemeal during
 in-place formatting

---
 cmakelang/format/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index d7279df..cb6f7da 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -564,7 +564,9 @@ def onefile_main(infile_path, args, argparse_dict):
 
   if args.in_place:
     shutil.copymode(infile_path, tempfile_path)
-    shutil.move(tempfile_path, infile_path)
+    # NOTE: a rename replaces the file in one step. shutil.move() would fall
+    # back to overwriting it piecemeal if the rename fails.
+    getattr(os, "replace", os.rename)(tempfile_path, infile_path)
 
 
 def inner_main():
-- 
2.43.0


From f4a3a41d820642ccf35af18896ed80ce1e888038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 035/109] fix: python config files without extension that are
 valid yaml were ignored

---
 cmakelang/format/__main__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index cb6f7da..d6b6f54 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -25,6 +25,7 @@ import io
 import json
 import logging
 import os
+import re
 import shutil
 import sys
 
@@ -241,17 +242,28 @@ def try_get_configdict(configfile_path):
   except:  # pylint: disable=bare-except
     pass
 
+  yaml_dict = None
   try:
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return load_yaml(config_file)
+      yaml_dict = load_yaml(config_file)
   except:  # pylint: disable=bare-except
     pass
 
+  # NOTE: many python config files happen to be valid yaml, e.g. a single
+  # string or a mapping with a key like `with section("format")`.
+  if not isinstance(yaml_dict, Mapping):
+    yaml_dict = None
+  elif all(re.match(r"^[\w-]+$", str(key)) for key in yaml_dict):
+    return yaml_dict
+
   try:
     return exec_pyconfig(configfile_path)
   except:  # pylint: disable=bare-except
     pass
 
+  if yaml_dict is not None:
+    return yaml_dict
+
   raise RuntimeError("Failed to parse {} as any of yaml, json, or python"
                      .format(configfile_path))
 
-- 
2.43.0


From e999dbd5ac5b5ea9cf1302a1df9345ae26234b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 036/109] fix: emit the input unchanged if formatting is
 disabled

---
 cmakelang/format/__main__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index d6b6f54..c49848a 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -523,7 +523,7 @@ def onefile_main(infile_path, args, argparse_dict):
   # apply to each file
   cfg.legacy_consume(dict(argparse_dict))
 
-  if cfg.format.disable:
+  if cfg.format.disable and (args.in_place or args.check or args.dump):
     return
 
   if infile_path == '-':
@@ -536,7 +536,11 @@ def onefile_main(infile_path, args, argparse_dict):
     intext = infile.read()
 
   try:
-    outtext, reflow_valid = process_file(cfg, intext, args.dump)
+    if cfg.format.disable:
+      # NOTE: the output is exactly the same content as the input
+      outtext, reflow_valid = intext, True
+    else:
+      outtext, reflow_valid = process_file(cfg, intext, args.dump)
     if cfg.format.require_valid_layout and not reflow_valid:
       raise common.FormatError("Failed to format {}".format(infile_path))
   except:
-- 
2.43.0


From 9ed44f1806d0e613bb30f5d49eebc0252da4c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:59 +0000
Subject: [PATCH 037/109] fix: options set at the top level of an earlier
 config file overrode those of later files

---
 cmakelang/format/__main__.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index c49848a..58262f7 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -314,6 +314,23 @@ def get_one_config_dict(configfile_path):
   return try_get_configdict(configfile_path)
 
 
+def move_to_sections(config_dict):
+  """
+  Move any options at the top level of `config_dict` (the legacy style) into
+  their section, so that they are merged with those of other config files.
+  """
+  # pylint: disable=protected-access
+  for descr in configuration.Configuration._field_registry:
+    if not isinstance(descr, config_util.SubtreeDescriptor):
+      continue
+    for name in descr.subtree_class.get_field_names():
+      if name not in config_dict:
+        continue
+      section = config_dict.setdefault(descr.name, {})
+      if isinstance(section, dict):
+        section[name] = config_dict.pop(name)
+
+
 def get_configdict(configfile_paths):
   include_queue = list(configfile_paths)
   config_dict = {}
@@ -327,6 +344,7 @@ def get_configdict(configfile_paths):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
       include_queue.append(include_path)
+    move_to_sections(increment_dict)
     map_merge(config_dict, increment_dict)
   return config_dict
 
-- 
2.43.0


From 9d9daabfe23559d11384124bb971c9de26c8931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 038/109] fix: included config files overrode the options of
 config files listed later

---
 cmakelang/format/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 58262f7..5276c8e 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -339,11 +339,15 @@ def get_configdict(configfile_paths):
     configfile_path = os.path.expanduser(configfile_path)
     increment_dict = get_one_config_dict(configfile_path)
 
+    include_paths = []
     for include_path in increment_dict.pop("include", []):
       if not os.path.isabs(include_path):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
-      include_queue.append(include_path)
+      include_paths.append(include_path)
+    # NOTE: the files included by this one are read before the next listed one,
+    # so that they do not override its values.
+    include_queue = include_paths + include_queue
     move_to_sections(increment_dict)
     map_merge(config_dict, increment_dict)
   return config_dict
-- 
2.43.0


From db10b107762a9a15acb8da7725e0b8aca3c32fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 039/109] fix: specifications of commands no longer declared
 (e.g. the demo command) stayed in effect

---
 cmakelang/configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmakelang/configuration.py b/cmakelang/configuration.py
index 41540f2..9251076 100644
--- a/cmakelang/configuration.py
+++ b/cmakelang/configuration.py
@@ -399,6 +399,8 @@ class ParseConfig(ConfigObject):
     super(ParseConfig, self).__init__(**kwargs)
 
   def _update_derived(self):
+    # NOTE: start from scratch, the options may have changed
+    self.fn_spec = parse_util.CommandSpec("<root>")
     if self.additional_commands is not None:
       for command_name, spec in self.additional_commands.items():
         self.fn_spec.add(command_name, **spec)
-- 
2.43.0


From 8e28fbae3f5e03c83256180824c4eda4dc743cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 040/109] fix: cmake-lint: a directive comment takes effect on
 its own line

When a directive is not the first line of the comment, the suppression
was applied at the first line, so that inside of a statement it missed
the line with the directive (and hit a line it does not concern).
---
 cmakelang/lint/basic_checker.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 12965d2..31b2ab6 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -468,8 +468,9 @@ class LintChecker(object):
 
   def parse_pragmas_from_comment(self, node):
     """Parse any cmake-lint directives (pragmas) from line comment tokens within
-      the comment node."""
-    suppressions = []
+      the comment node. Return a list of (lineno, idlist) pairs, one for each
+      line with a directive that requests a suppression."""
+    requests = []
     for child in node.children:
       if not isinstance(child, Token):
         continue
@@ -483,9 +484,12 @@ class LintChecker(object):
       row, col, _ = token.get_location()
       content = token.spelling[len(pragma_prefix):]
       col += len(pragma_prefix)
+      suppressions = []
       self.parse_pragmas_from_token(content, row, col, suppressions)
+      if suppressions:
+        requests.append((row, suppressions))
 
-    return suppressions
+    return requests
 
   def check_body(self, node):
     """Perform checks on a body node."""
@@ -498,11 +502,8 @@ class LintChecker(object):
         continue
 
       if child.node_type is NodeType.COMMENT:
-        requested_suppressions = self.parse_pragmas_from_comment(child)
-        if requested_suppressions:
-          lineno = child.get_tokens()[0].get_location().line
-          new_suppressions = local_ctx.suppress(lineno, requested_suppressions)
-          suppressions.extend(new_suppressions)
+        for lineno, idlist in self.parse_pragmas_from_comment(child):
+          suppressions.extend(local_ctx.suppress(lineno, idlist))
 
       # Check for docstrings
       # TODO(josh): move into flow-control or fundef/macrodef checkers? Would
@@ -737,14 +738,10 @@ class LintChecker(object):
     if not self.am_in_statement():
       return
 
-    requested_suppressions = self.parse_pragmas_from_comment(node)
-    if not requested_suppressions:
-      return
-
     (_cfg, local_ctx) = self.context
-    lineno = node.get_tokens()[0].get_location().line
-    new_suppressions = local_ctx.suppress(lineno, requested_suppressions)
-    local_ctx.unsuppress(lineno + 1, new_suppressions)
+    for lineno, idlist in self.parse_pragmas_from_comment(node):
+      new_suppressions = local_ctx.suppress(lineno, idlist)
+      local_ctx.unsuppress(lineno + 1, new_suppressions)
 
   def am_in_statement(self):
     for node in self._node_stack:
-- 
2.43.0


From d24bcb9f49ae2edec1adcc3aa58de4de40fcf492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 041/109] fix: cmake-lint: scan a file that is listed twice
 only once

The findings of the first scan were reported again together with those of
the second, and none of it agreed with the summary.
---
 cmakelang/lint/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 9c69002..fb741f5 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -135,6 +135,10 @@ def inner_main():
   argdict = __main__.get_argdict(args)
 
   for infile_path in args.infilepaths:
+    if infile_path in global_ctx.file_ctxs:
+      # the same path was given more than once, and is already reported
+      continue
+
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-- 
2.43.0


From 4ee39c4dd6ba291e8ee29c58beaacbef962f41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 042/109] fix: crash on surplus arguments of a keyword or
 command declared to take none

---
 cmakelang/parse/argument_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 9b7219a..d84dc88 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -92,7 +92,9 @@ class StandardArgTree(ArgGroupNode):
     """
 
     # NOTE(josh): we will pop things off this list, so let's make a copy
-    pargspecs = list(cmdspec.pargs)
+    # NOTE: a group of zero arguments consumes nothing, so there is no subtree
+    # for it
+    pargspecs = [pspec for pspec in cmdspec.pargs if pspec.nargs != 0]
     tree = cls()
     tree.cmdspec = cmdspec
 
-- 
2.43.0


From 5cfdacaf311ea299d3c2259ebc0e909a7ea4ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 043/109] fix: nargs of a positional group declared as a
 dictionary was ignored

---
 cmakelang/parse/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 74d92a5..d82352d 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -465,7 +465,7 @@ def parse_pspec(pargs, flags):
 
     if isinstance(pargdecl, dict):
         # A dictionary is interpreted as init kwargs
-      if "npargs" not in pargdecl:
+      if "nargs" not in pargdecl:
         pargdecl = dict(pargdecl)
         pargdecl["nargs"] = ZERO_OR_MORE
       out.append(PositionalSpec(**pargdecl))
-- 
2.43.0


From 1e2733f708d445430e9ddfa2f57b11c3744a3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 044/109] fix: an exact number of arguments declared as a
 string ("3") was not exact

---
 cmakelang/parse/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index d82352d..ef3bc07 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -64,6 +64,9 @@ class PositionalSpec(tuple):
       tags = []
     if not flags:
       flags = []
+    if isinstance(nargs, STRING_TYPES) and nargs.isdigit():
+      # e.g. "3" is the same as 3, an exact number of arguments
+      nargs = int(nargs)
     return tuple.__new__(
         cls, (nargs, sortable, tags, flags, legacy, max_pargs_hwrap,
               always_wrap))
-- 
2.43.0


From 81f4b955f38674b17fe9517f1c90d9dcdc1c765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 045/109] fix: keywords and flags declared in lower case were
 not recognized

Neither were those which are no words, such as FOO-BAR. Likewise the path
of an override names commands and keywords in any case.
---
 cmakelang/parse/util.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index ef3bc07..d9c4b4d 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -64,6 +64,7 @@ class PositionalSpec(tuple):
       tags = []
     if not flags:
       flags = []
+    flags = [normalize_kwarg(flag) for flag in flags]
     if isinstance(nargs, STRING_TYPES) and nargs.isdigit():
       # e.g. "3" is the same as 3, an exact number of arguments
       nargs = int(nargs)
@@ -294,19 +295,26 @@ def get_tag(token):
   return None
 
 
-def get_normalized_kwarg(token):
+def normalize_kwarg(spelling):
   """
-  Return uppercase token spelling if it is a word, otherwise return None
+  Return the spelling by which a keyword or flag is looked up: they match in
+  any case.
   """
+  if spelling.startswith('-'):
+    return spelling.lower()
+  return spelling.upper()
+
 
-  if (token.type == lex.TokenType.UNQUOTED_LITERAL
-      and token.spelling.startswith('-')):
-    return token.spelling.lower()
+def get_normalized_kwarg(token):
+  """
+  Return normalized token spelling if it may be a keyword or flag, otherwise
+  return None
+  """
 
-  if token.type != lex.TokenType.WORD:
+  if token.type not in (lex.TokenType.UNQUOTED_LITERAL, lex.TokenType.WORD):
     return None
 
-  return token.spelling.upper()
+  return normalize_kwarg(token.spelling)
 
 
 def should_break(token, breakstack):
@@ -525,12 +533,13 @@ class CommandSpec(object):
             .format(type(kwargs), name, kwargs))
 
       for keyword, spec in items:
+        key = normalize_kwarg(keyword)
         if isinstance(spec, scalar_types):
-          self.kwargs[keyword] = CommandSpec(name=keyword, pargs=spec)
+          self.kwargs[key] = CommandSpec(name=keyword, pargs=spec)
         elif isinstance(spec, CommandSpec):
-          self.kwargs[keyword] = spec
+          self.kwargs[key] = spec
         elif isinstance(spec, dict):
-          self.kwargs[keyword] = CommandSpec(name=keyword, **spec)
+          self.kwargs[key] = CommandSpec(name=keyword, **spec)
         else:
           raise ValueError("Unexpected type '{}' for kwargs"
                            .format(type(kwargs)))
@@ -590,10 +599,13 @@ def apply_overrides(spectree, pathkeystr, value):
       spectree.pargs[idx] = spectree.pargs[idx].replace(**repl)
       return
 
-    if pathkey not in spectree.kwargs:
+    # NOTE: commands and keywords match in any case
+    matches = [
+        key for key in spectree.kwargs if key.lower() == pathkey.lower()]
+    if not matches:
       raise UserError(
           "Invalid override key {} at {}".format(pathkeystr, pathkey))
-    spectree = spectree.kwargs[pathkey]
+    spectree = spectree.kwargs[matches[0]]
 
   if not hasattr(spectree, keystr):
     raise UserError(
-- 
2.43.0


From 2a4692d4f76699132b490ac74ffe50c61f83fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 046/109] fix: declared flags were not recognized after the
 declared number of positional arguments

---
 cmakelang/parse/argument_nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index d84dc88..e52a16d 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -110,7 +110,10 @@ class StandardArgTree(ArgGroupNode):
     # positional argument specifications
     # TODO(josh): double check the reasoning for this. I think it might be
     # mistaken and unnecessary
-    default_spec = DEFAULT_PSPEC
+    # NOTE: flags may follow after the last of the declared groups (e.g. after
+    # a keyword)
+    default_spec = DEFAULT_PSPEC.replace(
+        flags=[flag for pspec in cmdspec.pargs for flag in pspec.flags])
     if (len(pargspecs) == 1 and pargspecs[0].legacy
         and not npargs_is_exact(pargspecs[0].nargs)):
       default_spec = pargspecs.pop(0)
-- 
2.43.0


From 74cf8ae0a783ada38c04ed14c069319610a5b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 047/109] fix: overrides of pargs or kwargs crashed, as did a
 group out of bounds

---
 cmakelang/parse/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index d9c4b4d..aaa0813 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -590,7 +590,7 @@ def apply_overrides(spectree, pathkeystr, value):
         raise UserError(
             "Invalid override key {} contains non-int pspec"
             .format(pathkeystr))
-      if idx > len(spectree.pargs):
+      if idx >= len(spectree.pargs):
         raise UserError(
             "Invalid override key {} is out of bounds"
             .format(pathkeystr))
@@ -612,6 +612,10 @@ def apply_overrides(spectree, pathkeystr, value):
         "Invalid override key {}, keypart {} is not valid for type {}"
         .format(pathkeystr, keystr, type(spectree)))
 
+  if keystr in ("pargs", "kwargs"):
+    # These are stored in their parsed form
+    value = getattr(CommandSpec(spectree.name, **{keystr: value}), keystr)
+
   try:
     setattr(spectree, keystr, value)
   except AttributeError:
-- 
2.43.0


From 2085c946bda1799dca00f7a07269d2a54b0e1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 048/109] fix: crash when declared positional arguments are
 missing altogether

---
 cmakelang/parse/argument_nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index e52a16d..e35f33d 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -175,6 +175,10 @@ class StandardArgTree(ArgGroupNode):
         if not npargs_is_exact(pspec.nargs) or pspec.nargs == 0:
           break
 
+        # Arguments are missing
+        if tokens[0].type == lex.TokenType.RIGHT_PAREN:
+          break
+
       ntokens = len(tokens)
       word = get_normalized_kwarg(tokens[0])
       if word in kwargs:
-- 
2.43.0


From f85d1e02b9d2d3a563b8d27af6419022c7eddb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 049/109] fix: crash when a group of optional arguments is
 absent before a flag of a later group

---
 cmakelang/parse/argument_nodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index e35f33d..02bee9a 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -201,6 +201,12 @@ class StandardArgTree(ArgGroupNode):
         positional_breakstack = breakstack + [
             KwargBreaker(list(kwargs.keys()) + other_flags)]
 
+        if (not npargs_is_exact(pspec.nargs)
+            and should_break(tokens[0], positional_breakstack)):
+          # There are no arguments for this group: the next one is a flag of a
+          # later group
+          continue
+
         with ctx.pusharg(tree):
           subtree = PositionalGroupNode.parse2(
               ctx, tokens, pspec, positional_breakstack)
-- 
2.43.0


From 8b9517a56e5a239af4a3b9898439d7a3fc2e55fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 050/109] fix: --dump-config dropped per_command entries of
 commands with a default spelling

The configuration holds only what the user set; the defaults are kept apart,
so there is nothing to remove from the dump.
---
 cmakelang/format/__main__.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 5276c8e..89c7556 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -40,7 +40,6 @@ from cmakelang import parse
 from cmakelang.parse.argument_nodes import StandardParser2
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.printer import dump_tree as dump_parse
-from cmakelang.parse.funs import standard_funs
 
 
 logger = logging.getLogger(__name__)
@@ -414,10 +413,6 @@ def dump_config(args, config_dict, outfile):
   outfmt = args.dump_config
   config_dict.update(get_argdict(args))
   cfg = configuration.Configuration(**config_dict)
-  # Don't dump default per-command configs
-  for key in standard_funs.get_default_config():
-    cfg.misc.per_command.pop(key, None)
-
   if outfmt == 'yaml':
     import yaml
     yaml_register_odict(yaml.SafeDumper)
-- 
2.43.0


From cce115371f945b1ab95c1e1bbf9a776a99d8c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 051/109] fix: keep the order of dictionaries when dumping the
 configuration as python

Two commands of additional_commands or per_command may differ only by case.
The last one is in effect, and sorting them could exchange the two.
---
 cmakelang/config_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/config_util.py b/cmakelang/config_util.py
index 25e7a3e..da42d97 100644
--- a/cmakelang/config_util.py
+++ b/cmakelang/config_util.py
@@ -427,7 +427,11 @@ class ConfigObject(six.with_metaclass(ConfigMeta)):
     linewidth = 80 - len(indent)
     comment_linewidth = 80 - len(indent) - len("# ")
 
-    ppr = pprint.PrettyPrinter(indent=2, width=linewidth)
+    pprint_kwargs = {}
+    if sys.version_info >= (3, 8, 0):
+      # NOTE: the order matters if two keys differ only by case
+      pprint_kwargs["sort_dicts"] = False
+    ppr = pprint.PrettyPrinter(indent=2, width=linewidth, **pprint_kwargs)
     for descr in self._field_registry:
       fieldname = descr.name
       value = descr.__get__(self, type(self))
-- 
2.43.0


From ab34ff5eaf58c0cae5ca434babd5f4ec0dae1b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 052/109] fix: two comment lines in different columns inside a
 statement were joined on one line

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 7fee486..85c95ed 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -167,7 +167,8 @@ def is_line_comment(node):
   if not node.children:
     return False
 
-  return node.children[-1].type == TokenType.COMMENT
+  # NOTE: there may be whitespace tokens behind the comment tokens
+  return node.children[0].type == TokenType.COMMENT
 
 
 def get_pathstr(node_path):
-- 
2.43.0


From ff73b5a8fbea6e273e60960c25a12ae1cf186539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 053/109] fix: report unindented lines and ignore blank lines
 in the indentation lint

---
 cmakelang/lint/basic_checker.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 31b2ab6..0bc50e9 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -771,26 +771,34 @@ class LintChecker(object):
       self._indent_token = token
       return
 
-    if self._indent_token:
+    if token.type is TokenType.NEWLINE:
+      # There is nothing on this line which could be indented
+      self._indent_token = None
+      return
+
+    if self._indent_token or token.get_location().col == 0:
       # This is the first non-whitespace token on this line
+      indentation = ""
+      if self._indent_token:
+        indentation = self._indent_token.spelling
       desired_indentation = (self.get_scope_depth() - 1) * cfg.format.tab_size
 
       # Instead of using the column, we could get the previous token in the
       # token stream
       actual_indentation = (
-          len(self._indent_token.spelling) +
-          self._indent_token.spelling.count("\t") * (cfg.format.tab_size - 1))
+          len(indentation) +
+          indentation.count("\t") * (cfg.format.tab_size - 1))
 
       if self.am_in_arggroup():
         if actual_indentation < desired_indentation:
           local_ctx.record_lint(
-              "C0307", self._indent_token.spelling, token.spelling,
+              "C0307", indentation, token.spelling,
               " " * desired_indentation, ">", location=token.get_location())
       else:
         if actual_indentation != desired_indentation:
           msg = "->".join([str(x) for x in self._node_stack])
           local_ctx.record_lint(
-              "C0307", self._indent_token.spelling, token.spelling,
+              "C0307", indentation, token.spelling,
               " " * desired_indentation, msg, location=token.get_location())
 
       self._indent_token = None
-- 
2.43.0


From 62835872551b4fed0a60f81e98786ccb9b1aa600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 054/109] fix: lint crash on a condition consisting of the loop
 variable only

---
 cmakelang/lint/basic_checker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 0bc50e9..5672d21 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -322,7 +322,8 @@ class LintChecker(object):
           if not tokens:
             continue
           if tokens[0].spelling == loopvar.spelling:
-            if tokens[1].spelling in ("STREQUAL", "MATCHES"):
+            if (len(tokens) > 1 and
+                tokens[1].spelling in ("STREQUAL", "MATCHES")):
               conditional_count += 1
         if conditional_count > cfg.lint.max_conditionals_custom_parser:
           local_ctx.record_lint("C0201", location=loop_stmt.get_location())
-- 
2.43.0


From fce40fb7a6dc5d6128915bec56a3925a0c47d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 055/109] fix: a bracket comment is not an empty docstring

---
 cmakelang/lint/basic_checker.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 5672d21..b13ece5 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -99,6 +99,16 @@ def get_prefix_comment(prevchild):
   return prevchild[1]
 
 
+def get_docstring(cfg, comment_node):
+  """Return the text of a documentation comment, which may be made of line
+     comments or a bracket comment."""
+  lines = get_comment_lines(cfg, comment_node)
+  for token in comment_node.children:
+    if isinstance(token, Token) and token.type is TokenType.BRACKET_COMMENT:
+      lines.append(token.spelling.strip("#[=]"))
+  return "".join(lines)
+
+
 def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
@@ -516,7 +526,7 @@ class LintChecker(object):
           if not prefix_comment:
             local_ctx.record_lint(
                 "C0111", location=child.get_semantic_tokens()[0].get_location())
-          elif not "".join(get_comment_lines(cfg, prefix_comment)).strip():
+          elif not get_docstring(cfg, prefix_comment).strip():
             local_ctx.record_lint(
                 "C0112", location=child.get_semantic_tokens()[0].get_location())
 
-- 
2.43.0


From f9a1540180794a4515536af2773df51389d6de8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 056/109] fix: a bracket comment in front of a statement is not
 another statement

---
 cmakelang/lint/basic_checker.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index b13ece5..a095204 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -99,6 +99,22 @@ def get_prefix_comment(prevchild):
   return prevchild[1]
 
 
+def shares_line_with_statement(body, idx):
+  """Return true if the child `idx` of a body starts on the line where the
+     statement in front of it ends. There may be comments in between."""
+  for node in reversed(body.children[:idx]):
+    if node.node_type is NodeType.WHITESPACE:
+      if node.count_newlines() > 0:
+        return False
+    elif node.node_type is NodeType.COMMENT:
+      if any("\n" in token.spelling for token in node.get_tokens()):
+        return False
+    else:
+      return True
+  # The first child of a block follows the statement opening that block
+  return body.parent is not None
+
+
 def get_docstring(cfg, comment_node):
   """Return the text of a documentation comment, which may be made of line
      comments or a bracket comment."""
@@ -536,10 +552,10 @@ class LintChecker(object):
       if child.node_type in (NodeType.FLOW_CONTROL, NodeType.STATEMENT):
         if prevchild[0] is None:
           pass
-        elif prevchild[0].node_type is not NodeType.WHITESPACE:
-          local_ctx.record_lint("C0321", location=child.get_location())
-        elif prevchild[0].count_newlines() < 1:
-          local_ctx.record_lint("C0321", location=child.get_location())
+        elif (prevchild[0].node_type is not NodeType.WHITESPACE or
+              prevchild[0].count_newlines() < 1):
+          if shares_line_with_statement(node, idx):
+            local_ctx.record_lint("C0321", location=child.get_location())
         elif prevchild[0].count_newlines() < cfg.lint.min_statement_spacing:
           local_ctx.record_lint(
               "C0305", "not enough", location=child.get_location())
-- 
2.43.0


From 7e4dfdba4a0f3ef269ea1c20833513304ac3089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 057/109] fix: crash on a foreach() without items

---
 cmakelang/parse/funs/foreach.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index 17bf40f..2e25853 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -149,14 +149,17 @@ def parse_foreach(ctx, tokens, breakstack):
 
   semantic_iter = iter_semantic_tokens(tokens)
   # first token is always the loop variable
-  _ = next(semantic_iter, None)
+  first_token = next(semantic_iter, None)
   # Second token is usually the descriminator
   second_token = next(semantic_iter, None)
 
-  if second_token is None:
+  paren_types = (lex.TokenType.LEFT_PAREN, lex.TokenType.RIGHT_PAREN)
+  if (first_token is None or first_token.type in paren_types or
+      second_token is None or
+      second_token.type is lex.TokenType.RIGHT_PAREN):
     # All foreach() statements should have at least two arguments
     logger.warning("Invalid foreach() statement at %s",
-                   tokens[0].get_location())
+                   tokens[0].get_location() if tokens else ())
     return StandardArgTree.parse(
         ctx, tokens, npargs='*', kwargs={}, flags=[], breakstack=breakstack)
 
-- 
2.43.0


From f91931b8797b5a3061022d3b1490451d4a83719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 058/109] fix: crash on a set() or list() which doesn't name a
 variable

---
 cmakelang/lint/basic_checker.py | 17 ++++++++++++++---
 cmakelang/parse/funs/set.py     |  9 +++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index a095204..2b08493 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -129,7 +129,11 @@ def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
      variable name."""
+  if not node.argtree.parg_groups:
+    return None
   semtoks = node.argtree.parg_groups[0].get_tokens(kind="semantic")
+  if not semtoks:
+    return None
   listcmd = semtoks[0].spelling
   if listcmd.upper() in ("LENGTH", "GET", "JOIN", "SUBLIST"):
     return semtoks[-1]
@@ -643,12 +647,13 @@ class LintChecker(object):
       varname = node.argtree.varname
     elif node.get_funname() == "list":
       varname = get_list_outvar(node)
-      if varname is None:
-        return
     else:
       logger.warning("Unexpected node %s (%s)", node, node.get_funname())
       return
 
+    if varname is None:
+      return
+
     resolved = mock_varrefs(varname.spelling, "")
 
     # The variable name is hidden behind a variable reference so we can't
@@ -741,9 +746,15 @@ class LintChecker(object):
       if stmt.get_funname() == "set":
         token = stmt.argtree.varname
       elif stmt.get_funname() == "list":
-        token = stmt.argtree.parg_groups[0].get_tokens(kind="semantic")[1]
+        token = None
+        if stmt.argtree.parg_groups:
+          semtoks = stmt.argtree.parg_groups[0].get_tokens(kind="semantic")
+          token = semtoks[1] if len(semtoks) > 1 else None
       else:
         continue
+      if token is None:
+        # The statement doesn't name a variable
+        continue
       self.check_varname(token.spelling, token, "Assignment to")
 
   def check_variable_references(self, tree):
diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index c877bbe..ce8a82b 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -50,8 +50,13 @@ def parse_set(ctx, tokens, breakstack):
   ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(
       ctx, tokens, 1, flags, positional_breakstack)
-  assert len(tokens) < ntokens
-  tree.children.append(subtree)
+  if len(tokens) < ntokens:
+    tree.children.append(subtree)
+  else:
+    location = ()
+    if tokens:
+      location = tokens[0].get_location()
+    ctx.lint_ctx.record_lint("E1120", location=location)
   for token in subtree.get_semantic_tokens():
     tree.varname = token
     break
-- 
2.43.0


From cc7b7a138adc8a0751cb7374047be98405496a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 059/109] fix: lint crash on a surplus positional argument of
 add_custom_target()

---
 cmakelang/parse/funs/add_xxx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 59dc699..20dcd1e 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -249,7 +249,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
       tree.children.append(subtree)
       continue
 
-    ctx.lint_ctx.record_lint("E1122", location=tokens[0].get_location())
+    ctx.lint_ctx.record_lint("E1121", location=tokens[0].get_location())
     # logger.warning(
     #     "Unexpected positional argument %s at %s",
     #     tokens[0].spelling, tokens[0].location())
-- 
2.43.0


From 2e24cbdfc766897cd1bca93ba6f42694595ff4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 060/109] fix: lint crash on every build_command()

---
 cmakelang/parse/funs/miscellaneous.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 2ab3e56..9c5c90f 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -30,9 +30,11 @@ def parse_build_command(ctx, tokens, breakstack):
   }
 
   second_token = get_nth_semantic_token(tokens, 1)
-  if second_token is not None and second_token.spelling.upper not in kwargs:
+  if (second_token is not None and
+      second_token.type is not lex.TokenType.RIGHT_PAREN and
+      second_token.spelling.upper() not in kwargs):
     ctx.lint_ctx.record_lint(
-        "W0106", "build_command(<cachevariable> <makecommand>)",
+        "W0104", "build_command(<cachevariable> <makecommand>)",
         location=tokens[0].get_location())
     return StandardArgTree.parse(ctx, tokens, "2", {}, [], breakstack)
 
-- 
2.43.0


From 11dffcf751bcd46484b0641bc64964fc85676696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 061/109] fix: lint about missing arguments of an empty group
 had no location

---
 cmakelang/lint/basic_checker.py | 6 ++++++
 cmakelang/parse/funs/add_xxx.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 2b08493..f6f249f 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -606,6 +606,12 @@ class LintChecker(object):
     min_npargs = get_min_npargs(node.spec.npargs)
     semantic_tokens = node.get_semantic_tokens()
     if len(semantic_tokens) < min_npargs:
+      # An empty group doesn't have a location of it's own, so use that of the
+      # group or statement that it belongs to.
+      locnode = node
+      while not semantic_tokens and locnode.parent is not None:
+        locnode = locnode.parent
+        semantic_tokens = locnode.get_semantic_tokens()
       location = ()
       if semantic_tokens:
         location = semantic_tokens[0].get_location()
diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 20dcd1e..71fbec1 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -260,7 +260,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
 
   if required_kwargs:
     location = ()
-    for token in tree.get_semantic_tokens():
+    for token in tree.get_semantic_tokens() + tokens:
       location = token.get_location()
       break
 
-- 
2.43.0


From d8e324662a415783ed30a8b677cb9b8d812e0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:56 +0000
Subject: [PATCH 062/109] fix: always_wrap had no effect inside blocks

---
 cmakelang/format/formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 85c95ed..355c7a0 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -181,6 +181,8 @@ def get_pathstr(node_path):
       continue
     if isinstance(node, ArgGroupNode):
       continue
+    if isinstance(node, FlowControlNode):
+      continue
     pathcopy.append(node)
 
   # Construct names
-- 
2.43.0


From 6563191e3f4b96f01f961245a11b8178f73acd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 063/109] fix: dangle_align off ended with a ValueError

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 355c7a0..d526c21 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -923,7 +923,7 @@ class StatementNode(LayoutNode):
       dangle_parens = True
 
     column_cursor[0] += 1
-    if config.format.dangle_align == "prefix":
+    if config.format.dangle_align in ("prefix", "off"):
       dangle_cursor = Cursor(column_cursor[0], start_cursor[1])
     elif config.format.dangle_align == "prefix-indent":
       dangle_cursor = Cursor(
-- 
2.43.0


From aea887d27269da61d9f669d8454620034456a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 064/109] fix: a column was kept free for the parenthesis at
 every argument

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index d526c21..df31d2f 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1281,7 +1281,7 @@ class PargGroupNode(LayoutNode):
         # statement then we need to extra character (the closing parenthesis)
         # on the last line. If we overlow that extra character slot, then
         # wrap to a new line
-        if self.statement_terminal:
+        if child.statement_terminal:
           if cursor[1] + 1 > config.format.linewidth:
             needs_wrap = True
 
-- 
2.43.0


From 02b5e7e73cc719d1a77cf869899c6014a56ce8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 065/109] fix: C0307 about trailing comments and aligned
 parentheses

---
 cmakelang/lint/basic_checker.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f6f249f..85deb75 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -799,6 +799,17 @@ class LintChecker(object):
         return True
     return False
 
+  def am_in_trailing_comment(self):
+    """Return true if the current node is (part of) the comment behind the
+       closing parenthesis of a statement."""
+    in_statement = False
+    for node in self._node_stack:
+      if isinstance(node, StatementNode):
+        in_statement = True
+      elif in_statement and node.node_type is NodeType.COMMENT:
+        return True
+    return False
+
   def get_scope_depth(self):
     depth = 0
     for node in self._node_stack:
@@ -833,7 +844,14 @@ class LintChecker(object):
           len(indentation) +
           indentation.count("\t") * (cfg.format.tab_size - 1))
 
-      if self.am_in_arggroup():
+      # A dangling parenthesis is aligned as configured
+      is_dangling = (
+          token.type is TokenType.RIGHT_PAREN and not self.am_in_arggroup())
+      if is_dangling and cfg.format.dangle_align == "prefix-indent":
+        desired_indentation += cfg.format.tab_size
+
+      if (self.am_in_arggroup() or self.am_in_trailing_comment() or
+          (is_dangling and cfg.format.dangle_align == "child")):
         if actual_indentation < desired_indentation:
           local_ctx.record_lint(
               "C0307", indentation, token.spelling,
-- 
2.43.0


From 32a280a8a758f9a0c4a3f7cf920fd01efac07bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 066/109] fix: wrapped comments not recognised behind a tab
 indentation

---
 cmakelang/lex/__init__.py       | 10 ++++++++++
 cmakelang/parse/simple_nodes.py |  6 ++++--
 cmakelang/parse/util.py         | 20 +++++++++++++++++---
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index bc7c3e0..d61eef9 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -40,6 +40,10 @@ class SourceLocation(tuple):
   Named tuple of (line, col, offset)
   """
 
+  # Number of tab characters in the indentation of this line, in front of this
+  # location.
+  tabs = 0
+
   # def __init__(self, line, col, offset):
   #   super(SourceLocation, self).__init__((line, col, offset))
 
@@ -210,13 +214,19 @@ def tokenize(contents):
   lineno = 1
   col = 0
   offset = bom_size
+  tabs = 0
   for tok_index, (tok_type, spelling) in enumerate(tokens):
     if sys.version_info[0] < 3:
       assert isinstance(spelling, unicode)
     begin = SourceLocation((lineno, col, offset))
+    begin.tabs = tabs
 
     newlines = spelling.count('\n')
     lineno += newlines
+    if newlines:
+      tabs = 0
+    elif col == 0 and tok_type == TokenType.WHITESPACE:
+      tabs = spelling.count('\t')
     if newlines:
       col = len(spelling.rsplit('\n', 1)[1])
     else:
diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index b7dc8a9..42b10f8 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -77,7 +77,8 @@ class CommentNode(TreeNode):
       # If the next comment token is not column-aligned, then we don't
       # merge it with the previous comment line
       if (comment_tokens and
-          not are_column_aligned(comment_tokens[-1], tokens[0])):
+          not are_column_aligned(
+              ctx.config, comment_tokens[-1], tokens[0])):
         break
 
       comment_token = tokens.pop(0)
@@ -146,7 +147,8 @@ class CommentNode(TreeNode):
     comment_tokens = []
     while tokens and is_valid_trailing_line_comment(tokens[0]):
       if (comment_tokens and
-          not are_column_aligned(comment_tokens[-1], tokens[0])):
+          not are_column_aligned(
+              ctx.config, comment_tokens[-1], tokens[0])):
         break
 
       comment_token = tokens.pop(0)
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index aaa0813..63be5ac 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -172,11 +172,24 @@ def next_is_explicit_trailing_comment(config, tokens):
   return False
 
 
-def are_column_aligned(token_a, token_b):
+def get_column(config, location):
+  """
+  Return the column of the location as it was laid out, that is: with every tab
+  of the indentation as wide as it is configured to be.
+  """
+  return location.col + location.tabs * (config.format.tab_size - 1)
+
+
+def are_column_aligned(config, token_a, token_b):
   """
   Return true if both tokens are on the same column.
   """
-  return token_a.begin.col == token_b.begin.col
+  columns = [get_column(config, token.begin) for token in (token_a, token_b)]
+  if (config.format.use_tabchars
+      and config.format.fractional_tab_policy == "round-up"):
+    # The indentation was extended to the next tabstop
+    columns = [-(-column // config.format.tab_size) for column in columns]
+  return columns[0] == columns[1]
 
 
 def next_is_trailing_comment(config, tokens):
@@ -440,7 +453,8 @@ def comment_belongs_up_tree(ctx, tokens, node, breakstack):
     # current node
     return False
 
-  return tokens[0].get_location().col < node.get_location().col
+  return (get_column(ctx.config, tokens[0].get_location())
+          < get_column(ctx.config, node.get_location()))
 
 
 def parse_pspec(pargs, flags):
-- 
2.43.0


From 73a29abaed1d7d66287f0c92df0b79eaeec07a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 067/109] fix: comments merged or not depending on use_tabchars

---
 cmakelang/parse/util.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 63be5ac..7cc5ff0 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -184,12 +184,14 @@ def are_column_aligned(config, token_a, token_b):
   """
   Return true if both tokens are on the same column.
   """
-  columns = [get_column(config, token.begin) for token in (token_a, token_b)]
-  if (config.format.use_tabchars
-      and config.format.fractional_tab_policy == "round-up"):
-    # The indentation was extended to the next tabstop
-    columns = [-(-column // config.format.tab_size) for column in columns]
-  return columns[0] == columns[1]
+  column_a, column_b = [
+      get_column(config, token.begin) for token in (token_a, token_b)]
+  if (config.format.fractional_tab_policy == "round-up"
+      and token_b.begin.tabs
+      and token_b.begin.tabs == token_b.begin.col):
+    # The indentation may have been extended to the next tabstop
+    column_a = -(-column_a // config.format.tab_size) * config.format.tab_size
+  return column_a == column_b
 
 
 def next_is_trailing_comment(config, tokens):
-- 
2.43.0


From ec99961dacec52f2d5afb792e076ca8d952e01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 068/109] fix: explicit trailing comments were merged into
 ordinary ones

---
 cmakelang/parse/simple_nodes.py | 13 +++++++++++++
 cmakelang/parse/util.py         | 11 +++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index 42b10f8..5829e8d 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -9,6 +9,7 @@ from cmakelang import lex
 from cmakelang.parse.util import (
     COMMENT_TOKENS, WHITESPACE_TOKENS,
     are_column_aligned, next_is_trailing_comment,
+    is_explicit_trailing_comment,
     next_is_explicit_trailing_comment,
     is_valid_trailing_line_comment
 )
@@ -81,6 +82,13 @@ class CommentNode(TreeNode):
               ctx.config, comment_tokens[-1], tokens[0])):
         break
 
+      # A comment with the explicit trailing marker is not merged with one that
+      # has none, as the marker would become one of its words
+      explicit = is_explicit_trailing_comment(ctx.config, tokens[0])
+      if comment_tokens and explicit != node.is_explicit_trailing:
+        break
+      node.is_explicit_trailing = explicit
+
       comment_token = tokens.pop(0)
       comment_tokens.append(comment_token)
       node.children.append(comment_token)
@@ -151,6 +159,11 @@ class CommentNode(TreeNode):
               ctx.config, comment_tokens[-1], tokens[0])):
         break
 
+      # The words of an explicit trailing comment are its own
+      if (comment_tokens and
+          is_explicit_trailing_comment(ctx.config, tokens[0])):
+        break
+
       comment_token = tokens.pop(0)
       comment_tokens.append(comment_token)
       node.children.append(comment_token)
diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 7cc5ff0..edfd598 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -160,15 +160,22 @@ def is_comment_matching_pattern(token, regex):
   return bool(regex.match(token.spelling))
 
 
+def is_explicit_trailing_comment(config, token):
+  """
+  Return true if the token is marked as an explicit trailing comment
+  """
+  regex = re.compile("^" + config.markup.explicit_trailing_pattern + ".*")
+  return is_comment_matching_pattern(token, regex)
+
+
 def next_is_explicit_trailing_comment(config, tokens):
   """
   Return true if the next comment is an explicit trailing comment, false
   otherwise
   """
 
-  regex = re.compile("^" + config.markup.explicit_trailing_pattern + ".*")
   for token in iter_syntactic_tokens(tokens):
-    return is_comment_matching_pattern(token, regex)
+    return is_explicit_trailing_comment(config, token)
   return False
 
 
-- 
2.43.0


From c7d80644fe5a314d64d983c43d29642eda5e3b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 069/109] fix: ctest-to crashed on every test file

---
 cmakelang/ctest_to.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 9d93661..5abdd31 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -17,11 +17,24 @@ from xml.etree import ElementTree as ET
 from cmakelang.format import __main__
 from cmakelang import lex
 from cmakelang import parse
+from cmakelang.parse.common import TreeNode
+from cmakelang.parse.statement_node import StatementNode
 
 
 logger = logging.getLogger(__name__)
 
 
+def get_statements(node):
+  """Return the list of all statements in the subtree, in order."""
+  out = []
+  for child in node.children:
+    if isinstance(child, StatementNode):
+      out.append(child)
+    elif isinstance(child, TreeNode):
+      out.extend(get_statements(child))
+  return out
+
+
 class TestSpec(object):
   """Stores agregated ctest specification, including the name, command, and
      any properties that are set.
@@ -203,7 +216,12 @@ class ParseContext(object):
     with io.open(filepath, "r", encoding="utf-8") as infile:
       infile_content = infile.read()
     tokens = lex.tokenize(infile_content)
-    _ = parse.parse(tokens, self.get_db())
+    parse_tree = parse.parse(tokens, parse.ParseContext(parse_db={}))
+    parse_db = self.get_db()
+    for statement in get_statements(parse_tree):
+      callback = parse_db.get(statement.get_funname(), None)
+      if callback is not None:
+        callback(statement.argtree.get_tokens(kind="semantic"), None)
 
   def start(self, firstdir):
     """Main entry-point into the parse. Pushes the first directory onto the
-- 
2.43.0


From 8cade6d719a668467f8e803e5bf06db45ae3bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:09 +0000
Subject: [PATCH 070/109] fix: ctest-to refused or misread quoted, bracketed
 and numeric arguments

---
 cmakelang/ctest_to.py | 49 ++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 5abdd31..be15378 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -11,6 +11,7 @@ import io
 import json
 import logging
 import os
+import re
 import sys
 from xml.etree import ElementTree as ET
 
@@ -35,6 +36,25 @@ def get_statements(node):
   return out
 
 
+def get_value(token):
+  """Return the value of an argument, without quotes, brackets and escapes."""
+  spelling = token.spelling
+  if token.type is lex.TokenType.BRACKET_ARGUMENT:
+    spelling = spelling[spelling.index("[", 1) + 1:]
+    spelling = spelling[:spelling.rindex("]", 0, -1)]
+    return spelling[1:] if spelling.startswith("\n") else spelling
+
+  if token.type is lex.TokenType.QUOTED_LITERAL:
+    spelling = spelling[1:-1]
+  return re.sub(r"\\([^;])", unescape, spelling)
+
+
+def unescape(match):
+  """Return the character that an escape sequence stands for."""
+  values = {"t": "\t", "r": "\r", "n": "\n", "\n": ""}
+  return values.get(match.group(1), match.group(1))
+
+
 class TestSpec(object):
   """Stores agregated ctest specification, including the name, command, and
      any properties that are set.
@@ -118,21 +138,14 @@ class ParseContext(object):
     """
     if not tokens:
       raise RuntimeError("Ran out of tokens while processing add_test")
-    if tokens[0].type not in (
-        lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL):
-      raise RuntimeError("Expected a WORD token but got {}".format(tokens[0]))
-    test_name = tokens[0].spelling
+    test_name = get_value(tokens[0])
     tokens.pop(0)
     test_argv = []
     while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
       token = tokens.pop(0)
       if token.type is lex.TokenType.WHITESPACE:
         continue
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
-      else:
-        spelling = token.spelling
-      test_argv.append(spelling)
+      test_argv.append(get_value(token))
 
     logger.debug("Adding test %s", test_name)
     self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
@@ -150,10 +163,7 @@ class ParseContext(object):
       token = tokens.pop(0)
       if token.type == lex.TokenType.WHITESPACE:
         continue
-      assert token.type in (
-          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL), (
-              "Unexpected {}".format(token))
-      test_names.append(token.spelling)
+      test_names.append(get_value(token))
 
     token = tokens.pop(0)
     assert token.spelling == "PROPERTIES"
@@ -171,12 +181,7 @@ class ParseContext(object):
       if token.type is lex.TokenType.WHITESPACE:
         token = tokens.pop(0)
 
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        value = token.spelling[1:-1]
-      else:
-        value = token.spelling
-
-      properties[key] = value
+      properties[key] = get_value(token)
 
     for test_name in test_names:
       logger.debug("Updating properties for %s", test_name)
@@ -188,11 +193,7 @@ class ParseContext(object):
     """
     while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
       token = tokens.pop(0)
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
-      else:
-        spelling = token.spelling
-      fullpath = os.path.join(self.cwd, spelling)
+      fullpath = os.path.join(self.cwd, get_value(token))
       logger.debug("pushing directory %s", fullpath)
       self.dirqueue.append(fullpath)
 
-- 
2.43.0


From b9613d5f84a709fc5b9caafbb3ba07ce7dc5b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:09 +0000
Subject: [PATCH 071/109] fix: ctest-to lost tests of the same name in other
 directories

---
 cmakelang/ctest_to.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index be15378..f80c5b9 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -148,7 +148,7 @@ class ParseContext(object):
       test_argv.append(get_value(token))
 
     logger.debug("Adding test %s", test_name)
-    self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
+    self.tests[test_name, self.cwd] = TestSpec(test_name, test_argv, self.cwd)
 
   def parse_set_tests_properties(self, tokens, _breakstack):
     """Parse a set_tests_properties() statement. This statement can set
@@ -185,7 +185,10 @@ class ParseContext(object):
 
     for test_name in test_names:
       logger.debug("Updating properties for %s", test_name)
-      self.tests[test_name].props.update(properties)
+      if (test_name, self.cwd) not in self.tests:
+        logger.warning("Properties of unknown test %s", test_name)
+        continue
+      self.tests[test_name, self.cwd].props.update(properties)
 
   def parse_subdirs(self, tokens, _breakstack):
     """Parse a subdirs() statement. This statement is actually deprecated in
-- 
2.43.0


From ba1ee2a32749f2a788536126c76716bc6e5edd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:09 +0000
Subject: [PATCH 072/109] fix: ctest-to crashed on a fractional TIMEOUT

---
 cmakelang/ctest_to.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index f80c5b9..262b955 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -75,7 +75,8 @@ class TestSpec(object):
       if key == "LABELS":
         value = value.split(";")
       if key == "TIMEOUT":
-        value = int(value)
+        value = float(value)
+        value = int(value) if value.is_integer() else value
       if key.startswith("_"):
         continue
       props[key.lower()] = value
-- 
2.43.0


From 0c164c2bc6a2fb783b3f44b071b51c85ac53d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:58 +0000
Subject: [PATCH 073/109] fix: genparsers printed the input paths into its
 output

---
 cmakelang/genparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 6a68aca..673809c 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -246,7 +246,7 @@ def main():
   returncode = 0
   outdict = collections.OrderedDict()
   for infile_path in args.infilepaths:
-    print(infile_path)
+    logger.debug("%s", infile_path)
     cfg = configuration.Configuration()
     if infile_path == '-':
       infile_path = os.dup(sys.stdin.fileno())
-- 
2.43.0


From 0e9d112ab1146988f8511624102d5bb4dcb4595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:58 +0000
Subject: [PATCH 074/109] fix: genparsers crashed after a file that cannot be
 read

---
 cmakelang/genparsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 673809c..1b6d5d9 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -257,6 +257,7 @@ def main():
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
+      continue
 
     try:
       with infile:
@@ -264,6 +265,8 @@ def main():
     except UnicodeDecodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
+      returncode = 1
+      continue
 
     try:
       parse_tree = process_file(cfg, intext)
-- 
2.43.0


From a85e2b69c942cb77de80b7837e6c75c6a8c953b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:58 +0000
Subject: [PATCH 075/109] fix: genparsers misread
 cmake_parse_arguments(PARSE_ARGV)

---
 cmakelang/genparsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 1b6d5d9..937aa83 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -106,7 +106,9 @@ def process_defn_body(body, out):
 
       if child.get_funname() == "cmake_parse_arguments":
         pargs = child.argtree.get_tokens(kind="semantic")
-        pargs.pop(0)
+        if pargs.pop(0).spelling == "PARSE_ARGV":
+          # cmake_parse_arguments(PARSE_ARGV <N> <prefix> ...)
+          pargs = pargs[2:]
         kwvargs = replace_varrefs(
             pargs.pop(0).spelling.strip('"'), variables).split(";")
         onevargs = replace_varrefs(
-- 
2.43.0


From 24aac2d7f897916855f409273761d188a62c70fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 076/109] fix: genparsers left some variable references
 unresolved

Variable names may also hold the characters / . + and -.
---
 cmakelang/genparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 937aa83..0e32ade 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -68,7 +68,7 @@ def replace_varrefs(value, variables):
   Replace cmake variable dereferences in the string, given a dictionary of
   currently assigned variables.
   """
-  regex = re.compile(r"\$\{([\w_]+)\}")
+  regex = re.compile(r"\$\{([\w/.+-]+)\}")
   repl = VarSub(variables)
   while regex.search(value):
     value = regex.sub(repl, value)
-- 
2.43.0


From 09421d28f204ffa55a9daa16f2cd5e96f0262892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:35 +0000
Subject: [PATCH 077/109] fix: genparsers used values set for the parent scope

---
 cmakelang/genparsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 0e32ade..caee992 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -79,6 +79,10 @@ def process_set_statement(argtree, variables):
   """
   Process a set() statement, updating the variable assignments accordingly
   """
+  if argtree.parent_scope:
+    # Does not change the variable of this scope
+    return
+
   varname = replace_varrefs(argtree.varname.spelling, variables)
   if not argtree.value_group:
     variables.pop(varname, None)
-- 
2.43.0


From 598d1fce89c38d1b151420b8a6cc9ca0b195b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:35 +0000
Subject: [PATCH 078/109] fix: genparsers ignored unset()

---
 cmakelang/genparsers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index caee992..cf21b5d 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -93,17 +93,30 @@ def process_set_statement(argtree, variables):
   variables[varname] = replace_varrefs(valuestr, variables)
 
 
+def process_unset_statement(argtree, variables):
+  """
+  Process an unset() statement, removing the variable assignment
+  """
+  args = [arg.spelling for arg in argtree.get_tokens(kind="semantic")]
+  if len(args) == 1:
+    variables.pop(replace_varrefs(args[0], variables), None)
+
+
 def process_defn_body(body, out):
   assert isinstance(body, BodyNode)
   variables = {}
   for child in find_statements_in_subtree(
-      body, ["list", "cmake_parse_arguments", "set"]):
+      body, ["list", "cmake_parse_arguments", "set", "unset"]):
 
     if isinstance(child, StatementNode):
       if child.get_funname() == "set":
         process_set_statement(child.argtree, variables)
         continue
 
+      if child.get_funname() == "unset":
+        process_unset_statement(child.argtree, variables)
+        continue
+
       if child.get_funname() == "list":
         # TODO(josh): implement list processor
         continue
-- 
2.43.0


From 44630abbaafecd496f453bd71b414b4c0aa3c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:35 +0000
Subject: [PATCH 079/109] fix: genparsers kept the quotes of a quoted function
 name

---
 cmakelang/genparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index cf21b5d..16375c3 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -166,7 +166,7 @@ def process_defn(statement):
   """
   semantic_tokens = statement.argtree.parg_groups[0].get_tokens(kind="semantic")
 
-  canonical_spelling = semantic_tokens[0].spelling
+  canonical_spelling = semantic_tokens[0].spelling.strip('"')
   fnname = canonical_spelling.lower()
   argnames = [token.spelling.lower() for token in semantic_tokens[1:]]
 
-- 
2.43.0


From d34321811934cef7e66d5b25f22ce5180c3154de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 080/109] fix: file(CREATE_LINK) did not know its own keyword

---
 cmakelang/parse/funs/file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/parse/funs/file.py b/cmakelang/parse/funs/file.py
index 87cf397..b0d1fdb 100644
--- a/cmakelang/parse/funs/file.py
+++ b/cmakelang/parse/funs/file.py
@@ -250,6 +250,7 @@ def parse_file_create_link(ctx, tokens, breakstack):
           "RESULT": PositionalParser(1),
       },
       flags=[
+          "CREATE_LINK",
           "COPY_ON_ERROR",
           "SYMBOLIC",
       ],
-- 
2.43.0


From d0cd641791a14141b4dc6ce17c35ac612636e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 081/109] fix: list(TRANSFORM) did not know OUTPUT_VARIABLE

---
 cmakelang/parse/funs/list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/list.py b/cmakelang/parse/funs/list.py
index e418386..6ea0ea1 100644
--- a/cmakelang/parse/funs/list.py
+++ b/cmakelang/parse/funs/list.py
@@ -31,7 +31,9 @@ TRANSFORM_KWARGS = {
     # selectors
     "AT": StandardParser("+"),
     "FOR": StandardParser("2+"),
-    "REGEX": StandardParser(1)
+    "REGEX": StandardParser(1),
+    # output
+    "OUTPUT_VARIABLE": StandardParser(1)
 }
 
 
-- 
2.43.0


From e4c913d59c53577936dce37c3f2bff95eaeae239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 082/109] fix: install(TARGETS ... INCLUDES DESTINATION) was
 taken apart

---
 cmakelang/parse/funs/install.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index b91bb73..cd850e3 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -106,6 +106,12 @@ def parse_install_targets(ctx, tokens, breakstack):
       list(kwargs.keys()) + list(designated_kwargs) + list(flags)
   )]
 
+  # the DESTINATION of INCLUDES belongs to it
+  includes_breakstack = breakstack + [KwargBreaker(
+      [kwarg for kwarg in kwargs if kwarg != "DESTINATION"] +
+      list(designated_kwargs) + list(flags)
+  )]
+
   # and flags at this depth break only on kwargs
   positional_breakstack = breakstack + [KwargBreaker(
       list(kwargs.keys()) + list(designated_kwargs)
@@ -140,6 +146,9 @@ def parse_install_targets(ctx, tokens, breakstack):
     if word in designated_kwargs:
       subtree = KeywordGroupNode.parse(
           ctx, tokens, word, parse_install_targets, subtree_breakstack)
+    elif word == "INCLUDES":
+      subtree = KeywordGroupNode.parse(
+          ctx, tokens, word, kwargs[word], includes_breakstack)
     elif word in kwargs:
       subtree = KeywordGroupNode.parse(
           ctx, tokens, word, kwargs[word], kwarg_breakstack)
-- 
2.43.0


From 440a7d4a14140f18984ad878f2998de63a4be5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 083/109] fix: install(DIRECTORY) misspelled
 USE_SOURCE_PERMISSIONS and lacked EXCLUDE_FROM_ALL

---
 cmakelang/parse/funs/install.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index cd850e3..18a507f 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -226,8 +226,9 @@ def parse_install_directory(ctx, tokens, breakstack):
           "REGEX": PatternNode.parse,
       },
       flags=[
-          "USER_SOURCE_PERMISSIONS",
+          "USE_SOURCE_PERMISSIONS",
           "OPTIONAL",
+          "EXCLUDE_FROM_ALL",
           "MESSAGE_NEVER",
           "FILES_MATCHING",
       ],
-- 
2.43.0


From 76a73fff497c086e9760bd93fda155b7afc9881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 084/109] fix: install(EXPORT) did not know
 EXPORT_LINK_INTERFACE_LIBRARIES

---
 cmakelang/parse/funs/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index 18a507f..2c96b38 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -285,6 +285,7 @@ def parse_install_export(ctx, tokens, breakstack):
           "COMPONENT": PositionalParser(1),
       },
       flags=[
+          "EXPORT_LINK_INTERFACE_LIBRARIES",
           "EXCLUDE_FROM_ALL"
       ],
       breakstack=breakstack)
-- 
2.43.0


From 4eadf3a7fb635f8f9811c91aea8ced7095be336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 085/109] fix: add_library() misread imported libraries of type
 OBJECT and UNKNOWN

---
 cmakelang/parse/funs/add_library.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index ba3ceac..39be5ef 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -146,7 +146,7 @@ def parse_add_library_imported(ctx, tokens, breakstack):
   return StandardArgTree.parse(
       ctx, tokens, npargs='+',
       kwargs={},
-      flags=["SHARED", "STATIC", "MODULE", "OBJECT", "UNKOWN", "IMPORTED",
+      flags=["SHARED", "STATIC", "MODULE", "OBJECT", "UNKNOWN", "IMPORTED",
              "GLOBAL"],
       breakstack=breakstack)
 
@@ -263,15 +263,14 @@ def parse_add_library(ctx, tokens, breakstack):
       "INTERFACE": parse_add_library_interface,
       "IMPORTED": parse_add_library_imported
   }
+  third_token = next(semantic_iter, None)
+  if (third_token is not None and descriminator not in ("ALIAS", "INTERFACE") and
+      third_token.spelling.upper() == "IMPORTED"):
+    return parse_add_library_imported(ctx, tokens, breakstack)
+
   if descriminator in parsemap:
     return parsemap[descriminator](ctx, tokens, breakstack)
 
-  third_token = next(semantic_iter, None)
-  if third_token is not None:
-    descriminator = third_token.spelling.upper()
-    if descriminator == "IMPORTED":
-      return parse_add_library_imported(ctx, tokens, breakstack)
-
   # If the descriminator token might be a variable dereference, then it
   # might be hiding the descriminator... so we shouldn't infer
   # sortability unless it is a word that doesn't match any of the descriminator
-- 
2.43.0


From 040cd131aaa3aaa64847398f8dc35602b3ebf5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 086/109] fix: cmake_parse_arguments(PARSE_ARGV) was not
 recognised

---
 cmakelang/parse/funs/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 9c5c90f..e750f01 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -55,7 +55,7 @@ def parse_cmake_parse_arguments(ctx, tokens, breakstack):
   """
 
   first_token = get_nth_semantic_token(tokens, 0)
-  if first_token is not None and first_token.spelling.upper == "PARSE_ARGV":
+  if first_token is not None and first_token.spelling.upper() == "PARSE_ARGV":
     return StandardArgTree.parse(
         ctx, tokens, "6", {}, ["PARSE_ARGV"], breakstack)
   return StandardArgTree.parse(
-- 
2.43.0


From 58189db719aa8ca3c4cf02b49e0a7ce6a3140926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 087/109] fix: get_filename_component() did not know CACHE and
 BASE_DIR

---
 cmakelang/parse/funs/miscellaneous.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index e750f01..6a2c96e 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -184,8 +184,12 @@ def parse_get_filename_component(ctx, tokens, breakstack):
       "ABSOLUTE",
       "REALPATH",
       "PATH",
+      "CACHE",
   ]
-  return StandardArgTree.parse(ctx, tokens, "3+", {}, flags, breakstack)
+  kwargs = {
+      "BASE_DIR": PositionalParser(1)
+  }
+  return StandardArgTree.parse(ctx, tokens, "3+", kwargs, flags, breakstack)
 
 
 def parse_get_source_file_property(ctx, tokens, breakstack):
-- 
2.43.0


From 2bd275c639ebb33c34640dc46df380f34e18e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 088/109] fix: include_guard() did not know its flags

---
 cmakelang/parse/funs/miscellaneous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 6a2c96e..759e4cc 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -253,7 +253,8 @@ def parse_include_guard(ctx, tokens, breakstack):
 
   :see: https://cmake.org/cmake/help/latest/command/include_guard.html
   """
-  return StandardArgTree.parse(ctx, tokens, "*", {}, [], breakstack)
+  return StandardArgTree.parse(
+      ctx, tokens, "*", {}, ["DIRECTORY", "GLOBAL"], breakstack)
 
 
 def parse_include_regular_expression(ctx, tokens, breakstack):
-- 
2.43.0


From 16935b29d7e84338e93f6f829141763ae9468d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 089/109] fix: math() did not know EXPR

---
 cmakelang/parse/funs/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 759e4cc..543c5f4 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -334,7 +334,7 @@ def parse_math(ctx, tokens, breakstack):
   kwargs = {
       "OUTPUT_FORMAT": PositionalParser(1)
   }
-  return StandardArgTree.parse(ctx, tokens, "3", kwargs, [], breakstack)
+  return StandardArgTree.parse(ctx, tokens, "3", kwargs, ["EXPR"], breakstack)
 
 
 def parse_option(ctx, tokens, breakstack):
-- 
2.43.0


From e1f70a0c8e5eb2fd70ce0ac0afb257eae06b1037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 090/109] fix: separate_arguments(<variable>) was reported as
 incomplete

---
 cmakelang/parse/funs/miscellaneous.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 543c5f4..944cba6 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -398,9 +398,14 @@ def parse_separate_arguments(ctx, tokens, breakstack):
   ::
 
     separate_arguments(<variable> <mode> <args>)
+    separate_arguments(<variable>)
 
   :see: https://cmake.org/cmake/help/latest/command/separate_arguments.html
   """
+  second_token = get_nth_semantic_token(tokens, 1)
+  if second_token is None or second_token.type is lex.TokenType.RIGHT_PAREN:
+    return StandardArgTree.parse(ctx, tokens, 1, {}, [], breakstack)
+
   flags = ["UNIX_COMMAND", "WINDOWS_COMMAND", "NATIVE_COMMAND"]
   return StandardArgTree.parse(ctx, tokens, 3, {}, flags, breakstack)
 
-- 
2.43.0


From 2354b22b03ec2d7b03e433fdc03ca8273ca61bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 091/109] fix: source_group() took its closing parenthesis for
 an argument and TREE for a name

---
 cmakelang/parse/funs/miscellaneous.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 944cba6..79023b7 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -453,7 +453,7 @@ def parse_source_group(ctx, tokens, breakstack):
         "PREFIX": PositionalParser(1),
         "FILES": PositionalParser("+")
     }
-    return StandardArgTree.parse(ctx, tokens, 2, kwargs, [], breakstack)
+    return StandardArgTree.parse(ctx, tokens, 2, kwargs, ["TREE"], breakstack)
 
   kwargs = {
       "FILES": PositionalParser("+"),
@@ -461,7 +461,9 @@ def parse_source_group(ctx, tokens, breakstack):
   }
 
   descriminator = get_nth_semantic_token(tokens, 1)
-  if descriminator is not None and descriminator.spelling.upper() not in kwargs:
+  if (descriminator is not None and
+      descriminator.type is not lex.TokenType.RIGHT_PAREN and
+      descriminator.spelling.upper() not in kwargs):
     return StandardArgTree.parse(ctx, tokens, 2, {}, [], breakstack)
 
   return StandardArgTree.parse(ctx, tokens, 1, kwargs, [], breakstack)
-- 
2.43.0


From 2e858024210cb327a25dda0c4035d795b4b7cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 092/109] fix: ctest_sleep(<seconds>) was reported as
 incomplete

---
 cmakelang/parse/funs/random.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/funs/random.py b/cmakelang/parse/funs/random.py
index 3ee54aa..6511c8d 100644
--- a/cmakelang/parse/funs/random.py
+++ b/cmakelang/parse/funs/random.py
@@ -1,9 +1,10 @@
+from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
     PositionalParser,
     StandardArgTree,
 )
 from cmakelang.parse.util import (
-    iter_semantic_tokens,
+    get_nth_semantic_token,
 )
 
 
@@ -176,8 +177,8 @@ def parse_ctest_sleep(ctx, tokens, breakstack):
 
   :see: https://cmake.org/cmake/help/latest/command/ctest_sleep.html
   """
-  semantic_tokens = list(iter_semantic_tokens(tokens))
-  if len(semantic_tokens) == 1:
+  second_token = get_nth_semantic_token(tokens, 1)
+  if second_token is None or second_token.type is lex.TokenType.RIGHT_PAREN:
     return StandardArgTree.parse(ctx, tokens, 1, {}, [], breakstack)
   return StandardArgTree.parse(ctx, tokens, 3, {}, [], breakstack)
 
-- 
2.43.0


From f403feb4cf76b59edf24982b8960467c68939dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 093/109] fix: exec_program() demanded its optional directory

---
 cmakelang/parse/funs/deprecated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/deprecated.py b/cmakelang/parse/funs/deprecated.py
index c590604..7d20cae 100644
--- a/cmakelang/parse/funs/deprecated.py
+++ b/cmakelang/parse/funs/deprecated.py
@@ -35,7 +35,7 @@ def parse_exec_program(ctx, tokens, breakstack):
       "RETURN_VALUE": PositionalParser(1)
   }
 
-  return StandardArgTree.parse(ctx, tokens, 2, kwargs, [], breakstack)
+  return StandardArgTree.parse(ctx, tokens, "1+", kwargs, [], breakstack)
 
 
 def parse_install_files(ctx, tokens, breakstack):
-- 
2.43.0


From 9130609e1237e45075c94693eb692dcbc9233939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 094/109] fix: foreach(RANGE) demanded three numbers

---
 cmakelang/parse/funs/foreach.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index 2e25853..e1421a7 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -56,6 +56,7 @@ def parse_foreach_range(ctx, tokens, breakstack):
   """
   ::
 
+    foreach(<loop_var> RANGE <stop>)
     foreach(<loop_var> RANGE <start> <stop> [<step>])
       <commands>
     endforeach()
@@ -64,7 +65,7 @@ def parse_foreach_range(ctx, tokens, breakstack):
   return StandardArgTree.parse(
       ctx, tokens,
       npargs=1,
-      kwargs={"RANGE": PositionalParser(3)},
+      kwargs={"RANGE": PositionalParser("+")},
       flags=[],
       breakstack=breakstack
   )
-- 
2.43.0


From 3fdf083ee38a65f09e91acab8d75b0261ec9ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 095/109] fix: find_library() and find_path() misspelled
 NO_CMAKE_SYSTEM_PATH

---
 cmakelang/parse/funs/standard_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index 8d9563c..d209ce6 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -125,7 +125,7 @@ FUNSPECS = {
       "NO_CMAKE_ENVIRONMENT_PATH",
       "NO_CMAKE_FIND_ROOT_PATH",
       "NO_CMAKE_PATH",
-      "NO_CMKE_SYSTEM_PATH",
+      "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
@@ -158,7 +158,7 @@ FUNSPECS = {
       "NO_CMAKE_ENVIRONMENT_PATH",
       "NO_CMAKE_FIND_ROOT_PATH",
       "NO_CMAKE_PATH",
-      "NO_CMKE_SYSTEM_PATH",
+      "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
-- 
2.43.0


From 3ebf3807004f28006b7f7e7a6d28efa6b20a37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 096/109] fix: include_external_msproject() reported a single
 dependency as missing arguments

---
 cmakelang/parse/funs/miscellaneous.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 79023b7..cebbcc4 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -7,6 +7,7 @@ from cmakelang.parse.additional_nodes import (
     TupleParser
 )
 from cmakelang.parse.util import (
+    PositionalSpec,
     get_nth_semantic_token
 )
 
@@ -242,7 +243,8 @@ def parse_include_external_msproject(ctx, tokens, breakstack):
       "GUID": PositionalParser(1),
       "PLATFORM": PositionalParser(1)
   }
-  return StandardArgTree.parse(ctx, tokens, "2+", kwargs, [], breakstack)
+  return StandardArgTree.parse(
+      ctx, tokens, [PositionalSpec(2)], kwargs, None, breakstack)
 
 
 def parse_include_guard(ctx, tokens, breakstack):
-- 
2.43.0


From 0c693df6d1872515fce6fbac8d64ce5560adc35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 097/109] fix: get_filename_component() reported CACHE behind
 BASE_DIR as missing arguments

---
 cmakelang/parse/funs/miscellaneous.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index cebbcc4..193f434 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -190,7 +190,9 @@ def parse_get_filename_component(ctx, tokens, breakstack):
   kwargs = {
       "BASE_DIR": PositionalParser(1)
   }
-  return StandardArgTree.parse(ctx, tokens, "3+", kwargs, flags, breakstack)
+  return StandardArgTree.parse(
+      ctx, tokens, [PositionalSpec("3+", flags=flags)], kwargs, None,
+      breakstack)
 
 
 def parse_get_source_file_property(ctx, tokens, breakstack):
-- 
2.43.0


From bded4f84f19dbe6834107d0af9834f7a8fa4a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 098/109] fix: enable_language() did not know OPTIONAL

---
 cmakelang/parse/funs/standard_modules.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmakelang/parse/funs/standard_modules.py b/cmakelang/parse/funs/standard_modules.py
index afa38a1..59cae06 100644
--- a/cmakelang/parse/funs/standard_modules.py
+++ b/cmakelang/parse/funs/standard_modules.py
@@ -983,11 +983,6 @@ FUNSPECS = {
       "nargs": 0
     }
   },
-  "enable_language": {
-    "pargs": {
-      "nargs": 0
-    }
-  },
   "export_jars": {
     "kwargs": {
       "FILE": 1,
-- 
2.43.0


From d6243040767d94ae36d0b256fbaa02d802264f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 099/109] fix: install_files() and install_programs() demanded
 a third argument

---
 cmakelang/parse/funs/deprecated.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/deprecated.py b/cmakelang/parse/funs/deprecated.py
index 7d20cae..4c96fbb 100644
--- a/cmakelang/parse/funs/deprecated.py
+++ b/cmakelang/parse/funs/deprecated.py
@@ -1,3 +1,4 @@
+from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
     PositionalParser,
     StandardArgTree,
@@ -54,7 +55,7 @@ def parse_install_files(ctx, tokens, breakstack):
   if second_token is not None and second_token.spelling.upper() == "FILES":
     return StandardArgTree.parse(ctx, tokens, "3+", {}, ["FILES"], breakstack)
 
-  if third_token is None:
+  if third_token is None or third_token.type is lex.TokenType.RIGHT_PAREN:
     return StandardArgTree.parse(ctx, tokens, 2, {}, [], breakstack)
 
   return StandardArgTree.parse(ctx, tokens, "3+", {}, [], breakstack)
@@ -76,7 +77,7 @@ def parse_install_programs(ctx, tokens, breakstack):
   if second_token is not None and second_token.spelling.upper() == "FILES":
     return StandardArgTree.parse(ctx, tokens, "3+", {}, ["FILES"], breakstack)
 
-  if third_token is None:
+  if third_token is None or third_token.type is lex.TokenType.RIGHT_PAREN:
     return StandardArgTree.parse(ctx, tokens, 2, {}, [], breakstack)
 
   return StandardArgTree.parse(ctx, tokens, "3+", {}, [], breakstack)
-- 
2.43.0


From 7d4aeb7c34ae170be5f31c7d522137098864cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 100/109] fix: install_targets(RUNTIME_DIRECTORY) was reported
 as incomplete

---
 cmakelang/parse/funs/deprecated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/deprecated.py b/cmakelang/parse/funs/deprecated.py
index 4c96fbb..8e32434 100644
--- a/cmakelang/parse/funs/deprecated.py
+++ b/cmakelang/parse/funs/deprecated.py
@@ -94,7 +94,7 @@ def parse_install_targets(ctx, tokens, breakstack):
   kwargs = {
       "RUNTIME_DIRECTORY": PositionalParser(1)
   }
-  return StandardArgTree.parse(ctx, tokens, "2+", kwargs, [], breakstack)
+  return StandardArgTree.parse(ctx, tokens, "+", kwargs, [], breakstack)
 
 
 def parse_make_directory(ctx, tokens, breakstack):
-- 
2.43.0


From 035baa1dcc203e27f99db960753807928d94e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 101/109] fix: string() lacked some of its operations

---
 cmakelang/parse/funs/standard_builtins.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index d209ce6..23fef42 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -289,21 +289,30 @@ FUNSPECS = {
     ],
     "kwargs": {
       "ALPHABET": "*",
+      "APPEND": "*",
       "ASCII": "*",
       "COMPARE": "*",
       "CONCAT": "*",
       "CONFIGURE": "*",
       "FIND": "*",
+      "GENEX_STRIP": "*",
+      "JOIN": "*",
       "LENGTH": "*",
       "MAKE_C_IDENTIFIER": "*",
       "MD5": "*",
+      "PREPEND": "*",
       "RANDOM": "*",
       "RANDOM_SEED": "*",
       "REGEX": "*",
       "REPLACE": "*",
       "SHA1": "*",
+      "SHA224": "*",
       "SHA256": "*",
       "SHA384": "*",
+      "SHA3_224": "*",
+      "SHA3_256": "*",
+      "SHA3_384": "*",
+      "SHA3_512": "*",
       "SHA512": "*",
       "STRIP": "*",
       "SUBSTRING": "*",
-- 
2.43.0


From 29a3f1cbb8d9d0dd17a97af0d5001f680bfcbecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 102/109] fix: find_package() lacked keywords of its full
 signature

---
 cmakelang/parse/funs/standard_builtins.py | 25 ++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index 23fef42..8db6288 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -141,15 +141,34 @@ FUNSPECS = {
   "find_package": {
     "pargs": "*",
     "flags": [
+      "CMAKE_FIND_ROOT_PATH_BOTH",
+      "CONFIG",
       "EXACT",
       "MODULE",
-      "REQUIRED",
+      "NO_CMAKE_BUILDS_PATH",
+      "NO_CMAKE_ENVIRONMENT_PATH",
+      "NO_CMAKE_FIND_ROOT_PATH",
+      "NO_CMAKE_PACKAGE_REGISTRY",
+      "NO_CMAKE_PATH",
+      "NO_CMAKE_SYSTEM_PACKAGE_REGISTRY",
+      "NO_CMAKE_SYSTEM_PATH",
+      "NO_DEFAULT_PATH",
+      "NO_MODULE",
+      "NO_PACKAGE_ROOT_PATH",
       "NO_POLICY_SCOPE",
-      "QUIET"
+      "NO_SYSTEM_ENVIRONMENT_PATH",
+      "ONLY_CMAKE_FIND_ROOT_PATH",
+      "QUIET",
+      "REQUIRED"
     ],
     "kwargs": {
       "COMPONENTS": "*",
-      "OPTIONAL_COMPONENTS": "*"
+      "CONFIGS": "*",
+      "HINTS": "*",
+      "NAMES": "*",
+      "OPTIONAL_COMPONENTS": "*",
+      "PATHS": "*",
+      "PATH_SUFFIXES": "*"
     }
   },
   "find_path": {
-- 
2.43.0


From eb6937a10db5735b45af1b1b910f7d9269e5199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 103/109] fix: find_*() did not know NO_PACKAGE_ROOT_PATH

---
 cmakelang/parse/funs/standard_builtins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index 8db6288..cc682c2 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -108,6 +108,7 @@ FUNSPECS = {
       "NO_CMAKE_PATH",
       "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
+      "NO_PACKAGE_ROOT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
     ],
@@ -127,6 +128,7 @@ FUNSPECS = {
       "NO_CMAKE_PATH",
       "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
+      "NO_PACKAGE_ROOT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
     ],
@@ -179,6 +181,7 @@ FUNSPECS = {
       "NO_CMAKE_PATH",
       "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
+      "NO_PACKAGE_ROOT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
     ],
@@ -198,6 +201,7 @@ FUNSPECS = {
       "NO_CMAKE_PATH",
       "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
+      "NO_PACKAGE_ROOT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
     ],
-- 
2.43.0


From b73221fef80d65e0cf28f8272dd63586f2839a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 104/109] fix: execute_process() did not know ENCODING and
 RESULTS_VARIABLE

---
 cmakelang/parse/funs/standard_builtins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index cc682c2..6b92089 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -76,11 +76,13 @@ FUNSPECS = {
     ],
     "kwargs": {
       "COMMAND": "*",
+      "ENCODING": "*",
       "ERROR_FILE": "*",
       "ERROR_VARIABLE": "*",
       "INPUT_FILE": "*",
       "OUTPUT_FILE": "*",
       "OUTPUT_VARIABLE": "*",
+      "RESULTS_VARIABLE": "*",
       "RESULT_VARIABLE": "*",
       "TIMEOUT": "*",
       "WORKING_DIRECTORY": "*"
-- 
2.43.0


From 74e030e5a520f0d655fa07225f3092f5c66cbfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 105/109] fix: try_run() did not know LINK_OPTIONS and
 LINK_LIBRARIES

---
 cmakelang/parse/funs/standard_builtins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index 6b92089..af8c2e8 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -386,6 +386,8 @@ FUNSPECS = {
       "CMAKE_FLAGS": "*",
       "COMPILE_DEFINITIONS": "*",
       "COMPILE_OUTPUT_VARIABLE": "*",
+      "LINK_LIBRARIES": "*",
+      "LINK_OPTIONS": "*",
       "OUTPUT_VARIABLE": "*",
       "RUN_OUTPUT_VARIABLE": "*"
     }
-- 
2.43.0


From ddc28ae1e1f615ea6999dbc3c65d8b7b68728fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 106/109] fix: target_include_directories() and
 target_compile_options() did not know BEFORE and SYSTEM

---
 cmakelang/parse/funs/standard_builtins.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index af8c2e8..c67bc26 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -360,6 +360,9 @@ FUNSPECS = {
     }
   },
   "target_compile_options": {
+    "flags": [
+      "BEFORE"
+    ],
     "kwargs": {
       "PRIVATE": "+",
       "PUBLIC": "+",
@@ -367,6 +370,10 @@ FUNSPECS = {
     }
   },
   "target_include_directories": {
+    "flags": [
+      "BEFORE",
+      "SYSTEM"
+    ],
     "kwargs": {
       "PRIVATE": "+",
       "PUBLIC": "+",
-- 
2.43.0


From 65f7e6987dd58538236ac73a4d198c16847cf32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 107/109] fix: lint finds every incomplete variable reference
 and says which brace is missing

---
 cmakelang/lint/basic_checker.py | 38 ++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 85deb75..58e110e 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -292,9 +292,12 @@ class LintChecker(object):
         r"(?<!\\)(?:\\\\)*"
         r"(\$\{)((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
 
+    # NOTE: a brace that belongs to a reference, `${`, `$ENV{`, or `$CACHE{`, is
+    # not missing its prefix
     missing_prefix = re.compile(
         r"(?<!\\)(?:\\\\)*"
-        r"(\$|\{)((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
+        r"(\$|(?<!\$)(?<!\$ENV)(?<!\$CACHE)\{)"
+        r"((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
 
     match_types = (
         TokenType.QUOTED_LITERAL,
@@ -308,24 +311,21 @@ class LintChecker(object):
 
       resolved = mock_varrefs(token.spelling)
 
-      match = missing_prefix.search(resolved)
-      if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
-        catmatch = "".join(match.group(1, 2))
-        if catmatch == "$ENV":
-          # This is an environment variable reference, so we don't try to
-          # match it
-          continue
-
-        local_ctx.record_lint(
-            "W0106", "open", catmatch, location=token.get_location())
-        continue
-
-      match = missing_suffix.search(resolved)
-      if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
-        catmatch = "".join(match.group(1, 2))
-        local_ctx.record_lint(
-            "W0106", "closing", catmatch, location=token.get_location())
-        continue
+      for tagstr, regex in (("open", missing_prefix),
+                            ("closing", missing_suffix)):
+        # NOTE: a string may contain other things that are no reference in
+        # front of the one that is incomplete
+        catmatches = [
+            "".join(match.group(1, 2)) for match in regex.finditer(resolved)
+            if variables.CASE_SENSITIVE_REGEX.match(match.group(2))]
+        # `$ENV` is an environment variable reference, so we don't try to
+        # match it
+        catmatches = [
+            catmatch for catmatch in catmatches if catmatch != "$ENV"]
+        if catmatches:
+          local_ctx.record_lint(
+              "W0106", tagstr, catmatches[0], location=token.get_location())
+          break
 
   def check_for_custom_parse_logic(self, stmt_node):
     """Ensure that a function or macro definition doesn't contain custom parser
-- 
2.43.0


From f2e8a6fac4f88fbe4f656ab0ce6a7b7b346f4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 108/109] fix: lint does not take a variable for a builtin
 whose name it starts with

---
 cmakelang/lint/basic_checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 58e110e..ac25b0a 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -726,7 +726,9 @@ class LintChecker(object):
     """
     (_, local_ctx) = self.context
 
-    imatch = variables.CASE_INSENSITIVE_REGEX.match(varname)
+    # NOTE: the name as a whole, and not just how it starts
+    pattern = r"(?:{})\Z".format(variables.CASE_SENSITIVE_REGEX.pattern)
+    imatch = re.match(pattern, varname, re.IGNORECASE)
     if not imatch:
       # variable name isn't a match for any builtins
       return
@@ -737,7 +739,7 @@ class LintChecker(object):
         # yet to actually compare against these
         return
 
-    if not variables.CASE_SENSITIVE_REGEX.match(varname):
+    if not re.match(pattern, varname):
       # variable name is a match for a builtin except for case
       local_ctx.record_lint(
           "W0105", contextstr, varname,
-- 
2.43.0


From 91e8fc33c8b8a5e592dcfc7264280646fb67ce51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 109/109] fix: lint checks variable references in unquoted
 arguments too, and no escaped ones

---
 cmakelang/lint/basic_checker.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index ac25b0a..955282f 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -775,9 +775,12 @@ class LintChecker(object):
     # assignment, shadowing, etc
     for token in tree.get_tokens(kind="semantic"):
       if token.type not in (
-          TokenType.QUOTED_LITERAL, TokenType.DEREF):
+          TokenType.QUOTED_LITERAL, TokenType.UNQUOTED_LITERAL,
+          TokenType.DEREF):
         continue
-      for varname in re.findall(r"\$\{([\w_]+)\}", token.spelling):
+      # NOTE: an escaped dollar sign doesn't start a reference
+      for varname in re.findall(
+          r"(?<!\\)(?:\\\\)*\$\{([\w_]+)\}", token.spelling):
         self.check_varname(varname, token, "Reference to")
 
   def check_comment(self, node):
-- 
2.43.0


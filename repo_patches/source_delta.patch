From 5924f3e3b8f518d7b805f06c10388f5d2ea0f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 01/30] fix: match rules that reach the end of the token
 sequence correctly

At the last token the search did not advance, so the final token was
matched twice: rules running past the end of the input were accepted, and
rules ending with the closing whitespace after a context never matched.
---
 graphtransliterator/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index d102b83..9d7585a 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -712,7 +712,8 @@ class GraphTransliterator:
             children = None
             ordered_children = graph_node[node_key].get("ordered_children")
             if ordered_children:
-                children = ordered_children.get(tokens[token_i])
+                if token_i < len(tokens):
+                    children = ordered_children.get(tokens[token_i])
                 if children:
                     # reordered high to low for stack:
                     for child_key in reversed(children):
@@ -745,9 +746,8 @@ class GraphTransliterator:
                 else:
                     return curr_node["rule_key"]
             else:
-                if token_i < len(tokens) - 1:
-                    token_i += 1
-                _append_children(node_key, token_i)
+                # May pass the end: leaf rules can still follow the last token
+                _append_children(node_key, token_i + 1)
         if match_all:
             return matches
 
-- 
2.43.0


From 14b71e48e14abe12a46e8590e89fb52cc56bb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 02/30] fix: match_at returns the least costly matching rule,
 not the first one on the cheapest branch

---
 graphtransliterator/core.py   | 23 +++++++++++++++--------
 graphtransliterator/graphs.py |  8 ++++++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 9d7585a..1f4d521 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -28,7 +28,8 @@ from .schemas import (
     TransliterationRuleSchema,
     WhitespaceSettingsSchema,
 )
-from collections import deque
+from heapq import heappop, heappush
+from itertools import count
 
 from graphtransliterator import __version__ as __version__
 import json
@@ -706,7 +707,13 @@ class GraphTransliterator:
         graph_edge = graph.edge
         if match_all:
             matches = []
-        stack = deque()
+        queue = []  # priority queue, so least costly come first
+        num_pushed = count()
+
+        def _push(node_key, parent_key, token_i):
+            # If costs are equal, last pushed comes first.
+            cost = graph.edge_cost(parent_key, node_key)
+            heappush(queue, (cost, -next(num_pushed), node_key, parent_key, token_i))
 
         def _append_children(node_key, token_i):
             children = None
@@ -715,22 +722,22 @@ class GraphTransliterator:
                 if token_i < len(tokens):
                     children = ordered_children.get(tokens[token_i])
                 if children:
-                    # reordered high to low for stack:
+                    # reordered high to low, so lower cost is pushed last:
                     for child_key in reversed(children):
-                        stack.appendleft((child_key, node_key, token_i))
+                        _push(child_key, node_key, token_i)
                 else:
                     rules_keys = ordered_children.get("__rules__")  # leafs
                     if rules_keys:
                         # There may be more than one rule, as certain rules have
                         # constraints on them.
-                        # Reordered so higher cost go on stack last.
+                        # Reordered so lower cost is pushed last.
                         for rule_key in reversed(rules_keys):
-                            stack.appendleft((rule_key, node_key, token_i))
+                            _push(rule_key, node_key, token_i)
 
         _append_children(0, token_i)  # Append all children of root node
 
-        while stack:  # LIFO
-            node_key, parent_key, token_i = stack.popleft()
+        while queue:  # least costly first
+            _, _, node_key, parent_key, token_i = heappop(queue)
 
             curr_node = graph_node[node_key]
             # Constraints are only on preceding edge if it is accepting
diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 53e0490..a523c69 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -116,6 +116,10 @@ class DirectedGraph:
 
         return self.edge[head][tail]
 
+    def edge_cost(self, head, tail):
+        """Return cost of an edge, which is 1 if not set."""
+        return self.edge[head][tail].get("cost", 1)
+
     def add_node(self, node_data=None):
         """Create node and return (`int`, `dict`) of node key and object.
 
@@ -210,6 +214,10 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         super().__init__(edge=graph.edge, node=graph.node, edge_list=graph.edge_list)
         self._add_visit_logging()
 
+    def edge_cost(self, head, tail):
+        """Return cost of an edge, without logging a visit."""
+        return self.edge.data[head].data[tail].get("cost", 1)
+
     def clear_visited(self):
         """Clear all visited attributes on nodes and edges."""
         self.node.visited.clear()
-- 
2.43.0


From d5f470d9152ce735de822e4efa12a740b0abe63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 03/30] fix: consolidation replaces inner whitespace runs with
 the default whitespace token

---
 graphtransliterator/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 1f4d521..c2b1708 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -869,6 +869,7 @@ class GraphTransliterator:
                 # matched_at = match.span(0)[0]
                 if is_whitespace(token):
                     if prev_whitespace and self.whitespace.consolidate:
+                        tokens[-1] = self.whitespace.default
                         continue
                     else:
                         prev_whitespace = True
-- 
2.43.0


From 2e68dc765196e5f2d9b92b1ed1ce392e0e90bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 04/30] fix: ambiguity check compares every pair of equally
 costly rules

---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index 7e5a102..b9dd0e7 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -114,7 +114,7 @@ def check_for_ambiguity(transliterator):
                 j_index = group[j][0]
                 intersection = full_intersection(i_index, j_index)
                 if not intersection:
-                    break
+                    continue
 
                 # Check if a less costly rule matches intersection
 
-- 
2.43.0


From 4f369cb015b90d3be0a5ea479046d362fbeb0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 05/30] fix: ambiguity is only resolved by a strictly less
 costly rule

---
 graphtransliterator/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/ambiguity.py b/graphtransliterator/ambiguity.py
index b9dd0e7..cd9e408 100644
--- a/graphtransliterator/ambiguity.py
+++ b/graphtransliterator/ambiguity.py
@@ -122,7 +122,7 @@ def check_for_ambiguity(transliterator):
                     for r_i, rule in enumerate(rules):
                         if r_i in (i_index, j_index):
                             continue
-                        if rule.cost > rules[i_index].cost:
+                        if rule.cost >= rules[i_index].cost:
                             continue
                         rule_tokens = matrix[r_i]
                         if covered_by(intersection, rule_tokens):
-- 
2.43.0


From e86d9ca78c999df13818431c5641a1a2fd79234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 06/30] fix: settings without onmatch_rules are accepted by
 from_dict

---
 graphtransliterator/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index c988882..20b9aaf 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -145,7 +145,7 @@ class SettingsSchema(Schema):
 
         # Validate onmatch_rules and rules
         for rule_type in ("onmatch_rules", "rules"):
-            for rule in data[rule_type]:
+            for rule in data.get(rule_type, []):
                 for property in ("prev_classes", "next_classes"):
                     values = getattr(rule, property)
                     if not values:
-- 
2.43.0


From 8712cbec12e70c6cfab32dcb9c335b4021f28dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 07/30] fix: dumps of transliterators without metadata can be
 loaded

---
 graphtransliterator/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index c2b1708..e9a4a6d 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -63,7 +63,7 @@ class GraphTransliteratorSchema(Schema):
         OnMatchRuleSchema, many=True, required=False, allow_none=True
     )
     metadata = fields.Dict(
-        keys=fields.Str(), required=False  # No restriction on values
+        keys=fields.Str(), required=False, allow_none=True  # No restriction on values
     )
     ignore_errors = fields.Bool(required=False)
     onmatch_rules_lookup = fields.Dict(required=False, allow_none=True)
-- 
2.43.0


From e7d924d96e4150eede86e45f91a0e47bb61852c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 08/30] fix: rules with a given cost of 1 or more do not break
 the graph

---
 graphtransliterator/initialize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index f10db33..a036828 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -162,8 +162,7 @@ def _graph_from(rules):
                 parent_node["token_children"] = token_children
 
             curr_edge = graph.edge[parent_key][token_node_key]
-            curr_cost = curr_edge.get("cost", 1)
-            if curr_cost > rule.cost:
+            if "cost" not in curr_edge or curr_edge["cost"] > rule.cost:
                 curr_edge["cost"] = rule.cost
 
             parent_key = token_node_key
-- 
2.43.0


From 5aba0b346dd5979a4cc142f8b5b2f3ab8c84219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 09/30] fix: compressed dumps keep ignore_errors and honour
 options given when loading

---
 graphtransliterator/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index e9a4a6d..d32d02a 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -91,8 +91,11 @@ class GraphTransliteratorSchema(Schema):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-            data = decompress_config(compressed_settings)
-            data.update(graphtransliterator_version=version)
+            # Other settings include any options passed to load() or loads()
+            other_settings = {
+                k: v for k, v in data.items() if k != "compressed_settings"
+            }
+            data = dict(decompress_config(compressed_settings), **other_settings)
         return data
 
     @post_load
@@ -571,13 +574,16 @@ class GraphTransliterator:
             raise ValueError(
                 f"Compression level must be between 0 and {HIGHEST_COMPRESSION_LEVEL}"
             )
-        return {
+        config = {
             "graphtransliterator_version": __version__,
             "compressed_settings": compress_config(
                 GraphTransliteratorSchema().dump(self),
                 compression_level=compression_level,
             ),
         }
+        if self.ignore_errors:
+            config["ignore_errors"] = True
+        return config
 
     def dumps(self, compression_level=2):
         """
-- 
2.43.0


From 21e957648b66d19145dbc1700ba18108d259baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 10/30] fix: compress the graph of a transliterator without
 rules

---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index 7b11a81..65c6150 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -136,7 +136,7 @@ def compress_config(config, compression_level=1):
 
     def compress_node(_node):
         def compressed_ordered_children():
-            x = _node.get("ordered_children")
+            x = _node.get("ordered_children", {})
             out = {}
             for k, v in x.items():
                 if k == "__rules__":
-- 
2.43.0


From cea4a9813fa8f3c29859680e03ef0ee8a7833b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 11/30] fix: honour check_ambiguity when loading a dump

---
 graphtransliterator/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index d32d02a..679bf45 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -105,7 +105,7 @@ class GraphTransliteratorSchema(Schema):
             if data.get(key):  # tokens_by_class can be generated
                 data[key] = {k: set(v) for k, v in data[key].items()}
         # Do not check ambiguity by default if deserializing
-        data["check_ambiguity"] = kwargs.get("check_ambiguity", False)
+        data["check_ambiguity"] = data.get("check_ambiguity", False)
         return GraphTransliterator(**data)
 
     @validates_schema
-- 
2.43.0


From 4365b677fe04da9115ad71bf767bc802dfcb9ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 12/30] fix: compare versions of dumps by their numbers, not as
 text

---
 graphtransliterator/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 679bf45..883c189 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -51,6 +51,11 @@ DEFAULT_COMPRESSION_LEVEL = 2
 HIGHEST_COMPRESSION_LEVEL = 2
 
 
+def _version_numbers_of(version):
+    """Numbers of a version string, as versions must not be compared as text."""
+    return [int(_) for _ in re.findall("[0-9]+", version)]
+
+
 class GraphTransliteratorSchema(Schema):
     """Schema for Graph Transliterator."""
 
@@ -87,7 +92,7 @@ class GraphTransliteratorSchema(Schema):
     def check_version_and_compression(self, data, **kwargs):
         """Raises error if serialized GraphTransliterator is from a later version."""
         version = data.get("graphtransliterator_version")
-        if version and version > __version__:
+        if version and _version_numbers_of(version) > _version_numbers_of(__version__):
             raise IncorrectVersionException
         compressed_settings = data.get("compressed_settings")
         if compressed_settings:
-- 
2.43.0


From 7074f35eec9813bf238c162da325f5bcf9719db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 13/30] fix: refuse on-match rules with blanks inside the next
 token classes

---
 graphtransliterator/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/process.py b/graphtransliterator/process.py
index c82c546..22d8649 100644
--- a/graphtransliterator/process.py
+++ b/graphtransliterator/process.py
@@ -87,7 +87,7 @@ def _process_rules(easyreading_rules):
 
 
 ONMATCH_RE = re.compile(
-    r"^(" r"(?:<[^+< \s]+>\s*)+" r")" r"\+" r"(" r"(?:\s*<[^+<]+>)+)\s*$"
+    r"^(" r"(?:<[^+< \s]+>\s*)+" r")" r"\+" r"(" r"(?:\s*<[^+< \s]+>)+)\s*$"
 )
 
 ONMATCH_CLASS_RE = re.compile(r"(?<=<)[^+< \s]+(?=>)")
-- 
2.43.0


From e5acfa74287308efcbf86b792da611cdc2e041f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 14/30] fix: character names with digits are replaced in YAML

---
 graphtransliterator/initialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/initialize.py b/graphtransliterator/initialize.py
index a036828..56daedf 100644
--- a/graphtransliterator/initialize.py
+++ b/graphtransliterator/initialize.py
@@ -260,8 +260,8 @@ def _unescape_charnames(input_str):
     def get_unicode_char(matchobj):
         """Get Unicode character value from escaped character sequences."""
         charname = matchobj.group(0)
-        match = re.match(r"\\N{([-A-Z ]+)}", charname)
+        match = re.match(r"\\N{([-A-Z0-9 ]+)}", charname)
         char = unicodedata.lookup(match.group(1))  # KeyError if invalid
         return char
 
-    return re.sub(r"\\N{[-A-Z ]+}", get_unicode_char, input_str)
+    return re.sub(r"\\N{[-A-Z0-9 ]+}", get_unicode_char, input_str)
-- 
2.43.0


From acca89868d1e22f71fb5aa5f47e252fcd85ed1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 15/30] fix: a token named __rules__ is not confused with the
 leaves of the graph

---
 graphtransliterator/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 883c189..3c423d9 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -763,7 +763,7 @@ class GraphTransliterator:
                     continue
                 else:
                     return curr_node["rule_key"]
-            else:
+            elif curr_node.get("token") in tokens[token_i : token_i + 1]:
                 # May pass the end: leaf rules can still follow the last token
                 _append_children(node_key, token_i + 1)
         if match_all:
-- 
2.43.0


From a91a237975b7706ca9cea02b3f6a9256d09d0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 16/30] fix: refuse empty tokens, rules without tokens and
 incomplete on-match rules

---
 graphtransliterator/schemas.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 20b9aaf..4de7706 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -66,7 +66,9 @@ class TransliterationRuleSchema(Schema):
     """Schema for :class:`TransliterationRule`."""
 
     production = fields.Str(required=True)
-    tokens = fields.List(fields.Str(), required=True)
+    tokens = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
     prev_classes = fields.List(fields.Str(), allow_none=True)
     next_classes = fields.List(fields.Str(), allow_none=True)
     prev_tokens = fields.List(fields.Str(), allow_none=True)
@@ -98,9 +100,13 @@ class TransliterationRuleSchema(Schema):
 class OnMatchRuleSchema(Schema):
     """Schema for :class:`OnMatchRule`."""
 
-    prev_classes = fields.List(fields.Str())
-    next_classes = fields.List(fields.Str())
-    production = fields.Str()
+    prev_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    next_classes = fields.List(
+        fields.Str(), required=True, validate=validate.Length(min=1)
+    )
+    production = fields.Str(required=True)
 
     class Meta:
         fields = ("prev_classes", "next_classes", "production")
@@ -118,7 +124,9 @@ class SettingsSchema(Schema):
     """
 
     tokens = fields.Dict(
-        keys=fields.Str(), values=fields.List(fields.Str()), required=True
+        keys=fields.Str(validate=validate.Length(min=1)),
+        values=fields.List(fields.Str()),
+        required=True,
     )
     rules = fields.Nested(TransliterationRuleSchema, many=True, required=True)
     whitespace = fields.Nested(WhitespaceSettingsSchema, many=False, required=True)
-- 
2.43.0


From 40b9991b37bb5b2ca0fea9c16481273d34f5d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 17/30] fix: prune only the given production, not its
 substrings

---
 graphtransliterator/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 3c423d9..2b1ce66 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -816,6 +816,8 @@ class GraphTransliterator:
           gt.pruned_of(['<A>', '<AA>']).rules
 
         """  # noqa
+        if isinstance(productions, str):
+            productions = [productions]
         pruned_rules = [_ for _ in self._rules if _.production not in productions]
         return GraphTransliterator(
             self._tokens,
-- 
2.43.0


From da9577db9ba6523468b70e451239ef934039c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 18/30] fix: dumping does not count as covering a coverage
 transliterator

---
 graphtransliterator/graphs.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index a523c69..2aa9a7a 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -174,6 +174,10 @@ class VisitLoggingList(UserList):
         self.visited.add(i)
         return self.data[i]
 
+    def __iter__(self):
+        """Iterate without logging visits, e.g. when dumping."""
+        return iter(self.data)
+
     def clear_visited(self):
         self.visited.clear()
 
@@ -189,6 +193,14 @@ class VisitLoggingDict(UserDict):
         self.visited.add(i)
         return self.data[i]
 
+    def items(self):
+        """Items without logging visits, e.g. when dumping."""
+        return self.data.items()
+
+    def values(self):
+        """Values without logging visits."""
+        return self.data.values()
+
     def clear_visited(self):
         self.visited.clear()
 
-- 
2.43.0


From da03d4b59474fb691e60a492b25378d06bbba8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:27 +0000
Subject: [PATCH 19/30] fix: a pruned transliterator does not share the visit
 log of on-match rules

---
 graphtransliterator/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index 2b1ce66..a2aa460 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -823,7 +823,7 @@ class GraphTransliterator:
             self._tokens,
             pruned_rules,
             self._whitespace,
-            onmatch_rules=self._onmatch_rules,
+            onmatch_rules=self._onmatch_rules and list(self._onmatch_rules),
             metadata=self._metadata,
             ignore_errors=self._ignore_errors,
             check_ambiguity=self._check_ambiguity,
-- 
2.43.0


From 7741d27216e8b4c0c2dd9e7a35ebbe426e01413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 20/30] fix: tuples as invalid graph data raise ValueError, not
 TypeError

---
 graphtransliterator/graphs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 2aa9a7a..513ce67 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -97,15 +97,15 @@ class DirectedGraph:
         if edge_data is None:
             edge_data = {}
         if type(head) is not int:
-            raise ValueError("Edge head is not an integer: %s." % head)
+            raise ValueError("Edge head is not an integer: %s." % (head,))
         if type(tail) is not int:
-            raise ValueError("Edge tail is not an integer: %s." % tail)
+            raise ValueError("Edge tail is not an integer: %s." % (tail,))
         if head < 0 or head >= len(self.node):
             raise ValueError("Head index of edge not in graph: %s." % head)
         if tail < 0 or tail >= len(self.node):
             raise ValueError("Tail index of edge not in graph: %s." % tail)
         if type(edge_data) is not dict:
-            raise ValueError("Edge data is not a dict: %s." % edge_data)
+            raise ValueError("Edge data is not a dict: %s." % (edge_data,))
 
         if head not in self.edge:
             self.edge[head] = {}
@@ -157,7 +157,7 @@ class DirectedGraph:
         if node_data is None:
             node_data = {}
         if type(node_data) is not dict:
-            raise ValueError("node_data must be a dict: %s" % node_data)
+            raise ValueError("node_data must be a dict: %s" % (node_data,))
         node_key = len(self.node)
         self.node.append(node_data)
         return node_key, self.node[node_key]
-- 
2.43.0


From 024ce60da76bdf707564abf40559d0d36a84ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:19 +0000
Subject: [PATCH 21/30] fix: adding an existing edge again does not list it
 twice

---
 graphtransliterator/graphs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 513ce67..71b8f6d 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -110,9 +110,10 @@ class DirectedGraph:
         if head not in self.edge:
             self.edge[head] = {}
 
-        self.edge[head][tail] = edge_data
+        if tail not in self.edge[head]:
+            self.edge_list.append(tuple([head, tail]))
 
-        self.edge_list.append(tuple([head, tail]))
+        self.edge[head][tail] = edge_data
 
         return self.edge[head][tail]
 
-- 
2.43.0


From 93ef682764869b122266dffe3afd3984b6109b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 22/30] fix: dumps share no data with the transliterators they
 come from or load into

---
 graphtransliterator/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/graphtransliterator/core.py b/graphtransliterator/core.py
index a2aa460..2fa5395 100644
--- a/graphtransliterator/core.py
+++ b/graphtransliterator/core.py
@@ -32,10 +32,12 @@ from heapq import heappop, heappush
 from itertools import count
 
 from graphtransliterator import __version__ as __version__
+import copy
 import json
 import logging
 from marshmallow import (
     fields,
+    post_dump,
     pre_load,
     post_load,
     Schema,
@@ -103,8 +105,17 @@ class GraphTransliteratorSchema(Schema):
             data = dict(decompress_config(compressed_settings), **other_settings)
         return data
 
+    @post_dump
+    def copy_dump(self, data, **kwargs):
+        """Copy, as e.g. metadata would be shared with the transliterator."""
+        return copy.deepcopy(data)
+
     @post_load
     def make_GraphTransliterator(self, data, **kwargs):
+        # Copy what would be shared with the settings
+        for key in ("metadata", "onmatch_rules_lookup"):
+            if data.get(key):
+                data[key] = copy.deepcopy(data[key])
         # Convert lists to sets
         for key in ("tokens", "tokens_by_class"):
             if data.get(key):  # tokens_by_class can be generated
-- 
2.43.0


From db8286fbad1c89669e55b627475baf3a0e41bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 23/30] fix: the option -nie does not ignore errors

---
 graphtransliterator/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index b91ec99..7cd367b 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -69,8 +69,7 @@ def load_transliterator(source, **kwargs):
 )
 @click.option(
     "--ignore-errors/--no-ignore-errors",
-    "-ie",
-    "-nie",
+    "-ie/-nie",
     help="Ignore errors.",
     show_default=True,
     default=False,
-- 
2.43.0


From 5e2cd616431830ae67bff386324734aeadbefc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:02 +0000
Subject: [PATCH 24/30] fix: compressed dumps do not depend on the iteration
 order of sets

---
 graphtransliterator/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/compression.py b/graphtransliterator/compression.py
index 65c6150..6756702 100644
--- a/graphtransliterator/compression.py
+++ b/graphtransliterator/compression.py
@@ -169,7 +169,7 @@ def compress_config(config, compression_level=1):
     class_list = tuple(sorted(set().union(*config["tokens"].values())))
     _class_id = {_: i for i, _ in enumerate(class_list)}
     tokens = tuple(
-        tuple(_class_id[_] for _ in config["tokens"][tkn]) for tkn in token_list
+        tuple(sorted(_class_id[_] for _ in config["tokens"][tkn])) for tkn in token_list
     )
     nodetype_list = tuple(sorted(set([_["type"] for _ in config["graph"]["node"]])))
     _nodetype_id = {_: i for i, _ in enumerate(nodetype_list)}
-- 
2.43.0


From e379194d2e4d23a61bed4d409d421add75f02f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:28 +0000
Subject: [PATCH 25/30] fix: generated tests of on-match rules contain their
 next classes

---
 graphtransliterator/transliterators/bundled.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index 6ce327e..dbf315f 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -187,7 +187,7 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
                 for _ in rule.prev_classes:
                     token = sample_token(_)
                     input_ += token
-                for _ in rule.prev_classes:
+                for _ in rule.next_classes:
                     token = sample_token(_)
                     input_ += token
                 tests[input_] = self.transliterate(input_)
-- 
2.43.0


From fa1fc99c0a2d0374beb6e7e16c64442cb558f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 26/30] fix: make-json takes names literally unless a regular
 expression is asked for

---
 graphtransliterator/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/cli.py b/graphtransliterator/cli.py
index 7cd367b..cf332cf 100644
--- a/graphtransliterator/cli.py
+++ b/graphtransliterator/cli.py
@@ -213,7 +213,7 @@ def make_json(bundled, regex):
     import graphtransliterator.transliterators as transliterators  # pragma: no cover
 
     if not regex:
-        bundled = f"^{bundled}$"
+        bundled = f"^{re.escape(bundled)}$"
     to_dump = [_ for _ in transliterators.iter_names() if re.match(bundled, _)]
     if not to_dump:
         click.echo(f"No bundled transliterator found matching /{bundled}/.")
-- 
2.43.0


From 52ff790f157117f797637565b7aa42143a07ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 27/30] fix: make a visit-logging graph without changing the
 graph it is made from

---
 graphtransliterator/graphs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphtransliterator/graphs.py b/graphtransliterator/graphs.py
index 71b8f6d..4923aeb 100644
--- a/graphtransliterator/graphs.py
+++ b/graphtransliterator/graphs.py
@@ -217,10 +217,14 @@ class VisitLoggingDirectedGraph(DirectedGraph):
         # We only care about {TAIL: DATA} for checking coverage.
         # First, convert all {TAIL: {DATA}} to VisitLoggingDict
         # (This avoids settings {HEAD: {...}} to visited
-        for head in self.edge.keys():
-            self.edge[head] = VisitLoggingDict(self.edge[head])
         # Second, convert {HEAD: {...}} to VisitLoggingDict
-        self.edge = VisitLoggingDict(self.edge)
+        # New dictionaries are made, as the graph given may be in use elsewhere.
+        self.edge = VisitLoggingDict(
+            {
+                head: VisitLoggingDict(dict(tails.items()))
+                for head, tails in self.edge.items()
+            }
+        )
 
     def __init__(self, graph):
         """Initialize from existing graph."""
-- 
2.43.0


From c584628b628428f0708cbe58a614889193b9ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 28/30] fix: refuse easy-reading on-match entries without
 exactly one rule with a validation error

---
 graphtransliterator/schemas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphtransliterator/schemas.py b/graphtransliterator/schemas.py
index 4de7706..22351ef 100644
--- a/graphtransliterator/schemas.py
+++ b/graphtransliterator/schemas.py
@@ -52,6 +52,7 @@ class EasyReadingSettingsSchema(Schema):
             keys=fields.Str(validate=validate.Regexp(ONMATCH_RE)),
             values=fields.Str(),
             required=False,
+            validate=validate.Length(equal=1),
         )
     )
     metadata = fields.Dict(
-- 
2.43.0


From b17010fb95441f64a018a36da99af70cc24c9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:22 +0000
Subject: [PATCH 29/30] fix: pass the options given to iter_transliterators()
 on to the transliterators

---
 graphtransliterator/transliterators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/__init__.py b/graphtransliterator/transliterators/__init__.py
index 2bfe9db..a3a1468 100644
--- a/graphtransliterator/transliterators/__init__.py
+++ b/graphtransliterator/transliterators/__init__.py
@@ -72,4 +72,4 @@ def iter_names():
 def iter_transliterators(**kwds):
     """Iterate through instances of bundled transliterators."""
     for _ in iter_names():
-        yield (eval(_ + "()"))
+        yield globals()[_](**kwds)
-- 
2.43.0


From a55d16f3fc997f0ba8221abeec19cb5f147c268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 30/30] fix: read an empty file of tests as no tests

---
 graphtransliterator/transliterators/bundled.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphtransliterator/transliterators/bundled.py b/graphtransliterator/transliterators/bundled.py
index dbf315f..98c9bf3 100644
--- a/graphtransliterator/transliterators/bundled.py
+++ b/graphtransliterator/transliterators/bundled.py
@@ -121,7 +121,8 @@ class Bundled(CoverageTransliterator, GraphTransliterator):
         """
         test_file = self.yaml_tests_filen
         with open(test_file, "r") as f:
-            return {str(k): str(i) for k, i in yaml.safe_load(f).items()}
+            tests = yaml.safe_load(f) or {}  # an empty file is read as None
+            return {str(k): str(i) for k, i in tests.items()}
 
     def run_tests(self, transliteration_tests):
         """Run transliteration tests.
-- 
2.43.0


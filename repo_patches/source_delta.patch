From 5bd50d3b36be2f04f84f6b64d817c8c696b3af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 01/19] fix: keep conflict alternatives on their own branch
 when a change overlaps a copy

---
 src/gaspra/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 5598fa0..91c12bb 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -187,6 +187,10 @@ def process_fragments(fragment0, fragment1, within_conflict: bool):
 
     elif isinstance(fragment0, CopyFragment) and isinstance(fragment1, ChangeFragment):
         output, tail0, tail1 = copy_change(fragment0, fragment1)
+        if isinstance(output, ConflictFragment):
+            # copy_change() puts the changed side first, but here the
+            # change is on the second branch.
+            output = ConflictFragment(output.version2, output.version1)
 
     elif isinstance(fragment0, ChangeFragment) and isinstance(fragment1, CopyFragment):
         output, tail1, tail0 = copy_change(fragment1, fragment0)
-- 
2.43.0


From 90f1309df6fe9b0c67c7af631dd18fa88735653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 02/19] fix: do not move one branch's insertion into the other
 branch's deletion

---
 src/gaspra/merge.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 91c12bb..90567f5 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -284,9 +284,10 @@ def has_composable_changes(fragment0, fragment1):
     # processed properly One input sequence was [insert x/delete
     # nothing][s] The other input sequence was [insert nothing/delete
     # s]. These are transformed to the sequences 1) [s] and 2) [insert
-    # x/delete s] by pushing [insert x/delete s] back onto the input
-    # queue which has the affect of inserting 's' at position where 's'
-    # was.  See compose_changes() for how the changes are composed.
+    # x/delete s] by emitting the insertion and pushing [delete s] back
+    # onto the input queue, which has the effect of inserting 'x' at the
+    # position where 's' was.  See compose_changes() for how the changes
+    # are composed.
 
     return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
         len(fragment0.insert) == 0 and fragment1.length == 0
@@ -294,20 +295,13 @@ def has_composable_changes(fragment0, fragment1):
 
 
 def compose_changes(fragment0, fragment1):
+    # Emit the insertion here and push the deletion back unchanged.  The
+    # deletion may still turn into a conflict, and the text inserted by
+    # the other branch must not become a part of this branch's side of it.
     if fragment0.length == 0 and len(fragment1.insert) == 0:
-        tail1 = ChangeFragment(
-            fragment0.insert,
-            fragment1.delete,
-            fragment1.length,
-        )
-        return None, None, tail1
+        return fragment0, None, fragment1
     elif len(fragment0.insert) == 0 and fragment1.length == 0:
-        tail0 = ChangeFragment(
-            fragment1.insert,
-            fragment0.delete,
-            fragment0.length,
-        )
-        return None, tail0, None
+        return fragment1, fragment0, None
     else:  # pragma: no cover
         raise ValueError("Changes are not composable")
 
-- 
2.43.0


From f062b22979e2a310b8a1ff1183c712d89193c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 03/19] fix: merging bytes raised TypeError because empty
 conflict sides were str

---
 src/gaspra/merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 90567f5..f414ca1 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -165,9 +165,9 @@ def flush_remaining(fragments0, fragments1, within_conflict):
     remaining = fragments0 or fragments1
     for item in reversed(remaining):
         if within_conflict and remaining == fragments0:
-            yield ConflictFragment(item.insert, "")
+            yield ConflictFragment(item.insert, item.insert[:0])
         elif within_conflict:
-            yield ConflictFragment("", item.insert)
+            yield ConflictFragment(item.insert[:0], item.insert)
         else:
             yield item
 
@@ -207,8 +207,8 @@ def pending_conflict(fragment0: InputType, fragment1: InputType):
     head0, tail0 = split_fragment(fragment0, min_length)
     head1, tail1 = split_fragment(fragment1, min_length)
 
-    from0 = head0.insert if head0 else ""
-    from1 = head1.insert if head1 else ""
+    from0 = head0.insert if head0 else fragment0.insert[:0]
+    from1 = head1.insert if head1 else fragment1.insert[:0]
 
     output = ConflictFragment(from0, from1)
     return output, tail0, tail1
-- 
2.43.0


From 41827124e6ef6648c20116abf4390f82091fcdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/19] fix: a tuple token could be mistaken for a separator in
 the n-way LCS

---
 src/gaspra/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/types.py b/src/gaspra/types.py
index 0234675..06549f2 100644
--- a/src/gaspra/types.py
+++ b/src/gaspra/types.py
@@ -1,5 +1,6 @@
 from collections.abc import Hashable, Iterable, Sequence
 from collections import namedtuple
+from dataclasses import dataclass
 from typing import TypeVar
 
 Token = Hashable
@@ -13,7 +14,14 @@ StringIterable = Iterable[str]
 BytesIterable = Iterable[bytes]
 TokenSequenceIterable = Iterable[TokenSequence]
 
-Separator = namedtuple("Separator", "index")
+
+@dataclass(frozen=True)
+class Separator:
+    # This must not be a tuple, because tuples can be tokens and a tuple
+    # would be equal to a token with the same contents.
+    index: int
+
+
 Change = namedtuple("Change", ["a", "b"])
 CommonSlice = namedtuple("Common", ["a_slice", "b_slice"])
 
-- 
2.43.0


From 59880243557a1e5606018e85c5cefc06aea4384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 05/19] fix: LineTokenizer produced an empty token that
 corrupted stored versions

---
 src/gaspra/tokenizers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 357cb8b..17ca63a 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -148,7 +148,11 @@ class LineTokenizer(Generic[BytesOrStr]):
             split_on = cast(BytesOrStr, "\n")
 
         split = cast(list[BytesOrStr], contents.split(split_on))
-        lines = [*(line + split_on for line in split[:-1]), split[-1]]
+        lines = [line + split_on for line in split[:-1]]
+        # There's nothing after the last newline of most texts.  An empty
+        # token there wouldn't survive being decoded and encoded again.
+        if split[-1]:
+            lines.append(split[-1])
         encoded, self.bytes_decoding = generic_encode(lines, self.bytes_encoding)
         return encoded
 
-- 
2.43.0


From 3020f43c43334e2b4f5cd3dba732b5b4a789a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 06/19] fix: diff() and merged() shared one default tokenizer
 between unrelated calls

---
 src/gaspra/tokenizers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 17ca63a..0ad1877 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -230,13 +230,17 @@ def decode_and_line_diff_changes(
     yield from to_line_diff(decoded_and_transformed)
 
 
-def diff(original, modified, tokenizer: Tokenizer = NullTokenizer()):
+def diff(original, modified, tokenizer: Tokenizer | None = None):
     """
     High level diff() call that optionally encodes the sequences to be
     compared, compares the sequences, decodes, and transforms the
     result.  This is the diff() function for most use cases.
 
     """
+    # Tokenizers remember what they've encoded, so don't share one between calls.
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_original = tokenizer.encode(original)
     encoded_modified = tokenizer.encode(modified)
 
@@ -249,7 +253,7 @@ def merged(
     parent,
     current,
     other,
-    tokenizer: Tokenizer = NullTokenizer(),
+    tokenizer: Tokenizer | None = None,
     transformer=lambda _: _,
 ):
     """
@@ -258,6 +262,10 @@ def merged(
     result.  This is the diff() function for most use cases.
 
     """
+    # Tokenizers remember what they've encoded, so don't share one between calls.
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_parent = tokenizer.encode(parent)
     encoded_current = tokenizer.encode(current)
     encoded_other = tokenizer.encode(other)
-- 
2.43.0


From 9a62e2718667bf64dd5bfdbbe1317767aa1d5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 07/19] fix: merged() always failed because decode_changes()
 took no transform

---
 src/gaspra/tokenizers.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 0ad1877..0a8f0dd 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -204,28 +204,30 @@ class SymbolTokenizer(Generic[BytesOrStr]):
         return generic_decode(contents, self.decoding, cast(BytesOrStr, joiner))
 
 
-def decode_changes(changes: DiffIterable, tokenizer: Tokenizer) -> DiffIterable:
+def decode_changes(
+    changes: DiffIterable, tokenizer: Tokenizer, transform=lambda _: _
+) -> DiffIterable:
     """
     Decode a changeset.  Changesets are first computed on token stream.
     This function decodes each token in a Changeestto a str or a bytes
     object.
 
-    It also applies an optional function escape() to the result.
+    It also applies an optional function transform() to the result.
     """
     for change in changes:
         if isinstance(change, Change):
             yield Change(
-                tokenizer.decode(change.a),
-                tokenizer.decode(change.b),
+                transform(tokenizer.decode(change.a)),
+                transform(tokenizer.decode(change.b)),
             )
         else:
-            yield tokenizer.decode(change)
+            yield transform(tokenizer.decode(change))
 
 
 def decode_and_line_diff_changes(
     changes: DiffIterable, tokenizer: Tokenizer, transform=lambda _: _
 ) -> DiffIterable:
-    decoded_and_transformed = decode_changes(changes, tokenizer)
+    decoded_and_transformed = decode_changes(changes, tokenizer, transform)
 
     yield from to_line_diff(decoded_and_transformed)
 
-- 
2.43.0


From 8e9a14fb2a076047a979eae39f2e0a33170363d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/19] fix: DBCollection lacked get(), which version_info()
 needs

---
 src/gaspra/db_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index e0bc021..0f81210 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -1,3 +1,4 @@
+from collections.abc import MutableMapping
 from typing import Callable
 
 from sqlite3 import Connection
@@ -34,7 +35,7 @@ FROM {table}
 """
 
 
-class DBCollection:
+class DBCollection(MutableMapping):
     table: str
     connection_factory: Callable[[], Connection]
 
-- 
2.43.0


From 532cb728b68640bbc5ab85a76d0ad27eca382681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 09/19] fix: console output showed stray backslashes and lost
 brackets

---
 src/gaspra/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 29a9af6..bbd4870 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -2,12 +2,13 @@ from contextlib import contextmanager
 import io
 
 from rich.console import Console
+from rich.markup import escape as escape_markup
 
 from gaspra.types import Change
 
 
 def rich_escape(s):
-    return s.replace("[", r"\[")
+    return escape_markup(s)
 
 
 COLORED_LEVEL0 = {
-- 
2.43.0


From a372308f36d0beeb509f38b4acef0a0e84c46a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 10/19] fix: console output wrapped long lines and replaced
 emoji codes

---
 src/gaspra/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index bbd4870..96e112b 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -68,7 +68,8 @@ def console_writer():
     console = Console(force_terminal=None, highlight=False)
 
     def print(s):
-        console.print(s, end="")
+        # Show the text as it is: no wrapping and no emoji codes.
+        console.print(s, end="", emoji=False, soft_wrap=True)
 
     yield print, rich_escape
     return
-- 
2.43.0


From ae483155ca9a413e68c88b8f2299ab4fdfee52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 11/19] fix: output file wasn't closed when writing failed

---
 src/gaspra/markup.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 96e112b..a567e50 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -57,10 +57,8 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    file = open(filename, "wt", encoding="utf-8")
-
-    yield file.write, lambda _: _
-    file.close()
+    with open(filename, "wt", encoding="utf-8") as file:
+        yield file.write, lambda _: _
 
 
 @contextmanager
-- 
2.43.0


From 6d22125c0d432d4f07035bc4c97bdd0c1836e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 12/19] fix: add_manifest() failed when a manifest added a file
 to its base

---
 src/gaspra/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/manifest.py b/src/gaspra/manifest.py
index c6400f2..43cae2e 100644
--- a/src/gaspra/manifest.py
+++ b/src/gaspra/manifest.py
@@ -24,7 +24,7 @@ def add_manifest(
             versions.add(
                 tag,
                 contents[tag],
-                base_manifest[name] if base_manifest is not None else None,
+                base_manifest.get(name) if base_manifest is not None else None,
             )
 
     manifest_doc = manifest_to_doc(manifest)
-- 
2.43.0


From e6566b39288d2c90adc2ba599d9189ccb8f316e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 13/19] fix: DBTree.path_to() returned an empty path for an
 unknown tag

---
 src/gaspra/db_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/db_tree.py b/src/gaspra/db_tree.py
index ac4963d..19b5a66 100644
--- a/src/gaspra/db_tree.py
+++ b/src/gaspra/db_tree.py
@@ -56,7 +56,7 @@ class DBTree:
     def reverse_path_to(self, tag: Hashable) -> Sequence[Hashable] | None:
         with self.connection_factory() as connection:
             rows = connection.cursor().execute(PATH_TO, (tag,)).fetchall()
-            if rows is not None:
+            if rows:
                 return tuple(row[0] for row in rows)
             else:
                 return None
-- 
2.43.0


From 54de3435ead754dabd5c69f22a42d89aa40bfd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 14/19] fix: DBTree turned tags that aren't strings into
 strings

---
 src/gaspra/db_tree_sql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/db_tree_sql.py b/src/gaspra/db_tree_sql.py
index 676ef71..ad45c95 100644
--- a/src/gaspra/db_tree_sql.py
+++ b/src/gaspra/db_tree_sql.py
@@ -1,13 +1,13 @@
 CREATE_GRAPH = """
 CREATE TABLE graph (
-   tag TEXT PRIMARY KEY,
-   parent TEXT,
+   tag PRIMARY KEY,
+   parent,
    parent_rid INTEGER,
    child0_rid INTEGER,
    child1_rid INTEGER,
    height INTEGER,
    size INTEGER,
-   base_version TEXT
+   base_version
 )
 """
 
-- 
2.43.0


From a3a11655aff079e95ff61a06625fa898ea5dfeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 15/19] fix: --strikeout failed and changed the shared markup
 tables

---
 src/gaspra/merge_tool.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2b3f55d..b92f944 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -152,13 +152,14 @@ def get_markup_style(arguments, allow_strikeout=True):
     else:
         level1 = COLORED_LEVEL1
 
-    markup = {"level0": level0, "level1": level1}
+    # Copy the tables because they're shared and modified below.
+    markup = copy.deepcopy({"level0": level0, "level1": level1})
 
     if arguments.strikeout and allow_strikeout:
-        markup["level0"]["from"] = strikeout_level0
-        markup["level1"]["from"] = strikeout_level1
+        markup["level0"]["from"]["prefix"] = lambda _: strikeout_level0()
+        markup["level1"]["from"]["prefix"] = lambda _: strikeout_level1()
 
-    return copy.deepcopy(markup)
+    return markup
 
 
 def get_writer(arguments):
-- 
2.43.0


From f2eea46e6873fc173038da8f733d6bbb4e0cd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 16/19] fix: carriage returns were lost when reading the inputs

---
 src/gaspra/markup.py     | 2 +-
 src/gaspra/merge_tool.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index a567e50..7efa51b 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -57,7 +57,7 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    with open(filename, "wt", encoding="utf-8") as file:
+    with open(filename, "wt", encoding="utf-8", newline="") as file:
         yield file.write, lambda _: _
 
 
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index b92f944..89757a6 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -282,11 +282,11 @@ def get_text(*filenames: str) -> tuple[str, ...]:
     data = []
     for filename in filenames:
         try:
-            with open(filename, "rt", encoding="utf-8") as f:
+            with open(filename, "rt", encoding="utf-8", newline="") as f:
                 data.append(f.read())
 
         except UnicodeDecodeError:
-            with open(filename, "rt", encoding="iso-8859-1") as f:
+            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                 data.append(f.read())
 
     return tuple(data)
-- 
2.43.0


From 21ee17cdd22785502c549095ccfc973ac8fcc307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 17/19] fix: branch names weren't escaped in merge output

---
 src/gaspra/merge_tool.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 89757a6..ca9665a 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -133,9 +133,9 @@ def get_markup_function(arguments, escape, allow_strikeout=True):
             changeset,
             markup0=markup["level0"],
             markup1=markup["level1"],
-            name_into=os.path.basename(branch0),
-            name_from=os.path.basename(branch1),
-            header=os.path.basename(header) if header else None,
+            name_into=escape(os.path.basename(branch0)),
+            name_from=escape(os.path.basename(branch1)),
+            header=escape(os.path.basename(header)) if header else None,
             escape=escape,
         )
 
@@ -273,8 +273,8 @@ def diff_cli():
         display_function(
             writer,
             changes,
-            escape(modified_name),
-            escape(original_name),
+            modified_name,
+            original_name,
         )
 
 
-- 
2.43.0


From bfa67f3a6f38275911d3770999fa978569f999b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 18/19] fix: keep the type of tags in a database collection

---
 src/gaspra/db_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index 0f81210..b15bcb5 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -45,7 +45,7 @@ class DBCollection(MutableMapping):
         with self.connection_factory() as connection:
             cursor = connection.cursor()
             cursor.execute(f"DROP TABLE IF EXISTS {table}")
-            cursor.execute(f"CREATE TABLE {table} (tag TEXT PRIMARY KEY, data BLOB)")
+            cursor.execute(f"CREATE TABLE {table} (tag PRIMARY KEY, data BLOB)")
 
     def __getitem__(self, tag: str):
         statement = SELECT.format(table=self.table)
-- 
2.43.0


From edf805d3e10d87a6aeef184cca273e7d772385da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:09 +0000
Subject: [PATCH 19/19] fix: commit links and metrics of a re-parented version
 together

---
 src/gaspra/db_tree.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/gaspra/db_tree.py b/src/gaspra/db_tree.py
index 19b5a66..d9a400d 100644
--- a/src/gaspra/db_tree.py
+++ b/src/gaspra/db_tree.py
@@ -108,8 +108,9 @@ class DBTree:
                 ADD_CHILDx.format(x=child), (tag_rid, new_parent_rid)
             )
 
-        self._update_metrics(original_parent, original_parent_rid)
-        self._update_metrics(new_parent, new_parent_rid)
+            # The metrics belong to the same transaction as the links.
+            self._update_metrics(connection, original_parent, original_parent_rid)
+            self._update_metrics(connection, new_parent, new_parent_rid)
 
     def get_split(self, tag: Hashable):
         return self.new_get_split(tag)
@@ -126,17 +127,16 @@ class DBTree:
                 depth += 1
         return tag, path
 
-    def _update_metrics(self, tag: str, tag_rid: int):
-        self._new_update_metrics(tag, tag_rid)
+    def _update_metrics(self, connection: Connection, tag: str, tag_rid: int):
+        self._new_update_metrics(connection, tag, tag_rid)
 
-    def _new_update_metrics(self, tag: str, tag_rid: int):
-        with self.connection_factory() as connection:
-            while tag_rid is not None:
-                _, parent_rid, height, size = connection.execute(
-                    GET_NODE_METRICS, (tag_rid,)
-                ).fetchone()
-                connection.execute(UPDATE_METRICS, (height, size, tag_rid))
-                tag_rid = parent_rid
+    def _new_update_metrics(self, connection: Connection, tag: str, tag_rid: int):
+        while tag_rid is not None:
+            _, parent_rid, height, size = connection.execute(
+                GET_NODE_METRICS, (tag_rid,)
+            ).fetchone()
+            connection.execute(UPDATE_METRICS, (height, size, tag_rid))
+            tag_rid = parent_rid
 
     def old_get_split(self, tag: Hashable):
         with self.connection_factory() as connection:
@@ -152,6 +152,5 @@ class DBTree:
                 depth += 1
         return tag, path
 
-    def _old_update_metrics(self, tag: str, tag_rid: int):
-        with self.connection_factory() as connection:
-            connection.execute(OLD_UPDATE_METRICS, (tag,))
+    def _old_update_metrics(self, connection: Connection, tag: str, tag_rid: int):
+        connection.execute(OLD_UPDATE_METRICS, (tag,))
-- 
2.43.0


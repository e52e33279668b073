From 273d0e8bea6ac950f78246b6b402677d0688b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:19 +0000
Subject: [PATCH 01/24] fix: use a new transformer for every parse

The shared transformer kept the implied book and chapter of the previous
parse ("3:4" parsed after "Mark 2:3" gave Mark 3:4 instead of an error),
and mixed up parses running in different threads.
---
 src/bibleref/parser.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 19ed9aa..f6caa15 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -28,17 +28,6 @@ def _parser():
     return _parser_obj
 
 
-_transformer_obj = None
-
-def _transformer():
-    '''Return a Lark Transformer singleton.'''
-    global _transformer_obj
-
-    if _transformer_obj is None:
-        _transformer_obj = _BibleRefTransformer()
-    return _transformer_obj
-
-
 def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
@@ -53,8 +42,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     
     try:
         flags = flags or bibleref.flags or ref.BibleFlag.NONE
-        _transformer().flags = flags
-        range_groups_list = _transformer().transform(tree)
+        # The transformer tracks the implied book and chapter, so each parse needs its own.
+        range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
         raise e.orig_exc
     return range_groups_list
-- 
2.43.0


From 9f7083d05b6793d69dd333de121e35db50bc89ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:36 +0000
Subject: [PATCH 02/24] fix: only change a separator once a parser exists for
 it

A separator that the grammar cannot use (e.g. '"') raised an exception but
was kept, so that formatting used it and parsing did not. Concurrent changes,
or a change during the first parse, could also leave the parser built for
other separators than the current ones. The parser now remembers the
separators it was created for.
---
 src/bibleref/data.py   | 10 +++++-----
 src/bibleref/parser.py | 33 ++++++++++++++-------------------
 2 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 63b9697..feca312 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -28,8 +28,8 @@ class BibleData:
     
     @range_sep.setter
     def range_sep(self, value):
+        parser._parser(range_sep=value) # Raises an exception if the value is unusable
         self._range_sep = value
-        parser._recreate_parser()
 
     @property
     def major_list_sep(self):
@@ -40,8 +40,8 @@ class BibleData:
     
     @major_list_sep.setter
     def major_list_sep(self, value):
+        parser._parser(major_list_sep=value) # Raises an exception if the value is unusable
         self._major_list_sep = value
-        parser._recreate_parser()
 
     @property
     def minor_list_sep(self):
@@ -52,8 +52,8 @@ class BibleData:
     
     @minor_list_sep.setter
     def minor_list_sep(self, value):
+        parser._parser(minor_list_sep=value) # Raises an exception if the value is unusable
         self._minor_list_sep = value
-        parser._recreate_parser()
 
     @property
     def verse_sep_std(self):
@@ -62,8 +62,8 @@ class BibleData:
     
     @verse_sep_std.setter
     def verse_sep_std(self, value):
+        parser._parser(verse_sep_std=value) # Raises an exception if the value is unusable
         self._verse_sep_std = value
-        parser._recreate_parser()
 
     @property
     def verse_sep_alt(self):
@@ -72,8 +72,8 @@ class BibleData:
     
     @verse_sep_alt.setter
     def verse_sep_alt(self, value):
+        parser._parser(verse_sep_alt=value) # Raises an exception if the value is unusable
         self._verse_sep_alt = value
-        parser._recreate_parser()
 
     @property
     def book_order(self):
diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index f6caa15..701e8b5 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -13,19 +13,19 @@ MAJOR_LIST_SEP_SENTINEL = object()
 MINOR_LIST_SEP_SENTINEL = object()
 
 
-_parser_obj = None
+_parser_obj = (None, None)  # The separators of the current Lark parser, and the parser itself.
 
-def _parser():
-    '''Return a Lark parser singleton.'''
+def _parser(**new_seps):
+    '''Return a Lark parser for the current separators. Individual separators can be overridden by keyword, in which
+    case an exception is raised if no parser can be created for them.'''
     global _parser_obj
-    if _parser_obj is None:
-        # from pathlib import Path
-        # GRAMMAR_FILE_NAME = "bible-reference.lark"
-        # grammar_path = Path(__file__, "..", GRAMMAR_FILE_NAME).resolve()
-        # with open(grammar_path) as file:
-        #     grammar_text = file.read()
-        _recreate_parser()
-    return _parser_obj
+    names = ("range_sep", "major_list_sep", "minor_list_sep", "verse_sep_std", "verse_sep_alt")
+    seps = tuple(new_seps.get(name, getattr(bible_data(), name)) for name in names)
+    parser_seps, parser = _parser_obj
+    if parser_seps != seps:
+        parser = _create_parser(*seps)
+        _parser_obj = (seps, parser) # A single assignment, so that parser and separators always match
+    return parser
 
 
 def _parse(string, flags: ref.BibleFlag = None):
@@ -188,13 +188,8 @@ class _BibleRefTransformer(Transformer):
     def NUM(self, token):
         return int(token)
 
-def _recreate_parser():
-    global _parser_obj
-    range_sep = bible_data().range_sep
-    major_list_sep = bible_data().major_list_sep
-    minor_list_sep = bible_data().minor_list_sep
-    verse_sep_std = bible_data().verse_sep_std
-    verse_sep_alt = bible_data().verse_sep_alt
+def _create_parser(range_sep, major_list_sep, minor_list_sep, verse_sep_std, verse_sep_alt):
+    '''Return a new Lark parser for the given separators.'''
     grammar = rf'''
         ?start: ref_list
 
@@ -234,4 +229,4 @@ def _recreate_parser():
         %import common.INT
         %ignore WS
     '''
-    _parser_obj = Lark(grammar, propagate_positions=True)
+    return Lark(grammar, propagate_positions=True)
-- 
2.43.0


From 3cdf4938e06f391eb0c18413ac3b5982f969b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:17 +0000
Subject: [PATCH 03/24] fix: leave the Bible data alone when new data is
 rejected

Setting a book order with a repeated or invalid book, invalid name data, or
chapter data of the wrong type raised an exception half-way, after some books
had already been changed.
---
 src/bibleref/data.py | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index feca312..a00c33a 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -84,11 +84,12 @@ class BibleData:
 
     @book_order.setter
     def book_order(self, book_order_list: list):
-        self._book_order = book_order_list
         book_set = set(ref.BibleBook)
+        for i in range(len(book_order_list)):
+            book_set.remove(book_order_list[i]) # Raises KeyError if not a book, or a repeated book
+        self._book_order = book_order_list
         for i in range(len(self._book_order)):
             self._book_order[i].order = i
-            book_set.remove(self._book_order[i])
         # Set remaining order of remaining books to None
         for book in book_set:
             # print(f"No order for {book}")
@@ -102,33 +103,39 @@ class BibleData:
 
     @name_data.setter
     def name_data(self, name_data: dict):
+        # Evaluate all the new data before changing anything, in case some of it is invalid
+        abbrevs_and_titles = self._abbrevs_and_titles(name_data)
+        regexes = self._regexes(name_data)
         self._name_data = name_data
-        self._set_abbrevs_and_titles(self._name_data)
-        self._set_regexes(self._name_data)
+        for book in ref.BibleBook:
+            (book.abbrev, book.title) = abbrevs_and_titles[book]
+            book.regex = regexes[book]
 
-    def _set_abbrevs_and_titles(self, name_data: dict):
+    def _abbrevs_and_titles(self, name_data: dict):
+        '''Returns a dictionary with the abbreviation and title of each BibleBook.'''
+        abbrevs_and_titles = {}
         for book in ref.BibleBook:
             if book not in name_data:
                 # print(f"No name data for {book}")
-                book.abbrev = None
-                book.title = None
+                abbrevs_and_titles[book] = (None, None)
             else:
                 book_name_data = name_data[book]
-                book.abbrev = book_name_data[0]
-                book.title = book_name_data[1]
+                abbrevs_and_titles[book] = (book_name_data[0], book_name_data[1])
+        return abbrevs_and_titles
 
-    def _set_regexes(self, name_data: dict):
-        '''Add a 'regex' attribute to each BibleBook for a regex matching acceptable names.
+    def _regexes(self, name_data: dict):
+        '''Returns a dictionary with a regex for each BibleBook, matching acceptable names.
 
         For each book, several regex patterns are joined together.
         The main pattern is derived from the book's full title, and requires the min number of unique characters.
         Any characters beyond the minimum are optional, but must be correct.
         Extra patterns are derived from the list of any extra recognised abbreviations.
         '''
+        regexes = {}
         for book in ref.BibleBook:
             if book not in name_data:
                 # print(f"No name data for {book}")
-                book.regex = None
+                regexes[book] = None
             else:
                 book_name_data = name_data[book]
 
@@ -167,7 +174,8 @@ class BibleData:
                 for abbrev in extra_abbrevs:
                     abbrev = abbrev.replace(" ",r"\s*") # Allow for variable whitespace
                     total_pattern += "|" + abbrev
-                book.regex = re.compile(total_pattern, re.IGNORECASE)
+                regexes[book] = re.compile(total_pattern, re.IGNORECASE)
+        return regexes
 
     @property
     def max_verses(self):
@@ -177,13 +185,14 @@ class BibleData:
 
     @max_verses.setter
     def max_verses(self, max_verses: dict):
+        book_max_verses = {book: max_verses[book] for book in ref.BibleBook if book in max_verses}
         self._max_verses = max_verses
         for book in ref.BibleBook:
-            if book not in self._max_verses:
+            if book not in book_max_verses:
                 # print(f"No max_verses for {book}")
                 book._max_verses = None
             else:
-                book._max_verses = self._max_verses[book]
+                book._max_verses = book_max_verses[book]
 
     @property
     def verse_0s(self):
@@ -194,10 +203,11 @@ class BibleData:
     
     @verse_0s.setter
     def verse_0s(self, verse_0s: dict):
+        book_verse_0s = {book: verse_0s[book] for book in ref.BibleBook if book in verse_0s}
         self._verse_0s = verse_0s
         for book in ref.BibleBook:
-            if book in verse_0s:
-                book._verse_0s = self._verse_0s[book]
+            if book in book_verse_0s:
+                book._verse_0s = book_verse_0s[book]
             else:
                 book._verse_0s = set()
 
-- 
2.43.0


From 0b0904c6bfed531fbe2597165140dcfc028448a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:49 +0000
Subject: [PATCH 04/24] fix: raise IndexError for list and group indices below
 -len

They returned the first item or group instead, and could delete or overwrite it.
---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 00623d6..5b18fc8 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -89,7 +89,7 @@ class GroupedList(MutableSequence):
             '''
             if group_index < 0:
                 group_index += self.parent._group_count
-            if group_index >= self.parent._group_count:
+            if group_index < 0 or group_index >= self.parent._group_count:
                 raise IndexError(f"Group index {group_index} out of range")
             return group_index
 
@@ -215,7 +215,7 @@ class GroupedList(MutableSequence):
         '''
         if index < 0:
             index += self._node_count
-        if index >= self._node_count:
+        if index < 0 or index >= self._node_count:
             raise IndexError(f"List index {index} out of range")
         return index
 
-- 
2.43.0


From df55e5cba86ffb0a24b2795a280c6350cbacbc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:53 +0000
Subject: [PATCH 05/24] fix: ignore a new group boundary where there already is
 one

insert_group_at() on the first item of a group linked the group heads into
a cycle, so that iterating over the groups never ended.
---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 5b18fc8..84c809e 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -318,8 +318,8 @@ class GroupedList(MutableSequence):
             self._first_head = node
 
     def _insert_new_group_at_node(self, node: 'GroupedList._Node'):
-        if node is self._first:
-            # First node is always already a group.
+        if node.is_group_head:
+            # Node (which includes the first node) is already the start of a group.
             return
         node.is_group_head = True
         prev_group_head = self._find_group_head(node.prev)
-- 
2.43.0


From fdba187b8480cd0602df7358ee77e4d649b3abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:57 +0000
Subject: [PATCH 06/24] fix: allow a list to be extended with itself

extend(), append_group() and += never ended when given the list itself.
---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 84c809e..d243d48 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -482,13 +482,13 @@ class GroupedList(MutableSequence):
         
         The new items all form a single new group.'''
         is_first_item = True
-        for item in iterable:
+        for item in list(iterable): # A copy, as `iterable` may be this list, or one of its groups
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        for item in iterable:
+        for item in list(iterable): # A copy, as `iterable` may be this list, or one of its groups
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From 971fa2206c1d8b1484045cd5d37bdf2819d4265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:00 +0000
Subject: [PATCH 07/24] fix: invalidate group views when a list is cleared

Deleting an item through a view of a group from before clear() corrupted the
item count, and with it the list.
---
 src/bibleref/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index d243d48..39349b8 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -190,6 +190,7 @@ class GroupedList(MutableSequence):
         
         If the items of `iterable` are Python lists or tuples, each element of `iterable` is added as a
         separate group.'''
+        self._first: GroupedList._Node = None          # First node
         self.clear()
         if iterable is None:
             return
@@ -526,6 +527,10 @@ class GroupedList(MutableSequence):
 
     def clear(self):
         '''Removes all items from the list.'''
+        for node in self._node_iter():
+            # Existing views of the groups are no longer valid
+            node.parent = None
+            node.clear_group_head()
         self._first: GroupedList._Node = None          # First node
         self._last: GroupedList._Node = None           # Last node
         self._node_count: int = 0                    # Count of nodes
-- 
2.43.0


From c7b0bed4b842508561ee600b25b3213a59164db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:04 +0000
Subject: [PATCH 08/24] fix: compare and search lists like other sequences do

list == None raised TypeError, and index() on an empty list IndexError instead
of ValueError.
---
 src/bibleref/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 39349b8..062e683 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -437,6 +437,8 @@ class GroupedList(MutableSequence):
         if limit_index is None:
             limit_index = self._node_count
         self._check_type(value)
+        if self._node_count == 0:
+            raise ValueError(f"Value {value} not found in list")
         min_index = self._conform_index(min_index)
         limit_index = self._conform_index(limit_index-1) + 1
         if min_index > limit_index: # Swap
@@ -647,7 +649,7 @@ class GroupedList(MutableSequence):
             node = node.next
 
     def __eq__(self, other) -> bool:
-        return self.equals(other)
+        return isinstance(other, GroupedList) and self.equals(other)
 
     def equals(self, other_iterable, compare_groups=True) -> bool:
         '''Returns `True` if each item in this list equals the corresponding item in `other_iterable`,
-- 
2.43.0


From bf1d2ab681c1101771345c975e005203a130440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:08 +0000
Subject: [PATCH 09/24] fix: sort lists of any length, and keep them intact if
 sorting fails

The recursive merge exceeded the recursion limit for a few hundred interleaved
items, and an exception while comparing items lost most of the list.
---
 src/bibleref/util.py | 71 +++++---------------------------------------
 1 file changed, 8 insertions(+), 63 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 062e683..640283c 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -570,71 +570,16 @@ class GroupedList(MutableSequence):
     def sort(self):
         '''Sorts this list in-place. All existing groups are cleared and replaced with a single
         new group.'''
-        (self._first, self._last) = self._merge_sort(self._first, clear_group_heads=True)
+        # Python's own sort doesn't recurse, and nothing has changed yet if comparing the values raises an exception
+        nodes = sorted(self._node_iter(), key=lambda node: node.value)
+        self._first = nodes[0] if nodes else None
+        self._last = nodes[-1] if nodes else None
+        for prev_node, node, next_node in zip([None] + nodes[:-1], nodes, nodes[1:] + [None]):
+            node.prev = prev_node
+            node.next = next_node
+            node.clear_group_head()
         self._setup_single_group()
 
-    def _merge_sort(self, first_node: 'GroupedList._Node', clear_group_heads=False):
-        '''Sorts a list beginning with `first_node`, and returns a tuple of (new_first_node, new_last_node).
-        '''
-        if first_node is None or first_node.next is None:
-            return (first_node, first_node)
-        
-        first_node_A = first_node
-        first_node_B = self._split(first_node, clear_group_heads)
-        (first_node_A, last_node_A) = self._merge_sort(first_node_A, clear_group_heads=False)
-        (first_node_B, last_node_B) = self._merge_sort(first_node_B, clear_group_heads=False)
-
-        (new_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A, 
-                                                               first_node_B, last_node_B)
-        return (new_first_node, new_last_node)
-
-    def _split(self, first_node: 'GroupedList._Node', clear_group_heads=False):
-        '''Given the first node of a sublist, splits the list in half and returns the first
-        node of the second half.'''
-        slow_node = first_node
-        if clear_group_heads:
-            slow_node.clear_group_head()
-        fast_node = first_node.next
-
-        while fast_node is not None:
-            if clear_group_heads:
-                fast_node.clear_group_head()            
-            fast_node = fast_node.next
-            if fast_node is not None:
-                if clear_group_heads:
-                    fast_node.clear_group_head()            
-                slow_node = slow_node.next
-                fast_node = fast_node.next
-        
-        first_node_B = slow_node.next
-        slow_node.next = None
-        first_node_B.prev = None
-        return first_node_B
-
-    def _merge_sublists(self, first_node_A: 'GroupedList._Node', last_node_A: 'GroupedList._Node',
-                              first_node_B: 'GroupedList._Node', last_node_B: 'GroupedList._Node'):
-        '''Combines two sublists (A and B) into a single sorted list. Returns a tuple of
-        (new_first_node, new_last_node)'''
-        if first_node_A is None:
-            return (first_node_B, last_node_B)
-        if first_node_B is None:
-            return (first_node_A, last_node_A)
-        
-        if first_node_A <=  first_node_B: # Nodes compare using their values
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A.next, last_node_A,
-                                                                    first_node_B, last_node_B)
-            first_node_A.next = next_first_node
-            next_first_node.prev = first_node_A
-            first_node_A.prev = None
-            return (first_node_A, new_last_node)
-        else: # first_node_B is less than first_node_A
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A,
-                                                                    first_node_B.next, last_node_B)
-            first_node_B.next = next_first_node
-            next_first_node.prev = first_node_B
-            first_node_B.prev = None
-            return (first_node_B, new_last_node)
-
     #
     # End of sort-related methods
     #
-- 
2.43.0


From 956d49e3cae3e0a991130370677739ba1ad34fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:46 +0000
Subject: [PATCH 10/24] fix: let flags=BibleFlag.NONE override the global flags

An empty flags argument was treated like a missing one.
---
 src/bibleref/parser.py |  2 +-
 src/bibleref/ref.py    | 29 ++++++++++++++++++-----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 701e8b5..e991312 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -41,7 +41,7 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = flags or bibleref.flags or ref.BibleFlag.NONE
+        flags = ref._resolve_flags(flags)
         # The transformer tracks the implied book and chapter, so each parse needs its own.
         range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 421ffa1..179cb62 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -37,6 +37,13 @@ class BibleFlag(Flag):
 
 bibleref.flags = BibleFlag.NONE # Default setting for global flags attribute.
 
+def _resolve_flags(flags: BibleFlag = None) -> BibleFlag:
+    '''Returns the flags in effect for a method given this `flags` argument. (`BibleFlag.NONE` is a valid argument
+    that overrides the global flags.)'''
+    if flags is None:
+        flags = bibleref.flags
+    return BibleFlag.NONE if flags is None else flags
+
 
 class BibleBook(Enum):
     '''An enum of books in the Bible.
@@ -176,7 +183,7 @@ class BibleBook(Enum):
     def min_verse_num(self, chap_num: int, flags: BibleFlag = None) -> int:
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
@@ -470,7 +477,7 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         book = self.book
         chap_num = self.chap_num
         if self.verse_num == 0:
@@ -507,7 +514,7 @@ class BibleVerse:
 
         Using the `-` operator is equivalent to calling `subtract()` with `flags = None`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if isinstance(other, int):
             book = self.book
             chap_num = self.chap_num
@@ -609,7 +616,7 @@ class BibleRange:
     def whole_bible(cls, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a `BibleRange` representing the whole Bible.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         # By definition, we need to allow multibook to encompass whole Bible
         flags |= BibleFlag.MULTIBOOK
         start_book = bible_data().book_order[0]
@@ -661,7 +668,7 @@ class BibleRange:
         or using the `flags` argument, a `MultibookRangeNotAllowedError` is raised. If the arguments are of an
         incorrect number or type, a `ValueError` is raised.     
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         if len(args) == 0:
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
@@ -857,7 +864,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
@@ -866,7 +873,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
@@ -881,7 +888,7 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -1229,7 +1236,7 @@ class BibleRangeList(util.GroupedList):
             
         3. As a copy of an existing BibleRangeList: `BibleRangeList(existing_bible_range_list)`
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
 
         if len(args) == 1:
             if isinstance(args[0], str):
@@ -1316,7 +1323,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
@@ -1329,7 +1336,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         min_range: BibleRange = min(self)
         max_range: BibleRange = max(self)
-- 
2.43.0


From b13785968d7c2e1cf8b14d2ddc2d0d399205ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:49 +0000
Subject: [PATCH 11/24] fix: pass the flags argument on to nested calls

E.g. BibleRange('Ps 3', flags=BibleFlag.VERSE_0) raised an exception, and
verse_count(), subtract(), difference(), merge() and str() partly used the
global flags instead of the flags they were given.
---
 src/bibleref/ref.py | 48 +++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 179cb62..2f1ca0f 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -201,7 +201,7 @@ class BibleBook(Enum):
         '''
         if chap_num is None:
             chap_num = self.min_chap_num()
-        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags))        
+        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags), flags=flags)
 
     def last_verse(self, chap_num: int = None) -> 'BibleVerse':
         '''Returns a `BibleVerse` for the last verse of the specified chapter of this `BibleBook`.
@@ -534,11 +534,11 @@ class BibleVerse:
                         chap_num = book.max_chap_num()
                 
                 verse_num = verse_num + book.max_verse_num(chap_num) - min_verse_num + 1 
-                min_verse_num = book.min_verse_num(chap_num)
+                min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
-            bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-            difference = bible_range.verse_count() - 1
+            bible_range = BibleRange(start=self, end=other, flags=flags) # Bible will swap start and end as necessary
+            difference = bible_range.verse_count(flags=flags) - 1
             if self < other:
                 difference *= -1
             return difference
@@ -824,7 +824,7 @@ class BibleRange:
     def verse_count(self, flags: BibleFlag = None):
         '''Returns the number of verses in this range.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True) # Each range will thus be within its own chapter
+        bible_ranges = self.split(by_chap=True, flags=flags) # Each range will thus be within its own chapter
         count = 0
         for bible_range in bible_ranges:
             count += (bible_range.end.verse_num - bible_range.start.verse_num + 1)
@@ -836,12 +836,12 @@ class BibleRange:
         If `whole` is True, only whole chapters are counted. Otherwise partial chapters are also included in the
         count.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True)
+        bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap():
+            if not bible_ranges[0].is_whole_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
                 count -= 1
         return count
 
@@ -850,12 +850,12 @@ class BibleRange:
         
         If `whole` is True, only whole books are counted. Otherwise, partial books are also included in the count.'''
         # We split the range into books, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_book=True)
+        bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book():
+            if not bible_ranges[0].is_whole_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
                 count -= 1
         return count
 
@@ -889,6 +889,7 @@ class BibleRange:
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
         flags = _resolve_flags(flags)
+        regroup_flags = flags
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -935,7 +936,7 @@ class BibleRange:
         
         range_list = BibleRangeList(split_result, flags=flags)
         if regroup:
-            range_list.regroup()
+            range_list.regroup(regroup_flags)
         return range_list
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
@@ -962,7 +963,7 @@ class BibleRange:
         if isinstance(other_ref, BibleRangeList):
             # BibleRangeList doesn't define is_adjacent(), so we have to implement here
             return other_ref.is_disjoint(self) and \
-                   any(self.is_adjacent(other_range) for other_range in other_ref) 
+                   any(self.is_adjacent(other_range, flags=flags) for other_range in other_ref)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1075,8 +1076,9 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags))
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end)
+        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags),
+                                 flags=flags)
+        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags)
         if self.surrounds(other_ref):
             return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
         if self < other_ref:
@@ -1106,7 +1108,7 @@ class BibleRange:
             # as the symmetric difference
             return union
         else: # Self and other_ref overlap
-            return union[0].difference(intersection[0])
+            return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
         verse = self.start
@@ -1148,11 +1150,11 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book():
+        if self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
-        elif self.spans_start_chap():
-            if force_start_verses and not self.spans_end_chap():
+        elif self.spans_start_chap(flags):
+            if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
                 at_verse_level = True
             else:
@@ -1367,7 +1369,7 @@ class BibleRangeList(util.GroupedList):
             else:
                 # The two ranges can't be merged, so move on
                 node = node.next
-        self.regroup()
+        self.regroup(flags)
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
         '''Returns `True` if every `BibleRange` is disjoint with all the verses in `other_ref`, otherwise `False`.
@@ -1509,7 +1511,7 @@ class BibleRangeList(util.GroupedList):
                         self_node = self_node.prev
                     self._pop_node(old_self_node)
             self_node = self_node.next
-        self.merge()
+        self.merge(flags=flags)
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
@@ -1616,7 +1618,7 @@ class BibleRangeList(util.GroupedList):
                 show_start_verse = True
 
             cur_book = bible_range.start.book
-            if (not show_start_verse) and (not bible_range.spans_end_chap()):
+            if (not show_start_verse) and (not bible_range.spans_end_chap(flags)):
                 # End verse will show verse num, and we've been asked to show start verse num in such cases
                 show_start_verse = True
                 at_verse_level = True
@@ -1745,7 +1747,7 @@ class BibleRangeList(util.GroupedList):
 
                 cur_book = bible_range.start.book
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
-                   (not bible_range.spans_end_chap()):
+                   (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
                     start_parts |= BibleVersePart.VERSE
                     at_verse_level = True
-- 
2.43.0


From 51d71e5022df23cc31919b191828491804f21485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:17 +0000
Subject: [PATCH 12/24] fix: return the list from the in-place set operators

list |= other (and &=, -=, ^=) left the variable set to None.
---
 src/bibleref/ref.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2f1ca0f..8aa5502 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1559,16 +1559,20 @@ class BibleRangeList(util.GroupedList):
         return self.sym_difference(other_ref)
 
     def __ior__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.union_update(other_ref)    
+        self.union_update(other_ref)
+        return self
 
     def __iand__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.intersection_update(other_ref)
+        self.intersection_update(other_ref)
+        return self
 
     def __isub__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.difference_update(other_ref)
+        self.difference_update(other_ref)
+        return self
 
     def __ixor__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.sym_difference_update(other_ref)
+        self.sym_difference_update(other_ref)
+        return self
 
     def __repr__(self):
         return f'BibleRangeList("{self.str()}")'
-- 
2.43.0


From 5120e9870f4d862b1990a32052d720dfed7e2c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:59 +0000
Subject: [PATCH 13/24] fix: compute range differences at the ends of the Bible
 and of books

The difference also evaluated the verses next to a part that is not needed,
and raised an exception when there are none (e.g. Rev 22 minus Rev 22:5-21).
range - list and range ^ list raised exceptions too, as did operations on
existing multibook ranges while MULTIBOOK is unset.
---
 src/bibleref/ref.py | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 8aa5502..43b0292 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -781,6 +781,15 @@ class BibleRange:
         return BibleRange(start=self.start.verse_1_to_0(), end=self.end.verse_1_to_0(),
                           flags=BibleFlag.ALL)
 
+    def _implied_flags(self, flags: BibleFlag = None) -> BibleFlag:
+        '''Returns the flags in effect, also setting those flags that our attributes imply should be set.'''
+        flags = _resolve_flags(flags)
+        if self.start.book != self.end.book:
+            flags |= BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0
+        return flags
+
     def is_single_verse(self) -> bool:
         '''Returns `True` if the `BibleRange` exactly contains a single verse, else `False`.'''
         return  (self.start == self.end)
@@ -888,13 +897,8 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = _resolve_flags(flags)
-        regroup_flags = flags
-        # Set flags if our attributes imply they should be set
-        if self.start.book != self.end.book:
-            flags |= BibleFlag.MULTIBOOK
-        if self.start.verse_num == 0 or self.end.verse_num == 0:
-            flags |= BibleFlag.VERSE_0
+        regroup_flags = _resolve_flags(flags)
+        flags = self._implied_flags(flags)
 
         split_result = [self]
         
@@ -1029,7 +1033,9 @@ class BibleRange:
             else:
                 start = min(self.start, other_ref.start)
                 end = max(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # (A multibook result is always allowed here, as then one of the two ranges is multibook already,
+                # or they are only adjacent because MULTIBOOK is set)
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
@@ -1053,11 +1059,13 @@ class BibleRange:
             else:
                 start = max(self.start, other_ref.start)
                 end = min(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # (A multibook result is always allowed here, as then one of the two ranges is multibook already,
+                # or they are only adjacent because MULTIBOOK is set)
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-    def difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
+    def difference(self, other_ref: 'BibleRef',
                    flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this range, but not in `other_ref`.
 
@@ -1068,6 +1076,9 @@ class BibleRange:
 
         Using the `-` operator is equivalent to calling `difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
@@ -1076,17 +1087,15 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags),
-                                 flags=flags)
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags)
-        if self.surrounds(other_ref):
-            return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
-        if self < other_ref:
-            return BibleRangeList([lower_range], flags=BibleFlag.ALL)
-        else:
-            return BibleRangeList([upper_range], flags=BibleFlag.ALL)
+        flags = self._implied_flags(flags)
+        range_list = BibleRangeList()
+        if self.start < other_ref.start:
+            range_list.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
+        if self.end > other_ref.end:
+            range_list.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
+        return range_list
 
-    def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
+    def sym_difference(self, other_ref: 'BibleRef',
                    flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this range, or in `other_ref`,
         but not both.
@@ -1096,6 +1105,9 @@ class BibleRange:
 
         Using the `^` operator is equivalent to calling `sym_difference()` with `flags = None`.
         '''
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).sym_difference(other_ref, flags=flags)
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
-- 
2.43.0


From bad7237cc407fe748b2b0f485592344fe1efd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:06 +0000
Subject: [PATCH 14/24] fix: compute set updates of a list before changing the
 list

difference_update() kept ranges that lie entirely within other_ref. The in-place
operations lost the groups that the other forms give, left the list changed when
they failed half-way, and never ended for a list updated with itself.
---
 src/bibleref/ref.py | 85 ++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 48 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 43b0292..b5d310d 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1357,6 +1357,12 @@ class BibleRangeList(util.GroupedList):
         return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
                           flags=flags)
 
+    def _replace_all(self, other_list: 'BibleRangeList'):
+        '''Replaces the items and groups of this list by those of `other_list`.'''
+        self.clear()
+        for group in other_list.groups:
+            self.append_group(group)
+
     def sort(self, regroup: bool = True):
         '''Sorts this list in-place. All existing groups are cleared and replaced with a single
         new group. Then regroups if `regroup` is True.'''
@@ -1416,15 +1422,6 @@ class BibleRangeList(util.GroupedList):
 
         Using the `|` operator is equivalent to calling `union()` with `flags = None`.
         '''
-        new_list = BibleRangeList(self)
-        new_list.union_update(other_ref, flags=flags)
-        return new_list
-
-    def union_update(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
-        '''Updates this list to be the union of its existing elements and `other_ref`, then consolidates this list.
-
-        Using the `|=` operator is equivalent to calling `union_update()` with `flags = None`.
-        '''
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRangeList (and we don't enforce existing flags for conversions)
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
@@ -1433,8 +1430,17 @@ class BibleRangeList(util.GroupedList):
         if not isinstance(other_ref, BibleRangeList):
             raise ValueError(f"{other_ref} is not a valid BibleRef")        
 
-        self.extend(other_ref)
-        self.merge(flags=flags)
+        new_list = BibleRangeList(self)
+        new_list.extend(other_ref)
+        new_list.merge(flags=flags)
+        return new_list
+
+    def union_update(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
+        '''Updates this list to be the union of its existing elements and `other_ref`, then consolidates this list.
+
+        Using the `|=` operator is equivalent to calling `union_update()` with `flags = None`.
+        '''
+        self._replace_all(self.union(other_ref, flags=flags))
 
     def intersection(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Creates a new `BibleRangeList` of verses that are common to both this `BibleRangeList` and `other_ref`,
@@ -1470,25 +1476,13 @@ class BibleRangeList(util.GroupedList):
 
         Using the `&=` operator is equivalent to calling `intersection_update()` with `flags = None`.
         '''
-        intersection_list = self.intersection(other_ref, flags=flags)
-        self.clear()
-        self.extend(intersection_list)
+        self._replace_all(self.intersection(other_ref, flags=flags))
 
     def difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this `BibleRangeList`, but not in `other_ref`.
 
         Using the `-` operator is equivalent to calling `difference()` with `flags = None`.
         '''
-        new_list = BibleRangeList(self)
-        new_list.difference_update(other_ref, flags=flags)
-        return new_list
-
-    def difference_update(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
-        '''Updates this list to be the difference of its existing elements and `other_ref`, then consolidates
-        this list.
-
-        Using the `-=` operator is equivalent to calling `difference_update()` with `flags = None`.
-        '''
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRangeList (and we don't enforce existing flags for conversions)
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
@@ -1502,28 +1496,25 @@ class BibleRangeList(util.GroupedList):
         #   (A0 ∪ A1) \ (B0 ∪ B1) = [(A0 \ B0) \ B1] ∪ [(A1 \ B0) \ B1]
         # So the difference of two BibleRefLists is a new list of the cumulative difference of each
         # item in the second list from each item in the first list.
-        #
-        # What's a little difficult is that the difference of two items can itself result in a list
-        # (of two items). As a result, it's easiest to calculate the difference in-place.
-        #
-        # In-place set difference requires us to make many updates to this list during iteration,
-        # beyond what a for-loop can cope with. Therefore we use a while loop.
-        self_node = self._first
-        while self_node is not None:
+        # The difference of two items can itself result in a list (of up to two items), from each of which the
+        # remaining items have to be subtracted.
+        new_list = BibleRangeList()
+        for self_range in self:
+            difference_ranges = [self_range]
             for other_range in other_ref:
-                self_range = self_node.value
-                item_difference_list = self_range.difference(other_range, flags=flags)
-                if len(item_difference_list) > 0:
-                    # This item_difference_list now should replace self_node, and self_node
-                    # changed to point to the first of the result items. The easiest
-                    # way to do this is to insert the result items starting from the end:
-                    old_self_node = self_node
-                    for difference_range in reversed(item_difference_list):
-                        self._insert_before(self_node, difference_range)
-                        self_node = self_node.prev
-                    self._pop_node(old_self_node)
-            self_node = self_node.next
-        self.merge(flags=flags)
+                difference_ranges = [item for difference_range in difference_ranges
+                                     for item in difference_range.difference(other_range, flags=flags)]
+            new_list.extend(difference_ranges)
+        new_list.merge(flags=flags)
+        return new_list
+
+    def difference_update(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
+        '''Updates this list to be the difference of its existing elements and `other_ref`, then consolidates
+        this list.
+
+        Using the `-=` operator is equivalent to calling `difference_update()` with `flags = None`.
+        '''
+        self._replace_all(self.difference(other_ref, flags=flags))
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
@@ -1549,9 +1540,7 @@ class BibleRangeList(util.GroupedList):
 
         Using the `^=` operator is equivalent to calling `sym_difference_update()` with `flags = None`.
         '''
-        sym_difference_list = self.sym_difference(other_ref, flags=flags)
-        self.clear()
-        self.extend(sym_difference_list)
+        self._replace_all(self.sym_difference(other_ref, flags=flags))
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 308c708f61437ecc13d9330e8f2db75bf4ae9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 15/24] fix: keep a list intact when sorting, merging or
 regrouping it fails

E.g. when the data of one of its books has been removed.
---
 src/bibleref/ref.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index b5d310d..db6e698 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1366,28 +1366,36 @@ class BibleRangeList(util.GroupedList):
     def sort(self, regroup: bool = True):
         '''Sorts this list in-place. All existing groups are cleared and replaced with a single
         new group. Then regroups if `regroup` is True.'''
-        super().sort()
         if regroup:
-            self.regroup()
+            # Work on a copy, so that this list doesn't change if there's an exception
+            new_list = BibleRangeList(self)
+            new_list.sort(regroup=False)
+            new_list.regroup()
+            self._replace_all(new_list)
+        else:
+            super().sort()
 
     def merge(self, flags: BibleFlag = None):
         '''Sorts this list in-place and merges ranges wherever possible, then regroups. The result is the smallest
         list of disjoint, non-adjacent `BibleRange` elements spanning the same verses as in the original
         list.
         '''
-        self.sort(regroup=False)
-        node = self._first
+        # Work on a copy, so that this list doesn't change if there's an exception
+        new_list = BibleRangeList(self)
+        new_list.sort(regroup=False)
+        node = new_list._first
         while node is not None and node.next is not None:
             union = node.value.union(node.next.value, flags=flags)
             if len(union) == 1: # Can merge these two ranges with their union
                 node.value = union[0]
-                self._pop_after(node)
+                new_list._pop_after(node)
                 # We don't move on yet, so we can compare the newly merged range
                 # with the (new) next node
             else:
                 # The two ranges can't be merged, so move on
                 node = node.next
-        self.regroup(flags)
+        new_list.regroup(flags)
+        self._replace_all(new_list)
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
         '''Returns `True` if every `BibleRange` is disjoint with all the verses in `other_ref`, otherwise `False`.
@@ -1589,7 +1597,7 @@ class BibleRangeList(util.GroupedList):
         # This method is derived from the str() method below, and is best read after that method.
         # Changes to the internal logic of str() likely require corresponding changes to the internal logic of
         # this method.
-        self.clear_groups()
+        group_nodes = [] # Nodes that will start a new group
 
         cur_book = None
         cur_chap = None
@@ -1600,13 +1608,13 @@ class BibleRangeList(util.GroupedList):
             bible_range: BibleRange = node.value                
             if bible_range.spans_start_book(flags): # Range start includes an entire book
                 # Even if already in same book, whole book references repeat the whole book name.
-                self._insert_new_group_at_node(node)
+                group_nodes.append(node)
                 cur_book = bible_range.start.book
                 cur_chap = None
                 at_verse_level = False
                 show_start_verse = False
             elif bible_range.spans_start_chap(flags): # Range start includes an entire chap
-                self._insert_new_group_at_node(node)
+                group_nodes.append(node)
                 cur_chap = bible_range.start.chap_num
                 at_verse_level = False
                 show_start_verse = False
@@ -1615,9 +1623,9 @@ class BibleRangeList(util.GroupedList):
                     if (not at_verse_level) or (cur_chap != bible_range.start.chap_num) or \
                        (bible_range.chap_count(flags=flags) > 1):
                         # At chap level or verse level in a different chap
-                        self._insert_new_group_at_node(node)
+                        group_nodes.append(node)
                 else: # Different book
-                    self._insert_new_group_at_node(node)
+                    group_nodes.append(node)
                 cur_chap = bible_range.start.chap_num
                 at_verse_level = True # All single verses move us to verse level
                 show_start_verse = True
@@ -1644,6 +1652,11 @@ class BibleRangeList(util.GroupedList):
                     at_verse_level = True
                 cur_book = bible_range.end.book
 
+        # Only change the groups now, in case there was an exception
+        self.clear_groups()
+        for node in group_nodes:
+            self._insert_new_group_at_node(node)
+
     def str(self, abbrev: bool = False, alt_sep: bool = False, nospace: bool = False,
                preserve_groups: bool = True, force_start_verses: bool = False, flags: BibleFlag = None):
         '''Returns a configuratble string representation of this BibleRangeList, as follows:
-- 
2.43.0


From 5eb3ca08dde069c9d6e13d5a3398375deba5547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:14 +0000
Subject: [PATCH 16/24] fix: find the last verse of a list whose ranges overlap

BibleRangeList('Matt 1-5; 2').range() ended at the end of the range that starts
last.
---
 src/bibleref/ref.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index db6e698..db1fb5e 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1327,9 +1327,9 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.ALL is always set for this method, regardless of the value of `bibleref.flags`.
         '''
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start, end=max_range.end, flags=BibleFlag.ALL)
+        start: BibleVerse = min(bible_range.start for bible_range in self)
+        end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start, end=end, flags=BibleFlag.ALL)
 
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1339,9 +1339,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_range.end.last_verse(),
+        start: BibleVerse = min(bible_range.start for bible_range in self)
+        end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start.first_verse(flags=flags), end=end.last_verse(),
                           flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
@@ -1352,9 +1352,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = _resolve_flags(flags)
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
+        start: BibleVerse = min(bible_range.start for bible_range in self)
+        end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start.book.first_verse(flags=flags), end=end.book.last_verse(),
                           flags=flags)
 
     def _replace_all(self, other_list: 'BibleRangeList'):
-- 
2.43.0


From ea0f710f360a387c34d6c59738bda4a941daf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:17 +0000
Subject: [PATCH 17/24] fix: include verse 0s when iterating over a range

With BibleFlag.VERSE_0 set, iterating gave fewer verses than verse_count().
---
 src/bibleref/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index db1fb5e..2233740 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1123,10 +1123,11 @@ class BibleRange:
             return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
+        flags = self._implied_flags() | BibleFlag.MULTIBOOK # Stays the same for the whole iteration
         verse = self.start
         while verse is not None and verse <= self.end:
             yield verse
-            verse = verse.add(1, BibleFlag.MULTIBOOK) # `verse`` will be None if we're on the last verse of the Bible
+            verse = verse.add(1, flags) # `verse`` will be None if we're on the last verse of the Bible
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From d7a7befb89c6bc6b062643a843287a7045775a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:39 +0000
Subject: [PATCH 18/24] fix: convert verse 0s of all ranges in a list, or of
 none

verse_0_to_1() and verse_1_to_0() left a list half converted when one of its
books has no data any more.
---
 src/bibleref/ref.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2233740..dad1244 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1294,16 +1294,18 @@ class BibleRangeList(util.GroupedList):
     def verse_0_to_1(self):
         '''Modifies this list *in-place* by calling `verse_0_to_1()` on every `BibleRange` in the list
         and using the result to replace the original range. Returns `None`.'''
-        for node in self._node_iter():
-            node.value = node.value.verse_0_to_1()
+        values = [bible_range.verse_0_to_1() for bible_range in self] # All of them first, in case of an exception
+        for node, value in zip(self._node_iter(), values):
+            node.value = value
         return None
 
     def verse_1_to_0(self):
         '''Modifies this list *in-place* by calling `verse_1_to_0()` on every `BibleRange` in the list
         and using the result to replace the original range. Returns `None`.
         **Note**: The value of the global attribute `bibleref.ref.flags` is *ignored*.'''
-        for node in self._node_iter():
-            node.value = node.value.verse_1_to_0()
+        values = [bible_range.verse_1_to_0() for bible_range in self] # All of them first, in case of an exception
+        for node, value in zip(self._node_iter(), values):
+            node.value = value
         return None
 
     def verse_count(self, flags: BibleFlag = None):
-- 
2.43.0


From b78ee25485f497824eed3e8aa8e5f3d93a0b08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:52 +0000
Subject: [PATCH 19/24] fix: read a new book order only once before changing
 the books

So that an error while reading it leaves the existing order in place.
---
 src/bibleref/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index a00c33a..d97116d 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -85,11 +85,12 @@ class BibleData:
     @book_order.setter
     def book_order(self, book_order_list: list):
         book_set = set(ref.BibleBook)
-        for i in range(len(book_order_list)):
-            book_set.remove(book_order_list[i]) # Raises KeyError if not a book, or a repeated book
+        books = [book_order_list[i] for i in range(len(book_order_list))]
+        for book in books:
+            book_set.remove(book) # Raises KeyError if not a book, or a repeated book
         self._book_order = book_order_list
-        for i in range(len(self._book_order)):
-            self._book_order[i].order = i
+        for i in range(len(books)):
+            books[i].order = i
         # Set remaining order of remaining books to None
         for book in book_set:
             # print(f"No order for {book}")
-- 
2.43.0


From 49b4c051093cee94ff71fba4f490723b28cd7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 20/24] fix: recognise book titles written without spaces

---
 src/bibleref/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index d97116d..4c4fcea 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -166,8 +166,8 @@ class BibleData:
                     full_title_pattern += "(" + char
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
-                # Allow for extra whitespace.
-                full_title_pattern = full_title_pattern.replace(" ",r"\s+")
+                # Allow for variable whitespace (including none, as in strings created with nospace=True).
+                full_title_pattern = full_title_pattern.replace(" ",r"\s*")
 
                 # Collate the extra acceptable abbreviations, and combine everything into a final,
                 # single regex for the book
-- 
2.43.0


From 0011899f5a5c5815587b63e788f62784e1d863e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:28 +0000
Subject: [PATCH 21/24] fix: show chapter and verse when forcing the start
 verse of a whole book

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index dad1244..40f5fa4 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1770,7 +1770,7 @@ class BibleRangeList(util.GroupedList):
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
                    (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
-                    start_parts |= BibleVersePart.VERSE
+                    start_parts |= BibleVersePart.CHAP_VERSE
                     at_verse_level = True
 
                 start_str = bible_range.start.str(abbrev, alt_sep, nospace, start_parts) 
-- 
2.43.0


From fe6385387b561b37338f904a3cfff56182011993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:13 +0000
Subject: [PATCH 22/24] fix: report the end of the string as position of an
 unexpected end when parsing

---
 src/bibleref/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index e991312..faa149d 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -1,7 +1,7 @@
 '''Submodule for parsing strings into Bible references. The contents of this submodule should be considered an
 implementation detail and not relied upon.
 '''
-from lark import Lark, UnexpectedInput
+from lark import Lark, UnexpectedInput, UnexpectedEOF
 from lark import Transformer, v_args
 from lark.visitors import VisitError
 
@@ -33,8 +33,11 @@ def _parse(string, flags: ref.BibleFlag = None):
     try:
         tree = _parser().parse(string)
     except UnexpectedInput as orig:
-        start_pos=orig.pos_in_stream
-        end_pos=orig.pos_in_stream + 1
+        if isinstance(orig, UnexpectedEOF): # Lark reports no position for the end of the string
+            start_pos = end_pos = len(string)
+        else:
+            start_pos = orig.pos_in_stream
+            end_pos = orig.pos_in_stream + 1
         new_error = ref.BibleRefParsingError(f"Unexpected text: {string[start_pos:end_pos]}",
                                          start_pos, end_pos)
         new_error.orig = orig
-- 
2.43.0


From 52cd3e2293484e7a0f9eee96c7d1a077511f0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:47 +0000
Subject: [PATCH 23/24] fix: copy.copy() and copy.deepcopy() of a list shared
 nodes with it or exceeded the recursion limit

---
 src/bibleref/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 640283c..38bdcca 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -413,6 +413,11 @@ class GroupedList(MutableSequence):
             yield node
             node = node.next
 
+    def __reduce__(self):
+        # For copy.copy(), copy.deepcopy() and pickle. A node belongs to one list only, and following the links
+        # between nodes would be recursive, so the copy is created from the values in each group.
+        return (type(self), (self.to_nested_lists(),))
+
     @property
     def groups(self) -> GroupViews:
         '''Returns the `GroupViews` collection for this list.'''
-- 
2.43.0


From 3923c9633b65aca8e09780c59e898bcd7c66d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:47 +0000
Subject: [PATCH 24/24] fix: single verses after a chapter written with its
 verses were written as ranges ("5:3-3")

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 40f5fa4..eed8f00 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1686,11 +1686,11 @@ class BibleRangeList(util.GroupedList):
         first_range = True
         list_sep = ""
         result_str = ""
-        force_dual_ref = False # True if we require a single reference to display as a dual_reference_range
 
         for group in self.groups:
             for bible_range in group:
                 bible_range: BibleRange = bible_range # Typecast                
+                force_dual_ref = False # True if we require a single reference to display as a dual_reference_range
                 if bible_range.spans_start_book(flags): # Range start includes an entire book
                     # Even if already in same book, whole book references repeat the whole book name.
                     start_parts = BibleVersePart.BOOK
-- 
2.43.0


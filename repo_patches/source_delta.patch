From b67d6489bbadcb3a3cdce453471ea454557976a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:27 +0000
Subject: [PATCH 01/28] fix: first_verse() honours flags for verse 0

BibleBook.Psa.first_verse(3, flags=BibleFlag.VERSE_0) raised InvalidReferenceError,
as the flags weren't passed on when constructing the verse.
---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 421ffa1..a70b9fe 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -194,7 +194,7 @@ class BibleBook(Enum):
         '''
         if chap_num is None:
             chap_num = self.min_chap_num()
-        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags))        
+        return BibleVerse(self, chap_num, self.min_verse_num(chap_num, flags), flags=flags)
 
     def last_verse(self, chap_num: int = None) -> 'BibleVerse':
         '''Returns a `BibleVerse` for the last verse of the specified chapter of this `BibleBook`.
-- 
2.43.0


From e9f12e15aaade73a7610d0adbdf6e74fe4d73ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:30 +0000
Subject: [PATCH 02/28] fix: subtract() honours flags after crossing a chapter
 boundary

Psalm 4:0 minus 9 verses skipped Psalm 3:0 and gave Psalm 2:12.
---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index a70b9fe..fb1591a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -527,7 +527,7 @@ class BibleVerse:
                         chap_num = book.max_chap_num()
                 
                 verse_num = verse_num + book.max_verse_num(chap_num) - min_verse_num + 1 
-                min_verse_num = book.min_verse_num(chap_num)
+                min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
             bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-- 
2.43.0


From 68f8d726901227fee79d4b718034fcda549d4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:32 +0000
Subject: [PATCH 03/28] fix: verse, chapter and book counts honour their flags
 argument

The counts of a BibleRange, and the difference of two verses, ignored the
flags they were called with.
---
 src/bibleref/ref.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index fb1591a..8997b5b 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -530,8 +530,8 @@ class BibleVerse:
                 min_verse_num = book.min_verse_num(chap_num, flags)
             return BibleVerse(book, chap_num, verse_num, flags=flags)
         elif isinstance(other, BibleVerse):
-            bible_range = BibleRange(start=self, end=other) # Bible will swap start and end as necessary
-            difference = bible_range.verse_count() - 1
+            bible_range = BibleRange(start=self, end=other, flags=flags) # Bible will swap start and end as necessary
+            difference = bible_range.verse_count(flags=flags) - 1
             if self < other:
                 difference *= -1
             return difference
@@ -817,7 +817,7 @@ class BibleRange:
     def verse_count(self, flags: BibleFlag = None):
         '''Returns the number of verses in this range.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True) # Each range will thus be within its own chapter
+        bible_ranges = self.split(by_chap=True, flags=flags) # Each range will thus be within its own chapter
         count = 0
         for bible_range in bible_ranges:
             count += (bible_range.end.verse_num - bible_range.start.verse_num + 1)
@@ -829,12 +829,12 @@ class BibleRange:
         If `whole` is True, only whole chapters are counted. Otherwise partial chapters are also included in the
         count.'''
         # We split the range into chapters, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_chap=True)
+        bible_ranges = self.split(by_chap=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_chap():
+            if not bible_ranges[0].is_whole_chap(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_chap(flags):
                 count -= 1
         return count
 
@@ -843,12 +843,12 @@ class BibleRange:
         
         If `whole` is True, only whole books are counted. Otherwise, partial books are also included in the count.'''
         # We split the range into books, which is not the most efficient approach, but makes the counting simple.
-        bible_ranges = self.split(by_book=True)
+        bible_ranges = self.split(by_book=True, flags=flags)
         count = len(bible_ranges)
         if whole:
-            if not bible_ranges[0].is_whole_book():
+            if not bible_ranges[0].is_whole_book(flags):
                 count -= 1
-            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book():
+            if len(bible_ranges) > 1 and not bible_ranges[-1].is_whole_book(flags):
                 count -= 1
         return count
 
-- 
2.43.0


From 6ce057db4269c8566eda25ab498ff6bde55f8b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:35 +0000
Subject: [PATCH 04/28] fix: iterating over a BibleRange yields verse 0s when
 VERSE_0 is set

Only the verse 0 at the start of the range was yielded, so iteration
disagreed with verse_count().
---
 src/bibleref/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 8997b5b..c06ea87 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1102,10 +1102,13 @@ class BibleRange:
             return union[0].difference(intersection[0])
 
     def __iter__(self):
+        flags = (bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
+        if self.start.verse_num == 0 or self.end.verse_num == 0:
+            flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         verse = self.start
         while verse is not None and verse <= self.end:
             yield verse
-            verse = verse.add(1, BibleFlag.MULTIBOOK) # `verse`` will be None if we're on the last verse of the Bible
+            verse = verse.add(1, flags) # `verse`` will be None if we're on the last verse of the Bible
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 5654d176415683f2d889c7b3210706d9e7ffab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:38 +0000
Subject: [PATCH 05/28] fix: is_adjacent() honours flags when given a
 BibleRangeList

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index c06ea87..ee1f9a3 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -955,7 +955,7 @@ class BibleRange:
         if isinstance(other_ref, BibleRangeList):
             # BibleRangeList doesn't define is_adjacent(), so we have to implement here
             return other_ref.is_disjoint(self) and \
-                   any(self.is_adjacent(other_range) for other_range in other_ref) 
+                   any(self.is_adjacent(other_range, flags=flags) for other_range in other_ref) 
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
-- 
2.43.0


From 3058c9372c1b2fe2c36b05aa76f97c3a535d4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:42 +0000
Subject: [PATCH 06/28] fix: union and intersection of existing multibook
 ranges don't need MULTIBOOK

Existing multibook ranges are documented to behave correctly when MULTIBOOK
is unset, but combining them raised MultibookRangeNotAllowedError.
---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index ee1f9a3..518e5d6 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1021,7 +1021,8 @@ class BibleRange:
             else:
                 start = min(self.start, other_ref.start)
                 end = max(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # Any book boundary is already within a range, or was allowed by is_adjacent()
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
@@ -1045,7 +1046,8 @@ class BibleRange:
             else:
                 start = max(self.start, other_ref.start)
                 end = min(self.end, other_ref.end)
-                return BibleRangeList([BibleRange(start=start, end=end, flags=flags)], flags=BibleFlag.ALL)
+                # Any book boundary is already within both ranges
+                return BibleRangeList([BibleRange(start=start, end=end, flags=BibleFlag.ALL)], flags=BibleFlag.ALL)
         else:
             raise ValueError(f"{other_ref} is not a valid BibleRef")
 
-- 
2.43.0


From 4ca3ee48b3e630b7271359cf2a674df1fe19f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:45 +0000
Subject: [PATCH 07/28] fix: difference of ranges at the edge of a book, or
 across books

BibleRange('Mark 1:1-10') - BibleRange('Mark 1:1-3') raised AttributeError, as
the (unneeded) range below Mark 1:1 was also calculated. Existing multibook
ranges and the flags argument weren't honoured.
---
 src/bibleref/ref.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 518e5d6..fa941f7 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1070,14 +1070,14 @@ class BibleRange:
         if other_ref.contains(self):
             return BibleRangeList()
 
-        lower_range = BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags))
-        upper_range = BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end)
-        if self.surrounds(other_ref):
-            return BibleRangeList([lower_range, upper_range], flags=BibleFlag.ALL)
-        if self < other_ref:
-            return BibleRangeList([lower_range], flags=BibleFlag.ALL)
-        else:
-            return BibleRangeList([upper_range], flags=BibleFlag.ALL)
+        # The verses either side of other_ref that we need are within this range, so book boundaries can be crossed
+        flags = (flags or bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
+        remainder = []
+        if self.start < other_ref.start:
+            remainder.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
+        if other_ref.end < self.end:
+            remainder.append(BibleRange(start=other_ref.end.add(1, flags=flags), end=self.end, flags=flags))
+        return BibleRangeList(remainder, flags=BibleFlag.ALL)
 
     def sym_difference(self, other_ref: Union[BibleVerse, 'BibleRange'],
                    flags: BibleFlag = None) -> 'BibleRangeList':
@@ -1101,7 +1101,7 @@ class BibleRange:
             # as the symmetric difference
             return union
         else: # Self and other_ref overlap
-            return union[0].difference(intersection[0])
+            return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
         flags = (bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
-- 
2.43.0


From 78cf79828e8e7ddb76b7f10886b64c717acf94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:48 +0000
Subject: [PATCH 08/28] fix: in-place set operators on BibleRangeList return
 the list

|=, &=, -= and ^= rebound the target name to None, because they returned the
result of the *_update() methods.
---
 src/bibleref/ref.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index fa941f7..2c85860 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1555,16 +1555,20 @@ class BibleRangeList(util.GroupedList):
         return self.sym_difference(other_ref)
 
     def __ior__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.union_update(other_ref)    
+        self.union_update(other_ref)
+        return self
 
     def __iand__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.intersection_update(other_ref)
+        self.intersection_update(other_ref)
+        return self
 
     def __isub__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.difference_update(other_ref)
+        self.difference_update(other_ref)
+        return self
 
     def __ixor__(self, other_ref: 'BibleRef') -> 'BibleRangeList':
-        return self.sym_difference_update(other_ref)
+        self.sym_difference_update(other_ref)
+        return self
 
     def __repr__(self):
         return f'BibleRangeList("{self.str()}")'
-- 
2.43.0


From ff2843ea35740fa77ae86abfe8145d93663b4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:51 +0000
Subject: [PATCH 09/28] fix: difference_update() removes ranges that are wholly
 covered

A range whose difference was empty was left in the list, so A - A was A and
sym_difference() was wrong. Also pass flags on to merge().
---
 src/bibleref/ref.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 2c85860..92e884a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1506,8 +1506,15 @@ class BibleRangeList(util.GroupedList):
                         self._insert_before(self_node, difference_range)
                         self_node = self_node.prev
                     self._pop_node(old_self_node)
-            self_node = self_node.next
-        self.merge()
+                else:
+                    # self_node is wholly covered by other_range, so remove it and move on to the next node
+                    covered_node = self_node
+                    self_node = self_node.next
+                    self._pop_node(covered_node)
+                    break
+            else:
+                self_node = self_node.next
+        self.merge(flags=flags)
 
     def sym_difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are either in this `BibleRangeList`, or in `other_ref`,
-- 
2.43.0


From f5032fbc48eb211608adad1156ac4d738d2aabe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:54 +0000
Subject: [PATCH 10/28] fix: parsing a string doesn't depend on previously
 parsed strings

The transformer singleton kept the current book, chapter and level of the
previous string.
---
 src/bibleref/parser.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 19ed9aa..c7352c2 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -28,17 +28,6 @@ def _parser():
     return _parser_obj
 
 
-_transformer_obj = None
-
-def _transformer():
-    '''Return a Lark Transformer singleton.'''
-    global _transformer_obj
-
-    if _transformer_obj is None:
-        _transformer_obj = _BibleRefTransformer()
-    return _transformer_obj
-
-
 def _parse(string, flags: ref.BibleFlag = None):
     '''Parse `string` as a `bibleref.ref.BibleRefList` using `BibleRefTransformer`.'''
     try:
@@ -53,8 +42,8 @@ def _parse(string, flags: ref.BibleFlag = None):
     
     try:
         flags = flags or bibleref.flags or ref.BibleFlag.NONE
-        _transformer().flags = flags
-        range_groups_list = _transformer().transform(tree)
+        # The transformer tracks the current book & chapter, so each string needs a new transformer
+        range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
         raise e.orig_exc
     return range_groups_list
-- 
2.43.0


From 5425d7ce3a873da27198227565b8cd85cd5dc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:58 +0000
Subject: [PATCH 11/28] fix: covering range of a BibleRangeList reaches its
 latest end verse

The greatest range (by start) isn't necessarily the one with the latest end.
---
 src/bibleref/ref.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 92e884a..c50f280 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1311,9 +1311,9 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.ALL is always set for this method, regardless of the value of `bibleref.flags`.
         '''
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start, end=max_range.end, flags=BibleFlag.ALL)
+        start: BibleVerse = min(bible_range.start for bible_range in self)
+        end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start, end=end, flags=BibleFlag.ALL)
 
     def chap_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1323,10 +1323,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = flags or bibleref.flags or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.first_verse(flags=flags), end=max_range.end.last_verse(),
-                          flags=flags)
+        start: BibleVerse = min(bible_range.start for bible_range in self)
+        end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start.first_verse(flags=flags), end=end.last_verse(), flags=flags)
 
     def book_range(self, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a new minimum `BibleRange` that includes every verse in this list, and begins and ends at
@@ -1336,10 +1335,9 @@ class BibleRangeList(util.GroupedList):
         '''
         flags = flags or bibleref.flags or BibleFlag.NONE
         flags |= BibleFlag.MULTIBOOK
-        min_range: BibleRange = min(self)
-        max_range: BibleRange = max(self)
-        return BibleRange(start=min_range.start.book.first_verse(flags=flags), end=max_range.end.book.last_verse(),
-                          flags=flags)
+        start: BibleVerse = min(bible_range.start for bible_range in self)
+        end: BibleVerse = max(bible_range.end for bible_range in self)
+        return BibleRange(start=start.book.first_verse(flags=flags), end=end.book.last_verse(), flags=flags)
 
     def sort(self, regroup: bool = True):
         '''Sorts this list in-place. All existing groups are cleared and replaced with a single
-- 
2.43.0


From 42cc938ca98f8fc0e84956be0510e9f103049251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:00 +0000
Subject: [PATCH 12/28] fix: out-of-range negative indices raise IndexError

They were treated as index 0, and popping from an empty list failed with an
AttributeError.
---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 00623d6..5b18fc8 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -89,7 +89,7 @@ class GroupedList(MutableSequence):
             '''
             if group_index < 0:
                 group_index += self.parent._group_count
-            if group_index >= self.parent._group_count:
+            if group_index < 0 or group_index >= self.parent._group_count:
                 raise IndexError(f"Group index {group_index} out of range")
             return group_index
 
@@ -215,7 +215,7 @@ class GroupedList(MutableSequence):
         '''
         if index < 0:
             index += self._node_count
-        if index >= self._node_count:
+        if index < 0 or index >= self._node_count:
             raise IndexError(f"List index {index} out of range")
         return index
 
-- 
2.43.0


From d63484aa5264c69de1f301493a7be4a47bd5f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:03 +0000
Subject: [PATCH 13/28] fix: insert_group_at() an existing group is a no-op

It linked the group head to itself, so iterating over the groups never ended.
---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 5b18fc8..22ae151 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -318,8 +318,8 @@ class GroupedList(MutableSequence):
             self._first_head = node
 
     def _insert_new_group_at_node(self, node: 'GroupedList._Node'):
-        if node is self._first:
-            # First node is always already a group.
+        if node.is_group_head:
+            # Node already starts a group (as the first node always does).
             return
         node.is_group_head = True
         prev_group_head = self._find_group_head(node.prev)
-- 
2.43.0


From 360e2a6154c3d35e87d5267382cd3592d58a2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:06 +0000
Subject: [PATCH 14/28] fix: a list can be extended with itself

extend(), append_group() and union_update() never ended when given the list
itself.
---
 src/bibleref/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 22ae151..b0bf87f 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -482,13 +482,13 @@ class GroupedList(MutableSequence):
         
         The new items all form a single new group.'''
         is_first_item = True
-        for item in iterable:
+        for item in list(iterable): # Copy, in case iterable is this list
             self.append(item, new_group=is_first_item)
             is_first_item = False
 
     def extend(self, iterable):
         '''Appends each item of `iterable` to the end of this list.'''
-        for item in iterable:
+        for item in list(iterable): # Copy, in case iterable is this list
             self.append(item)
 
     def insert(self, index: int, value):
-- 
2.43.0


From 1bbdaa533652b42c48e2456f6b36a324daadb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:09 +0000
Subject: [PATCH 15/28] fix: sorting a long list doesn't exceed the recursion
 limit

Merge the sorted sublists iteratively instead of recursing once per node.
---
 src/bibleref/util.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index b0bf87f..c962748 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -613,20 +613,30 @@ class GroupedList(MutableSequence):
         if first_node_B is None:
             return (first_node_A, last_node_A)
         
-        if first_node_A <=  first_node_B: # Nodes compare using their values
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A.next, last_node_A,
-                                                                    first_node_B, last_node_B)
-            first_node_A.next = next_first_node
-            next_first_node.prev = first_node_A
-            first_node_A.prev = None
-            return (first_node_A, new_last_node)
-        else: # first_node_B is less than first_node_A
-            (next_first_node, new_last_node) = self._merge_sublists(first_node_A, last_node_A,
-                                                                    first_node_B.next, last_node_B)
-            first_node_B.next = next_first_node
-            next_first_node.prev = first_node_B
-            first_node_B.prev = None
-            return (first_node_B, new_last_node)
+        new_first_node = None
+        last_merged_node = None
+        while first_node_A is not None and first_node_B is not None:
+            if first_node_A <= first_node_B: # Nodes compare using their values
+                lesser_node = first_node_A
+                first_node_A = first_node_A.next
+            else: # first_node_B is less than first_node_A
+                lesser_node = first_node_B
+                first_node_B = first_node_B.next
+            lesser_node.prev = last_merged_node
+            if last_merged_node is None:
+                new_first_node = lesser_node
+            else:
+                last_merged_node.next = lesser_node
+            last_merged_node = lesser_node
+
+        # One of the sublists still has nodes, which are already linked to each other
+        if first_node_A is not None:
+            (rest_node, new_last_node) = (first_node_A, last_node_A)
+        else:
+            (rest_node, new_last_node) = (first_node_B, last_node_B)
+        last_merged_node.next = rest_node
+        rest_node.prev = last_merged_node
+        return (new_first_node, new_last_node)
 
     #
     # End of sort-related methods
-- 
2.43.0


From 4144daf1d5c86078b176d48f1fe19a9de0cfe16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:12 +0000
Subject: [PATCH 16/28] fix: recognise Song of Songs without spaces

str(nospace=True) gives SongofSongs, which couldn't be parsed.
---
 src/bibleref/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 63b9697..9c4a637 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -297,7 +297,7 @@ default_name_data = {
     ref.BibleBook.Psa:      ("Psa",     "Psalms",           2,   ["Pslm", "Psm", "Pss"]),
     ref.BibleBook.Prov:     ("Prov",    "Proverbs",         2,   ["Prv"]),
     ref.BibleBook.Eccl:     ("Eccl",    "Ecclesiastes",     2,   []),
-    ref.BibleBook.Song:     ("Song",    "Song of Songs",    2,   ["Song of Sol", "Song of Solo", "Song of Solomon", "SOS"]),
+    ref.BibleBook.Song:     ("Song",    "Song of Songs",    2,   ["Song of Songs", "Song of Sol", "Song of Solo", "Song of Solomon", "SOS"]),
     ref.BibleBook.Isa:      ("Isa",     "Isaiah",           2,   []),
     ref.BibleBook.Jer:      ("Jer",     "Jeremiah",         2,   ["Jr"]),
     ref.BibleBook.Lam:      ("Lam",     "Lamentations",     2,   []),
-- 
2.43.0


From 7918322c1362f5e22c208cb0766f002158c657a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:15 +0000
Subject: [PATCH 17/28] fix: BibleVerse.max_verse_num() chapter is optional, as
 documented

---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index c50f280..7718cb7 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -394,7 +394,7 @@ class BibleVerse:
             chap_num = self.chap_num
         return self.book.min_verse_num(chap_num, flags=flags)
 
-    def max_verse_num(self, chap_num: int) -> int:
+    def max_verse_num(self, chap_num: int = None) -> int:
         '''Return the highest verse number for the specified chapter of the `BibleBook` containing this verse.
         If no chapter is specified, it returns the highest verse number of the chapter containing this `BibleVerse`.
         '''
-- 
2.43.0


From c673c0a58099e9074974d996601dcb935ffe1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:12 +0000
Subject: [PATCH 18/28] fix: BibleRangeList.contains() of a multibook range
 covered by several ranges

Ranges in different books were not consolidated unless MULTIBOOK was set, so an
existing multibook range wasn't found.
---
 src/bibleref/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 7718cb7..adb424a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1386,7 +1386,8 @@ class BibleRangeList(util.GroupedList):
             other_ref = BibleRangeList([BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)])
         elif isinstance(other_ref, BibleRange):
             other_ref = BibleRangeList([other_ref])
-        # Create a consolidated copy of ourselves
+        # Create a consolidated copy of ourselves. A multibook other_ref may be covered by ranges in several books.
+        flags = (flags or bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
         self_copy = BibleRangeList(self)
         self_copy.merge(flags=flags)
         # Every one of the other list's ranges must be contained by at least one of the our ranges
-- 
2.43.0


From 3e8b2f56c8f686993570fed554ed053b9a12faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:14 +0000
Subject: [PATCH 19/28] fix: str(), regroup(), merge() and split() use their
 flags argument throughout

---
 src/bibleref/ref.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index adb424a..fbfd77a 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -928,7 +928,7 @@ class BibleRange:
         
         range_list = BibleRangeList(split_result, flags=flags)
         if regroup:
-            range_list.regroup()
+            range_list.regroup(flags=flags)
         return range_list
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
@@ -1146,11 +1146,11 @@ class BibleRange:
         - If `force_start_verses` is `True`, the start verse of a range is made explicit if the end
           verse of the range is also being shown. Otherwise, the start verse is omitted where possible.
         '''
-        if self.spans_start_book():
+        if self.spans_start_book(flags):
             start_parts = BibleVersePart.BOOK
             at_verse_level = False
-        elif self.spans_start_chap():
-            if force_start_verses and not self.spans_end_chap():
+        elif self.spans_start_chap(flags):
+            if force_start_verses and not self.spans_end_chap(flags):
                 start_parts = BibleVersePart.FULL_REF
                 at_verse_level = True
             else:
@@ -1363,7 +1363,7 @@ class BibleRangeList(util.GroupedList):
             else:
                 # The two ranges can't be merged, so move on
                 node = node.next
-        self.regroup()
+        self.regroup(flags=flags)
 
     def is_disjoint(self, other_ref: 'BibleRef') -> bool:
         '''Returns `True` if every `BibleRange` is disjoint with all the verses in `other_ref`, otherwise `False`.
@@ -1624,7 +1624,7 @@ class BibleRangeList(util.GroupedList):
                 show_start_verse = True
 
             cur_book = bible_range.start.book
-            if (not show_start_verse) and (not bible_range.spans_end_chap()):
+            if (not show_start_verse) and (not bible_range.spans_end_chap(flags)):
                 # End verse will show verse num, and we've been asked to show start verse num in such cases
                 show_start_verse = True
                 at_verse_level = True
@@ -1753,7 +1753,7 @@ class BibleRangeList(util.GroupedList):
 
                 cur_book = bible_range.start.book
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
-                   (not bible_range.spans_end_chap()):
+                   (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
                     start_parts |= BibleVersePart.VERSE
                     at_verse_level = True
-- 
2.43.0


From 06ee4bfa96ce4da1281b6eb7f33636dfeda2e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:17 +0000
Subject: [PATCH 20/28] fix: an explicit BibleFlag.NONE argument overrides the
 global flags

BibleFlag.NONE is falsy, so the global flags were used instead.
---
 src/bibleref/parser.py |  3 +--
 src/bibleref/ref.py    | 37 +++++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index c7352c2..c9232c0 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -5,7 +5,6 @@ from lark import Lark, UnexpectedInput
 from lark import Transformer, v_args
 from lark.visitors import VisitError
 
-import bibleref
 from bibleref import ref, bible_data
 
 
@@ -41,7 +40,7 @@ def _parse(string, flags: ref.BibleFlag = None):
         raise new_error
     
     try:
-        flags = flags or bibleref.flags or ref.BibleFlag.NONE
+        flags = ref._effective_flags(flags)
         # The transformer tracks the current book & chapter, so each string needs a new transformer
         range_groups_list = _BibleRefTransformer(flags=flags).transform(tree)
     except VisitError as e:
diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index fbfd77a..f195947 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -38,6 +38,15 @@ class BibleFlag(Flag):
 bibleref.flags = BibleFlag.NONE # Default setting for global flags attribute.
 
 
+def _effective_flags(flags: BibleFlag = None) -> BibleFlag:
+    '''Returns the flags to use for a method's `flags` argument. The global `bibleref.flags` attribute is only used
+    if the argument is `None`.
+    '''
+    if flags is None:
+        flags = bibleref.flags
+    return BibleFlag.NONE if flags is None else flags
+
+
 class BibleBook(Enum):
     '''An enum of books in the Bible.
 
@@ -176,7 +185,7 @@ class BibleBook(Enum):
     def min_verse_num(self, chap_num: int, flags: BibleFlag = None) -> int:
         '''Return the lowest verse number (0 or 1) for the specified chapter number of this `BibleBook`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if chap_num < self.min_chap_num() or chap_num > self.max_chap_num():
             raise InvalidReferenceError(f"No chapter {chap_num} in {self.title}")
         return 0 if (BibleFlag.VERSE_0 in flags and chap_num in self._verse_0s) else 1
@@ -470,7 +479,7 @@ class BibleVerse:
         '''
         if not isinstance(num_verses, int):
             raise TypeError(f"Cannot add a {type(num_verses)} to a BibleVerse")
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         book = self.book
         chap_num = self.chap_num
         if self.verse_num == 0:
@@ -507,7 +516,7 @@ class BibleVerse:
 
         Using the `-` operator is equivalent to calling `subtract()` with `flags = None`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if isinstance(other, int):
             book = self.book
             chap_num = self.chap_num
@@ -609,7 +618,7 @@ class BibleRange:
     def whole_bible(cls, flags: BibleFlag = None) -> 'BibleRange':
         '''Returns a `BibleRange` representing the whole Bible.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         # By definition, we need to allow multibook to encompass whole Bible
         flags |= BibleFlag.MULTIBOOK
         start_book = bible_data().book_order[0]
@@ -661,7 +670,7 @@ class BibleRange:
         or using the `flags` argument, a `MultibookRangeNotAllowedError` is raised. If the arguments are of an
         incorrect number or type, a `ValueError` is raised.     
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         if len(args) == 0:
             if BibleFlag.MULTIBOOK not in flags and start.book != end.book:
                 raise MultibookRangeNotAllowedError(f"Multi-book ranges not allowed " + 
@@ -857,7 +866,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.first_verse(flags=flags), end=self.end.last_verse(), flags=flags)
 
@@ -866,7 +875,7 @@ class BibleRange:
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         return BibleRange(start=self.start.book.first_verse(flags=flags), end=self.end.book.last_verse(), flags=flags)
 
@@ -881,7 +890,7 @@ class BibleRange:
           `BibleRangeList` will contain this range only.
         - If `regroup` is `True`, regroup() is called on the resulting `BibleRangeList`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         # Set flags if our attributes imply they should be set
         if self.start.book != self.end.book:
             flags |= BibleFlag.MULTIBOOK
@@ -1071,7 +1080,7 @@ class BibleRange:
             return BibleRangeList()
 
         # The verses either side of other_ref that we need are within this range, so book boundaries can be crossed
-        flags = (flags or bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
+        flags = _effective_flags(flags) | BibleFlag.MULTIBOOK
         remainder = []
         if self.start < other_ref.start:
             remainder.append(BibleRange(start=self.start, end=other_ref.start.subtract(1, flags=flags), flags=flags))
@@ -1104,7 +1113,7 @@ class BibleRange:
             return union[0].difference(intersection[0], flags=flags)
 
     def __iter__(self):
-        flags = (bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
+        flags = _effective_flags() | BibleFlag.MULTIBOOK
         if self.start.verse_num == 0 or self.end.verse_num == 0:
             flags |= BibleFlag.VERSE_0 # Honour existing verse 0s
         verse = self.start
@@ -1234,7 +1243,7 @@ class BibleRangeList(util.GroupedList):
             
         3. As a copy of an existing BibleRangeList: `BibleRangeList(existing_bible_range_list)`
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
 
         if len(args) == 1:
             if isinstance(args[0], str):
@@ -1321,7 +1330,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         start: BibleVerse = min(bible_range.start for bible_range in self)
         end: BibleVerse = max(bible_range.end for bible_range in self)
@@ -1333,7 +1342,7 @@ class BibleRangeList(util.GroupedList):
         
         BibleFlag.MULTIBOOK is always set for this method, regardless of the value of `flags`.
         '''
-        flags = flags or bibleref.flags or BibleFlag.NONE
+        flags = _effective_flags(flags)
         flags |= BibleFlag.MULTIBOOK
         start: BibleVerse = min(bible_range.start for bible_range in self)
         end: BibleVerse = max(bible_range.end for bible_range in self)
@@ -1387,7 +1396,7 @@ class BibleRangeList(util.GroupedList):
         elif isinstance(other_ref, BibleRange):
             other_ref = BibleRangeList([other_ref])
         # Create a consolidated copy of ourselves. A multibook other_ref may be covered by ranges in several books.
-        flags = (flags or bibleref.flags or BibleFlag.NONE) | BibleFlag.MULTIBOOK
+        flags = _effective_flags(flags) | BibleFlag.MULTIBOOK
         self_copy = BibleRangeList(self)
         self_copy.merge(flags=flags)
         # Every one of the other list's ranges must be contained by at least one of the our ranges
-- 
2.43.0


From da1f0e7501487db683a03aaa154ad286a312e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:20 +0000
Subject: [PATCH 21/28] fix: difference of a BibleRange and a BibleRangeList

- and ^ failed with an AttributeError or TypeError, unlike | and &.
---
 src/bibleref/ref.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index f195947..0d3de9c 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1074,6 +1074,9 @@ class BibleRange:
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).difference(other_ref, flags=flags)
         if self.is_disjoint(other_ref):
             return BibleRangeList([self], flags=BibleFlag.ALL)
         if other_ref.contains(self):
@@ -1101,6 +1104,9 @@ class BibleRange:
         if isinstance(other_ref, BibleVerse):
             # Convert to BibleRange (and we don't enforce existing flags for conversions)
             other_ref = BibleRange(start=other_ref, end=other_ref, flags=BibleFlag.ALL)
+        if isinstance(other_ref, BibleRangeList):
+            # Use the BibleRangeList implementation
+            return BibleRangeList([self]).sym_difference(other_ref, flags=flags)
         if self == other_ref:
             return BibleRangeList()
         union = self.union(other_ref, flags=flags)
-- 
2.43.0


From 8fdbcb633d51c9249e6f45b8d72f37a48f3a93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:23 +0000
Subject: [PATCH 22/28] fix: views of the groups of a cleared list can no
 longer be used

Deleting an item via a stale GroupView corrupted the list's item count.
---
 src/bibleref/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index c962748..27cc073 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -190,6 +190,7 @@ class GroupedList(MutableSequence):
         
         If the items of `iterable` are Python lists or tuples, each element of `iterable` is added as a
         separate group.'''
+        self._first = None
         self.clear()
         if iterable is None:
             return
@@ -526,6 +527,8 @@ class GroupedList(MutableSequence):
 
     def clear(self):
         '''Removes all items from the list.'''
+        for node in self._node_iter():
+            node.parent = None # So existing views of the groups can no longer be used
         self._first: GroupedList._Node = None          # First node
         self._last: GroupedList._Node = None           # Last node
         self._node_count: int = 0                    # Count of nodes
-- 
2.43.0


From d7e7679731e97e83c3ff1f4a59377c27e8444601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:25 +0000
Subject: [PATCH 23/28] fix: intersection_update() and sym_difference_update()
 keep the groups of the result

---
 src/bibleref/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index 0d3de9c..ca8a00b 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1470,7 +1470,8 @@ class BibleRangeList(util.GroupedList):
         '''
         intersection_list = self.intersection(other_ref, flags=flags)
         self.clear()
-        self.extend(intersection_list)
+        for group in intersection_list.groups:
+            self.append_group(group)
 
     def difference(self, other_ref: 'BibleRef', flags: BibleFlag = None) -> 'BibleRangeList':
         '''Returns a new `BibleRangeList` of verses that are in this `BibleRangeList`, but not in `other_ref`.
@@ -1556,7 +1557,8 @@ class BibleRangeList(util.GroupedList):
         '''
         sym_difference_list = self.sym_difference(other_ref, flags=flags)
         self.clear()
-        self.extend(sym_difference_list)
+        for group in sym_difference_list.groups:
+            self.append_group(group)
 
     def __contains__(self, bible_ref) -> bool:
         '''Returns True if item is a BibleRef that falls within this range, otherwise False.
-- 
2.43.0


From 5383cf86259990217cc7ff57b07967d732c12cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:28 +0000
Subject: [PATCH 24/28] fix: position of a parsing error at the end of the
 string

The start position was -1.
---
 src/bibleref/parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index c9232c0..2fe69fd 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -1,7 +1,7 @@
 '''Submodule for parsing strings into Bible references. The contents of this submodule should be considered an
 implementation detail and not relied upon.
 '''
-from lark import Lark, UnexpectedInput
+from lark import Lark, UnexpectedEOF, UnexpectedInput
 from lark import Transformer, v_args
 from lark.visitors import VisitError
 
@@ -32,8 +32,11 @@ def _parse(string, flags: ref.BibleFlag = None):
     try:
         tree = _parser().parse(string)
     except UnexpectedInput as orig:
-        start_pos=orig.pos_in_stream
-        end_pos=orig.pos_in_stream + 1
+        if isinstance(orig, UnexpectedEOF):
+            start_pos = end_pos = len(string)
+        else:
+            start_pos = orig.pos_in_stream
+            end_pos = orig.pos_in_stream + 1
         new_error = ref.BibleRefParsingError(f"Unexpected text: {string[start_pos:end_pos]}",
                                          start_pos, end_pos)
         new_error.orig = orig
-- 
2.43.0


From dd5f7aad6aa93ac35826a44849250a1790d5df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:06 +0000
Subject: [PATCH 25/28] fix: parsing a huge number raises BibleRefParsingError

Python limits the number of digits that int() accepts.
---
 src/bibleref/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bibleref/parser.py b/src/bibleref/parser.py
index 2fe69fd..f8b5056 100644
--- a/src/bibleref/parser.py
+++ b/src/bibleref/parser.py
@@ -188,7 +188,10 @@ class _BibleRefTransformer(Transformer):
         return book
 
     def NUM(self, token):
-        return int(token)
+        try:
+            return int(token)
+        except ValueError as e: # There are more digits than Python allows
+            raise ref.BibleRefParsingError(str(e), token.start_pos, token.end_pos)
 
 def _recreate_parser():
     global _parser_obj
-- 
2.43.0


From e057f29457c6852a7f1d9a5c7fe7944e0cff0683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:24 +0000
Subject: [PATCH 26/28] fix: str(force_start_verses=True) shows the start
 chapter with the start verse

A range from the first verse of a book to a verse in another book was shown with
a verse number directly after the book name, which parses as a chapter.
---
 src/bibleref/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bibleref/ref.py b/src/bibleref/ref.py
index ca8a00b..793e946 100644
--- a/src/bibleref/ref.py
+++ b/src/bibleref/ref.py
@@ -1772,7 +1772,7 @@ class BibleRangeList(util.GroupedList):
                 if force_start_verses and (BibleVersePart.VERSE not in start_parts) and \
                    (not bible_range.spans_end_chap(flags)):
                     # End verse will show verse num, and we've been asked to show start verse num in such cases
-                    start_parts |= BibleVersePart.VERSE
+                    start_parts |= BibleVersePart.CHAP_VERSE
                     at_verse_level = True
 
                 start_str = bible_range.start.str(abbrev, alt_sep, nospace, start_parts) 
-- 
2.43.0


From cd62d77a1e2d342996c344adfd25fdaefe1fbc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:41 +0000
Subject: [PATCH 27/28] fix: index() of a value in an empty list raises
 ValueError

As for any other list which doesn't contain the value, instead of IndexError.
---
 src/bibleref/util.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bibleref/util.py b/src/bibleref/util.py
index 27cc073..203966e 100644
--- a/src/bibleref/util.py
+++ b/src/bibleref/util.py
@@ -432,13 +432,9 @@ class GroupedList(MutableSequence):
     def index(self, value, min_index: int = None, limit_index: int =None):
         '''Returns the index of the first occurrence of `value` in the list, at or after `min_index`
         and before `limit_index`.'''
-        if min_index is None:
-            min_index = 0
-        if limit_index is None:
-            limit_index = self._node_count
         self._check_type(value)
-        min_index = self._conform_index(min_index)
-        limit_index = self._conform_index(limit_index-1) + 1
+        min_index = 0 if min_index is None else self._conform_index(min_index)
+        limit_index = self._node_count if limit_index is None else self._conform_index(limit_index-1) + 1
         if min_index > limit_index: # Swap
             (limit_index, min_index) = (min_index, limit_index)
         node: GroupedList._Node = self._first
-- 
2.43.0


From 6fa026ea96f7fffac55aab9d7a7f71eb6814ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:46 +0000
Subject: [PATCH 28/28] fix: escape regular-expression characters in book names

---
 src/bibleref/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bibleref/data.py b/src/bibleref/data.py
index 9c4a637..a62b4cd 100644
--- a/src/bibleref/data.py
+++ b/src/bibleref/data.py
@@ -150,22 +150,22 @@ class BibleData:
                 
                 # Add the minimum number of unique characters
                 # e.g. full_title_pattern = r"(1|I)\s*J"
-                full_title_pattern += full_title[0:min_chars]
+                full_title_pattern += re.escape(full_title[0:min_chars])
 
                 # Add the rest of full title characters as optional matches.
                 # e.g. full_title_pattern = r"(1|I)\s*J(o(h(n)?)?)?"
                 for char in full_title[min_chars:]:
-                    full_title_pattern += "(" + char
+                    full_title_pattern += "(" + re.escape(char)
                 full_title_pattern += ")?" * (len(full_title)-min_chars)
 
                 # Allow for extra whitespace.
-                full_title_pattern = full_title_pattern.replace(" ",r"\s+")
+                full_title_pattern = full_title_pattern.replace(r"\ ",r"\s+")
 
                 # Collate the extra acceptable abbreviations, and combine everything into a final,
                 # single regex for the book
                 total_pattern = full_title_pattern
                 for abbrev in extra_abbrevs:
-                    abbrev = abbrev.replace(" ",r"\s*") # Allow for variable whitespace
+                    abbrev = re.escape(abbrev).replace(r"\ ",r"\s*") # Allow for variable whitespace
                     total_pattern += "|" + abbrev
                 book.regex = re.compile(total_pattern, re.IGNORECASE)
 
-- 
2.43.0


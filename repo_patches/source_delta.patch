From 4370d19b5485a30d148ad33ec18f0f7e394af03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 001/128] fix: refuse a parent from another tree before
 detaching the node

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3897c3a..c4aadfb 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -334,10 +334,10 @@ class Node(object):
         # Remove the current Node from the children of the old parent.
         # Forbid moving nodes from one tree to another using parent setter.
         if self._parent:
-            self._parent._children.remove(self)
             if self._parent._root is not new_parent._root:
                 raise ValueError('Cannot move nodes between trees with parent setter, '
                                  'use new_root.steal_nodes(nodes_to_be_moved) instead')
+            self._parent._children.remove(self)
         # Set the new parent.
         self._parent = new_parent
 
-- 
2.43.0


From 60a9e0fc8c9e2c6ed67dfb69b7246d91ef8ccbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 002/128] fix: make ords of ten and more consecutive empty
 nodes work

---
 udapi/core/node.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index c4aadfb..c07d1df 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -6,6 +6,7 @@ and function `find_minimal_common_treelet`.
 """
 import logging
 import functools
+import re
 
 import udapi.core.coref
 from udapi.block.write.textmodetrees import TextModeTrees
@@ -464,7 +465,7 @@ class Node(object):
                 if isinstance(new_ord, OrdTuple):
                     new_ord.increase()
                 elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(base_ord, 10)
+                    new_ord = OrdTuple(f"{base_ord}.10")
                 else:
                     new_ord = round(new_ord+0.1, 1)
         new_node._ord = new_ord
@@ -1050,10 +1051,12 @@ class EmptyNode(Node):
 
     @ord.setter
     def ord(self, new_ord):
-        """Empty node's ord setter accepts float and str."""
+        """Empty node's ord setter accepts float, str and OrdTuple."""
         if isinstance(new_ord, str):
-            self._ord = float(new_ord)
-        elif isinstance(new_ord, float):
+            # Ords x.10, x.11 etc. cannot be stored as float (1.10 would become 1.1).
+            _, _, minor = new_ord.partition('.')
+            self._ord = OrdTuple(new_ord) if len(minor) > 1 and minor[0] != '0' else float(new_ord)
+        elif isinstance(new_ord, (float, OrdTuple)):
             self._ord = new_ord
         else:
             raise ValueError('Only str and float are allowed for EmptyNode ord setter,'
@@ -1122,7 +1125,7 @@ class OrdTuple:
 
     def increase(self):
         """Increment the decimal part of this ord."""
-        self._key = (self.key[0], self._key[1]+1)
+        self._key = (self._key[0], self._key[1]+1)
 
 
 # Implementation note on ListOfNodes
-- 
2.43.0


From 7aaa36cdb517d427e59c51e8c3603c8a75dba5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 003/128] fix: serialize an emptied list of enhanced
 dependencies as underscore

---
 udapi/core/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index c07d1df..85ce224 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -252,8 +252,8 @@ class Node(object):
         # Afterwards, we can use the following optimization
         #if self._raw_deps is not None:
         #    return self._raw_deps
-        if self._deps:
-            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps)
+        if self._deps is not None:
+            self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps) or '_'
         return self._raw_deps
 
     @raw_deps.setter
-- 
2.43.0


From 12395413800e0683ce9e7a07dbb842df9a2d1206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 004/128] fix: removing an empty node must not destroy enhanced
 dependencies nor renumber other positions

---
 udapi/core/node.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 85ce224..a4888a7 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1068,16 +1068,28 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
-        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < self.ord+1]
-        for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
             return # self may be an already deleted node e.g. if n.remove() called twice
+        # Close the gap among the empty nodes which follow the same word.
+        major, minor = _split_empty_ord(self._ord)
+        for empty in self._root.empty_nodes:
+            e_major, e_minor = _split_empty_ord(empty._ord)
+            if e_major == major and e_minor > minor:
+                empty._ord = _join_empty_ord(e_major, e_minor - 1)
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
-                n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
+                n._deps = [dep for dep in n._deps if dep['parent'] is not self]
+
+def _split_empty_ord(empty_ord):
+    """Return the integer part and the decimal part of an ord of an empty node as a pair of ints."""
+    major, minor = str(empty_ord).split('.')
+    return int(major), int(minor)
+
+def _join_empty_ord(major, minor):
+    """Return an ord of an empty node (the opposite of _split_empty_ord)."""
+    return float(f"{major}.{minor}") if minor < 10 else OrdTuple(f"{major}.{minor}")
 
 @functools.total_ordering
 class OrdTuple:
-- 
2.43.0


From 49c7eefbdee5964f20d02bf5e6534dffee543084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:28 +0000
Subject: [PATCH 005/128] fix: keep IDs of empty nodes unique and in place when
 words are moved or removed

---
 udapi/core/node.py | 85 ++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 41 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index a4888a7..04cd137 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -540,50 +540,36 @@ class Node(object):
             except ValueError:
                 pass # self may be an already deleted node e.g. if n.remove() called twice
             else:
+                anchors = _anchor_empty_nodes(self._root, {self})
                 for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                     node.ord = new_ord
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    if empty._ord > self._ord:
-                        new_ord = round(empty._ord - 1, 1)
-                        if new_ord <= last_ord:
-                            new_ord = round(last_ord + 0.1, 1)
-                        empty.ord = new_ord
-                    last_ord = empty._ord
+                _reorder_empty_nodes(anchors)
         else:
             # Remember the position of empty nodes, so we can reorder them as well.
-            empty_follows = None
-            if self._root.empty_nodes:
-                will_be_removed = self if children and children.startswith('rehang') else self.descendants(add_self=1)
-                prev_nonempty = self._root
-                empty_follows = {}
-                for node in self._root.descendants_and_empty:
-                    if node.is_empty():
-                        empty_follows[node] = prev_nonempty
-                    elif node not in will_be_removed:
-                        prev_nonempty = node
+            anchors = _anchor_empty_nodes(self._root, set(self.descendants(add_self=1)))
 
             # TODO nodes_to_remove = self.unordered_descendants()
             # and mark all nodes as deleted, remove them from MWT and coref mentions
             self._root._descendants = sorted(self._root.unordered_descendants())
             for (new_ord, node) in enumerate(self._root._descendants, 1):
                 node.ord = new_ord
-            # Decrease ord of empty nodes (keep their fractional part)
-            # Make sure that e.g. after deleting node with ord=2
-            # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
-            if empty_follows:
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    prev_nonempty = empty_follows[empty]
-                    new_ord = round(prev_nonempty._ord + (empty._ord % 1), 1)
-                    while new_ord <= last_ord:
-                        new_ord = round(new_ord + 0.1, 1)
-                    last_ord, empty.ord = new_ord, new_ord
+            _reorder_empty_nodes(anchors)
 
     def _shift_before_ord(self, reference_ord, without_children=False):
-        """Internal method for changing word order."""
+        """Internal method for changing word order (including the order of empty nodes)."""
+        if not self._root.empty_nodes:
+            return self._shift_words_before_ord(reference_ord, without_children)
+        # Each empty node stays after the word it follows (or after the closest preceding word which is not shifted).
+        # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
+        # We cannot know whether the caller wanted to place the shifted node before or after them.
+        shifted = {self} if without_children else set(self.descendants(add_self=True))
+        anchors = _anchor_empty_nodes(self._root, shifted)
+        self._shift_words_before_ord(reference_ord, without_children)
+        _reorder_empty_nodes(anchors)
+
+    def _shift_words_before_ord(self, reference_ord, without_children=False):
+        """Internal method for changing word order (excluding empty nodes)."""
         all_nodes = self._root._descendants
-        empty_nodes = self._root.empty_nodes
 
         # Moving a single node can be faster than nodes_to_move = [self]
         if without_children or not self._children:
@@ -594,25 +580,15 @@ class Node(object):
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 2] = self
                 self._ord = reference_ord - 1
-                for en in empty_nodes:
-                    if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord -= 1
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 1] = self
                 self._ord = reference_ord
-                for en in empty_nodes:
-                    # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
-                    # We cannot know whether the caller wanted to place the shifted node before or after them.
-                    if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord += 1
             self._parent._children.sort()
             return
 
-        #TODO: Updating ords of empty nodes is implemented only for the simple case above,
-        # but it has to be implemented also for the complex case below!
         nodes_to_move = self.descendants(add_self=True)
         first_ord, last_ord = nodes_to_move[0]._ord, nodes_to_move[-1]._ord
 
@@ -1091,6 +1067,33 @@ def _join_empty_ord(major, minor):
     """Return an ord of an empty node (the opposite of _split_empty_ord)."""
     return float(f"{major}.{minor}") if minor < 10 else OrdTuple(f"{major}.{minor}")
 
+def _anchor_empty_nodes(root, leaving):
+    """Return pairs (empty node, the closest preceding word or root which is not in the set `leaving`)."""
+    anchors = []
+    if root.empty_nodes:
+        last = root
+        for node in root.descendants_and_empty:
+            if node.is_empty():
+                anchors.append((node, last))
+            elif node not in leaving:
+                last = node
+    return anchors
+
+def _reorder_empty_nodes(anchors):
+    """Update ords of empty nodes after their anchors were moved. Keep the decimal part if it is not taken already.
+
+    E.g. after deleting node with ord=2 ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
+    """
+    last_major, last_minor = 0, 0
+    for empty, word in anchors:
+        major, minor = word._ord, _split_empty_ord(empty._ord)[1]
+        if major == last_major and minor <= last_minor:
+            minor = last_minor + 1
+        empty._ord = _join_empty_ord(major, minor)
+        last_major, last_minor = major, minor
+    if anchors:
+        anchors[0][0]._root.empty_nodes.sort()
+
 @functools.total_ordering
 class OrdTuple:
     """Class for the rare case of 9+ consecutive empty nodes, i.e. ords x.10, x.11 etc.
-- 
2.43.0


From 3b1ac9abec13177f567f9b8a96287ffcff1a7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 006/128] fix: removed words must not stay in multi-word tokens
 and enhanced dependencies

---
 udapi/core/node.py |  8 +++++---
 udapi/core/root.py | 12 ++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 04cd137..74e101b 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -540,16 +540,18 @@ class Node(object):
             except ValueError:
                 pass # self may be an already deleted node e.g. if n.remove() called twice
             else:
+                self._root._forget_removed_words({self})
                 anchors = _anchor_empty_nodes(self._root, {self})
                 for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                     node.ord = new_ord
                 _reorder_empty_nodes(anchors)
         else:
             # Remember the position of empty nodes, so we can reorder them as well.
-            anchors = _anchor_empty_nodes(self._root, set(self.descendants(add_self=1)))
+            nodes_to_remove = set(self.descendants(add_self=1))
+            anchors = _anchor_empty_nodes(self._root, nodes_to_remove)
 
-            # TODO nodes_to_remove = self.unordered_descendants()
-            # and mark all nodes as deleted, remove them from MWT and coref mentions
+            # TODO mark all nodes as deleted and remove them from coref mentions
+            self._root._forget_removed_words(nodes_to_remove)
             self._root._descendants = sorted(self._root.unordered_descendants())
             for (new_ord, node) in enumerate(self._root._descendants, 1):
                 node.ord = new_ord
diff --git a/udapi/core/root.py b/udapi/core/root.py
index abf36a7..7acf507 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -149,6 +149,18 @@ class Root(Node):
                             ' but it has (unexpected) children', self, children)
         self.bundle.trees = [root for root in self.bundle.trees if root != self]
 
+    def _forget_removed_words(self, removed):
+        """Delete the `removed` words from multi-word tokens and from (deserialized) enhanced dependencies."""
+        for mwt in [m for m in self._mwts if not removed.isdisjoint(m.words)]:
+            mwt.words = [w for w in mwt.words if w not in removed]
+            if len(mwt.words) < 2:
+                mwt.remove()
+        for word in removed:
+            word._mwt = None
+        for node in self._descendants + self.empty_nodes:
+            if node._deps:
+                node._deps = [dep for dep in node._deps if dep['parent'] not in removed]
+
     def shift(self, reference_node, after=0, move_subtree=0, reference_subtree=0):
         """Attempts at changing the word order of root result in Exception."""
         raise Exception('Technical root cannot be shifted as it is always the first node')
-- 
2.43.0


From 8d7288e4bd9bae0b1e87467dc086527329da3349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 007/128] fix: keep the words of multi-word tokens sorted when
 words are moved

---
 udapi/core/node.py | 5 ++++-
 udapi/core/root.py | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 74e101b..9e32fd8 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -560,13 +560,16 @@ class Node(object):
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order (including the order of empty nodes)."""
         if not self._root.empty_nodes:
-            return self._shift_words_before_ord(reference_ord, without_children)
+            self._shift_words_before_ord(reference_ord, without_children)
+            self._root._sort_mwt_words()
+            return
         # Each empty node stays after the word it follows (or after the closest preceding word which is not shifted).
         # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
         # We cannot know whether the caller wanted to place the shifted node before or after them.
         shifted = {self} if without_children else set(self.descendants(add_self=True))
         anchors = _anchor_empty_nodes(self._root, shifted)
         self._shift_words_before_ord(reference_ord, without_children)
+        self._root._sort_mwt_words()
         _reorder_empty_nodes(anchors)
 
     def _shift_words_before_ord(self, reference_ord, without_children=False):
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 7acf507..dc91ac1 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -161,6 +161,11 @@ class Root(Node):
             if node._deps:
                 node._deps = [dep for dep in node._deps if dep['parent'] not in removed]
 
+    def _sort_mwt_words(self):
+        """Make sure the words of each multi-word token are sorted by their (possibly changed) ord."""
+        for mwt in self._mwts:
+            mwt.words.sort()
+
     def shift(self, reference_node, after=0, move_subtree=0, reference_subtree=0):
         """Attempts at changing the word order of root result in Exception."""
         raise Exception('Technical root cannot be shifted as it is always the first node')
-- 
2.43.0


From 07781927dbe02e52d7a1a6c64925e84755d2370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 008/128] fix: refuse to shift the technical root with any of
 the shift methods

---
 udapi/core/root.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index dc91ac1..fbcec68 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -170,6 +170,10 @@ class Root(Node):
         """Attempts at changing the word order of root result in Exception."""
         raise Exception('Technical root cannot be shifted as it is always the first node')
 
+    def _shift_before_ord(self, reference_ord, without_children=False):
+        """Attempts at changing the word order of root with shift_* methods result in Exception."""
+        self.shift(None)
+
     def create_empty_child(self, **kwargs):
         """Create and return a new empty node within this tree.
 
-- 
2.43.0


From 628d5492fdb0203b26809bade77ab4753403da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 009/128] fix: address of a multi-word token

---
 udapi/core/mwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 3cc95ca..95dc093 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -45,7 +45,7 @@ class MWT(object):
 
     def address(self):
         """Full (document-wide) id of the multi-word token."""
-        return self.root.address + '#' + self.ord_range
+        return self.root.address() + '#' + self.ord_range
 
     @staticmethod
     def is_mwt():
-- 
2.43.0


From 2d815f43d5bb1aaea7af88f3c9595e12271c38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 010/128] fix: stealing nodes must renumber the old tree and
 move whole multi-word tokens

---
 udapi/core/root.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index fbcec68..00dfaf7 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -309,16 +309,20 @@ class Root(Node):
                 self._children.append(node)
         if whole_tree:
             old_root._descendants = []
+            for mwt in old_root.multiword_tokens:
+                mwt.root = self
             self._mwts += old_root.multiword_tokens
             old_root.multiword_tokens = []
         else:
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
-            mwt = node.multiword_token
-            for node in nodes:
-                if mwt:
-                    words = [w for w in mwt.words if w in nodes]
+            for new_ord, node in enumerate(old_root._descendants, 1):
+                node.ord = new_ord
+            for mwt in list(old_root.multiword_tokens):
+                words = [w for w in mwt.words if w in nodes]
+                if words:
                     mwt.remove()
-                    self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
+                    if len(words) > 1:
+                        self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
         self._descendants += nodes
         # pylint: enable=protected-access
 
-- 
2.43.0


From 4d34fb6726d2893458de79c98dffd7bc7ccfc746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 011/128] fix: flatten resets deprels as documented

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 00dfaf7..a21868a 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -339,3 +339,4 @@ class Root(Node):
         for node in self._children:
             node._parent = self
             node._children.clear()
+            node.deprel = deprel
-- 
2.43.0


From dc47cce3aa38dfbe14d981e3bd5131c624dbd32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 012/128] fix: minimal common treelet when one of the nodes
 reaches the root first

---
 udapi/core/node.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 9e32fd8..0ab9766 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1229,14 +1229,13 @@ def find_minimal_common_treelet(*args):
     # For unsure members we need to mark from which of its children
     # we climbed to it (`in_treelet[paren.ord] = the_child`).
     # In `new_nodes` dict, we note which nodes were tentatively added to the treelet.
-    # If we climb up to the root of the whole tree, we save the root in `highest`.
+    # If we climb up to the root of the whole tree, it waits for the other components to be merged.
     new_nodes = {}
-    highest = None
     while len(nodes) > 1:
         node = nodes.pop(0)  # TODO deque
         parent = node._parent
         if parent is None:
-            highest = node
+            nodes.append(node)
         elif in_treelet.get(parent._ord, False):
             in_treelet[parent._ord] = 1
         else:
@@ -1244,9 +1243,8 @@ def find_minimal_common_treelet(*args):
             in_treelet[parent._ord] = node
             nodes.append(parent)
 
-    # In most cases, `nodes` now contain just one node -- the one we were looking for.
-    # Only if we climbed up to the root, then the `highest` one is the root, of course.
-    highest = highest or nodes[0]
+    # Now, `nodes` contain just one node -- the one we were looking for.
+    highest = nodes[0]
 
     # Step 2: Find the lowest node which is governing all the original input `nodes`.
     # If the `highest` node is unsure, climb down using poiners stored in `in_treelet`.
-- 
2.43.0


From 87720efcdfae55c01191ba3e470933884a313d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 013/128] fix: stealing all words of a multi-word token keeps
 the token itself

---
 udapi/core/root.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index a21868a..6269abb 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -319,7 +319,11 @@ class Root(Node):
                 node.ord = new_ord
             for mwt in list(old_root.multiword_tokens):
                 words = [w for w in mwt.words if w in nodes]
-                if words:
+                if words and len(words) == len(mwt.words):
+                    old_root.multiword_tokens.remove(mwt)
+                    self._mwts.append(mwt)
+                    mwt.root = self
+                elif words:
                     mwt.remove()
                     if len(words) > 1:
                         self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
-- 
2.43.0


From 8f62d8110968ed73ca87ceb5da4591a88f940590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 014/128] fix: enhanced dependencies not accessed yet must
 follow the words when they are moved or removed

---
 udapi/core/node.py |  9 +++++++--
 udapi/core/root.py | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 0ab9766..d81dd1d 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -275,9 +275,10 @@ class Node(object):
         """
         if self._deps is None:
             # Create a list of secondary dependencies.
-            self._deps = list()
+            deps = list()
 
             if self._raw_deps == '_':
+                self._deps = deps
                 return self._deps
 
             # Obtain a list of all nodes in the dependency tree.
@@ -294,7 +295,8 @@ class Node(object):
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
                     parent = nodes[int(head)]
-                self._deps.append({'parent': parent, 'deprel': deprel})
+                deps.append({'parent': parent, 'deprel': deprel})
+            self._deps = deps
 
         return self._deps
 
@@ -516,6 +518,7 @@ class Node(object):
             `warn` means to issue a warning if any children are present and delete them.
             `rehang_warn` means to rehang and warn:-).
         """
+        self._root._bind_deps()
         self._parent._children.remove(self)
 
         # If there are any children, do the action specified in the "children" parameter.
@@ -559,6 +562,7 @@ class Node(object):
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order (including the order of empty nodes)."""
+        self._root._bind_deps()
         if not self._root.empty_nodes:
             self._shift_words_before_ord(reference_ord, without_children)
             self._root._sort_mwt_words()
@@ -1049,6 +1053,7 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
+        self._root._bind_deps()
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 6269abb..5b44868 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -161,6 +161,15 @@ class Root(Node):
             if node._deps:
                 node._deps = [dep for dep in node._deps if dep['parent'] not in removed]
 
+    def _bind_deps(self):
+        """Deserialize enhanced dependencies, so they refer to nodes rather than to ords, which may be changed."""
+        for node in self._descendants + self.empty_nodes:
+            if node._deps is None and node._raw_deps != '_':
+                try:
+                    _ = node.deps
+                except (ValueError, IndexError):
+                    pass # ill-formed enhanced dependencies stay as they are
+
     def _sort_mwt_words(self):
         """Make sure the words of each multi-word token are sorted by their (possibly changed) ord."""
         for mwt in self._mwts:
@@ -291,6 +300,7 @@ class Root(Node):
             if node.root != old_root:
                 raise ValueError("steal_nodes(nodes) was called with nodes from several trees")
         nodes = sorted(nodes)
+        old_root._bind_deps()
         whole_tree = nodes == old_root.descendants
         new_ord = len(self._descendants)
         # pylint: disable=protected-access
-- 
2.43.0


From 6d4de9a17f4e5fd71b514b54f672b965ae7f0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 015/128] fix: clearing the other attributes of a mention must
 not store an underscore

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aa27e6a..ace6578 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1058,7 +1058,7 @@ class OtherDualDict(collections.abc.MutableMapping):
         return self._dict.__contains__(key)
 
     def clear(self):
-        self._string = '_'
+        self._string = ''
         self._dict.clear()
 
     def copy(self):
-- 
2.43.0


From e061dee0783440b2ffa677f644fadd7e9935940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 016/128] fix: fix_cycles must not leave a self-loop in the
 tree

---
 udapi/block/read/conllu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index b485c17..0881d43 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -197,8 +197,7 @@ class Conllu(BaseReader):
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-                    node._parent = root
-                    root._children.append(node)
+                    parent = root
                 else:
                     raise ValueError(f"Detected a cycle: {node} attached to itself")
             elif node._children:
-- 
2.43.0


From 44c38a19a9f28a9b55ca2a8139672c3690a3f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 017/128] fix: negative HEAD is out of range

---
 udapi/block/read/conllu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 0881d43..5231f06 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -194,6 +194,8 @@ class Conllu(BaseReader):
                 parent = nodes[parents[node_ord]]
             except IndexError:
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
+            if parents[node_ord] < 0:
+                raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-- 
2.43.0


From 6190e0729055887114d6e7abbf63acf64815d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 018/128] fix: comments whose name only starts with sent_id are
 not sentence ids

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 5231f06..2c34481 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -10,7 +10,7 @@ from udapi.core.node import Node
 # Compile a set of regular expressions that will be searched over the lines.
 # The equal sign after sent_id was added to the specification in UD v2.0.
 # This reader accepts also older-style sent_id (until UD v2.0 treebanks are released).
-RE_SENT_ID = re.compile(r'^# sent_id\s*=?\s*(\S+)')
+RE_SENT_ID = re.compile(r'^# sent_id(?:\s*=\s*|\s+)(\S+)')
 RE_TEXT = re.compile(r'^# text\s*=\s*(.*)')
 RE_NEWPARDOC = re.compile(r'^# (newpar|newdoc)(?:\s+id\s*=\s*(.+))?$')
 RE_JSON = re.compile(r'^# (doc_)?json_([^ =]+)\s*=\s*(.+)')
-- 
2.43.0


From b2cb1dab8349172ba55fd727ee7b14ca7ec7fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 019/128] fix: extra empty lines or a missing final one must
 not break loading of CoNLL-U

---
 udapi/block/read/conllu.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 2c34481..aa8a16f 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -88,7 +88,7 @@ class Conllu(BaseReader):
             # as s.split('\n\n') and this time is negligble
             # relative to the main CoNLL-U parsing in read_tree_from_lines().
             return [self.read_tree_from_lines(s.split('\n')) for s in
-                    re.split(r'\n\n+', self.filehandle.read()) if s]
+                    re.split(r'\n\n+', self.filehandle.read().strip('\n')) if s]
         # udapi.core.basereader takes care about the max_docs parameter.
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
@@ -98,14 +98,19 @@ class Conllu(BaseReader):
             if line == '':
                 tree = self.read_tree_from_lines(lines)
                 lines = []
+                if tree is None:
+                    continue
                 if tree.newdoc:
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                if tree:
-                    trees.append(tree)
+                trees.append(tree)
             else:
                 lines.append(line)
+        # The last tree may be not followed by an empty line.
+        tree = self.read_tree_from_lines(lines)
+        if tree is not None and not (tree.newdoc and loaded_docs == self.max_docs):
+            trees.append(tree)
         return trees
 
     def read_tree(self):
-- 
2.43.0


From 7a9eee74f9e60f5e11496ed8a33b903f1b26f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 020/128] fix: extra empty lines must not be taken for the end
 of file

---
 udapi/block/read/conllu.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index aa8a16f..f57c26c 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -120,8 +120,13 @@ class Conllu(BaseReader):
         for line in self.filehandle:
             line = line.rstrip()
             if line == '':
-                break
-            lines.append(line)
+                # Only the end of file should return None, not extra empty lines or comments without any tree.
+                tree = self.read_tree_from_lines(lines)
+                if tree is not None:
+                    return tree
+                lines = []
+            else:
+                lines.append(line)
         return self.read_tree_from_lines(lines)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
-- 
2.43.0


From 001468c1eefc6ab0bb266a0d3ea2e1ee47d90441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 021/128] fix: comments with unusual Unicode line separators
 must stay on one line

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 2573b5a..6220224 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -25,7 +25,7 @@ class Conllu(BaseWriter):
 
         # If tree.comment contains placeholders $NEWDOC,...$TEXT, replace them with the actual
         # value of the attribute and make note on which line (i_*) they were present.
-        comment_lines = tree.comment.splitlines()
+        comment_lines = tree.comment.split('\n')
         i_newdoc, i_newpar, i_sent_id, i_text, i_global_entity = -1, -1, -1, -1, -1
         for i, c_line in enumerate(comment_lines):
             if c_line == '$SENT_ID':
-- 
2.43.0


From 12c75ff832f28f1a4efbfa56099a456d09beeb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 022/128] fix: print_text=0 must not print a placeholder

---
 udapi/block/write/conllu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 6220224..3e7ea66 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -33,7 +33,9 @@ class Conllu(BaseWriter):
                 comment_lines[i] = ' sent_id = ' + tree.sent_id if self.print_sent_id else None
             elif c_line == '$TEXT':
                 i_text = i
-                if self.print_text:
+                if not self.print_text:
+                    comment_lines[i] = None
+                else:
                     if tree.text is None:
                         comment_lines[i] = ' text = ' + tree.compute_text()
                     else:
-- 
2.43.0


From 97f87499c9fc04b52de7f8a739f83e18f6bd3c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 023/128] fix: unsetting a missing attribute must not rewrite
 the other ones

---
 udapi/core/dualdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index ba0129e..8cf109c 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -65,8 +65,8 @@ class DualDict(collections.abc.MutableMapping):
 
     def __setitem__(self, key, value):
         self._deserialize_if_empty()
-        self._string = None
         if value is not None and value != '':
+            self._string = None
             self._dict[key] = value
         else:
             self.__delitem__(key)
-- 
2.43.0


From 1e5766b603d3b3ffaaeedacdb18b14d01937b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 024/128] fix: a tree without sent_id must not inherit the id
 of the previous bundle

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index c3bcf91..0a682f6 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -154,6 +154,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
                 if self.zone != 'keep':
                     root.zone = self.zone
 
@@ -248,6 +250,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
 
                 if self.zone != 'keep':
                     root.zone = self.zone
-- 
2.43.0


From 578b57d28977898d2f1f0807bd4baabdab9d89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 025/128] fix: print_sent_id=0 and print_text=0 must not crash
 when such a comment comes first

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 3e7ea66..d0d1d1a 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -65,7 +65,7 @@ class Conllu(BaseWriter):
         # keep them at their original position and print also all comment lines preceding them.
         # It they were missing, try to print them at the correct position.
         printed_i = -1
-        if comment_lines and comment_lines[0].startswith(' global.columns'):
+        if comment_lines[0] and comment_lines[0].startswith(' global.columns'):
             printed_i += 1
             print('#' + comment_lines[printed_i])
         if self.print_sent_id:
-- 
2.43.0


From 081b0bc49f8c1d461d7ac11061a157ee6a451c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 026/128] fix: a given filehandle must be read only once

---
 udapi/core/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index be59b2c..315734b 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -40,6 +40,7 @@ class Files(object):
             if filenames is not None:
                 raise ValueError('Cannot specify both "filenames" and "filehandle"')
             self.filenames = ['<filehandle_input>']
+            self.file_number = 1
         elif isinstance(filenames, list):
             self.filenames = filenames
         elif isinstance(filenames, str):
-- 
2.43.0


From 5cc22ddd937f1e69e6363c6e476a98f842293bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 027/128] fix: removing a bundle must keep the numbering of
 bundles 1-based

---
 udapi/core/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 0a637f0..52625da 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -106,7 +106,7 @@ class Bundle(object):
     def remove(self):
         """Remove a bundle from the document."""
         self._document.bundles = [bundle for bundle in self._document.bundles if bundle != self]
-        for i, bundle in enumerate(self._document.bundles):
+        for i, bundle in enumerate(self._document.bundles, 1):
             bundle.number = i
 
     def address(self):
-- 
2.43.0


From b18a74dfad5af294c07ca1af63d3c42f2f680eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 028/128] fix: no slash in sent_id of trees with an empty zone
 when setting bundle_id

---
 udapi/core/bundle.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 52625da..140cc9c 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,11 +32,9 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
-        if len(self.trees) == 1 and self.trees[0].zone == '':
-            self.trees[0]._sent_id = bundle_id
-        else:
-            for tree in self.trees:
-                tree._sent_id = bundle_id + '/' + tree.zone  # pylint: disable=protected-access
+        for tree in self.trees:
+            # pylint: disable=protected-access
+            tree._sent_id = bundle_id + '/' + tree.zone if tree.zone else bundle_id
 
     def __str__(self):
         if self._bundle_id is None:
-- 
2.43.0


From 376ecf10382da90d807e78ad41877596ba8db450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 029/128] fix: setting sent_id of a tree with its own zone must
 not fail

---
 udapi/core/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 5b44868..751b553 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -56,7 +56,7 @@ class Root(Node):
         if self._bundle is not None:
             parts = sent_id.split('/', 1)
             self._bundle.bundle_id = parts[0]
-            if len(parts) == 2:
+            if len(parts) == 2 and parts[1] != self.zone:
                 self.zone = parts[1]
         self._sent_id = sent_id
 
-- 
2.43.0


From 18e19554d74f715af4cd4ee7eb2228f124969bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 030/128] fix: bundles_per_doc must not tear a bundle with
 several trees

---
 udapi/core/basereader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 0a682f6..de37c37 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -21,7 +21,7 @@ class BaseReader(Block):
         self.files = Files(filenames=files, filehandle=filehandle, encoding=encoding)
         self.zone = zone
         self.bundles_per_doc = bundles_per_doc
-        self._buffer = None
+        self._buffer, self._buffer_bundle_id = None, ''
         self.finished = False
         self.sent_id_filter = None
         if sent_id_filter is not None:
@@ -190,14 +190,14 @@ class BaseReader(Block):
 
             # There may be a tree left in the buffer when reading the last doc.
             if self._buffer:
-                root = self._buffer
+                root, last_bundle_id = self._buffer, self._buffer_bundle_id
                 self._buffer = None
                 if orig_bundles:
                     bundle = orig_bundles.pop(0)
                 else:
                     bundle = document.create_bundle()
-                    if root._sent_id is not None:
-                        bundle.bundle_id = root._sent_id.split('/', 1)[0]
+                    if last_bundle_id != '':
+                        bundle.bundle_id = last_bundle_id
                 bundle.add_tree(root)
                 if root.newdoc:
                     self._docs_loaded += 1
@@ -264,7 +264,7 @@ class BaseReader(Block):
                     if not bundle and root.newdoc is not True:
                         document.meta["docname"] = root.newdoc
                     if bundle and self.split_docs:
-                        self._buffer = root
+                        self._buffer, self._buffer_bundle_id = root, last_bundle_id
                         if orig_bundles:
                             logging.warning("split_docs=1 but the doc had contained %d bundles",
                                             len(orig_bundles))
@@ -275,7 +275,7 @@ class BaseReader(Block):
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
                     if self.bundles_per_doc and bundle and self.bundles_per_doc == bundle.number:
-                        self._buffer = root
+                        self._buffer, self._buffer_bundle_id = root, last_bundle_id
                         if orig_bundles:
                             logging.warning("bundles_per_doc=%d but the doc had contained %d bundles",
                                             self.bundles_per_doc, len(orig_bundles))
-- 
2.43.0


From ade0dab49af91511c38879339045f9d910b45555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 031/128] fix: a document starting with a buffered tree must
 not continue with the next file

---
 udapi/core/basereader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index de37c37..b78c411 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -187,11 +187,13 @@ class BaseReader(Block):
                 return
             orig_bundles = document.bundles[:]
             bundle, last_bundle_id = None, ''
+            trees_loaded = 0
 
             # There may be a tree left in the buffer when reading the last doc.
             if self._buffer:
                 root, last_bundle_id = self._buffer, self._buffer_bundle_id
                 self._buffer = None
+                trees_loaded = 1
                 if orig_bundles:
                     bundle = orig_bundles.pop(0)
                 else:
@@ -214,7 +216,6 @@ class BaseReader(Block):
                     return
                 logging.info(f"Reading {self.files.filename}")
 
-            trees_loaded = 0
             while True:
                 root = self.filtered_read_tree()
                 if root is None:
-- 
2.43.0


From 50316f8830b2120573371c3cf59603fdb8aa86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 032/128] fix: max_docs counts each document exactly once

---
 udapi/core/basereader.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index b78c411..8599e4a 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -138,7 +138,7 @@ class BaseReader(Block):
             for root in trees:
                 if root is None:
                     continue
-                if root.newdoc:
+                if root.newdoc or not document.bundles:
                     if self.max_docs and self._docs_loaded >= self.max_docs:
                         self.finished = True
                         return True
@@ -201,10 +201,8 @@ class BaseReader(Block):
                     if last_bundle_id != '':
                         bundle.bundle_id = last_bundle_id
                 bundle.add_tree(root)
-                if root.newdoc:
-                    self._docs_loaded += 1
-                    if root.newdoc is not True:
-                        document.meta["docname"] = root.newdoc
+                if root.newdoc and root.newdoc is not True:
+                    document.meta["docname"] = root.newdoc
                 document.meta['global.Entity'] = self._global_entity
                 document.meta['loaded_from'] = self.filename
 
@@ -262,6 +260,7 @@ class BaseReader(Block):
                     if self.max_docs and self._docs_loaded >= self.max_docs:
                         self.finished = True
                         return
+                    self._docs_loaded += 1
                     if not bundle and root.newdoc is not True:
                         document.meta["docname"] = root.newdoc
                     if bundle and self.split_docs:
@@ -271,11 +270,16 @@ class BaseReader(Block):
                                             len(orig_bundles))
                         self.finished = False
                         return
-                    self._docs_loaded += 1
 
                 # assign new/next bundle to `bundle` if needed
                 if not bundle or not add_to_the_last_bundle:
                     if self.bundles_per_doc and bundle and self.bundles_per_doc == bundle.number:
+                        # The next tree starts a new document, see the comment about max_docs above.
+                        if not root.newdoc:
+                            if self.max_docs and self._docs_loaded >= self.max_docs:
+                                self.finished = True
+                                return
+                            self._docs_loaded += 1
                         self._buffer, self._buffer_bundle_id = root, last_bundle_id
                         if orig_bundles:
                             logging.warning("bundles_per_doc=%d but the doc had contained %d bundles",
-- 
2.43.0


From 92fa0a80cad8aa9b385c703c953e14a69cdcfd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 033/128] fix: a file starting with comments without any tree
 must not break fast loading

---
 udapi/core/basereader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 8599e4a..21160aa 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -125,7 +125,7 @@ class BaseReader(Block):
 
         while True:
             try:
-                trees = self.read_trees()
+                trees = [tree for tree in self.read_trees() if tree is not None]
             except NotImplementedError:
                 return False
 
@@ -136,8 +136,6 @@ class BaseReader(Block):
 
             bundle, last_bundle_id = None, ''
             for root in trees:
-                if root is None:
-                    continue
                 if root.newdoc or not document.bundles:
                     if self.max_docs and self._docs_loaded >= self.max_docs:
                         self.finished = True
-- 
2.43.0


From b47d3d1c6fc4538614053b315166df2e9e5a9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:15 +0000
Subject: [PATCH 034/128] fix: refused zone in sent_id must not change the
 bundle_id

---
 udapi/core/root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 751b553..990665e 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -55,9 +55,9 @@ class Root(Node):
     def sent_id(self, sent_id):
         if self._bundle is not None:
             parts = sent_id.split('/', 1)
-            self._bundle.bundle_id = parts[0]
             if len(parts) == 2 and parts[1] != self.zone:
                 self.zone = parts[1]
+            self._bundle.bundle_id = parts[0]
         self._sent_id = sent_id
 
     def address(self):
-- 
2.43.0


From dc7b52a1f956556925972970f1f53bc4f727d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:15 +0000
Subject: [PATCH 035/128] fix: filelists with absolute paths, with empty lines
 and from the standard input

---
 udapi/core/files.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index 315734b..c539707 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -70,12 +70,14 @@ class Files(object):
             if not filenames:
                 raise RuntimeError('No filenames matched "%s" pattern' % pattern)
         elif token[0] == '@':
-            filelist_name = sys.stdin if token == '@-' else token[1:]
-            with open(filelist_name) as filelist:
-                filenames = [line.rstrip('\n') for line in filelist]
+            if token == '@-':
+                lines = list(sys.stdin)
+            else:
+                with open(token[1:]) as filelist:
+                    lines = list(filelist)
+            # Relative paths are relative to the directory of the filelist.
             directory = os.path.dirname(token[1:])
-            if directory != '.':
-                filenames = [f if f[0] != '/' else directory + '/' + f for f in filenames]
+            filenames = [os.path.join(directory, line.rstrip('\n')) for line in lines if line.strip()]
         else:
             filenames = [token]
         return filenames
-- 
2.43.0


From e97c5f96dcd6e54fdbf7f9e8f697583c61767abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 036/128] fix: a merged document must be named by its first
 file also in fast loading

---
 udapi/core/basereader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 21160aa..95455e2 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -129,10 +129,12 @@ class BaseReader(Block):
             except NotImplementedError:
                 return False
 
-            document.meta['loaded_from'] = self.filename
+            # With merge=1, the name of the document is taken from the first file.
+            if not document.bundles:
+                document.meta['loaded_from'] = self.filename
+                if trees and trees[0].newdoc and trees[0].newdoc is not True:
+                    document.meta["docname"] = trees[0].newdoc
             document.meta['global.Entity'] = self._global_entity
-            if trees and trees[0].newdoc and trees[0].newdoc is not True:
-                document.meta["docname"] = trees[0].newdoc
 
             bundle, last_bundle_id = None, ''
             for root in trees:
-- 
2.43.0


From e7259d86088b191c8a7478ba99e0ddf6e425e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 037/128] fix: max_docs must stop fast loading of merged files

---
 udapi/block/read/conllu.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index f57c26c..47a34b8 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -100,16 +100,17 @@ class Conllu(BaseReader):
                 lines = []
                 if tree is None:
                     continue
+                trees.append(tree)
                 if tree.newdoc:
-                    if loaded_docs == self.max_docs:
-                        return trees
+                    # The first tree over the limit is returned as well, so basereader can see that the limit was reached.
                     loaded_docs += 1
-                trees.append(tree)
+                    if loaded_docs > self.max_docs:
+                        return trees
             else:
                 lines.append(line)
         # The last tree may be not followed by an empty line.
         tree = self.read_tree_from_lines(lines)
-        if tree is not None and not (tree.newdoc and loaded_docs == self.max_docs):
+        if tree is not None:
             trees.append(tree)
         return trees
 
-- 
2.43.0


From feb6de0d13c8ac98d339f93efa6040506659da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 038/128] fix: keep the filehandle of the user open after a
 document is written

---
 udapi/core/basewriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 071ec12..2b5f2c4 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -108,5 +108,7 @@ class BaseWriter(Block):
     def after_process_document(self, document):
         sys.stdout.flush()
         if sys.stdout != self.orig_stdout:
-            sys.stdout.close()
+            # A filehandle given by the user is needed for the next documents and it is not ours to close.
+            if self.orig_files != '<filehandle>':
+                sys.stdout.close()
             sys.stdout = self.orig_stdout
-- 
2.43.0


From 30259a43d7ad94060fd2167ad58c5e9aa3cca2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 039/128] fix: segment.Simple numbers the new sentences and
 knows the abbreviation e.g.

---
 udapi/block/segment/simple.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 58be9b6..9743de2 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -22,7 +22,7 @@ class Simple(Block):
     @staticmethod
     def is_nonfinal_abbrev(token):
         """Is a given token an abbreviation (without the final period) which cannot end a sentence?"""
-        if re.search('(např|e.g.)$', token):
+        if re.search(r'(např|e\.g)$', token):
             return True
         return False
 
@@ -89,3 +89,5 @@ class Simple(Block):
                             new_bundle.create_tree(tree.zone).text = sentence
                             new_bundles.append(new_bundle)
         doc.bundles = new_bundles
+        for number, bundle in enumerate(doc.bundles, 1):
+            bundle.number = number
-- 
2.43.0


From 9a931246fc57a14663c4698d8eedd36cf02e7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 040/128] fix: segment.Merge numbers the remaining sentences
 and accepts an empty document

---
 udapi/block/segment/merge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 9ada45f..d4a03fd 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -32,6 +32,8 @@ class Merge(Block):
 
     def process_document(self, doc):
         old_bundles = doc.bundles
+        if not old_bundles:
+            return
         prev_bundle = old_bundles[0]
         new_bundles = [prev_bundle]
         for bundle in old_bundles[1:]:
@@ -43,4 +45,6 @@ class Merge(Block):
             else:
                 new_bundles.append(bundle)
                 prev_bundle = bundle
-        doc.bundles = new_bundles
\ No newline at end of file
+        doc.bundles = new_bundles
+        for number, bundle in enumerate(doc.bundles, 1):
+            bundle.number = number
-- 
2.43.0


From 7aa34c5a3a653d141a581788254d494f3ebf3aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 041/128] fix: util.Split gives the sentences to their new
 document and numbers them

---
 udapi/block/util/split.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 6eb2f65..d3ebe5c 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -36,4 +36,7 @@ class Split(BaseReader):
         self.buffer.extend(document.bundles)
         document.bundles = self.buffer[:self.bundles_per_doc]
         self.buffer = self.buffer[self.bundles_per_doc:]
+        for number, bundle in enumerate(document.bundles, 1):
+            bundle.number = number
+            bundle._document = document  # pylint: disable=protected-access
         self.finished = not self.buffer
-- 
2.43.0


From ae7adbc467a4106b6631ea6b7d25f3e8a7bd17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 042/128] fix: util.SplitSentence numbers sentences from one,
 accepts numeric IDs and never splits before the first word

---
 udapi/block/util/splitsentence.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index b6ca57d..ae79cb5 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -34,10 +34,11 @@ class SplitSentence(Block):
                 logging.fatal('Missing parameter sent_id')
             if not word_id:
                 logging.fatal('Missing parameter word_id')
-        self.sent_id = sent_id
+        # The parameters consisting of digits are converted to int in a scenario.
+        self.sent_id = sent_id if sent_id is None else str(sent_id)
         self.word_id = word_id
         self.misc_name = misc_name
-        self.misc_value = misc_value
+        self.misc_value = misc_value if misc_value is None else str(misc_value)
 
     def process_document(self, document):
         for bundle_no, bundle in enumerate(document.bundles):
@@ -52,7 +53,7 @@ class SplitSentence(Block):
                 logging.fatal('Cannot process bundles that do not have the zone with empty zone id')
             if self.misc_name:
                 root = bundle.get_tree()
-                split_points = [n for n in root.descendants if n.ord > 1 and n.misc[self.misc_name] and self.misc_value == None or n.misc[self.misc_name] == self.misc_value]
+                split_points = [n for n in root.descendants if n.ord > 1 and (n.misc[self.misc_name] and self.misc_value is None or n.misc[self.misc_name] == self.misc_value)]
                 if split_points:
                     # Create as many new bundles as there are split points.
                     n_new = len(split_points)
@@ -85,7 +86,7 @@ class SplitSentence(Block):
                     self.make_zeros_roots(root)
                     root.text = root.compute_text()
                     # Update the bundle numbers of the new bundles and all bundles after them.
-                    updated_no = bundle_no + 1
+                    updated_no = bundle_no + 2
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
@@ -101,7 +102,7 @@ class SplitSentence(Block):
                 new_bundle_no = bundle_no + 1
                 document.bundles.pop()
                 document.bundles.insert(new_bundle_no, new_bundle)
-                updated_no = new_bundle_no
+                updated_no = new_bundle_no + 1
                 for b in document.bundles[new_bundle_no:]:
                     b.number = updated_no
                     updated_no += 1
-- 
2.43.0


From 45ebff33cea6d3163b396e5b2a8981373789160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 043/128] fix: util.JoinSentence with sent_id remembers the
 previous sentence and accepts numeric IDs

---
 udapi/block/util/joinsentence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 578f386..5da2185 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -33,9 +33,10 @@ class JoinSentence(Block):
         else:
             if not sent_id:
                 logging.fatal('Missing parameter sent_id')
-        self.sent_id = sent_id
+        # The parameters consisting of digits are converted to int in a scenario.
+        self.sent_id = sent_id if sent_id is None else str(sent_id)
         self.misc_name = misc_name
-        self.misc_value = misc_value
+        self.misc_value = misc_value if misc_value is None else str(misc_value)
 
     def process_document(self, document):
         previous_tree = None
@@ -75,3 +76,5 @@ class JoinSentence(Block):
                 bundle.remove()
                 # We have found our sentence. No need to process the rest of the document.
                 break
+            else:
+                previous_tree = bundle.get_tree()
-- 
2.43.0


From b89de50a0605dad6145600ab53d8844f018852b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 044/128] fix: ud.SetSpaceAfter judges every sentence by itself
 and accepts sentences of one word

---
 udapi/block/ud/setspaceafter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 04c9fff..13795cd 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -31,7 +31,7 @@ class SetSpaceAfter(Block):
         # and treat odd-indexed ones as opening and even-indexed ones as closing.
         # Otherwise (odd number, e.g. when quoting multiple sentences), don't remove any space.
         matching_quotes = not bool(count_of_form['"'] % 2)
-        not_after, not_before = self.not_after, self.not_before
+        not_after, not_before = list(self.not_after), list(self.not_before)
         odd_indexed_quote = True
 
         # Some languages use directed „quotes“ and some “quotes”,
@@ -43,7 +43,7 @@ class SetSpaceAfter(Block):
 
         for i, node in enumerate(nodes[:-1]):
             next_form = nodes[i + 1].form
-            if node.form in self.not_after or next_form in not_before:
+            if node.form in not_after or next_form in not_before:
                 self.mark_no_space(node)
             if node.form == '"':
                 if matching_quotes:
@@ -55,7 +55,7 @@ class SetSpaceAfter(Block):
                 elif i==0:
                     self.mark_no_space(node)
 
-        if nodes[-1].form == '"':
+        if len(nodes) > 1 and nodes[-1].form == '"':
             self.mark_no_space(nodes[-2])
 
         if self.fix_text and self.changed:
-- 
2.43.0


From 4b6cec5ac3fc59cbea9b1e893f657dada59e883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 045/128] fix: read.AddText accepts texts which do not end with
 a space

---
 udapi/block/read/addtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 040174b..d001474 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -33,7 +33,7 @@ class AddText(BaseReader):
             return
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
-        while i <= end and text[i].isspace():
+        while i < end and text[i].isspace():
             i += 1
 
         for bundle in document.bundles:
@@ -44,10 +44,10 @@ class AddText(BaseReader):
             for node in root.token_descendants:
                 if text[i:i+len(node.form)] == node.form:
                     i += len(node.form)
-                    if i > end or text[i].isspace():
+                    if i >= end or text[i].isspace():
                         del node.misc['SpaceAfter']
                         was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
-                        while i <= end and text[i].isspace():
+                        while i < end and text[i].isspace():
                             i += 1
                     else:
                         node.misc['SpaceAfter'] = 'No'
-- 
2.43.0


From d7c386509c6c6e02f6812a663111202b446ec1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 046/128] fix: read.Sentences accepts files without sentences
 with newdoc_if_empty_line

---
 udapi/block/read/sentences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/sentences.py b/udapi/block/read/sentences.py
index 7487d58..2d25cf5 100644
--- a/udapi/block/read/sentences.py
+++ b/udapi/block/read/sentences.py
@@ -59,5 +59,5 @@ class Sentences(BaseReader):
 
     # The first line in a file also marks a start of new document
     def after_process_document(self, document):
-        if self.newdoc_if_empty_line:
+        if self.newdoc_if_empty_line and document.bundles:
             document.bundles[0].trees[0].newdoc = True
-- 
2.43.0


From 77f5ed90186d827ee77ecdef7fda515795f82331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 047/128] fix: ud.RemoveMwt removes all multiword tokens

---
 udapi/block/ud/removemwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/removemwt.py b/udapi/block/ud/removemwt.py
index 99c37b4..80615b5 100644
--- a/udapi/block/ud/removemwt.py
+++ b/udapi/block/ud/removemwt.py
@@ -6,7 +6,7 @@ class RemoveMwt(Block):
     """Substitute MWTs with one word representing the whole MWT."""
 
     def process_tree(self, root):
-        for mwt in root.multiword_tokens:
+        for mwt in list(root.multiword_tokens):
             words = mwt.words
             words[0].form = mwt.form
             words[0].misc = mwt.misc
-- 
2.43.0


From fa8c6c9f20879e7b5b2c355a7e833a163937a865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 048/128] fix: ud.JoinToken accepts numbers as misc_value

---
 udapi/block/ud/jointoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/jointoken.py b/udapi/block/ud/jointoken.py
index 43d2b30..79f9c0f 100644
--- a/udapi/block/ud/jointoken.py
+++ b/udapi/block/ud/jointoken.py
@@ -42,7 +42,8 @@ class JoinToken(Block):
         """
         super().__init__(**kwargs)
         self.misc_name = misc_name
-        self.misc_value = misc_value
+        # A value consisting of digits is converted to int in a scenario.
+        self.misc_value = misc_value if misc_value is None else str(misc_value)
 
     def process_node(self, node):
         """
-- 
2.43.0


From cdf6b52102769271550edf2992f498e3bc192dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 049/128] fix: ud.FixMwtSpace keeps SpaceAfter of the removed
 token

---
 udapi/block/ud/fixmwtspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixmwtspace.py b/udapi/block/ud/fixmwtspace.py
index a2b7b87..6921853 100644
--- a/udapi/block/ud/fixmwtspace.py
+++ b/udapi/block/ud/fixmwtspace.py
@@ -19,4 +19,6 @@ class FixMwtSpace(Block):
                 if node == mwt.words[0]:
                     wordforms = [x.form for x in mwt.words]
                     if ' '.join(wordforms) == mwt.form:
+                        if mwt.misc['SpaceAfter']:
+                            mwt.words[-1].misc['SpaceAfter'] = mwt.misc['SpaceAfter']
                         mwt.remove()
-- 
2.43.0


From edf0bac113937608fd94960bf8f59bbe3b3eaa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 050/128] fix: ud.ComplyWithText with tokens missing at the end
 of the text or replaced by a space

---
 udapi/block/ud/complywithtext.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index b36b251..6186843 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -162,13 +162,13 @@ class ComplyWithText(Block):
         for diff in orig_diffs:
             edit, tree_lo, tree_hi, text_lo, text_hi = diff
             if edit != 'insert':
-                if tree_chars[tree_lo] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_lo] == ' ':
                     tree_lo += 1
-                if tree_chars[tree_hi - 1] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_hi - 1] == ' ':
                     tree_hi -= 1
-                if text[text_lo] == ' ':
+                if text_lo < text_hi and text[text_lo] == ' ':
                     text_lo += 1
-                if text[text_hi - 1] == ' ':
+                if text_lo < text_hi and text[text_hi - 1] == ' ':
                     text_hi -= 1
             old = tree_chars[tree_lo:tree_hi]
             new = text[text_lo:text_hi]
@@ -178,6 +178,8 @@ class ComplyWithText(Block):
                 edit = 'equal'
             elif old == '':
                 edit = 'insert'
+            elif new == '':
+                edit = 'delete'
             diffs.append((edit, tree_lo, tree_hi, text_lo, text_hi))
         return diffs
 
-- 
2.43.0


From 8214848bd7a3f9f1de976b046ce09e4a0ffa2fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 051/128] fix: ud.ComplyWithText edits multiword tokens

---
 udapi/block/ud/complywithtext.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 6186843..021f628 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -101,7 +101,7 @@ class ComplyWithText(Block):
         """Store the previous form of this node into MISC, unless the change is common&expected."""
         if node.form not in ("''", "``") and self.previous_form_label:
             node.misc[self.previous_form_label] = node.form
-            if self.previous_form_label == 'CorrectForm':
+            if self.previous_form_label == 'CorrectForm' and not isinstance(node, MWT):
                 node.feats['Typo'] = 'Yes'
 
     def process_tree(self, root):
@@ -228,7 +228,7 @@ class ComplyWithText(Block):
             elif edit == 'insert':
                 forms = text[text_lo:text_hi].split(' ')
                 if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
-                    next_node = char_nodes[tree_lo]
+                    next_node = _words(char_nodes[tree_lo])[0]
                     for f in reversed(forms):
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
@@ -241,7 +241,8 @@ class ComplyWithText(Block):
                 if all(regex.fullmatch('\p{P}+', n.form) for n in nodes):
                     if self.allow_delete_punct:
                         for node in nodes:
-                            node.remove(children='rehang')
+                            for word in _words(node):
+                                word.remove(children='rehang')
                     else:
                         logging.warning('Unable to delete punctuation nodes (try ud.ComplyWithText allow_delete_punct=1)\n%s',
                                         _diff2str(diff, tree_chars, text))
@@ -270,7 +271,7 @@ class ComplyWithText(Block):
                     if self.allow_space(form):
                         self.store_previous_form(node)
                         node.form = form
-                    elif self.allow_goeswith:
+                    elif self.allow_goeswith and not isinstance(node, MWT):
                         self.store_previous_form(node)
                         forms = form.split()
                         node.form = forms[0]
@@ -282,8 +283,8 @@ class ComplyWithText(Block):
                         logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
                 elif self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('[ \p{P}]+', form[len(node.form):]):
                     for punct_form in reversed(form[len(node.form):].split()):
-                        new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                        new.shift_after_node(node)
+                        new = _words(node)[-1].create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                        new.shift_after_node(_words(node)[-1])
                         new.misc[self.added_label] = 1
                 else:
                     logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
@@ -311,14 +312,18 @@ class ComplyWithText(Block):
         else:
             if self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('\p{P}+', form[len(node.form):]):
                 punct_form = form[len(node.form):]
-                new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                new.shift_after_node(node)
+                new = _words(node)[-1].create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                new.shift_after_node(_words(node)[-1])
                 new.misc[self.added_label] = 1
             else:
                 self.store_previous_form(node)
                 node.form = form
 
 
+def _words(node):
+    return list(node.words) if isinstance(node, MWT) else [node]
+
+
 def _nodes_to_chars(nodes):
     chars, char_nodes = [], []
     for node in nodes:
-- 
2.43.0


From 3742479fc759359ed75fcaa1613f03cbbc270a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 052/128] fix: loading Entity with both named fields and
 "other" failed

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index ace6578..77be255 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -664,7 +664,7 @@ def load_coref_from_misc(doc, strict=True):
                     elif name == 'other':
                         if other:
                             new_other = OtherDualDict(value)
-                            for k,v in other.values():
+                            for k,v in other.items():
                                 new_other[k] = v
                             other = new_other
                         else:
-- 
2.43.0


From bd8239ab4cbddc7cb46f949d71e8f12ab7b61efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 053/128] fix: coref attributes with the name of an obligatory
 field were lost when storing

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 77be255..66906d0 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -784,7 +784,7 @@ def store_coref_to_misc(doc):
 
     fields = global_entity.split('-')
     # GRP and entity are legacy names for eid and etype, respectively.
-    other_fields = [f for f in fields if f not in ('eid etype head other GRP entity'.split(), )]
+    other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
     attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
-- 
2.43.0


From 9493270437c3f773cd1bf1d56f948152cea8232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 054/128] fix: loading a discontinuous mention without head
 ending with a single-word subspan failed

---
 udapi/core/coref.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 66906d0..33fdc2f 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -703,11 +703,12 @@ def load_coref_from_misc(doc, strict=True):
                         m = discontinuous_mentions[eid].pop()
                         if m is not mention:
                             _error(f"{node}: closing mention {mention.entity.eid} ({mention.words}), but it has an unfinished nested mention ({m.words})", 1)
-                        try:
-                            mention.head = mention._words[head_idx - 1]
-                        except IndexError as err:
-                            _error(f"Invalid head_idx={head_idx} for {mention.entity.eid} "
-                                    f"closed at {node} with words={mention._words}", 1)
+                        if head_idx:
+                            try:
+                                mention.head = mention._words[head_idx - 1]
+                            except IndexError as err:
+                                _error(f"Invalid head_idx={head_idx} for {mention.entity.eid} "
+                                        f"closed at {node} with words={mention._words}", 1)
                 else:
                     mention = CorefMention(words=[node], entity=entity, add_word_backlinks=False)
                     if other:
-- 
2.43.0


From 3aaf616b3930c01bf52a53c138e8f4194b5c6a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 055/128] fix: selecting bridging links by a relation failed

---
 udapi/core/coref.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 33fdc2f..8ff268f 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -417,6 +417,13 @@ class BridgingLink:
         self.target = target
         self.relation = '' if relation is None else relation
 
+    # Make it possible to use links as (target, relation) tuples.
+    def __len__(self):
+        return 2
+
+    def __getitem__(self, key):
+        return (self.target, self.relation)[key]
+
     def __lt__(self, another):
         if self.target == another.target:
             return self.relation < another.relation
@@ -517,7 +524,11 @@ class BridgingLinks(collections.abc.MutableSequence):
         """
         if relations_re is None:
             return self
-        return BridgingLinks(self.src_mention, [l for l in self._data if re.match(relations_re, l.relation)])
+        # Creating BridgingLinks sets also src_mention._bridging, but the mention should keep all its links.
+        subset = BridgingLinks(self.src_mention, strict=self.strict)
+        subset._data = [l for l in self._data if re.match(relations_re, l.relation)]
+        self.src_mention._bridging = self
+        return subset
 
     @property
     def targets(self):
-- 
2.43.0


From 143e26680339ea0c8567bb4878af67df448a6fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 056/128] fix: only every other bridging link (or antecedent)
 without mentions was deleted when storing

---
 udapi/core/coref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 8ff268f..db22255 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -536,7 +536,7 @@ class BridgingLinks(collections.abc.MutableSequence):
         return [link.target for link in self._data]
 
     def _delete_targets_without_mentions(self, warn=True):
-        for link in self._data:
+        for link in list(self._data):
             if not link.target.mentions:
                 if warn:
                     logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
@@ -913,7 +913,7 @@ def store_coref_to_misc(doc):
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
         if entity.split_ante:
-            for ante_entity in entity.split_ante:
+            for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
                     entity.split_ante.remove(ante_entity)
-- 
2.43.0


From 63cedad6f7472b8996da0244d2b96e7984046031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 057/128] fix: coref annotation stayed in MISC when all
 entities were deleted

---
 udapi/core/coref.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index db22255..6e048b8 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -781,6 +781,13 @@ def load_coref_from_misc(doc, strict=True):
 
 
 def store_coref_to_misc(doc):
+    if doc._eid_to_entity is None:
+        return
+
+    attrs = "Entity SplitAnte Bridge".split()
+    for node in doc.nodes_and_empty:
+        for attr in attrs:
+            del node.misc[attr]
     if not doc._eid_to_entity:
         return
 
@@ -798,11 +805,6 @@ def store_coref_to_misc(doc):
     # GRP and entity are legacy names for eid and etype, respectively.
     other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
-    attrs = "Entity SplitAnte Bridge".split()
-    for node in doc.nodes_and_empty:
-        for attr in attrs:
-            del node.misc[attr]
-
     # Convert each subspan of each discontinuous mention into a fake CorefMention instance,
     # so that we can sort both real and fake mentions and process them in the correct order.
     doc_mentions = []
-- 
2.43.0


From eb52b5936e19e9da86735c0baeaed9e7b79aa59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:14 +0000
Subject: [PATCH 058/128] fix: a refused create_mention() left a mention of the
 head only

---
 udapi/core/coref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 6e048b8..f2ca300 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -379,12 +379,14 @@ class CorefEntity(object):
             raise ValueError("Either head or words must be specified")
         if head is None:
             head = words[0]
+        if span:
+            words = span_to_nodes(head.root, span)
+            if head not in words:
+                raise ValueError(f"Head {head} is not in the specified span {span}")
 
         mention = CorefMention(words=[head], head=head, entity=self)
         if words:
             mention.words = words
-        if span:
-            mention.span = span
         self._mentions.sort()
         return mention
 
-- 
2.43.0


From 3b25953c107b569588a027bd89500232e34b810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 059/128] fix: Bridge with an empty link was stored if all
 targets were without mentions

---
 udapi/core/coref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index f2ca300..da98027 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -909,6 +909,7 @@ def store_coref_to_misc(doc):
         # Bridge=e1<e5:subset,e2<e6:subset|Entity=(e5(e6
         if mention._bridging:
             mention._bridging._delete_targets_without_mentions()
+        if mention._bridging:
             str_bridge = str(mention._bridging)
             if firstword.misc['Bridge']:
                 str_bridge = firstword.misc['Bridge'] + ',' + str_bridge
-- 
2.43.0


From b9f801bc9fa7620a713b52c7452e1f29dd53c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:12 +0000
Subject: [PATCH 060/128] fix: storing an entity with split antecedents but
 without mentions failed

---
 udapi/core/coref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index da98027..ffea1a9 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -917,7 +917,9 @@ def store_coref_to_misc(doc):
 
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
-        if entity.split_ante:
+        if entity.split_ante and not entity.mentions:
+            logging.warning(f"Entity {entity.eid} with SplitAnte has no mentions, omitting")
+        elif entity.split_ante:
             for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
-- 
2.43.0


From b056d37ddd233dcb1f1f552cc00d77dfd588027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:12 +0000
Subject: [PATCH 061/128] fix: a mention closed at its first word took the rest
 of the sentence

---
 udapi/core/coref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index ffea1a9..4b8bc9d 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -643,8 +643,8 @@ def load_coref_from_misc(doc, strict=True):
                     if last_word.precedes(w):
                         mention._words.append(w)
                         w._mentions.append(mention)
-                        if w is node:
-                            break
+                    if w is node:
+                        break
                 if head_idx and (subspan_idx is None or subspan_idx == total_subspans):
                     try:
                         mention.head = mention.words[head_idx - 1]
-- 
2.43.0


From 3fa918727cfdd940d3896be252c27fec3de656d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:12 +0000
Subject: [PATCH 062/128] fix: the type of an entity was lost if its first
 mention has an empty one

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 4b8bc9d..15e5596 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -705,7 +705,7 @@ def load_coref_from_misc(doc, strict=True):
                     logging.warning(f"etype mismatch in {node}: {entity.etype} != {etype}")
                     other["orig_etype"] = etype
                 # CorefEntity could be created first with "Bridge=" without any type
-                elif etype and entity.etype is None:
+                elif etype and not entity.etype:
                     entity.etype = etype
 
                 if subspan_idx and subspan_idx != '1':
-- 
2.43.0


From ffdded030d11677ab84a9be235a0ca4ad6c8b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 063/128] fix: corefud.MoveHead failed on empty nodes without
 non-empty parents

---
 udapi/block/corefud/movehead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/movehead.py b/udapi/block/corefud/movehead.py
index 00a32e9..0d8851a 100644
--- a/udapi/block/corefud/movehead.py
+++ b/udapi/block/corefud/movehead.py
@@ -53,12 +53,12 @@ class MoveHead(Block):
                     if 'warn' in self.bugs:
                         logging.warning(f"could not find non-empty parent of {empty_node} for mention {mention.head}")
                     if 'mark' in self.bugs:
-                        node.misc['Bug'] = 'no-parent-of-empty'
+                        empty_node.misc['Bug'] = 'no-parent-of-empty'
             non_empty.sort()
 
         # Fourth, check if there is a node within the enh_heads governing all the mention nodes
         # and forming thus a "gappy treelet", where the head is clearly the "highest" node.
-        (highest, added_nodes) = find_minimal_common_treelet(*non_empty)
+        highest = find_minimal_common_treelet(*non_empty)[0] if non_empty else None
         if highest in enh_heads:
             return highest, 'gappy'
         if highest in mwords:
-- 
2.43.0


From e097ceb689df42a46f2f86b720a55961a3ae63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 064/128] fix: words added by corefud.FixParentheses did not
 know their mention

---
 udapi/block/corefud/fixparentheses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/fixparentheses.py b/udapi/block/corefud/fixparentheses.py
index bc8e650..f0598d6 100644
--- a/udapi/block/corefud/fixparentheses.py
+++ b/udapi/block/corefud/fixparentheses.py
@@ -18,7 +18,7 @@ class FixParentheses(Block):
                     if mention.words[-1].ord == int(mention.words[-1].ord) and mention.words[-1].next_node and \
                             mention.words[-1].next_node.lemma == pair[1]:
                         next_node = mention.words[-1].next_node
-                        mention.words.append(next_node)
+                        mention.words = mention.words + [next_node]
                         if self.mark:
                             next_node.misc['Mark'] = 1
 
@@ -26,6 +26,6 @@ class FixParentheses(Block):
                 if mention.words[0].ord == int(mention.words[0].ord) and mention.words[0].prev_node \
                         and mention.words[0].prev_node.lemma == pair[0]:
                     prev_node = mention.words[0].prev_node
-                    mention.words.append(prev_node)
+                    mention.words = [prev_node] + mention.words
                     if self.mark:
                         prev_node.misc['Mark'] = 1
-- 
2.43.0


From 058951880e04c738e0d6a9e85d9c6ae9a381b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 065/128] fix: corefud.RemoveNoCorefEntities kept the mentions
 of removed entities

---
 udapi/block/corefud/removenocorefentities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/corefud/removenocorefentities.py b/udapi/block/corefud/removenocorefentities.py
index 4551873..6228f0c 100644
--- a/udapi/block/corefud/removenocorefentities.py
+++ b/udapi/block/corefud/removenocorefentities.py
@@ -18,4 +18,8 @@ class RemoveNoCorefEntities(Block):
         entities = doc.coref_entities
         if not entities:
             return
+        for entity in entities:
+            if re.match(r'^NOCOREF', entity.eid):
+                for mention in list(entity.mentions):
+                    mention.remove()
         doc._eid_to_entity = {e._eid: e for e in entities if not re.match(r'^NOCOREF', e.eid)}
-- 
2.43.0


From 3f9f3bbc4df4252bd4a210c9f041c0a77784f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 066/128] fix: coref mentions of words were doubled when loaded
 again (corefud.FixEntityAcrossNewdoc)

---
 udapi/core/coref.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 15e5596..dcb236e 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -583,6 +583,10 @@ def load_coref_from_misc(doc, strict=True):
         raise ValueError("No eid in global.Entity = " + global_entity)
     fields = global_entity.split('-')
 
+    # Forget mentions loaded before.
+    for node in doc.nodes_and_empty:
+        node._mentions = []
+
     for node in doc.nodes_and_empty:
         misc_entity = node.misc["Entity"]
         if not misc_entity:
-- 
2.43.0


From f1d61973e9cbd1128e4c1493cc7d9cddfd48ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 067/128] fix: corefud.Link2Cluster failed on links within an
 entity

---
 udapi/block/corefud/link2cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/link2cluster.py b/udapi/block/corefud/link2cluster.py
index 0829653..9f858e5 100644
--- a/udapi/block/corefud/link2cluster.py
+++ b/udapi/block/corefud/link2cluster.py
@@ -104,7 +104,8 @@ class Link2Cluster(Block):
                     # While the official API supports "stealing" a single mention (m.entity = another_entity),
                     # the implementation below using _mentions and _entity is a bit faster.
                     e_ante, e_this = this_node.coref_entities[0], ante_node.coref_entities[0]
-                    assert e_ante != e_this
+                    if e_ante is e_this:
+                        continue
                     for mention in e_ante.mentions:
                         mention._entity = e_this
                     e_this._mentions.extend(e_ante.mentions)
-- 
2.43.0


From 9c683f5efe17625160f0e33fc30c2ce6e61a71d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 068/128] fix: corefud.FixInterleaved forgot that a mention was
 deleted

---
 udapi/block/corefud/fixinterleaved.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index b4a42a4..a3ba158 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -80,5 +80,5 @@ class FixInterleaved(Block):
                     mA.entity.mentions.remove(mA)
                 except ValueError:
                     pass
-                break
                 deleted.add(mA)
+                break
-- 
2.43.0


From f1393628acbc6e7b2d8d931cca6262a41c6ce513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 069/128] fix: corefud blocks compared mentions in an order
 given by addresses in memory

---
 udapi/block/corefud/fixinterleaved.py  | 5 +++--
 udapi/block/corefud/markinterleaved.py | 4 ++--
 udapi/block/corefud/marknested.py      | 4 ++--
 udapi/block/corefud/marksamesubspan.py | 4 ++--
 udapi/block/corefud/mergesamespan.py   | 4 ++--
 5 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index a3ba158..64660c3 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -16,10 +16,11 @@ class FixInterleaved(Block):
         self.nested_same_subspan = nested_same_subspan
 
     def process_tree(self, tree):
-        mentions, deleted = set(), set()
+        # dict (and not set) keeps the order of mentions
+        mentions, deleted = {}, set()
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
 
         for mA, mB in itertools.combinations(mentions, 2):
             if mA in deleted or mB in deleted:
diff --git a/udapi/block/corefud/markinterleaved.py b/udapi/block/corefud/markinterleaved.py
index c00f73b..8ee3dae 100644
--- a/udapi/block/corefud/markinterleaved.py
+++ b/udapi/block/corefud/markinterleaved.py
@@ -21,10 +21,10 @@ class MarkInterleaved(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
+        mentions = {}  # dict (and not set) keeps the order of mentions
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
         if len(mentions) > 1:
             for mA, mB in itertools.combinations(mentions, 2):
                 if set(mA.words).intersection(set(mB.words)):
diff --git a/udapi/block/corefud/marknested.py b/udapi/block/corefud/marknested.py
index 8db8a65..204e0d7 100644
--- a/udapi/block/corefud/marknested.py
+++ b/udapi/block/corefud/marknested.py
@@ -22,10 +22,10 @@ class MarkNested(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
+        mentions = {}  # dict (and not set) keeps the order of mentions
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
         for mA, mB in itertools.combinations(mentions, 2):
             if self.same_entity_only and mA.entity != mB.entity:
                 continue
diff --git a/udapi/block/corefud/marksamesubspan.py b/udapi/block/corefud/marksamesubspan.py
index f3cfd7b..e4f86e6 100644
--- a/udapi/block/corefud/marksamesubspan.py
+++ b/udapi/block/corefud/marksamesubspan.py
@@ -22,10 +22,10 @@ class MarkSameSubSpan(Block):
             return mention.entity.eid + ':' + mention.span
 
     def process_tree(self, tree):
-        mentions = set()
+        mentions = {}  # dict (and not set) keeps the order of mentions
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
         if len(mentions) > 1:
             for mA, mB in itertools.combinations(mentions, 2):
                 if self.same_entity_only and mA.entity != mB.entity:
diff --git a/udapi/block/corefud/mergesamespan.py b/udapi/block/corefud/mergesamespan.py
index 61b613c..3a77206 100644
--- a/udapi/block/corefud/mergesamespan.py
+++ b/udapi/block/corefud/mergesamespan.py
@@ -16,10 +16,10 @@ class MergeSameSpan(Block):
         self.same_entity_only = same_entity_only
 
     def process_tree(self, tree):
-        mentions = set()
+        mentions = {}  # dict (and not set) keeps the order of mentions
         for node in tree.descendants_and_empty:
             for m in node.coref_mentions:
-                mentions.add(m)
+                mentions[m] = True
 
         for mA, mB in itertools.combinations(mentions, 2):
             if self.same_entity_only and mA.entity != mB.entity:
-- 
2.43.0


From 9090cd30e75c93d708182c9b164ff35a0401cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:28 +0000
Subject: [PATCH 070/128] fix: corefud.MarkCrossing ignored mentions crossing
 at an empty node

---
 udapi/block/corefud/markcrossing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/corefud/markcrossing.py b/udapi/block/corefud/markcrossing.py
index 8064e67..a30e519 100644
--- a/udapi/block/corefud/markcrossing.py
+++ b/udapi/block/corefud/markcrossing.py
@@ -22,6 +22,9 @@ class MarkCrossing(Block):
         else:
             return mention.span
 
+    def process_empty_node(self, empty_node):
+        self.process_node(empty_node)
+
     def process_node(self, node):
         if len(node.coref_mentions) > 1:
             for mA, mB in itertools.combinations(node.coref_mentions, 2):
-- 
2.43.0


From 220affa13063a3447b604929d2036c5eaa0c0c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 071/128] fix: parts of a discontinuous mention in two
 sentences were accepted when loading

---
 udapi/core/coref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index dcb236e..2b254cf 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -715,6 +715,8 @@ def load_coref_from_misc(doc, strict=True):
                 if subspan_idx and subspan_idx != '1':
                     opened = [pair[0] for pair in unfinished_mentions[eid]]
                     mention = next(m for m in discontinuous_mentions[eid] if m not in opened)
+                    if node.root is not mention.words[-1].root:
+                        _error(f"Cross-sentence mentions not supported yet: {chunk} at {node}", 1)
                     mention._words.append(node)
                     if closing and subspan_idx == total_subspans:
                         m = discontinuous_mentions[eid].pop()
-- 
2.43.0


From 87e48f244b2fdb7651dc40d21e6d2140599228c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 072/128] fix: util.See printed -1 values if no node matches

---
 udapi/block/util/see.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/util/see.py b/udapi/block/util/see.py
index 9a895b8..bda4b31 100644
--- a/udapi/block/util/see.py
+++ b/udapi/block/util/see.py
@@ -110,7 +110,7 @@ class See(Block):
                  self.overall['trees'],
                  self.overall['matching_trees'] * 100 / self.overall['trees']))
         for stat in self.stats:
-            vals = len(self.match[stat].keys()) - 1
+            vals = max(len(self.match[stat].keys()) - 1, 0)
             print("=== %s (%d value%s) ===" % (stat, vals, 's' if vals > 1 else ''))
             match_total = self.match[stat]['T O T A L'] or 1
             every_total = self.every[stat]['T O T A L'] or 1
-- 
2.43.0


From 27039b3b84a2df83b293ac82e7478df3252db2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:11 +0000
Subject: [PATCH 073/128] fix: util.MarkDiff aligned nodes with no node if
 fewer gold nodes replace more pred nodes

---
 udapi/block/util/markdiff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/util/markdiff.py b/udapi/block/util/markdiff.py
index e102ca9..9b26784 100644
--- a/udapi/block/util/markdiff.py
+++ b/udapi/block/util/markdiff.py
@@ -71,7 +71,8 @@ class MarkDiff(Block):
         for diff in diffs:
             edit, pred_lo, pred_hi, gold_lo, gold_hi = diff
             if edit in {'equal', 'replace'}:
-                for i in range(pred_lo, pred_hi):
+                # In 'replace' the numbers of nodes may differ, the rest is not aligned.
+                for i in range(pred_lo, min(pred_hi, pred_lo + gold_hi - gold_lo)):
                     alignment[i] = i - pred_lo + gold_lo
                     if self.align in ("both", "from-pred"):
                         pred_nodes[i].misc[self.align_attr] = i - pred_lo + gold_lo + 1
-- 
2.43.0


From 66a3c319f807f39df5ab57f1beb63b2e51c443a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:25 +0000
Subject: [PATCH 074/128] fix: transform.Proj left some trees non-projective

---
 udapi/block/transform/proj.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/udapi/block/transform/proj.py b/udapi/block/transform/proj.py
index 6e284b4..a5adabf 100644
--- a/udapi/block/transform/proj.py
+++ b/udapi/block/transform/proj.py
@@ -29,9 +29,13 @@ class Proj(Block):
         self.label = label
 
     def process_tree(self, tree):
+        # Lifting a node may make another edge non-projective.
+        lifted = set()
         nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
-        for nonproj in sorted(nonprojs, key=lambda info: info[0]):
-            self.lift(nonproj[1])
+        while nonprojs:
+            for nonproj in sorted(nonprojs, key=lambda info: info[0]):
+                self.lift(nonproj[1], lifted)
+            nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
 
     def nonproj_info(self, node):
         if self.lifting_order == 'shortest':
@@ -45,14 +49,15 @@ class Proj(Block):
         node.parent = orig_parent
         return (-depth, node)
 
-    def lift(self, node):
+    def lift(self, node, lifted):
         orig_parent = node.parent
         depth = 0
         while node.is_nonprojective():
             node.parent = node.parent.parent
             depth += 1
-        if depth == 0:
+        if depth == 0 or node in lifted:
             return
+        lifted.add(node)
         self.mark(node, orig_parent.udeprel)
 
     def mark(self, node, label):
-- 
2.43.0


From 139a75ca86ac3828545d99b783709c5578f6f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:25 +0000
Subject: [PATCH 075/128] fix: ud.FixChain left chains of three and more nodes

---
 udapi/block/ud/fixchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixchain.py b/udapi/block/ud/fixchain.py
index b3a586f..ed5a0de 100644
--- a/udapi/block/ud/fixchain.py
+++ b/udapi/block/ud/fixchain.py
@@ -14,5 +14,5 @@ class FixChain(Block):
 
     def process_node(self, node):
         for deprel in self.deprels:
-            if node.udeprel == deprel and node.parent.udeprel == deprel:
+            while node.udeprel == deprel and node.parent.udeprel == deprel:
                 node.parent = node.parent.parent
-- 
2.43.0


From 72ab3b1be96bffc2dd9edc02bf57485628c0bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:25 +0000
Subject: [PATCH 076/128] fix: ud.FixRightheaded left some structures
 right-headed

---
 udapi/block/ud/fixrightheaded.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/udapi/block/ud/fixrightheaded.py b/udapi/block/ud/fixrightheaded.py
index 045278d..2470dee 100644
--- a/udapi/block/ud/fixrightheaded.py
+++ b/udapi/block/ud/fixrightheaded.py
@@ -20,14 +20,14 @@ class FixRightheaded(Block):
         self.deprels = deprels.split(',')
 
     def process_node(self, node):
-        for deprel in self.deprels:
-            if node.udeprel == deprel and node.precedes(node.parent):
-                orig_parent = node.parent
-                node.parent = orig_parent.parent
-                if deprel != 'conj':
-                    for child in orig_parent.children:
-                        child.parent = node
-                orig_parent.parent = node
-                head_deprel = orig_parent.deprel
-                orig_parent.deprel = node.deprel
-                node.deprel = head_deprel
+        # The node takes over the deprel of its parent, so it may need another step.
+        while node.udeprel in self.deprels and node.precedes(node.parent):
+            orig_parent = node.parent
+            node.parent = orig_parent.parent
+            if node.udeprel != 'conj':
+                for child in orig_parent.children:
+                    child.parent = node
+            orig_parent.parent = node
+            head_deprel = orig_parent.deprel
+            orig_parent.deprel = node.deprel
+            node.deprel = head_deprel
-- 
2.43.0


From b7e78d6c1f2bb42b9e3c89a97c9095a9d4803429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 077/128] fix: transform.Flatten with oneroot failed on a tree
 without words

---
 udapi/block/transform/flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/transform/flatten.py b/udapi/block/transform/flatten.py
index d218ad2..5fefff0 100644
--- a/udapi/block/transform/flatten.py
+++ b/udapi/block/transform/flatten.py
@@ -18,7 +18,7 @@ class Flatten(Block):
         for node in tree.descendants:
             node.parent = node.root
             node.deprel = 'root'
-        if self.oneroot:
+        if self.oneroot and tree.descendants:
             first = tree.descendants[0]
             for node in tree.descendants[1:]:
                 node.parent = first
-- 
2.43.0


From ac54c6b2f049156a34af219349b6411421871519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 078/128] fix: ud.FixRoot failed on a tree without words

---
 udapi/block/ud/fixroot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixroot.py b/udapi/block/ud/fixroot.py
index be972d8..8477156 100644
--- a/udapi/block/ud/fixroot.py
+++ b/udapi/block/ud/fixroot.py
@@ -26,6 +26,8 @@ class FixRoot(Block):
 
     def process_tree(self, root):
         rchildren = root.children
+        if not rchildren:
+            return
         if len(rchildren) > 1:
             for i in range(len(rchildren)-1):
                 rchildren[i+1].parent = rchildren[0]
-- 
2.43.0


From adce77cf7e7faaa839172d37ce6a508b712facb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 079/128] fix: ud.FixAdvmodByUpos changed advmod of adverbs

---
 udapi/block/ud/fixadvmodbyupos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixadvmodbyupos.py b/udapi/block/ud/fixadvmodbyupos.py
index d020b55..6a531b4 100644
--- a/udapi/block/ud/fixadvmodbyupos.py
+++ b/udapi/block/ud/fixadvmodbyupos.py
@@ -12,6 +12,8 @@ class FixAdvmodByUpos(Block):
 
     def process_node(self, node):
         if node.udeprel == 'advmod':
+            if node.upos == 'ADV':
+                return
             if node.upos in ['NOUN', 'PROPN', 'PRON', 'DET', 'NUM']:
                 node.deprel = 'obl'
             elif node.upos == 'VERB':
-- 
2.43.0


From bd8141f484115969811e06e1be9987b6b71feeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 080/128] fix: ud.FixCompoundName changed only names with
 digits

---
 udapi/block/ud/fixcompoundname.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fixcompoundname.py b/udapi/block/ud/fixcompoundname.py
index 90596e3..4ac6a6c 100644
--- a/udapi/block/ud/fixcompoundname.py
+++ b/udapi/block/ud/fixcompoundname.py
@@ -29,7 +29,7 @@ class FixCompoundName(Block):
             # The Hindi treebank tags dates (['30', 'navaṁbara'], ['disaṁbara', '1993']) as PROPN compounds.
             # This is wrong but it is also different from personal names we are targeting here.
             # Hence, we will skip "names" that contain numbers.
-            if any(re.search(r"\d", x.form) for x in namewords):
+            if not any(re.search(r"\d", x.form) for x in namewords):
                 #logging.info(str([x.misc['Translit'] for x in namewords]))
                 ###!!! We currently cannot transform enhanced dependencies.
                 ###!!! If we proceed, the basic tree would diverge from the enhanced dependencies.
-- 
2.43.0


From 88f6f76752c51127cf70c50670c0832da1f6f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:38 +0000
Subject: [PATCH 081/128] fix: ud.FixCompoundName left compounds of compounds

---
 udapi/block/ud/fixcompoundname.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixcompoundname.py b/udapi/block/ud/fixcompoundname.py
index 4ac6a6c..9b475ca 100644
--- a/udapi/block/ud/fixcompoundname.py
+++ b/udapi/block/ud/fixcompoundname.py
@@ -44,3 +44,5 @@ class FixCompoundName(Block):
                 for n in rest:
                     n.parent = head
                     n.deprel = 'flat:name'
+                # The head takes over the deprel, so it may be a compound again.
+                self.process_node(node)
-- 
2.43.0


From 69f00388480d789335467dac12021cec95f21de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:57 +0000
Subject: [PATCH 082/128] fix: ud.FixPunct left punctuation non-projective if a
 neighbor was re-attached later

---
 udapi/block/ud/fixpunct.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 854a24a..35b48ae 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -94,9 +94,14 @@ class FixPunct(Block):
                     self._fix_paired_punct(root, node, closing_punct)
 
         # Third, fix subordinate punctuation (i.e. any punctuation not marked in _punct_type).
-        for node in root.descendants:
-            if node.upos == 'PUNCT' and not self._punct_type[node.ord]:
-                self._fix_subord_punct(node)
+        # A neighboring punctuation, which is going to be re-attached, may prevent a node from being attached
+        # projectively, so try such nodes once more.
+        nodes = [n for n in root.descendants if n.upos == 'PUNCT' and not self._punct_type[n.ord]]
+        while nodes:
+            postponed = [n for n in nodes if not self._fix_subord_punct(n)]
+            if len(postponed) == len(nodes):
+                break
+            nodes = postponed
 
         # UD requires "exactly one word is the head of the sentence, dependent on a notional ROOT", i.e. a single "subroot".
         # This seems to be a stronger rule than no-PUNCT-children because it is checked by the validator.
@@ -129,7 +134,7 @@ class FixPunct(Block):
         # Numbers can be detected with `node.parent.form.isdigit()`,
         # but abbreviations are more tricky because the Abbr=Yes feature is not always used.
         if node.form == '.' and node.parent == node.prev_node:
-            return
+            return True
 
         # Even non-paired punctuation like commas and dashes may work as paired.
         # Detect such cases and try to preserve, but only if projective.
@@ -137,7 +142,7 @@ class FixPunct(Block):
         if node in (p_desc[0], p_desc[-1]) and len(p_desc) == p_desc[-1].ord - p_desc[0].ord + 1:
             if (p_desc[0].upos == 'PUNCT' and p_desc[-1].upos == 'PUNCT'
                     and p_desc[0].parent == node.parent and p_desc[-1].parent == node.parent):
-                return
+                return True
 
         # Initialize the candidates (left and right) with the nearest nodes excluding punctuation.
         # Final punctuation should not be attached to any following, so exclude r_cand there.
@@ -194,7 +199,7 @@ class FixPunct(Block):
         elif r_cand is not None:
             cand, path = r_cand, l_path + r_path
         else:
-            return
+            return False
 
         # The guidelines say:
         #    Within the relevant unit, a punctuation mark is attached
@@ -207,6 +212,7 @@ class FixPunct(Block):
         if node.parent not in path:
             node.parent = cand
         node.deprel = 'punct'
+        return True
 
     def _will_be_projective(self, node, cand):
         node.parent = cand
-- 
2.43.0


From 980c53e432843ce4a49aaa22eb7c76cf39c86f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:54 +0000
Subject: [PATCH 083/128] fix: ud.FixPunct left final punctuation after an
 opening one non-projective

---
 udapi/block/ud/fixpunct.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 35b48ae..a4ce0dd 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -145,15 +145,16 @@ class FixPunct(Block):
                 return True
 
         # Initialize the candidates (left and right) with the nearest nodes excluding punctuation.
-        # Final punctuation should not be attached to any following, so exclude r_cand there.
+        # Final punctuation should not be attached to any following, so exclude r_cand there
+        # (unless an opening punctuation precedes).
         l_cand, r_cand = node.prev_node, node.next_node
-        if node.form in FINAL_PUNCT:
-            r_cand = None
         while l_cand.ord > 0 and l_cand.upos == 'PUNCT':
             if self._punct_type[l_cand.ord] == 'opening' and l_cand.parent != node:
                 l_cand = None
                 break
             l_cand = l_cand.prev_node
+        if node.form in FINAL_PUNCT and l_cand is not None:
+            r_cand = None
         while r_cand is not None and r_cand.upos == 'PUNCT':
             if self._punct_type[r_cand.ord] == 'closing' and r_cand.parent != node:
                 r_cand = None
-- 
2.43.0


From 2af4b267525548cdecaa4d5b44cd4ba20d54f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:10 +0000
Subject: [PATCH 084/128] fix: ud.FixPunct failed if a candidate head hangs on
 the punctuation

---
 udapi/block/ud/fixpunct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index a4ce0dd..51d3f08 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -216,6 +216,8 @@ class FixPunct(Block):
         return True
 
     def _will_be_projective(self, node, cand):
+        if cand.is_descendant_of(node):
+            return False
         node.parent = cand
         return not node.is_nonprojective() and not self._causes_gap(node)
 
-- 
2.43.0


From f32a087288e5a72f45d9bd3506707b388495a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:49 +0000
Subject: [PATCH 085/128] fix: ud.FixPunct paired a quote with one which is no
 punctuation

---
 udapi/block/ud/fixpunct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index 51d3f08..f6a7f0e 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -230,6 +230,8 @@ class FixPunct(Block):
             return
         nested_level = 0
         for node in root.descendants[opening_node.ord:]:
+            if not self._is_punct(node):
+                continue
             if node.form == closing_punct:
                 if nested_level > 0:
                     nested_level -= 1
-- 
2.43.0


From e777c11e1418ed25ab770041758fec29d3840071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:49 +0000
Subject: [PATCH 086/128] fix: ud.FixPunct failed on a tree without words

---
 udapi/block/ud/fixpunct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/ud/fixpunct.py b/udapi/block/ud/fixpunct.py
index f6a7f0e..e2a6576 100644
--- a/udapi/block/ud/fixpunct.py
+++ b/udapi/block/ud/fixpunct.py
@@ -73,6 +73,9 @@ class FixPunct(Block):
         return False
 
     def process_tree(self, root):
+        if not root.children:
+            return
+
         # First, make sure no PUNCT has children.
         # This may introduce multiple subroots, which will be fixed later on
         # (preventing to temporarily create multiple subroots here would prevent fixing some errors).
-- 
2.43.0


From 369dc5d935a0a59cc9e5d51dee5a2604f3e06365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:44 +0000
Subject: [PATCH 087/128] fix: the root never causes a non-projective gap

is_nonprojective_gap() sliced the words before the node with [:ord - 1], which for
the root (ord 0) means all words but the last one. Thus a tree with any deeper edge made
ud.MarkBugs skip punct-nonproj-gap for punctuation attached to the root.
---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index d81dd1d..ac41676 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -951,7 +951,7 @@ class Node(object):
             node = node._parent
             ancestors.add(node)
         all_nodes = node._descendants
-        for left_node in all_nodes[:self._ord - 1]:
+        for left_node in all_nodes[:max(self._ord - 1, 0)]:
             if self.precedes(left_node._parent) and left_node._parent not in ancestors:
                 return True
         for right_node in all_nodes[self._ord:]:
-- 
2.43.0


From d607e8c2f49869ccab42dd02ee1ea1ed6732a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:44 +0000
Subject: [PATCH 088/128] fix: ud.MarkBugs compares whole bug names

A bug whose name is a part of the name of another bug of the same node (punct-nonproj
and punct-nonproj-gap) was not stored in the attribute Bug.
---
 udapi/block/ud/markbugs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/markbugs.py b/udapi/block/ud/markbugs.py
index bf47ed7..9aca336 100644
--- a/udapi/block/ud/markbugs.py
+++ b/udapi/block/ud/markbugs.py
@@ -73,7 +73,7 @@ class MarkBugs(Block):
             return
         logging.debug('node %s %s: %s', node.address(), short_msg, long_msg)
         if node.misc['Bug']:
-            if short_msg not in node.misc['Bug']:
+            if short_msg not in node.misc['Bug'].split(','):
                 node.misc['Bug'] += ',' + short_msg
         else:
             node.misc['Bug'] = short_msg
-- 
2.43.0


From fc5dfd1bab14f1c310382aff9cb086a680c6b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 089/128] fix: write.TextModeTrees hints=0 drew broken lines

Lines to words with children in front of other branches were not drawn from the plain
branch symbol used with hints=0, and no bridge was drawn where they cross another line.
---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 885f797..c3d1528 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -276,7 +276,7 @@ class TextModeTrees(BaseWriter):
             max_length = max([self.lengths[i] for i in range(min_idx, max_idx + 1)])
             for idx in range(min_idx, max_idx + 1):
                 idx_node = allnodes[idx]
-                filler = '─' if self._ends(idx, '─╭╰╪┡┢') else ' '
+                filler = '─' if self._ends(idx, '─╭╰╪├┡┢') else ' '
                 self._add(idx, filler * (max_length - self.lengths[idx]))
 
                 topmost = idx == min_idx
@@ -287,7 +287,7 @@ class TextModeTrees(BaseWriter):
                         self.add_node(idx, node)
                 else:
                     if idx_node.parent is not node:
-                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢')])
+                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪├┡┢')])
                     else:
                         precedes_parent = idx < self._index_of[node.ord]
                         self._add(idx, self._space[precedes_parent][topmost or botmost])
-- 
2.43.0


From c87902cde5887a2f753ef290f6464400ec0a645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 090/128] fix: write.TextModeTrees color=1 did not highlight
 marked comments

Comments have the form "name = value", as the documentation of the parameter mark says.
---
 udapi/block/write/textmodetrees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index c3d1528..4222af6 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -332,7 +332,7 @@ class TextModeTrees(BaseWriter):
         if self.print_text:
             print("# text = " + (root.get_sentence() if root.is_root() else root.compute_text()))
         if self.print_comments and root.comment:
-            print('#' + self.colorize_comment(root.comment.rstrip().replace('\n', '\n#')))
+            print('#' + self.colorize_comment(root.comment.rstrip()).replace('\n', '\n#'))
 
     def _ends(self, idx, chars):
         return bool(self.lines[idx] and self.lines[idx][-1] in chars)
@@ -382,9 +382,9 @@ class TextModeTrees(BaseWriter):
 
     def colorize_comment(self, comment):
         """Return a string with color markup for a given comment."""
-        if self.mark_re is None:
+        if self.comment_mark_re is None or not self.color:
             return comment
-        return self.mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
+        return self.comment_mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
 
     @staticmethod
     def colorize_attr(attr, value, marked):
-- 
2.43.0


From 5e9f5d4065097c0c920d2c06680ebfddaf09a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 091/128] fix: write.TextModeTreesHtml ignored the parameter
 zones

With zones_in_rows, trees of other zones were printed, or UnboundLocalError was raised
if the first tree of the first bundle was one of them.
---
 udapi/block/write/textmodetreeshtml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 0ad39da..4e44bc8 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -98,11 +98,11 @@ class TextModeTreesHtml(TextModeTrees):
                         allnodes = [tree] + tree.descendants_and_empty
                     else:
                         allnodes = tree.descendants(add_self=1)
-                if self.should_print_tree(tree, allnodes):
-                    marked_trees.append(tree)
+                    if self.should_print_tree(tree, allnodes):
+                        marked_trees.append(tree)
             if marked_trees:
                 if self.whole_bundle:
-                    marked_trees = bundle
+                    marked_trees = [tree for tree in bundle if self._should_process_tree(tree)]
                 print("<table><tr>")
                 for tree in marked_trees:
                     print("<td>")
-- 
2.43.0


From c1c57db550755de0ae463ba483a136fcc1242ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:29 +0000
Subject: [PATCH 092/128] fix: node.draw(print_comments=True) raised
 AttributeError

Only roots have comments, but draw() may be called on any node.
---
 udapi/block/write/textmodetrees.py     | 4 ++--
 udapi/block/write/textmodetreeshtml.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 4222af6..6fc93fe 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -241,7 +241,7 @@ class TextModeTrees(BaseWriter):
             return True
         if any(self.is_marked(n) for n in allnodes):
             return True
-        if not self.print_comments or root.comment is None or self.mark_re is None:
+        if not self.print_comments or not root.is_root() or root.comment is None or self.mark_re is None:
             return False
         return self.comment_mark_re.search(root.comment)
 
@@ -331,7 +331,7 @@ class TextModeTrees(BaseWriter):
             print('# sent_id = ' + root.address())
         if self.print_text:
             print("# text = " + (root.get_sentence() if root.is_root() else root.compute_text()))
-        if self.print_comments and root.comment:
+        if self.print_comments and root.is_root() and root.comment:
             print('#' + self.colorize_comment(root.comment.rstrip()).replace('\n', '\n#'))
 
     def _ends(self, idx, chars):
diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 4e44bc8..94dfd39 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -85,7 +85,7 @@ class TextModeTreesHtml(TextModeTrees):
         if self.print_text:
             text = "# text = " + (root.get_sentence() if root.is_root() else root.compute_text())
             print(escape(text))
-        if self.print_comments and root.comment:
+        if self.print_comments and root.is_root() and root.comment:
             print('#' + self.colorize_comment(escape(root.comment)).rstrip().replace('\n', '\n#'))
 
     def process_bundle(self, bundle):
-- 
2.43.0


From 4b659b564ae7f6ffea6fb20389db9f0cb2dc110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 093/128] fix: read.Vislcg dropped the first two features

---
 udapi/block/read/vislcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 4c5a87a..40b49c0 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -70,7 +70,7 @@ class Vislcg(BaseReader):
         lemma = line[1:end_quote_pos]
         fields = line[end_quote_pos + 1:].split()
         xpos = fields[0]
-        feats_list = fields[3:-2]
+        feats_list = fields[1:-2]
         feats = '|'.join(feats_list) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
-- 
2.43.0


From 0ca8805e127d67d701d1e344c373883627937670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 094/128] fix: read.Vislcg did not unescape special characters

---
 udapi/block/read/vislcg.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 40b49c0..d7d45f6 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -1,7 +1,13 @@
 """Vislcg is a reader block the VISL-cg format."""
+import re
+
+from udapi.block.write.vislcg import ESCAPE_TABLE
 from udapi.core.basereader import BaseReader
 from udapi.core.root import Root
 
+UNESCAPE_TABLE = {entity: char for char, entity in ESCAPE_TABLE.items()}
+ENTITY_RE = re.compile('|'.join(re.escape(entity) for entity in UNESCAPE_TABLE))
+
 
 class Vislcg(BaseReader):
     """A reader of the VISL-cg format, suitable for VISL Constraint Grammer Parser."""
@@ -42,7 +48,7 @@ class Vislcg(BaseReader):
                             word.form = '_'
                     root.create_multiword_token(words, form=form)
                 words = []
-            form = line[2:-2]
+            form = self._unescape(line[2:-2])
 
         if words:
             words[0].form = form
@@ -60,6 +66,10 @@ class Vislcg(BaseReader):
 
         return root
 
+    @staticmethod
+    def _unescape(string):
+        return ENTITY_RE.sub(lambda match: UNESCAPE_TABLE[match.group()], string)
+
     @staticmethod
     def _node(line, root):
         # line contains "lemma" xpos feat1 feat2 .. featN @deprel #ord->parent.ord
@@ -67,11 +77,11 @@ class Vislcg(BaseReader):
         # so we cannot use fields = shlex.split(line)
         # Let's hope that xpos, feats and deprel do not contain any quotes.
         end_quote_pos = line.rfind('"')
-        lemma = line[1:end_quote_pos]
+        lemma = Vislcg._unescape(line[1:end_quote_pos])
         fields = line[end_quote_pos + 1:].split()
-        xpos = fields[0]
+        xpos = Vislcg._unescape(fields[0])
         feats_list = fields[1:-2]
-        feats = '|'.join(feats_list) if feats_list else '_'
+        feats = '|'.join(Vislcg._unescape(feat) for feat in feats_list) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
         node = root.create_child(lemma=lemma, xpos=xpos, feats=feats, deprel=deprel)
-- 
2.43.0


From 23b7db4b71b5ba3c48d63f4a40db415ec78f04e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 095/128] fix: read.Vislcg lost a multiword token at the end of
 a sentence

---
 udapi/block/read/vislcg.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index d7d45f6..ef0143d 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -37,23 +37,12 @@ class Vislcg(BaseReader):
                 continue
 
             if words:
-                words[0].form = form
-                if len(words) > 1:
-                    split_forms = form.split()
-                    if len(words) == len(split_forms):
-                        for word, split_form in zip(words, split_forms):
-                            word.form = split_form
-                    else:
-                        for word in words[1:]:
-                            word.form = '_'
-                    root.create_multiword_token(words, form=form)
+                self._finish_token(words, form, root)
                 words = []
             form = self._unescape(line[2:-2])
 
         if words:
-            words[0].form = form
-            for word in words[1:]:
-                word.form = '_'
+            self._finish_token(words, form, root)
 
         nodes = root.descendants(add_self=True)
         if len(nodes) == 1:
@@ -66,6 +55,19 @@ class Vislcg(BaseReader):
 
         return root
 
+    @staticmethod
+    def _finish_token(words, form, root):
+        words[0].form = form
+        if len(words) > 1:
+            split_forms = form.split()
+            if len(words) == len(split_forms):
+                for word, split_form in zip(words, split_forms):
+                    word.form = split_form
+            else:
+                for word in words[1:]:
+                    word.form = '_'
+            root.create_multiword_token(words, form=form)
+
     @staticmethod
     def _unescape(string):
         return ENTITY_RE.sub(lambda match: UNESCAPE_TABLE[match.group()], string)
-- 
2.43.0


From 8870ec6ef307748205211b9e0a89ee548ec05249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:49 +0000
Subject: [PATCH 096/128] fix: negative HEAD is out of range also in
 read.Conll, read.Conllup and read.Vislcg

---
 udapi/block/read/conll.py  | 2 ++
 udapi/block/read/vislcg.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index d0aef1e..5f06ba0 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -129,6 +129,8 @@ class Conll(udapi.block.read.conllu.Conllu):
 
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
+            if parents[node_ord] < 0:
+                raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
             try:
                 parent = nodes[parents[node_ord]]
             except IndexError:
diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index ef0143d..df5bfc3 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -48,6 +48,8 @@ class Vislcg(BaseReader):
         if len(nodes) == 1:
             return None
         for node_ord, node in enumerate(nodes[1:], 1):
+            if parents[node_ord] < 0:
+                raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
             try:
                 node.parent = nodes[parents[node_ord]]
             except IndexError:
-- 
2.43.0


From b20baf118c7aaeb406c5596dae1686398b047677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:49 +0000
Subject: [PATCH 097/128] fix: read.Conll lost the form of words whose form is
 an underscore

---
 udapi/block/read/conll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index 5f06ba0..fa60362 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -95,7 +95,7 @@ class Conll(udapi.block.read.conllu.Conllu):
                     raise ValueError(f"Node {node} ord mismatch: {value}, but expecting {node._ord} at:\n{line}")
             elif attribute_name == 'deps':
                 setattr(node, 'raw_deps', value)
-            elif attribute_name != '_' and value != '_':
+            elif attribute_name != '_' and (value != '_' or attribute_name == 'form'):
                 setattr(node, attribute_name, value)
 
         nodes.append(node)
-- 
2.43.0


From 0c651ced680830f56b8e2d7c6baa3bfcd3ac492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:49 +0000
Subject: [PATCH 098/128] fix: write.Treex did not escape special XML
 characters

---
 udapi/block/write/treex.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index 7faea41..4cb06bc 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -1,4 +1,6 @@
 """write.Treex is a writer block for Treex XML (e.g. for TrEd editing)."""
+from xml.sax.saxutils import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -31,7 +33,7 @@ class Treex(BaseWriter):
         ind = ' ' * 8
         print(ind + "<zone language='%s' selector='%s'>" % (language, selector))
         if tree.text:
-            print(ind + "  <sentence>%s</sentence>" % tree.text)
+            print(ind + "  <sentence>%s</sentence>" % escape(tree.text))
         print(ind + "  <trees>\n" + ind + "    <a_tree id='%s'>" % tree_id)
         self.print_subtree(tree, tree_id, ' ' * 12)
         print(ind + "    </a_tree>\n" + ind + "  </trees>\n" + ind + "</zone>")
@@ -44,15 +46,15 @@ class Treex(BaseWriter):
         print(ind + "<ord>%s</ord>" % node.ord)
         if not node.is_root():
             if node.form:
-                print(ind + "<form>%s</form>" % node.form)
+                print(ind + "<form>%s</form>" % escape(node.form))
             if node.lemma:
-                print(ind + "<lemma>%s</lemma>" % node.lemma)
+                print(ind + "<lemma>%s</lemma>" % escape(node.lemma))
             if node.upos:
-                print(ind + "<tag>%s</tag>" % node.upos)
+                print(ind + "<tag>%s</tag>" % escape(node.upos))
             if node.deprel:
-                print(ind + "<deprel>%s</deprel>" % node.deprel)
+                print(ind + "<deprel>%s</deprel>" % escape(node.deprel))
             print(ind + "<conll><pos>%s</pos><feat>%s</feat></conll>"
-                  % (node.xpos, str(node.feats)))
+                  % (escape(str(node.xpos)), escape(str(node.feats))))
 
         # TODO misc and deps into wild, but probably need to encode ř as \x{159} etc.
         if node.children:
-- 
2.43.0


From b99284309b64211a325d6fd6bd34635f797d5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:50 +0000
Subject: [PATCH 099/128] fix: write.SentencesHtml did not escape special HTML
 characters

---
 udapi/block/write/sentenceshtml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/sentenceshtml.py b/udapi/block/write/sentenceshtml.py
index e0f8724..4af0f81 100644
--- a/udapi/block/write/sentenceshtml.py
+++ b/udapi/block/write/sentenceshtml.py
@@ -1,4 +1,6 @@
 """SentencesHtml class is a writer for sentences in HTML list (could be Google-translated, remembering sentence correspondence)."""
+import html
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -26,7 +28,7 @@ class SentencesHtml(BaseWriter):
     def before_process_document(self, document):
         super().before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + html.escape(self.title) + '</title>')
         print('</head>\n<body>\n<ul>\n')
 
     def after_process_document(self, document):
@@ -34,4 +36,5 @@ class SentencesHtml(BaseWriter):
         super().after_process_document(document)
 
     def process_tree(self, tree):
-        print('  <li id="%s">%s</li>' % (tree.sent_id, tree.get_sentence(self.if_missing)))
+        print('  <li id="%s">%s</li>' % (html.escape(str(tree.sent_id)),
+                                        html.escape(tree.get_sentence(self.if_missing), quote=False)))
-- 
2.43.0


From c69b6d84f1fbb35dd683d10e07455bdc1b3f6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 100/128] fix: write.Tikz did not escape all special LaTeX
 characters

---
 udapi/block/write/tikz.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 4007173..eda24d9 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -4,6 +4,17 @@ import logging
 from udapi.core.basewriter import BaseWriter
 
 
+ESCAPE_TABLE = {
+    '[': '$[$',
+    ']': '$]$',
+    '\\': r'\textbackslash{}',
+    '&': r'\symbol{38}',  # \& separates columns
+    '~': r'\textasciitilde{}',
+    '^': r'\textasciicircum{}',
+}
+ESCAPE_TABLE.update((char, '\\' + char) for char in '_$%#{}')
+
+
 class Tikz(BaseWriter):
     r"""A writer of files in the LaTeX with tikz-dependency format.
 
@@ -97,7 +108,7 @@ class Tikz(BaseWriter):
         super().after_process_document(doc)
 
     def _tex_escape(self, string):
-        return string.replace('_', r'\_').replace('$', '\$').replace('[', '$[$').replace(']', '$]$')
+        return ''.join(ESCAPE_TABLE.get(char, char) for char in string)
 
     def process_tree(self, tree):
         print(r'\begin{dependency}')
-- 
2.43.0


From b8695cf54ddfe52aaf49b46c03ea74514e0a3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 101/128] fix: write.Tikz as_tree=1 failed on an empty tree

---
 udapi/block/write/tikz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index eda24d9..e027961 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -139,7 +139,7 @@ class Tikz(BaseWriter):
         print(r'\end{deptext}')
         if self.as_tree:
             depths = [n._get_attr('depth') for n in nodes]
-            max_depth = max(depths)
+            max_depth = max(depths, default=0)
             for node in nodes:
                 print(r'\node (w%d) [yshift=\depskip+%s\deplevel,depnode] at (\wordref{1}{%d}) {};'
                       % (node.ord, max_depth - depths[node.ord - 1], node.ord))
-- 
2.43.0


From 3adc4eb8b1eb1a9c8df467a6528cc6f544b8a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 102/128] fix: write.Tikz comment_attribute printed an unclosed
 LaTeX command

---
 udapi/block/write/tikz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index e027961..8b6ba92 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -167,7 +167,9 @@ class Tikz(BaseWriter):
             if start_pos != -1:
                 start_pos += len(self.comment_attribute) + 3
                 end_pos = tree.comment.find('\n', start_pos)
-                print(r'\deptrans{' + tree.comment[start_pos:end_pos])
+                if end_pos == -1:
+                    end_pos = len(tree.comment)
+                print(r'\deptrans{' + self._tex_escape(tree.comment[start_pos:end_pos]) + '}')
 
         print(r'\end{dependency}')
         print('')  # empty line marks a new paragraph in LaTeX, but multi=dependency causes newpage
-- 
2.43.0


From f4ccc34063e0eb15ef969c746f3d415e7ec40e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:04 +0000
Subject: [PATCH 103/128] fix: Convert1to2 marks a word with a ToDo also if it
 is a part of an older one

ToDo=generic hid a new ToDo=gen.
---
 udapi/block/ud/convert1to2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index d76c50b..d621bac 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -97,7 +97,7 @@ class Convert1to2(Block):
         if node.is_root():
             pass
         elif node.misc['ToDo']:
-            if short_msg not in node.misc['ToDo']:
+            if short_msg not in node.misc['ToDo'].split(','):
                 node.misc['ToDo'] += ',' + short_msg
         else:
             node.misc['ToDo'] = short_msg
-- 
2.43.0


From e38ed09303bd5790b25e2455ec0d8472828fe91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:04 +0000
Subject: [PATCH 104/128] fix: Convert1to2 crashed on a remnant below the root

It is logged as ToDo=remnant like other remnants without a governing conjunct.
---
 udapi/block/ud/convert1to2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index d621bac..d9df1ce 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -297,7 +297,9 @@ class Convert1to2(Block):
         if not remnants:
             return
 
-        (first_conjunct, _) = find_minimal_common_treelet(remnants[0].parent.parent, *remnants)
+        first_conjunct = root
+        if not remnants[0].parent.is_root():
+            (first_conjunct, _) = find_minimal_common_treelet(remnants[0].parent.parent, *remnants)
         if first_conjunct == root:
             self.log(remnants[0], 'remnant', "remnants' (+their grandpas') common governor is root")
             return
-- 
2.43.0


From 3df3531a2321aaa4a729524f73c7b58b6a7fc2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:04 +0000
Subject: [PATCH 105/128] fix: Convert1to2 does not move a conjunction or comma
 over its head

In conj ; head conj the semicolon was attached to the last conjunct across the head.
---
 udapi/block/ud/convert1to2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/convert1to2.py b/udapi/block/ud/convert1to2.py
index d9df1ce..ae1f37a 100644
--- a/udapi/block/ud/convert1to2.py
+++ b/udapi/block/ud/convert1to2.py
@@ -257,6 +257,8 @@ class Convert1to2(Block):
             next_conjunct = next((n for n in conjuncts if node.precedes(n)), None)
             if next_conjunct:
                 # Make sure we don't introduce non-projectivities.
+                if node.precedes(node.parent) and node.parent.precedes(next_conjunct):
+                    return
                 next_sibl = next(n for n in siblings if node.precedes(n) and n.deprel != 'cc')
                 if next_sibl != next_conjunct:
                     self.log(node, node.deprel + '-in-coord', 'it may be part of coordination')
-- 
2.43.0


From d0414a1f0dd49a06fb465a95dfa3e315fdf2785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 106/128] fix: MarkPairs same_subspan included pairs of
 continuous mentions with the same span

---
 udapi/block/corefud/markpairs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/corefud/markpairs.py b/udapi/block/corefud/markpairs.py
index cc63b38..ee7102d 100644
--- a/udapi/block/corefud/markpairs.py
+++ b/udapi/block/corefud/markpairs.py
@@ -106,7 +106,8 @@ class MarkPairs(Block):
                     continue
                 if not self._ok(sA == sB, self.same_span):
                     continue
-                if not self._ok(set(sA.split(',')).intersection(set(sB.split(','))), self.same_subspan):
+                shared_subspan = set(sA.split(',')).intersection(set(sB.split(',')))
+                if not self._ok((not cA or not cB) and shared_subspan, self.same_subspan):
                     continue
 
             if self.nested or self.crossing or self.interleaved:
-- 
2.43.0


From febc5a01070cc3c75b4e0075bbee66844716e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 107/128] fix: PrintMentions ignored print_total=0 and
 print_should=0

---
 udapi/block/corefud/printmentions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index d011f68..072c8a2 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -32,8 +32,8 @@ class PrintMentions(Block):
         if shuffle:
             random.seed(42)
         self.print_other_forms = print_other_forms
-        self.print_total = print_total,
-        self.print_should = print_should,
+        self.print_total = print_total
+        self.print_should = print_should
         print_class = TextModeTreesHtml if html else TextModeTrees
         self.print_block = print_class(
                 print_sent_id=print_sent_id, print_text=print_text, add_empty_line=add_empty_line, indent=indent,
-- 
2.43.0


From d14a0faadc1498e1737ee128073b8bd424a9f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 108/128] fix: PrintMentions left marks in mentions which are
 not printed because of max_trees

---
 udapi/block/corefud/printmentions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/corefud/printmentions.py b/udapi/block/corefud/printmentions.py
index 072c8a2..610d281 100644
--- a/udapi/block/corefud/printmentions.py
+++ b/udapi/block/corefud/printmentions.py
@@ -153,9 +153,6 @@ class PrintMentions(Block):
             if self.almost_forest != 'include' and not self._ok(self._is_forest(mention, mwords, True), self.almost_forest):
                 continue
 
-            for w in mention.words:
-                w.misc['Mark'] = 1
-
             seen_trees += 1
             if self.max_trees and seen_trees > self.max_trees:
                 if not self.print_total:
@@ -175,6 +172,8 @@ class PrintMentions(Block):
                         for form, count in counter.most_common(self.print_other_forms):
                             print(f' "{form}"({count})', end='')
                         print()
+                for w in mention.words:
+                    w.misc['Mark'] = 1
                 self.print_block.process_tree(mention.head.root)
                 for w in mention.words:
                     del w.misc['Mark']
-- 
2.43.0


From 5cdfc657bc15cce80a8a459e354ccd3730c8dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:00 +0000
Subject: [PATCH 109/128] fix: CountGaps did not see mentions which consist of
 empty nodes

---
 udapi/block/corefud/countgaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/countgaps.py b/udapi/block/corefud/countgaps.py
index fc45540..6ed9174 100644
--- a/udapi/block/corefud/countgaps.py
+++ b/udapi/block/corefud/countgaps.py
@@ -59,7 +59,7 @@ class CountGaps(Block):
                 curr_par = []
                 is_empty_par = True
 
-            has_mention = any(node.coref_mentions for node in tree.descendants)
+            has_mention = any(node.coref_mentions for node in tree.descendants_and_empty)
             if not has_mention:
                 curr_seq.append(tree.sent_id)
                 curr_par.append(tree.sent_id)
-- 
2.43.0


From 142a297315d7be5bec8dce7f703618fb78013977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:00 +0000
Subject: [PATCH 110/128] fix: CountGaps counted the last paragraph as empty
 and a paragraph before the first one

---
 udapi/block/corefud/countgaps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/countgaps.py b/udapi/block/corefud/countgaps.py
index 6ed9174..ae0a247 100644
--- a/udapi/block/corefud/countgaps.py
+++ b/udapi/block/corefud/countgaps.py
@@ -54,7 +54,7 @@ class CountGaps(Block):
                 curr_par = []
                 is_empty_par = True
             if tree.newpar:
-                if not tree.newdoc and is_empty_par:
+                if curr_par and is_empty_par:
                     empty_pars.append(curr_par)
                 curr_par = []
                 is_empty_par = True
@@ -73,7 +73,7 @@ class CountGaps(Block):
             empty_seqs.append(curr_seq)
         newdoc_seq_counter = self._count_empty_seqs(empty_seqs)
         file_counters["seq"].update(newdoc_seq_counter)
-        if curr_par:
+        if is_empty_par and curr_par:
             empty_pars.append(curr_par)
         newdoc_par_counter = self._count_empty_seqs(empty_pars)
         file_counters["par"].update(newdoc_par_counter)
-- 
2.43.0


From d68a6237ad8d6f1ba0931f03dc9a3adcc58567ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 111/128] fix: GoeswithFromText crashed on a tree without text

---
 udapi/block/ud/goeswithfromtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/goeswithfromtext.py b/udapi/block/ud/goeswithfromtext.py
index fe419fa..673a03d 100644
--- a/udapi/block/ud/goeswithfromtext.py
+++ b/udapi/block/ud/goeswithfromtext.py
@@ -50,7 +50,7 @@ class GoeswithFromText(Block):
     def process_tree(self, root):
         text = root.text
         computed = root.compute_text()
-        if text == computed:
+        if text is None or text == computed:
             return
 
         nospace_text = text.replace(' ', '')
-- 
2.43.0


From 0c897c618a9a627a6347e7886068ba137d5dd262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 112/128] fix: SetTranslation stored comments with empty lines
 or without a line end

---
 udapi/block/ud/settranslation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/ud/settranslation.py b/udapi/block/ud/settranslation.py
index 487cca0..fd55b55 100644
--- a/udapi/block/ud/settranslation.py
+++ b/udapi/block/ud/settranslation.py
@@ -31,7 +31,7 @@ class SetTranslation(Block):
         super().__init__(**kwargs)
         self.file = file
         fh = open(self.file, 'r', encoding='utf-8')
-        self.trlines = fh.readlines()
+        self.trlines = [line.rstrip('\r\n') for line in fh]
         self.nlines = len(self.trlines)
         self.iline = 0
         self.overwrite = overwrite
@@ -42,7 +42,7 @@ class SetTranslation(Block):
             self.iline += 1
             comments = []
             if tree.comment:
-                comments = tree.comment.split('\n')
+                comments = tree.comment.rstrip('\n').split('\n')
             i_tr = -1
             for i in range(len(comments)):
                 # The initial '#' character has been stripped.
@@ -54,6 +54,6 @@ class SetTranslation(Block):
                     comments[i_tr] = ' text_en = ' + translation
             else:
                 comments.append(' text_en = ' + translation)
-            tree.comment = '\n'.join(comments)
+            tree.comment = '\n'.join(comments) + '\n'
         elif self.iline == self.nlines:
             logging.warning('There are only %d translation lines but there are more input sentences.' % self.nlines)
-- 
2.43.0


From 660562c12907ce4621cf34ae137e11b357eb011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 113/128] fix: Lemmatize crashed on a word without UPOS and
 ignored Typo of words with an empty lemma

---
 udapi/block/ud/lemmatize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/lemmatize.py b/udapi/block/ud/lemmatize.py
index a234256..7df32d5 100644
--- a/udapi/block/ud/lemmatize.py
+++ b/udapi/block/ud/lemmatize.py
@@ -14,7 +14,7 @@ class Lemmatize(Block):
         For some parts of speech, we can only say that the form is the lemma if
         we have morphological features that will confirm it is the right form.
         """
-        if node.lemma == '' or node.lemma == '_' and node.form != '_' and node.feats['Typo'] != 'Yes':
+        if node.upos and (node.lemma == '' or node.lemma == '_') and node.form != '_' and node.feats['Typo'] != 'Yes':
             # Many closed classes do not inflect and have the same lemma as the form (just lowercased).
             if re.match(r'^(PUNCT|SYM|ADP|CCONJ|SCONJ|PART|INTJ|X)$', node.upos):
                 node.lemma = node.form.lower()
-- 
2.43.0


From a492c53b5c491413501166ade6cf6b7fc2f128bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 114/128] fix: mwe.Normalize wrote annotations without a type
 which it cannot read

---
 udapi/block/mwe/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/mwe/normalize.py b/udapi/block/mwe/normalize.py
index e7ebf24..1eb739e 100644
--- a/udapi/block/mwe/normalize.py
+++ b/udapi/block/mwe/normalize.py
@@ -60,7 +60,7 @@ class Normalize(Block):
             # There may be multiple MWEs this node is member of.
             annotations = []
             for m in mwes_by_nodes[n.ord]:
-                if n.ord == mwes[m]['nodes'][0]:
+                if n.ord == mwes[m]['nodes'][0] and mwes[m]['type']:
                     annotations.append("%s:%s" % (m, mwes[m]['type']))
                 else:
                     annotations.append(m)
-- 
2.43.0


From 662c7b0394f4f26e6694cd6c33bb95501b2a2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 115/128] fix: mwe.ToSubDeprels added a colon if the expression
 has no type

---
 udapi/block/mwe/tosubdeprels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/mwe/tosubdeprels.py b/udapi/block/mwe/tosubdeprels.py
index 3682c0c..beff06a 100644
--- a/udapi/block/mwe/tosubdeprels.py
+++ b/udapi/block/mwe/tosubdeprels.py
@@ -58,5 +58,5 @@ class ToSubDeprels(Block):
                 for m in mwes_by_nodes[n.ord]:
                     type = re.sub(r"\.", '', mwes[m]['type'].lower())
                     # Add the MWE type to the DEPREL if the parent is also in the same MWE.
-                    if n.parent.ord > 0 and m in mwes_by_nodes[n.parent.ord]:
+                    if type and n.parent.ord > 0 and m in mwes_by_nodes[n.parent.ord]:
                         n.deprel += ':' + type
-- 
2.43.0


From 1f92fbcdf26dbac481e6dae6a28ef0ae29745080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:08 +0000
Subject: [PATCH 116/128] fix: read.OldCorefUD merged entities a-b and ab

---
 udapi/block/read/oldcorefud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/oldcorefud.py b/udapi/block/read/oldcorefud.py
index 73e05f3..c7b5779 100644
--- a/udapi/block/read/oldcorefud.py
+++ b/udapi/block/read/oldcorefud.py
@@ -20,7 +20,7 @@ class OldCorefUD(udapi.block.read.conllu.Conllu):
         self.new2orig = {}
 
     def _fix_id(self, cid):
-        if not cid or '-' not in cid:
+        if not cid:
             return cid
         new_cid = self.orig2new.get(cid)
         if new_cid is None:
-- 
2.43.0


From 935a8c8f80da228d65c1c7298faadbfffc4d2ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:08 +0000
Subject: [PATCH 117/128] fix: write.CorefHtml closed wrong spans of crossing
 mentions

---
 udapi/block/write/corefhtml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 1d5d471..f8e4e47 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -439,10 +439,10 @@ class CorefHtml(BaseWriter):
                     else:
                         new_opened.append(subspan)
                 opened = new_opened
-                print('</span>' * (len(endings) + len(brokens)), end='')
+                print(('</span></span>' if self.rtl else '</span>') * (len(endings) + len(brokens)), end='')
                 for broken in brokens:
                     self._start_subspan(broken, True)
-                    opened.append(subspan)
+                    opened.append(broken)
 
             if not node.no_space_after:
                 print(' ', end='')
-- 
2.43.0


From 2eac96fc39315023c242c2d6de15cae214b9cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:55 +0000
Subject: [PATCH 118/128] fix: write.CorefHtml used an id of an element twice
 if its mention is crossing

---
 udapi/block/write/corefhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index f8e4e47..6933338 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -360,7 +360,7 @@ class CorefHtml(BaseWriter):
         if m.other:
             title += f'\n{m.other}'
         span_id = ''
-        if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
+        if not crossing and (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
             span_id = f'id="{_dom_esc(e.eid)}" '
         # The title should be always rendered left-to-right (e.g. "head=X", not "X=head"),
         # so for RTL languages, we need to use explicit dir="ltr" and insert a nested span with dir="rtl".
-- 
2.43.0


From c63865629b4a977d740e267c73dfd3434f07c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:55 +0000
Subject: [PATCH 119/128] fix: write.CorefHtml did not escape words

---
 udapi/block/write/corefhtml.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 6933338..1ae89b4 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -18,6 +18,7 @@ from udapi.core.coref import span_to_nodes, CorefEntity, CorefMention
 from collections import Counter
 import udapi.block.write.html
 import gzip
+import html
 import sys
 import os
 import re
@@ -283,7 +284,7 @@ class CorefHtml(BaseWriter):
         for entity in doc.coref_entities:
             print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{entity.eid}</a></td>'
                   f'<td>{len(entity.mentions)}</td>'
-                  f'<td>{self._representative_word(entity)}</td></tr>')
+                  f'<td>{_html_esc(self._representative_word(entity))}</td></tr>')
         print('</tbody></table>')
         print('</div>')
 
@@ -359,6 +360,7 @@ class CorefHtml(BaseWriter):
             title += '\ncrossing'
         if m.other:
             title += f'\n{m.other}'
+        title = _html_esc(title)
         span_id = ''
         if not crossing and (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
             span_id = f'id="{_dom_esc(e.eid)}" '
@@ -408,7 +410,7 @@ class CorefHtml(BaseWriter):
                 print('<b class="head">', end='')
             if node.is_empty():
                 print('<i class="empty">', end='')
-            print(node.form, end='')
+            print(_html_esc(node.form), end='')
             if node.is_empty():
                 print('</i>', end='')
             if is_head:
@@ -467,6 +469,10 @@ def _dom_esc(string):
         string = 'n' + string
     return re.sub(r'[^\w\d-]', '_', string)
 
+# < and & in words (and quotes in values of attributes) would be taken for tags.
+def _html_esc(string):
+    return html.escape(string) if string else string
+
 def _id(node):
     if node is None:
         return 'null'
-- 
2.43.0


From ec9da1a95666e1f34af4083a5629a9fa7f842163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:54 +0000
Subject: [PATCH 120/128] =?UTF-8?q?fix:=20ud.de.AddMwt=20split=20f=C3=BCrs?=
 =?UTF-8?q?=20to=20f=C3=BCrs=20das?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 udapi/block/ud/de/addmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/de/addmwt.py b/udapi/block/ud/de/addmwt.py
index 18778a4..b317a16 100644
--- a/udapi/block/ud/de/addmwt.py
+++ b/udapi/block/ud/de/addmwt.py
@@ -14,7 +14,7 @@ MWTS = {
     'aufs':    {'form': 'auf das', },
     'beim':    {'form': 'bei dem', },
     'durchs':  {'form': 'durch das', },
-    'fürs':    {'form': 'fürs das', },
+    'fürs':    {'form': 'für das', },
     'hinterm': {'form': 'hinter dem', },
     'hinters': {'form': 'hinter das', },
     'im':      {'form': 'in dem', },
-- 
2.43.0


From 2cf546d8008727ce8bd04aa45df5920f7c20aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:54 +0000
Subject: [PATCH 121/128] fix: ud.ca.AddMwt ignored lemmas of articles in
 plural

---
 udapi/block/ud/ca/addmwt.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/udapi/block/ud/ca/addmwt.py b/udapi/block/ud/ca/addmwt.py
index 49b79da..6d8ec61 100644
--- a/udapi/block/ud/ca/addmwt.py
+++ b/udapi/block/ud/ca/addmwt.py
@@ -20,7 +20,6 @@ MWTS = {
 
 # shared values for all entries in MWTS
 for v in MWTS.values():
-    v['lemma'] = v['form']
     v['upos'] = 'ADP DET'
     v['deprel'] = '* det'
     # The following are the default values
-- 
2.43.0


From 84254c9fdde5380f0b32a4dac3ad3958e912519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:08 +0000
Subject: [PATCH 122/128] fix: ud.es.AddMwt crashed on a contraction at the end
 of a sentence

---
 udapi/block/ud/es/addmwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/es/addmwt.py b/udapi/block/ud/es/addmwt.py
index 92f8016..7066264 100644
--- a/udapi/block/ud/es/addmwt.py
+++ b/udapi/block/ud/es/addmwt.py
@@ -99,8 +99,8 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
     # "del" = "de el", but
     # "de" is attached to "a" (as fixed), while "el" is attached to the NOUN.
     def postprocess_mwt(self, mwt):
-        if mwt.form.lower() in {'al', 'del'} and mwt.words[1].parent.precedes(mwt.words[1]):
-            head = mwt.words[1].next_node
+        head = mwt.words[1].next_node
+        if head and mwt.form.lower() in {'al', 'del'} and mwt.words[1].parent.precedes(mwt.words[1]):
             while head.upos not in {'NOUN', 'PROPN'}:
                 if head.parent.precedes(head) or head.is_root():
                     head = mwt.words[1].next_node
-- 
2.43.0


From fd2beb10fc2f1c60c52ba91ebe4b0d3725792bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:08 +0000
Subject: [PATCH 123/128] fix: ud.es.AddMwt added a feature without a value to
 verbs without VerbForm

---
 udapi/block/ud/es/addmwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/ud/es/addmwt.py b/udapi/block/ud/es/addmwt.py
index 7066264..e81302e 100644
--- a/udapi/block/ud/es/addmwt.py
+++ b/udapi/block/ud/es/addmwt.py
@@ -69,7 +69,7 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
                 'form': form[:-2] + ' ' + pron,
                 'lemma': '* ' + LEMMA[pron],
                 'upos': '* PRON',
-                'feats': 'VerbForm=%s *' % verbform,
+                'feats': 'VerbForm=%s *' % verbform if verbform else '_ *',
                 'deprel': '* iobj',
                 'main': 0,
                 'shape': 'subtree',
@@ -85,7 +85,7 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
                 'form': form[:-3] + ' ' + pron,
                 'lemma': '* él',
                 'upos': '* PRON',
-                'feats': 'VerbForm=%s *' % verbform,
+                'feats': 'VerbForm=%s *' % verbform if verbform else '_ *',
                 'deprel': '* iobj',
                 'main': 0,
                 'shape': 'subtree',
-- 
2.43.0


From 8933824f57cf1128321af0329900b08a61b32b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:08 +0000
Subject: [PATCH 124/128] fix: ud.fr.AddMwt crashed on a contraction at the end
 of a sentence

---
 udapi/block/ud/fr/addmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/fr/addmwt.py b/udapi/block/ud/fr/addmwt.py
index 948a927..370e463 100644
--- a/udapi/block/ud/fr/addmwt.py
+++ b/udapi/block/ud/fr/addmwt.py
@@ -64,7 +64,7 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
                 pass
             elif mwt.words[0].precedes(mwt.words[0].parent):
                 mwt.words[1].parent = mwt.words[0].parent
-            else:
+            elif mwt.words[1].next_node:
                 head = mwt.words[1].next_node
                 while head.upos not in {'NOUN', 'PROPN'} and not head.is_root():
                     if head.parent.precedes(head):
-- 
2.43.0


From a0b2927d219260178f7dc56b0b05d7cb778cacea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:34 +0000
Subject: [PATCH 125/128] fix: ud.cs.AddMwt crashed on a fixed contraction
 below the root

---
 udapi/block/ud/cs/addmwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/cs/addmwt.py b/udapi/block/ud/cs/addmwt.py
index 7f3a428..f0b393e 100644
--- a/udapi/block/ud/cs/addmwt.py
+++ b/udapi/block/ud/cs/addmwt.py
@@ -184,5 +184,5 @@ class AddMwt(udapi.block.ud.addmwt.AddMwt):
         return None
 
     def postprocess_mwt(self, mwt):
-        if mwt.words[0].deprel == 'fixed' and mwt.words[0].parent.parent.upos == 'VERB':
+        if mwt.words[0].deprel == 'fixed' and mwt.words[0].parent.parent and mwt.words[0].parent.parent.upos == 'VERB':
             mwt.words[1].parent = mwt.words[0].parent.parent
-- 
2.43.0


From 0b9992100027336d58e42269308eb9579f56e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:03 +0000
Subject: [PATCH 126/128] fix: ud.en.SetSpaceAfter and ud.ro.SetSpaceAfter did
 not update the text

---
 udapi/block/ud/setspaceafter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 13795cd..18e54a4 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -24,7 +24,6 @@ class SetSpaceAfter(Block):
     def process_tree(self, root):
         nodes = root.descendants
         count_of_form = collections.Counter([n.form for n in nodes])
-        self.changed = False
 
         # Undirected double quotes are ambiguous.
         # If there is an even number of quotes in a sentence, suppose they are not nested
@@ -60,6 +59,7 @@ class SetSpaceAfter(Block):
 
         if self.fix_text and self.changed:
             root.text = root.compute_text()
+        self.changed = False
 
     def mark_no_space(self, node):
         """Mark a node with SpaceAfter=No unless it is a goeswith exception."""
-- 
2.43.0


From 567a93f5072d044a25614b7022ea4e5c17dfdb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:43 +0000
Subject: [PATCH 127/128] fix: corefud.FixToValidate attached words below a top
 punctuation mark to the root with deprel parataxis

---
 udapi/block/corefud/fixtovalidate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixtovalidate.py b/udapi/block/corefud/fixtovalidate.py
index 48a3608..732cf4b 100644
--- a/udapi/block/corefud/fixtovalidate.py
+++ b/udapi/block/corefud/fixtovalidate.py
@@ -14,7 +14,7 @@ class FixToValidate(Block):
             parent = node.parent
             if node.deprel == "root" and parent is not None and not parent.is_root():
                 #print("\t".join(['Non-0-root:', node.address(), node.upos, str(node.feats), node.parent.upos, str(node.parent.feats)]))
-                if parent.upos == "PUNCT" and parent.parent is not None:
+                if parent.upos == "PUNCT" and not parent.parent.is_root():
                     node.parent = parent.parent
                 if node.upos == "CCONJ":
                     node.deprel = "cc"
-- 
2.43.0


From 88f868953e6bb4b99b499b83c3b40818a11807a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:43 +0000
Subject: [PATCH 128/128] fix: corefud.FixToValidate ignored SpaceAfter=No of
 multiword tokens and crashed on empty trees

---
 udapi/block/corefud/fixtovalidate.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/udapi/block/corefud/fixtovalidate.py b/udapi/block/corefud/fixtovalidate.py
index 732cf4b..de4dc99 100644
--- a/udapi/block/corefud/fixtovalidate.py
+++ b/udapi/block/corefud/fixtovalidate.py
@@ -27,11 +27,13 @@ class FixToValidate(Block):
 
     def _space_before_pardoc(self, doc):
         last_node = None
-        for i, tree in enumerate(doc.trees):
-            if i > 0:
-                if (tree.newdoc is not None or tree.newpar is not None) and last_node.no_space_after:
-                    del last_node.misc["SpaceAfter"]
-            last_node = tree.descendants[-1]
+        for tree in doc.trees:
+            if last_node is not None and (tree.newdoc is not None or tree.newpar is not None):
+                for token in (last_node, last_node.multiword_token):
+                    if token is not None and token.misc["SpaceAfter"] == "No":
+                        del token.misc["SpaceAfter"]
+            if tree.descendants:
+                last_node = tree.descendants[-1]
 
     def process_document(self, doc):
         self._set_root_deprel(doc)
-- 
2.43.0


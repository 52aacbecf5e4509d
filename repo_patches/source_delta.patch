From 887ad465aeffbfe9aeb58273c918bd29183bb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 01/34] fix: linked lists never share nodes with the list they
 are built from or extended with

---
 extra/lists/circular_linked_list.py |  5 +++--
 extra/lists/doubly_linked_list.py   | 10 ++++------
 extra/lists/linked_list.py          | 11 +++++------
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 58dbc76..26e6938 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -867,6 +867,8 @@ class CircularLinkedList(LinkedList):
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
         if not other.is_empty():
+            # create all nodes first, `other` could be the same as `self`
+            new_nodes = [self._basic_node(item) for item in other.to_list()]
             counter = 0
             curr_node = self._head if not self.is_empty() else None
             while counter < self._length - 1:
@@ -874,8 +876,7 @@ class CircularLinkedList(LinkedList):
                 curr_node = curr_node.get_next()
             prev_node = curr_node
             # now, let's add the new values
-            for item in other:
-                new_node = self._basic_node(item)
+            for new_node in new_nodes:
                 self._insert_node(prev_node, new_node)
                 prev_node = new_node
 
diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index b17d171..6f3f617 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -207,11 +207,6 @@ class DoublyLinkedList(LinkedList):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a DoublyLinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
-            self._tail = iterable._tail
         else:
             self._head = None
             self._tail = None
@@ -959,7 +954,8 @@ class DoublyLinkedList(LinkedList):
     def extend(self, other):
         """
         Extends the current `DoublyLinkedList()` instance by appending the
-        elements of the other `DoublyLinkedList()` instance in constant time.
+        elements of the other `DoublyLinkedList()` instance in time-complexity
+        of O(m) where **m** is the length of the other instance.
 
         Parameters
         ----------
@@ -989,6 +985,8 @@ class DoublyLinkedList(LinkedList):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
+        # copy the values, nodes must never be shared between two instances
+        other = DoublyLinkedList(other)
         if other.is_empty():
             pass  # do nothing
         elif self.is_empty():
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 8a10560..ca78a8f 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -222,10 +222,6 @@ class LinkedList(Extra):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a LinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
         else:
             self._head = None
             self._length = 0
@@ -1368,8 +1364,9 @@ class LinkedList(Extra):
     def extend(self, other):
         """
         Extends the current `LinkedList()` instance by appending the elements
-        of the other `LinkedList()` instance in time-complexity of O(n) where
-        **n** is the lengh of the current instance.
+        of the other `LinkedList()` instance in time-complexity of O(n+m) where
+        **n** is the lengh of the current instance and **m** is the length of
+        the other instance. The other instance isn't changed.
 
         Parameters
         ----------
@@ -1403,6 +1400,8 @@ class LinkedList(Extra):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
+        # copy the values, nodes must never be shared between two instances
+        other = LinkedList(other)
         if other.is_empty():
             pass  # do nothing
         elif self.is_empty():
-- 
2.43.0


From de2a2b83c21102a697909e8bfcc3ff8826a0d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 02/34] fix: removing the last element of a doubly linked list
 forgets its node

---
 extra/lists/doubly_linked_list.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 6f3f617..0ed5b7f 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1088,8 +1088,7 @@ class DoublyLinkedList(LinkedList):
         next_node = node_to_be_removed.get_next()
         # if node to be removed is the first
         if self._length == 1:
-            # NOTE: don't use set_data() here
-            self._head.data = self._tail.data = None
+            self._head = self._tail = None
             self._length -= 1
         elif self._length == 2:
             if prev_node is None:
-- 
2.43.0


From a26e7905d700c11a846254407902b6542fe8fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 03/34] fix: removing the head of a list unlinks its node
 instead of moving the next value into it

---
 extra/lists/doubly_linked_list.py | 2 ++
 extra/lists/linked_list.py        | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 0ed5b7f..24fb4ed 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1105,6 +1105,8 @@ class DoublyLinkedList(LinkedList):
                 self._length -= 1
             else:
                 super()._remove_node(prev_node, node_to_be_removed)
+                if prev_node is None:
+                    self._head.set_prev(None)
 
     def __delitem__(self, idx):
         """
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index ca78a8f..24ef454 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1531,8 +1531,7 @@ class LinkedList(Extra):
                 # NOTE: don't use set_data() here
                 self._head._data = None
             else:
-                self._head.set_next(next_node.get_next())
-                self._head.set_data(next_node.get_data())
+                self._head = next_node
         else:
             prev_node.set_next(next_node)
         self._length -= 1
-- 
2.43.0


From 8a532e1bf9f28677f163878566f8818954db668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 04/34] fix: a priority queue dequeues by the priorities it
 currently stores

---
 extra/lists/priority_queue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index 62d1b94..ffb9cce 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -476,6 +476,9 @@ class PriorityQueue(Queue):
             )
             return
         else:
+            # items could have been dropped since the last update
+            self._update_min_priority()
+            self._update_max_priority()
             curr_node = self._container._head
             while curr_node is not None:
                 if lowest_priority:
-- 
2.43.0


From 3d87461ab99b86476cb07cb32771a58a6d78bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 05/34] fix: honour the seed given to a priority queue

---
 extra/lists/priority_queue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index ffb9cce..e65c161 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -191,6 +191,8 @@ class PriorityQueue(Queue):
         11
         """
         super().__init__(max_capacity)
+        if seed is not None:
+            random.seed(seed)
         self._min_priority = float("inf")
         self._max_priority = float("-inf")
 
-- 
2.43.0


From 2ad40781cc2f49581265405a19f15a92e437652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 06/34] fix: a full queue or deque drops nothing when the new
 node cannot be created

---
 extra/lists/deque.py | 5 ++++-
 extra/lists/queue.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/extra/lists/deque.py b/extra/lists/deque.py
index f8ad229..59cbbc7 100644
--- a/extra/lists/deque.py
+++ b/extra/lists/deque.py
@@ -5,6 +5,7 @@ queue. Deque is a short for "double-ended queue". The deque is more general
 than both the stack and the queue.
 """
 import warnings
+from extra.lists.doubly_linked_list import DoublyNode
 from extra.lists.queue import Queue
 
 
@@ -243,6 +244,8 @@ class Deque(Queue):
         ─┴───┴───┴─
         """
         super()._validate_item(item)
+        # create the node first, so nothing is lost if this fails
+        node = DoublyNode(item)
         if self.is_full():
             warnings.warn(
                 f"Enqueuing to a full `{self.__name__}` "
@@ -251,7 +254,7 @@ class Deque(Queue):
             )
             self._container.remove_front()
         if self._max_capacity > 0:
-            self._container._insert(len(self), item)
+            self._container._insert(len(self), node)
 
     # =============================      GET     ==============================
     def get_left(self):
diff --git a/extra/lists/queue.py b/extra/lists/queue.py
index 5d6e1f5..705478f 100644
--- a/extra/lists/queue.py
+++ b/extra/lists/queue.py
@@ -8,7 +8,7 @@ from the front.
 """
 import warnings
 from extra.interface import Extra
-from extra.lists.doubly_linked_list import DoublyLinkedList
+from extra.lists.doubly_linked_list import DoublyLinkedList, DoublyNode
 
 
 class Queue(Extra):
@@ -258,6 +258,9 @@ class Queue(Extra):
         ─┴───┴───┴─
         """
         assert item is not None
+        # create the node first, so nothing is lost if this fails
+        if not isinstance(item, DoublyNode):
+            item = DoublyNode(item)
         if self.is_full():
             warnings.warn(
                 f"Enqueuing to a full `{self.__name__}` "
-- 
2.43.0


From bc4819d68f19f9062ea6303cb00f3b42a1238f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 07/34] fix: slicing a linked list follows the sign of the step

---
 extra/lists/linked_list.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 24ef454..19f565e 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1107,20 +1107,12 @@ class LinkedList(Extra):
         # sanity check over given index
         self._validate_index(idx, accept_negative=True, accept_slice=True)
         if isinstance(idx, slice):
-            indices = range(*idx.indices(self._length))
-            max_idx = indices[-1] if indices else -1
-            indices = set(indices)
-            # start getting wanted nodes
-            counter = 0
+            # start getting wanted nodes (the step could be negative)
+            values = self.to_list()
             prev_node = None
-            curr_node = self._head
             out_llist = self._create_instance()
-            while counter <= max_idx:
-                if counter in indices:
-                    prev_node = out_llist._insert_value(prev_node,
-                                                        curr_node.get_data())
-                curr_node = curr_node.get_next()
-                counter += 1
+            for i in range(*idx.indices(self._length)):
+                prev_node = out_llist._insert_value(prev_node, values[i])
             return out_llist
         else:
             if idx == self._length:
-- 
2.43.0


From aebf17406b5a33cd5e8af7dff4ea6d342de17f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 08/34] fix: setting an item of a circular list validates the
 item and refuses an empty list

---
 extra/lists/circular_linked_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 26e6938..497f90b 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -933,6 +933,9 @@ class CircularLinkedList(LinkedList):
            └──────────────────┘
         """
         self._validate_index(idx)
+        super()._validate_item(item)
+        if self.is_empty():
+            raise IndexError(f"{self.__name__} is empty!!")
         idx = idx % self._length if self._length != 0 else 0
         super()._replace_value(idx, item)
 
-- 
2.43.0


From 46506af1836323ff3df0c7f450529066cb746862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 09/34] fix: a skip list built from a skip list doesn't share
 its levels

---
 extra/lists/skip_list.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 4c7fc26..889f7b7 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -295,9 +295,6 @@ class SkipList(Extra):
             self._num_levels = 1
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            self._level_lists = iterable._level_lists
-            self._num_levels = iterable._num_levels
         else:
             ll = LinkedList()
             ll._insert_node(ll._head, self._basic_node(float("-inf")))
-- 
2.43.0


From e3cdb0ada68d868a6c93e3aee90ccced962de82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 10/34] fix: the heads of a skip list's levels can't be found
 or removed

---
 extra/lists/skip_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 889f7b7..8566ff5 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -743,6 +743,8 @@ class SkipList(Extra):
         if type(value) not in {int, float}:
             return False
         self._validate_item(value)
+        if value == float("-inf"):
+            return False  # it's only the head of each level
         _, found_node, _ = self._search(value)
         return found_node.get_data() == value
 
@@ -976,7 +978,7 @@ class SkipList(Extra):
         In the previuos example, the top level was deleted when we removed `4`
         since it was empty after removal.
         """
-        if type(value) not in {int, float}:
+        if type(value) not in {int, float} or value == float("-inf"):
             return
         # search for that value
         prev_node, found_node, last_accessed_nodes = self._search(value)
-- 
2.43.0


From 6812183fe2274d14eddb642c26a968326493203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 11/34] fix: a failed promotion leaves no empty level in a skip
 list

---
 extra/lists/skip_list.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 8566ff5..b2dda07 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -824,7 +824,7 @@ class SkipList(Extra):
         self._num_levels += 1
         return new_llist
 
-    def _promote(self, upper_prev_node, curr_node, curr_level):
+    def _promote(self, upper_prev_node, upper_node, curr_node, curr_level):
         """
         Promotes a node to the higher level. Promoting is done by copying the
         node from (i)th level to the (i+1)th level.
@@ -833,6 +833,8 @@ class SkipList(Extra):
         ----------
         upper_prev_node: SkipNode()
             The tail of the `LinkedList()` object in the above level.
+        upper_node: SkipNode()
+            A new node with the same data as the node to be promoted.
         curr_node: SkipNode()
             The node to be promoted.
         curr_level: int
@@ -847,8 +849,6 @@ class SkipList(Extra):
         assert isinstance(curr_node, self._basic_node)
         assert curr_level < self._num_levels
 
-        # create new node with the same data as curr_data
-        upper_node = self._basic_node(curr_node.get_data())
         # connect the upper list to the new node
         upper_node = self._level_lists[curr_level + 1]._insert_node(
             upper_prev_node, upper_node
@@ -909,13 +909,17 @@ class SkipList(Extra):
         # promote the new_node if flipping the coin results `Head`
         curr_level = 0
         while flip_coin() == "head":
+            # create the node first, no level stays empty if this fails
+            upper_node = self._basic_node(value)
             if curr_level >= self._num_levels - 1:
                 top_list = self._add_extra_level()
                 upper_prev_node = top_list._head
             else:
                 upper_prev_node = last_accessed_nodes[curr_level]
             # promote new_node
-            curr_node = self._promote(upper_prev_node, curr_node, curr_level)
+            curr_node = self._promote(
+                upper_prev_node, upper_node, curr_node, curr_level
+            )
             curr_level += 1
 
     # =============================    REMOVE    ==============================
-- 
2.43.0


From a2aee3dbbfe94660b523c2d6bef3a0553ff22b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 12/34] fix: removing from a BST keeps the order when the
 replacement has a subtree

---
 extra/trees/bst.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index fe6c3e8..b02d0e9 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -891,12 +891,8 @@ class BST(BinaryTree):
             else:
                 parent.set_right(replacement)
         else:
-            if replacement.is_leaf():
-                new_replacement = None
-            elif replacement.get_left():
-                new_replacement = replacement.get_left()
-            else:
-                new_replacement = replacement.get_right()
+            # the neighbor (in-order) of `replacement` within its subtree
+            new_replacement = self._find_replacement(replacement)
             # swap data
             self._basic_node.swap(node, replacement)
             self._transplant(replacement, new_replacement)
-- 
2.43.0


From 657241e488999028a5a1ceb765040d3be29fa6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 13/34] fix: an AVL tree rotates the outer grandchild when both
 are equally high

---
 extra/trees/avl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/trees/avl.py b/extra/trees/avl.py
index cb09a88..00fa6ca 100644
--- a/extra/trees/avl.py
+++ b/extra/trees/avl.py
@@ -747,7 +747,10 @@ class AVL(BST):
             else grand_parent.get_right()
         )
         # get the heavy child
+        # when both are equal, get the outer one
         left_height, right_height = parent.get_children_heights()
+        if parent.is_left_child():
+            left_height += 1
         node = (
             parent.get_left()
             if left_height > right_height else parent.get_right()
-- 
2.43.0


From 8170d6c3a4b9959f19ca506b854f00d15bb77fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 14/34] fix: inserting an existing value recolors nothing in a
 red-black tree

---
 extra/trees/red_black_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index dab6e8f..5403952 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -577,7 +577,10 @@ class RedBlackTree(BST):
             self._length += 1
         else:
             # insert new node
+            length_before = self._length
             new_node = super()._insert(value)
+            if self._length == length_before:
+                return  # the value already exists
             # recolor starting from new_node till root
             self._root = self.__recolor(new_node)
             # root is always black (isn't essential tho!!)
-- 
2.43.0


From b3835ffd547e9466da5b0d05a5d54bfb4c3773af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:40 +0000
Subject: [PATCH 15/34] fix: recoloring stops once the rotated subtree of a
 red-black tree is black

---
 extra/trees/red_black_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 5403952..1eaedc4 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -512,8 +512,8 @@ class RedBlackTree(BST):
         if parent is None or grandparent is None:
             return parent if parent else start_node
 
-        # case I
-        if parent.get_color() == Color.BLACK:
+        # case I (start_node can be black after case III)
+        if Color.BLACK in (start_node.get_color(), parent.get_color()):
             # do nothing
             # print("Case I")
             return self._root
-- 
2.43.0


From 7a72cae167153fa1882515631ea131bc3e52ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 16/34] fix: removing from a red-black tree keeps its order and
 its black heights

---
 extra/trees/red_black_tree.py | 69 ++++++++---------------------------
 1 file changed, 16 insertions(+), 53 deletions(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 1eaedc4..eaf1707 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -730,6 +730,7 @@ class RedBlackTree(BST):
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_right_color == Color.BLACK:
@@ -772,10 +773,11 @@ class RedBlackTree(BST):
                     s_right_child.get_color() if s_right_child else Color.BLACK
                 )
                 # Case III
-                if (s_right_color == Color.BLACK
+                if (s_left_color == Color.BLACK
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_left_color == Color.BLACK:
@@ -793,8 +795,8 @@ class RedBlackTree(BST):
                     parent = super()._rotate_right(parent)
                     super()._attach(grandparent, parent)
                     double_black_node = self._root
-        # make sure root is always black
-        self._root.set_color(Color.BLACK)
+        # either the root or a red node which absorbs the double black
+        double_black_node.set_color(Color.BLACK)
 
     def remove(self, del_value):
         """
@@ -869,56 +871,17 @@ class RedBlackTree(BST):
             return
         # find replacement
         replacement = self._find_replacement(removed_node)
-        # print("replacement:", replacement)
-
-        # Case I (replace red-node with red-node/None)
-        if removed_node.get_color() == Color.RED and (
-            replacement is None or replacement.get_color() == Color.RED
-        ):
-            # print("Case I (replace red-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
-
-        # Case II (replace red-node with black-node)
-        elif (
-            removed_node.get_color() == Color.RED
-            and replacement.get_color() == Color.BLACK
-        ):
-            # print("Case II (replace red-node with black-node)")
-            raise ValueError("Debug this, this case shouldn't occur!!")
-
-        # Case III (replace black-node with black-node)
-        elif removed_node.get_color() == Color.BLACK and (
-            replacement is None or replacement.get_color() == Color.BLACK
-        ):
-            # print("Case III (double black-node)")
-            if replacement:
-                parent = replacement.get_parent()
-            else:
-                parent = removed_node.get_parent()
-            # do the transplant
-            super()._transplant(removed_node, replacement)
-            # get double black node
-            if replacement is None:
-                if parent.get_left() is None:
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
-            else:
-                if replacement.get_data() < parent.get_data():
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
-            # handle this double black
-            self.__handle_double_black(parent, double_black_node)
-
-        # Case IV (replace black-node with red-node/None)
-        elif (
-            removed_node.get_color() == Color.BLACK
-            and replacement.get_color() == Color.RED
-        ):
-            replacement.set_color(Color.BLACK)
-            # print("Case IV (replace black-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
+        # move the value down (without the colors) till reaching a leaf
+        while replacement is not None:
+            BSTNode.swap(removed_node, replacement)
+            removed_node = replacement
+            replacement = self._find_replacement(removed_node)
+        # remove the leaf
+        parent = removed_node.get_parent()
+        super()._transplant(removed_node, None)
+        # a removed black leaf leaves a double black behind
+        if removed_node.get_color() == Color.BLACK:
+            self.__handle_double_black(parent, None)
         # decrease the length
         self._length -= 1
 
-- 
2.43.0


From 78022a12ef4e250030ed6372059021634434d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:14 +0000
Subject: [PATCH 17/34] fix: searching an empty splay tree or for a non-number
 answers False

---
 extra/trees/splay_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/splay_tree.py b/extra/trees/splay_tree.py
index 87ef649..0762156 100644
--- a/extra/trees/splay_tree.py
+++ b/extra/trees/splay_tree.py
@@ -390,7 +390,8 @@ class SplayTree(BST):
         which is the greatest value (`6`) in the splay tree is moved to the
         root.
         """
-        super()._validate_item(find_val)
+        if self.is_empty() or type(find_val) not in {int, float}:
+            return False
         node = super()._search(find_val, self._root)
         self._splay(node)
         return node.get_data() == find_val
-- 
2.43.0


From 5fd204cc46d2bd790069258185c2b0eee929d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 18/34] fix: removing from a treap works with priorities below
 zero

---
 extra/trees/treap.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/extra/trees/treap.py b/extra/trees/treap.py
index 6c1fff2..a14173d 100644
--- a/extra/trees/treap.py
+++ b/extra/trees/treap.py
@@ -556,17 +556,14 @@ class Treap(BST):
             # rotate till removed_node is leaf
             parent = removed_node.get_parent()
             while not removed_node.is_leaf():
-                # get children's priority
+                # get children
                 left_child = removed_node.get_left()
                 right_child = removed_node.get_right()
-                left_priority = left_child.get_priority() if left_child else -1
-                right_priority = (
-                    right_child.get_priority()
-                    if right_child
-                    else -1
-                )
                 # perform rotation
-                if left_priority > right_priority:
+                if right_child is None or (
+                    left_child is not None
+                    and left_child.get_priority() > right_child.get_priority()
+                ):
                     removed_node = super()._rotate_right(removed_node)
                     super()._attach(parent, removed_node)
                     parent = removed_node
-- 
2.43.0


From f78f27a6b2e58bda2ac45eef169e850c83f317e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 19/34] fix: a treap without a seed doesn't reseed the random
 module

---
 extra/trees/treap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/treap.py b/extra/trees/treap.py
index a14173d..d8d756a 100644
--- a/extra/trees/treap.py
+++ b/extra/trees/treap.py
@@ -245,7 +245,8 @@ class Treap(BST):
         >>> treap_2 = Treap([1, treap_1])
         TypeError: Can't create `extra.Treap()` using `extra.Treap()`!!
         """
-        random.seed(seed)
+        if seed is not None:
+            random.seed(seed)
         super().__init__(iterable)
 
     # =============================    LENGTH    ==============================
-- 
2.43.0


From 055ca1c1200a8a1aae671ad8e05b022aeea6748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 20/34] fix: an empty heap can be iterated

---
 extra/trees/_heap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index f1b122d..032b808 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -364,6 +364,8 @@ class Heap(ABC, Extra):
         generator:
             The value of each node in the instance.
         """
+        if self.is_empty():
+            return
         btree = self._transform()
         for node in btree:
             yield node
-- 
2.43.0


From 907273d15903fa8777bfdbb58cd0b2e83c3a65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:25 +0000
Subject: [PATCH 21/34] fix: the list of a heap's values is a copy

---
 extra/trees/_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index 032b808..fc08d2f 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -380,7 +380,7 @@ class Heap(ABC, Extra):
         list:
             A `list` object containing the same elements as the heap instance.
         """
-        return self._heap
+        return self._heap[:]
 
     # =============================    CLEAR     ==============================
     def clear(self):
-- 
2.43.0


From 8f9001a771ad7aecab3dcdc6c3944ad2828505dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 22/34] fix: removing from the middle of a heap keeps the heap
 order

---
 extra/trees/_heap.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index fc08d2f..de0cc91 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -229,7 +229,21 @@ class Heap(ABC, Extra):
         # add the new value
         self._heap.append(value)
         # swap between parents when needed
-        idx = len(self._heap) - 1
+        self.__bubble_up(len(self._heap) - 1, is_min_heap)
+
+    def __bubble_up(self, idx, is_min_heap):
+        """
+        A private method to swap the value at the given index with its parents
+        till the heap-order property is satisfied.
+
+        Parameters
+        ----------
+        idx: int
+            The Index of the value.
+        is_min_heap: bool
+            A flag to tell if the heap instance is MinHeap or MaxHeap. `True`
+            shows that the instance is `MinHeap()` and `False` for `MaxHeap()`.
+        """
         while idx != 0:
             parent_idx = (idx - 1) // 2
             current = self._heap[idx]
@@ -352,6 +366,9 @@ class Heap(ABC, Extra):
         self.__rebalance(del_idx, is_min_heap)
         # remove the (+/-)inf
         self._heap.pop()
+        # the value which took the place may belong above its new parents
+        if del_idx < len(self._heap):
+            self.__bubble_up(del_idx, is_min_heap)
 
     # =============================     ITER     ==============================
     def __iter__(self):
-- 
2.43.0


From 9819a4d78f5c082771ee24b180de170e9ff77fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 23/34] fix: a trie doesn't take a closing brace for a stored
 character

---
 extra/trees/trie.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 66400c5..f35ba9f 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -530,8 +530,9 @@ class Trie(Tree):
         while word:
             ch = word[0]
             child = curr_node.get_child(ch)
-            child_data = child.get_data() if child else "}"
-            # '}' is used to break the following if-condition
+            if child is None:
+                break
+            child_data = child.get_data()
             if child_data == word[: len(child_data)]:
                 word = word[len(child_data):]
                 curr_node = child
-- 
2.43.0


From 16759ca89152fa93f5b89f810cb8fe273a6ffec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:23 +0000
Subject: [PATCH 24/34] fix: removing the last word of a trie stops at its root

---
 extra/trees/trie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index f35ba9f..47cc2d3 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -720,7 +720,8 @@ class Trie(Tree):
         if remaining_word == "":  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
-            while not curr_node._is_word and curr_node.is_leaf():
+            while (curr_node is not self._root
+                    and not curr_node._is_word and curr_node.is_leaf()):
                 ch = curr_node.get_data()[0]
                 parent = curr_node.get_parent()
                 del parent._children[ch]
-- 
2.43.0


From b178b79beb8a0106e0cae3216d6e33eb799e6fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 25/34] fix: a failed insertion leaves no part of the word in a
 trie

---
 extra/trees/trie.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 47cc2d3..b136b27 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -663,8 +663,9 @@ class Trie(Tree):
         self._validate_item(word, accept_empty_string=False)
         last_node, remaining_word = self._follow_path(word)
         curr_node = last_node
-        for ch in remaining_word:
-            child = TrieNode(ch)
+        # create all nodes before connecting any of them
+        new_nodes = [TrieNode(ch) for ch in remaining_word]
+        for ch, child in zip(remaining_word, new_nodes):
             curr_node.set_child(ch, child)
             self._nodes_count += 1
             curr_node = child
-- 
2.43.0


From 105603ea4de20e1f079b0782f948941ee4df14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 26/34] fix: a failed insertion splits no edge of a radix trie

---
 extra/trees/radix_trie.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/extra/trees/radix_trie.py b/extra/trees/radix_trie.py
index 93e5541..bd0b4c1 100644
--- a/extra/trees/radix_trie.py
+++ b/extra/trees/radix_trie.py
@@ -439,14 +439,22 @@ class RadixTrie(Trie):
                 self._nodes_count += 1
             # child is prefix of the remaining_word
             elif idx <= len(remaining_word) and idx != len(child_data):
-                # split child
+                # create all nodes before splitting child
                 new_node = TrieNode(child_data[:idx])
+                remaining_word = remaining_word[idx:]
+                leaf = TrieNode(remaining_word) if remaining_word else None
+                # split child
                 child._data = child_data[idx:]
                 new_node.set_child(child_data[idx], child)
                 # connect new_node to curr_node
                 curr_node.set_child(child_data[0], new_node)
-                remaining_word = remaining_word[idx:]
                 self._nodes_count += 1
+                # connect the rest of the word to new_node
+                if leaf is not None:
+                    new_node.set_child(remaining_word[0], leaf)
+                    new_node = leaf
+                    remaining_word = ""
+                    self._nodes_count += 1
             curr_node = new_node
         # mark current node as a word
         curr_node._is_word = True
-- 
2.43.0


From 6d7b4c39b127dc59ba78ddb2fc59d70d9d532458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 27/34] fix: searching an empty tree finds nothing

---
 extra/trees/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 89cea00..fdbb256 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -1013,7 +1013,7 @@ class Tree(Extra):
         >>> t._search(50)
         None
         """
-        queue = [self._root]
+        queue = [] if self.is_empty() else [self._root]
         while queue:
             curr_node = queue.pop()
             if curr_node.get_data() == value:
-- 
2.43.0


From a05e35b5ca29392d18f6caa0564c053de7566e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 28/34] fix: a directory tree fails on what it can't examine
 instead of dropping it

---
 extra/trees/tree.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index fdbb256..678be64 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -47,6 +47,8 @@ Now, let's try to use the previous tree to explain a few terms:
     tree node and the root. So, the depth of the tree's root is always 0.
 """
 import os
+import stat
+import errno
 from extra.interface import Extra
 
 
@@ -358,7 +360,15 @@ class Tree(Extra):
 
         node = TreeNode(curr_folder)
         abs_path = os.path.join(parent_abs_path, curr_folder)
-        if os.path.isdir(abs_path):
+        try:
+            is_folder = stat.S_ISDIR(os.stat(abs_path).st_mode)
+        except OSError as e:
+            # a dangling or circular link is a leaf, but a folder that can't
+            # be examined must not pass for one
+            if e.errno not in (errno.ENOENT, errno.ELOOP):
+                raise
+            is_folder = False
+        if is_folder:
             for child in sorted(os.listdir(abs_path)):
                 node.set_child(Tree.__form_tree_from_path(abs_path, child))
         return node
-- 
2.43.0


From 5bd25614bf69760d587e172c5d6781fc7c57e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:54 +0000
Subject: [PATCH 29/34] fix: the longest common substrings come in the same
 order in every process

---
 extra/trees/suffix_trie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index cb0f21d..759e1f5 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -530,12 +530,12 @@ class SuffixTrie(Extra):
         """
         if self._rt.is_empty():
             return []
-        lcs_set = set()
+        lcs_set = {}  # a dictionary keeps the order, a set doesn't
         longest_length = 0
         for node in self.__get_deepest_nodes():
             lcs = self._get_ancestors_data(node)
             longest_length = max(longest_length, len(lcs))
-            lcs_set.add(lcs)
+            lcs_set[lcs] = True
         # return the longest ones
         return [substr for substr in lcs_set if len(substr) == longest_length]
 
-- 
2.43.0


From c23664c72f738f6ed04b099e70e2066499d09169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:06 +0000
Subject: [PATCH 30/34] fix: LinkedList > answered by the length of the wrong
 list

---
 extra/lists/linked_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 19f565e..fb97c04 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -814,7 +814,7 @@ class LinkedList(Extra):
         if all_equal:
             return True if self._length > other._length else False
         else:
-            return True if idx == self._length else False
+            return True if idx == other._length else False
 
     def __ge__(self, other):
         """
-- 
2.43.0


From 8854156c5f590d3b97ef246a09bc76bf994cfa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 31/34] fix: the longest repeated substring was looked for in
 the deepest levels only

---
 extra/trees/suffix_trie.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index 759e1f5..14d36da 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -424,25 +424,22 @@ class SuffixTrie(Extra):
     # =============================    LCS/LRS   ==============================
     def __get_deepest_nodes(self):
         """
-        Returns a list of the trie nodes found in the deepest one or two levels
-        of the `SuffixTrie()` instance. It returns a list of the deepest two
-        level only if the height of the SuffixTrie exceeds 2. Other than that,
-        it returns a list of the deepest level.
+        Returns a list of the trie nodes of the `SuffixTrie()` instance, the
+        deepest level first. The longest repeated substring isn't always in
+        the deepest levels; a shallow node can have long edges above it.
 
         Returns
         -------
         list:
-            A list of the deepest `TrieNode()` objects found in the
-            `SuffixTrie()` instanece.
+            A list of the `TrieNode()` objects found in the `SuffixTrie()`
+            instance starting with the deepest ones.
         """
         if self._rt.is_empty():
             return self._rt._root
         level_nodes = (
             self._rt._get_nodes_per_level(self._rt._root, 0, [], False)
         )
-        if len(level_nodes) > 2:
-            return level_nodes[-1] + level_nodes[-2]
-        return level_nodes[-1]
+        return [node for level in reversed(level_nodes) for node in level]
 
     def _get_ancestors_data(self, node):
         """
-- 
2.43.0


From 498e1e94ae461ce4529cfb44e8fcf07e69bf27be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:55 +0000
Subject: [PATCH 32/34] fix: get_lowest_common_ancestor rejected the empty
 suffix as its first index

---
 extra/trees/suffix_trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index 14d36da..f544620 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -620,7 +620,7 @@ class SuffixTrie(Extra):
             raise TypeError("`i` and `j` should be integer values!!")
         elif i < 0 or j < 0:
             raise ValueError("`i` and `j` should be postive integer values!!")
-        elif i >= len(self._word) or j > len(self._word):
+        elif i > len(self._word) or j > len(self._word):
             raise ValueError(
                 f"`i` and `j` values can't exceed {len(self._word)} "
                 + f"since it is the length of given word: `{self._word}`!!"
-- 
2.43.0


From 8b75c86138c38030722b70dd87d1b25ac06ce0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:05 +0000
Subject: [PATCH 33/34] fix: a dangling link through a file is a leaf for
 Tree.from_path

---
 extra/trees/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 678be64..b45d647 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -365,7 +365,7 @@ class Tree(Extra):
         except OSError as e:
             # a dangling or circular link is a leaf, but a folder that can't
             # be examined must not pass for one
-            if e.errno not in (errno.ENOENT, errno.ELOOP):
+            if e.errno not in (errno.ENOENT, errno.ENOTDIR, errno.ELOOP):
                 raise
             is_folder = False
         if is_folder:
-- 
2.43.0


From 7f6c414358430f1ea29e40a54971061af683ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:39 +0000
Subject: [PATCH 34/34] fix: BinaryTree.is_balanced() for a root with a single
 child

---
 extra/trees/binary_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/trees/binary_tree.py b/extra/trees/binary_tree.py
index 71e16fb..a071f71 100644
--- a/extra/trees/binary_tree.py
+++ b/extra/trees/binary_tree.py
@@ -745,12 +745,12 @@ class BinaryTree(Tree):
         left_depth = (
             0
             if self._root.get_left() is None
-            else 1 + super()._get_depth(self._root.get_left())
+            else 1 + super()._get_height(self._root.get_left())
         )
         right_depth = (
             0
             if self._root.get_right() is None
-            else 1 + super()._get_depth(self._root.get_right())
+            else 1 + super()._get_height(self._root.get_right())
         )
         return abs(left_depth - right_depth) <= 1
 
-- 
2.43.0


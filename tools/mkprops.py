"""Writes /verif/properties.jsonl (kept in one place so ids, statements and anchors stay in step)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "extra/lists/"
T = "extra/trees/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": observe, "hook_needed": None},
    })


prop("C01", "Linear linked lists behave like a plain sequence under any history",
     "After any interleaved history of operations by several clients on any number of LinkedList and DoublyLinkedList objects, including operations that failed along the way, each list holds exactly the sequence a plain Python list would hold. "
     "Every operation (insert/add/extend/set/delete/remove first or all/clear/index/slice/contains/count/split/rotate/reverse/copy/equality) returns the value or raises the documented error that the plain sequence prescribes, and iteration, length, emptiness, indexing, to_list and the printed form always agree with one another.",
     ["histories", "inputs", "fault_sequences"],
     "Every history of list operations over several lists that feed one another (copy, split, extend, conversion), every element type, index and slice, with rejected arguments and sources that fail mid-stream in between.",
     "The tests run one short fixed script per method on freshly built lists; the link surgery only goes wrong after particular predecessor operations (delete at length 1 or 2, rotate then append, extend then delete).",
     [L + "linked_list.py", L + "doubly_linked_list.py"],
     [("head/prev relinking on insert and delete", L + "linked_list.py:_insert_node,_remove_node,_remove_value"),
      ("tail maintenance", L + "doubly_linked_list.py:_insert_node,_remove_node,extend,rotate_left,rotate_right"),
      ("bidirectional seek", L + "doubly_linked_list.py:_get_node")],
     ["to_list()", "iter()", "len()", "indexing", "str()", "return values and exceptions of every public method"],
     [("_head/_tail/_length", "the chain of nodes and its claimed size", L + "doubly_linked_list.py")])

prop("C02", "Circular lists behave like a sequence with modular indices under any history",
     "After any interleaved history of operations by several clients on CircularLinkedList objects, including failed operations, each list holds exactly the sequence a plain list with modular non-negative indices would hold, and each operation returns or raises what that sequence prescribes. "
     "The chain stays closed on itself: traversal, printing, searching, rotation, extension (also with itself) and emptying always terminate and agree with the list's length.",
     ["histories", "inputs", "fault_sequences"],
     "Every history of circular-list operations with indices of any size, self-extension included, with rejected arguments and failing sources in between.",
     "Tests exercise each method once on small lists; closing the ring after head insertion, removal at length 1 and self-extension depend on what happened before, and a broken ring shows as a hang rather than a wrong value.",
     [L + "circular_linked_list.py", L + "linked_list.py"],
     [("ring maintenance by data swap at the head", L + "circular_linked_list.py:_insert_node,_remove_node"),
      ("modular indexing", L + "circular_linked_list.py:__getitem__,insert,__setitem__,__delitem__,split")],
     ["to_list()", "iter()", "len()", "indexing modulo length", "str()", "termination"])

prop("C03", "A container derived from another is independent of its source",
     "Whatever is obtained from a container - a copy, reversal, slice, split half, out-of-place rotation, a list built from another list or any iterable, a list extended with another (or itself), a skip list built from a skip list, a heap built by heapify, a tree built from any iterable, or any list returned by a query - shares no mutable state with its source. "
     "However clients then interleave further updates to source and result, each keeps exactly the contents its own history gives it.",
     ["histories", "schedules"],
     "Every pair of source and derived container and every interleaving of later updates to both.",
     "Tests check the derived value once, right after deriving it, and never keep mutating both sides in turn; aliasing of nodes is invisible until one side's later update leaks into the other.",
     [L + "linked_list.py", L + "doubly_linked_list.py", L + "circular_linked_list.py", L + "skip_list.py", T + "_heap.py", T + "tree.py", T + "binary_tree.py", T + "trie.py"],
     [("constructors from iterables", L + "linked_list.py:__init__"), ("extend", L + "linked_list.py:extend"),
      ("copy/split/slice/reverse/rotate", L + "linked_list.py"), ("query results are fresh lists", T + "_heap.py:to_list")],
     ["contents of both containers after every update to either"])

prop("C04", "A stack is a bounded LIFO under any history",
     "After any interleaved history of pushes, pops, peeks and clears by several clients, including pushes rejected because the stack is full or the item is invalid, a Stack holds exactly the accepted items not yet popped, and pop and peek give the most recently accepted one. "
     "It never holds more than its (rounded) capacity, a push into a full stack raises OverflowError, and popping an empty stack warns and returns nothing; none of these changes the contents.",
     ["histories", "inputs", "configurations"],
     "Every history of stack operations, every capacity (zero, fractional and infinite included), warnings recorded or escalated to errors.",
     "Tests push and pop a handful of items at one or two capacities; the bound and the order must survive any interleaving of overflow, underflow, clear and refill.",
     [L + "stack.py"], [("capacity guard", L + "stack.py:push,is_full"), ("clear keeps capacity", L + "stack.py:clear")],
     ["pop()", "peek()", "len()", "is_full()", "str()"])

prop("C05", "A queue is a bounded FIFO that drops the oldest item on overflow",
     "After any interleaved history of enqueues, dequeues and clears by several clients, including rejected ones, a Queue holds exactly the accepted items not yet dequeued or dropped, in arrival order, and top and dequeue give the oldest of them. "
     "It never holds more than its (rounded) capacity: enqueuing into a full queue warns and drops exactly the oldest item (a zero-capacity queue stores nothing), dequeuing an empty queue warns and returns nothing, and the printed form shows exactly the current contents.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "Every history of queue operations, every capacity, warnings recorded or escalated to errors at any operation.",
     "Tests drain one small queue; the overflow-then-drain-then-refill paths go through the list's length-1 and length-2 special cases that only certain histories reach.",
     [L + "queue.py", L + "doubly_linked_list.py"],
     [("overflow eviction", L + "queue.py:_enqueue"), ("tail removal", L + "doubly_linked_list.py:_remove_node")],
     ["dequeue()", "top()", "len()", "is_full()", "str()"])

prop("C06", "A deque serves both ends and drops from the far end on overflow",
     "After any interleaved history of appends and pops at either end and clears by several clients, including rejected ones, a Deque holds exactly the accepted items not yet popped or dropped in left-to-right order, and get/pop on each side act on that side's item. "
     "It never exceeds its (rounded) capacity: appending to a full deque warns and drops exactly the item at the opposite end, popping an empty deque warns and returns nothing, and the printed form shows exactly the current contents.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "Every history of operations on both ends, every capacity, warnings recorded or escalated.",
     "Tests use a few appends per side; mixing both ends around emptiness and fullness is where head/tail maintenance breaks.",
     [L + "deque.py", L + "queue.py", L + "doubly_linked_list.py"],
     [("two-sided append with eviction", L + "deque.py:append_left,append_right"), ("two-sided pop", L + "deque.py:pop_left,pop_right")],
     ["pop_left()", "pop_right()", "get_left()", "get_right()", "len()", "str()"])

prop("C07", "A priority queue always dequeues an extreme-priority item",
     "After any interleaved history of enqueues (explicit or randomly drawn priorities), dequeues of either extreme and clears by several clients, a PriorityQueue holds exactly the accepted (item, priority) pairs not yet dequeued or dropped, and dequeue removes and returns one whose priority is maximal (minimal when lowest_priority is asked). "
     "Each item keeps the priority it was enqueued with; enqueuing into a full queue warns and drops exactly the oldest stored item, top gives the oldest stored item, and dequeuing an empty queue warns and returns nothing.",
     ["histories", "inputs", "schedules", "fault_sequences"],
     "Every history, every priority assignment and every outcome of the random priority draw, every capacity, warnings recorded or escalated to errors.",
     "Tests dequeue from one end only over one fixed set of priorities; cached extremes and item/priority pairing go wrong only when both extremes, eviction and emptying mix.",
     [L + "priority_queue.py", L + "queue.py", L + "doubly_linked_list.py"],
     [("cached extremes", L + "priority_queue.py:_update_min_priority,_update_max_priority"), ("removal from the middle", L + "doubly_linked_list.py:_remove_node")],
     ["dequeue()", "top()", "len()", "str() with SHOW_PRIORITY"],
     [("_min_priority/_max_priority", "cached extreme priorities", L + "priority_queue.py")])

prop("C08", "A skip list is a sorted set for every sequence of coin flips",
     "For every outcome of its coin flips and every interleaved history of inserts, removals, index deletions and clears by several clients, a SkipList holds exactly the set of inserted and not removed numbers, iterates and indexes them in ascending order, and answers membership and length accordingly. "
     "Its levels stay nested: every level is an ascending subset of the level below, the printed towers match get_height(), and no empty level remains above the base.",
     ["schedules", "histories", "inputs"],
     "Every sequence of coin flips (tall towers, flat lists, adversarial runs), every history of inserts and removals.",
     "Tests insert a few numbers under one unseeded random stream; promotion and removal across levels depend jointly on coin outcomes and history.",
     [L + "skip_list.py", L + "linked_list.py"],
     [("descent remembering predecessors", L + "skip_list.py:_search"), ("promotion", L + "skip_list.py:insert,_promote,_add_extra_level"), ("level-by-level removal", L + "skip_list.py:remove,_remove_level")],
     ["to_list()", "in", "indexing", "len()", "get_height()", "str()"],
     [("_level_lists", "one linked list per level", L + "skip_list.py")])

prop("C09", "A binary search tree is a sorted set under any history",
     "After any interleaved history of inserts, removals and clears by several clients, including duplicate inserts, absent removals, rejected items and operations cut short by an allocation failure, a BST holds exactly the inserted and not removed numbers and keeps the search order at every node. "
     "Membership, length, minimum, maximum and in-order traversal answer from exactly that set, a duplicate insert or absent removal warns and changes nothing, and the tree can be emptied and refilled at any time.",
     ["histories", "inputs", "fault_sequences"],
     "Every history of updates, every int/float mix and insertion order, warnings recorded or escalated to errors.",
     "Tests remove a few chosen nodes from a few fixed trees; replacement by successor/predecessor has many shape-dependent cases that only long mixed histories produce.",
     [T + "bst.py", T + "binary_tree.py"],
     [("ordered insertion", T + "bst.py:_insert_node"), ("replacement and splice on removal", T + "bst.py:_find_replacement,_transplant,_remove")],
     ["in", "len()", "get_min()/get_max()", "inorder_traverse()", "preorder_traverse()"])

prop("C10", "An AVL tree stays a height-balanced sorted set under any history",
     "After every operation of any interleaved history of inserts, removals and clears by several clients, including duplicates, absent removals, rejected items and operations cut short by an allocation failure, an AVL tree holds exactly the inserted and not removed numbers in search order, and at every node the heights of the two subtrees differ by at most one. "
     "The height it reports is the real height of its shape.",
     ["histories", "inputs"],
     "Every history of updates and every insertion order.",
     "Tests check particular rotations on hand-made trees; rebalancing after removals with ties, and cascades up the path, depend on the whole preceding history.",
     [T + "avl.py", T + "bst.py"],
     [("rotation choice", T + "avl.py:_rebalance"), ("height bookkeeping on the path", T + "avl.py:_insert,_remove"), ("rotations", T + "bst.py:_rotate_left,_rotate_right,_rotate_left_right,_rotate_right_left")],
     ["preorder_traverse()+inorder_traverse() (shape)", "get_height()", "is_balanced()", "in", "len()"])

prop("C11", "A red-black tree keeps its colour rules and its set under any history",
     "After every operation of any interleaved history of inserts, removals and clears by several clients, including duplicates, absent removals, rejected items and operations cut short by an allocation failure, a RedBlackTree holds exactly the inserted and not removed numbers in search order; its root is black, no red node has a red child, and every path from the root to a missing child passes the same number of black nodes, which get_black_height() reports consistently. "
     "No insert or remove of a number ever raises.",
     ["histories", "inputs"],
     "Every history of updates and every insertion order.",
     "Tests walk textbook fix-up cases; the double-black repair after removal has mirrored multi-step cases reached only through particular histories.",
     [T + "red_black_tree.py", T + "bst.py"],
     [("recolouring after insert", T + "red_black_tree.py:insert"), ("double-black repair", T + "red_black_tree.py:remove"), ("colour-preserving swap", T + "red_black_tree.py:swap")],
     ["str() colour marks", "preorder_traverse()+inorder_traverse() (shape)", "get_black_height()", "in", "len()"])

prop("C12", "A splay tree is a sorted set whose last accessed value is at the root",
     "After any interleaved history of inserts, membership tests, removals and clears by several clients, including duplicates, absent removals, rejected items and operations cut short by an allocation failure, a SplayTree holds exactly the inserted and not removed numbers in search order, although every access restructures it. "
     "After inserting a value, or finding it with a membership test, that value is at the root; a membership test on any object never raises, loses or adds anything, also on an empty tree.",
     ["histories", "inputs", "schedules"],
     "Every history mixing accesses with updates, every insertion order.",
     "Tests look at a handful of splay shapes; every read rewires the tree, so correctness depends on the entire access history.",
     [T + "splay_tree.py", T + "bst.py"],
     [("splaying rotations", T + "splay_tree.py:_splay"), ("removal then splay", T + "splay_tree.py:remove")],
     ["preorder_traverse()[0]", "in", "len()", "inorder_traverse()"])

prop("C13", "A treap is a sorted set with heap-ordered priorities for every draw",
     "For every priority assignment - explicit or drawn at random, with ties, negative and extreme values - and every interleaved history of inserts, removals and clears by several clients, a Treap holds exactly the inserted and not removed numbers in search order. "
     "Each value keeps the priority of its successful insertion and no node has a lower priority than its children; duplicate inserts and absent removals change nothing.",
     ["schedules", "histories", "inputs"],
     "Every outcome of the random priority draw, every explicit priority, every history of updates.",
     "Tests use one seed and explicit small priorities; the rotations taken depend on the random draw together with the history.",
     [T + "treap.py", T + "bst.py"],
     [("bubble up by priority", T + "treap.py:insert"), ("rotate down to a leaf", T + "treap.py:remove")],
     ["str() with SHOW_PRIORITY", "preorder_traverse()+inorder_traverse() (shape)", "in", "len()"])

prop("C14", "Heaps keep their multiset and heap order under any history",
     "After any interleaved history of inserts, removals of arbitrary values, removals of the minimum or maximum, heapify and clears by several clients, a MinHeap or MaxHeap holds exactly the multiset of inserted and not removed numbers (a removal takes out one occurrence). "
     "Every parent is on the right side of its children, get_min and get_max are the true extremes, membership and length are exact, and absent or empty removals change nothing.",
     ["histories", "inputs"],
     "Every history of updates with duplicates and int/float mixes, every heapify input.",
     "Tests mostly remove the root; removing an interior value must restore the order in both directions, depending on where the last element came from.",
     [T + "_heap.py", T + "min_heap.py", T + "max_heap.py"],
     [("sift up", T + "_heap.py:insert"), ("re-establish order after removal", T + "_heap.py:remove"), ("far extreme in the last half", T + "min_heap.py:get_max")],
     ["to_list()", "iter()", "get_min()/get_max()", "in", "len()"])

prop("C15", "A trie is a word set with exact prefixes under any history",
     "After any interleaved history of inserts, removals and clears by several clients, including repeated and absent words, prefixes of stored words and rejected items, a Trie contains exactly the inserted and not removed words. "
     "has_prefix and auto_complete answer from exactly that set for every prefix, the node count is one plus the number of distinct non-empty prefixes of stored words, and removing a word never affects another word, also when the last word goes.",
     ["histories", "inputs", "fault_sequences"],
     "Every history of updates over any alphabet, words that are prefixes of one another in any order.",
     "Tests insert and remove a fixed list of English words; pruning shared paths depends on which words remain.",
     [T + "trie.py", T + "tree.py"],
     [("path following", T + "trie.py:_follow_path"), ("pruning on removal", T + "trie.py:remove"), ("candidates", T + "trie.py:auto_complete")],
     ["in", "has_prefix()", "auto_complete()", "len()", "is_empty()", "to_list()"])

prop("C16", "A radix trie is a word set on split edges under any history",
     "After any interleaved history of inserts, removals and clears by several clients, including repeated and absent words, prefixes of stored words and rejected items, a RadixTrie contains exactly the inserted and not removed words, and has_prefix and auto_complete answer from exactly that set for every prefix. "
     "Sibling edges never start with the same character, every leaf completes a stored word, len() is the true number of nodes and stays minimal (no chain of only-children) as long as nothing was removed, and removing a word never affects another word, also when the last word goes.",
     ["histories", "inputs", "fault_sequences"],
     "Every history of updates over any alphabet, with edge splits in any order.",
     "Tests split a few fixed edges; edge splitting followed by pruning reaches shapes only particular histories produce.",
     [T + "radix_trie.py", T + "trie.py"],
     [("edge split", T + "radix_trie.py:_insert"), ("pruning on removal", T + "trie.py:remove"), ("path following", T + "trie.py:_follow_path")],
     ["in", "has_prefix()", "auto_complete()", "len()", "is_empty()", "to_list()", "get_nodes_per_level()", "str()"])

prop("C17", "A directory tree mirrors the file system exactly or fails",
     "Tree.from_path builds a tree whose nodes are exactly the entries under the given path, children sorted by name, whatever order the operating system lists them in. A symbolic link to a directory is followed, a dangling or circular one is a leaf. "
     "If any system call fails - permission, I/O error, entry vanishing - or other processes change the directories meanwhile, it either raises OSError/ValueError or returns a tree in which each directory's children are exactly one listing that directory really had; it never drops, duplicates or invents an entry silently. "
     "Length, height, leaf count, levels and search on the result agree with that tree.",
     ["fault_sequences", "schedules", "inputs"],
     "Every directory tree, every listing order, every injected system-call failure and every interleaving of concurrent file-system changes between system calls.",
     "Tests read one real directory on one file system in its natural order and never see an error or a concurrent change.",
     [T + "tree.py"],
     [("recursive listing", T + "tree.py:from_path"), ("sorted children", T + "tree.py:__form_tree_from_path")],
     ["to_list()", "get_nodes_per_level()", "len()", "str()", "in"])

prop("C18", "A failed operation leaves every container as it was",
     "If an update on any container fails - an item or argument is rejected, memory for a new node cannot be allocated, the source iterable raises or yields an invalid item, an element's own comparison raises, or a warning is escalated to an error - the container is afterwards exactly as before the call or exactly as if the call had succeeded (a constructor yields nothing, a remove of all occurrences may stop after some). "
     "None and the package's own containers are always rejected as elements, and the container keeps working correctly for the rest of its history.",
     ["fault_sequences", "crash_points", "histories"],
     "Every fault point inside every update, after every history.",
     "Tests only check that the exception is raised on a fresh container; they never fail an allocation or a callback in the middle of an update and never use the container afterwards.",
     [L + "linked_list.py", L + "doubly_linked_list.py", L + "circular_linked_list.py", L + "stack.py", L + "queue.py", L + "deque.py", L + "priority_queue.py", L + "skip_list.py", T + "bst.py", T + "avl.py", T + "red_black_tree.py", T + "splay_tree.py", T + "treap.py", T + "_heap.py", T + "trie.py", T + "radix_trie.py"],
     [("validate before mutate", "extra/interface.py:_validate_item"), ("allocate before link", L + "linked_list.py:_insert_value")],
     ["full contents and shape before and after the failed call", "the rest of the history"])

prop("C19", "Queries never change a container, even when interrupted",
     "No query - length, emptiness, indexing, slicing, membership (except a splay tree's, which is an update of its own), counting, traversals, views, prefix and completion queries, extremes, printing, comparison, copying - changes the contents or shape of any container or of its arguments. "
     "That holds also when the query is interrupted at an arbitrary point by KeyboardInterrupt, an allocation failure or an exception from an element, and the same query repeated afterwards gives the right answer.",
     ["crash_points", "histories", "fault_sequences"],
     "Every query at every point of every history, interrupted at every executed line, allocation or element callback.",
     "Tests never interrupt a call; a query that temporarily modifies state and restores it looks pure until it is cut short.",
     [L + "linked_list.py", L + "skip_list.py", T + "tree.py", T + "binary_tree.py", T + "bst.py", T + "_heap.py", T + "trie.py", T + "radix_trie.py", T + "suffix_trie.py"],
     [("read-only traversals", T + "binary_tree.py"), ("slicing into a fresh list", L + "linked_list.py:__getitem__")],
     ["full contents and shape before and after", "the repeated query's answer"])

prop("C20", "Concurrent readers each get the answer they would get alone",
     "While nobody updates a container, any number of iterators and queries interleaved on it - suspended generators, nested loops, or threads preempted between any two lines - each return exactly what they return when run alone. "
     "This covers every container and query except a splay tree's membership test, which restructures the tree.",
     ["schedules", "histories"],
     "Every interleaving of readers, preempted at any executed line.",
     "Tests run one query at a time on one thread; state kept on the object or the class by a query only shows when two readers overlap.",
     [L + "linked_list.py", L + "skip_list.py", T + "tree.py", T + "binary_tree.py", T + "_heap.py", T + "trie.py", T + "suffix_trie.py"],
     [("iterators keep their cursor in local state", L + "linked_list.py:__iter__"), ("level-order generators", T + "tree.py:__iter__")],
     ["every reader's result, event order recorded by the simulator"])

prop("C21", "Distinct containers never affect one another, whatever the threads do",
     "Operations on one container never change the contents, shape or answers of another container it was not built from, of the same or another class. "
     "This holds when each is driven by its own thread and the threads are preempted between any two lines.",
     ["schedules", "histories"],
     "Every interleaving, at line granularity, of threads working on containers of their own.",
     "Tests use one container at a time on one thread; shared class-level or default-argument state is invisible there.",
     ["extra/interface.py", L + "linked_list.py", L + "queue.py", L + "priority_queue.py", L + "skip_list.py", T + "tree.py", T + "bst.py", T + "treap.py", T + "_heap.py", T + "trie.py"],
     [("all state lives on the instance", "every __init__"), ("default arguments are never mutated", T + "tree.py:__print_subtree")],
     ["each container against its own model after every scheduling step"])

prop("C22", "Seeded runs repeat exactly",
     "A program that seeds the random module, or passes a seed to Treap or PriorityQueue, and then performs a fixed series of operations gets the same containers - contents, levels, priorities and shape - and the same answers in the same order every time, whatever happened before it, whichever hash seed, memory addresses or entropy the process has, and also if it creates, clears or uses unseeded containers along the way. "
     "Containers that use no randomness never consume or reset the random stream.",
     ["histories", "schedules", "configurations"],
     "Every series of operations, every seed, every prior history, every hash seed and every state of the operating system's entropy.",
     "Tests never run the same program twice under different entropy or prior history.",
     [T + "treap.py", L + "priority_queue.py", L + "skip_list.py"],
     [("seeding on construction", T + "treap.py:__init__"), ("coin flips", L + "skip_list.py:flip_coin"), ("default priorities", L + "priority_queue.py")],
     ["contents, shape and priorities of both executions", "the random stream after each operation"])

prop("C23", "What is removed is released, what is stored is kept alive",
     "Once an element has been removed, popped, dequeued, dropped on overflow, overwritten or cleared from a container and the user holds no reference, the container no longer keeps it or the memory of its node alive (an emptied list may keep one blank node); likewise an operation that failed retains nothing. "
     "Elements still stored stay alive and identical, and the number of live nodes stays proportional to the number of stored elements over any history.",
     ["histories", "fault_sequences"],
     "Every history of updates, including overflow, failed operations and derived containers.",
     "Tests never look at object lifetimes; stale references only accumulate over long histories.",
     [L + "linked_list.py", L + "doubly_linked_list.py", L + "circular_linked_list.py", L + "queue.py", L + "stack.py", L + "skip_list.py", T + "bst.py", T + "trie.py", T + "_heap.py"],
     [("unlinking on removal", L + "linked_list.py:_remove_node"), ("unlinking on removal", L + "doubly_linked_list.py:_remove_node"), ("pruning", T + "trie.py:remove")],
     ["weak references to elements", "live node count at the allocator seam"])

prop("C24", "Tree shape queries agree with the current shape after any history",
     "After every operation of any history of inserts, removals, accesses and clears on BST, AVL, RedBlackTree, SplayTree, Treap, MinHeap, MaxHeap, Trie and RadixTrie, and on any parsed and inverted BinaryTree, all structural queries describe one and the same current tree: traversals in every order (also through traverse()), iteration, to_list, nodes per level, left and right side views, height, depth, leaf count, perfection, strictness, balance (where the depths of the leaves and the heights below the root give the same verdict) and printed form. "
     "No query answers from an earlier shape.",
     ["histories", "inputs"],
     "Every history of updates and accesses that leads to a shape, all queries at every point of it.",
     "Tests ask each query on a few fixed shapes straight after building them; a stale or path-dependent answer needs a query, an update that reshapes the tree, and the query again.",
     [T + "tree.py", T + "binary_tree.py", T + "avl.py", T + "_heap.py", T + "trie.py"],
     [("queries computed from the nodes on demand", T + "binary_tree.py"), ("cached subtree heights", T + "avl.py:set_height"), ("array to tree", T + "_heap.py:_transform")],
     ["every structural query, compared with the shape rebuilt from preorder and inorder"])

prop("C25", "Relational operators order linked lists consistently under any history",
     "At every point of any interleaved history of updates by several clients on LinkedList, DoublyLinkedList and CircularLinkedList objects, including operations that failed, two lists of the same class compare by their current contents: a <= b exactly when a is not longer than b and every element of a is equal to or less than the opposing element of b; a < b exactly when a <= b and they differ; a > b and a >= b are b < a and b <= a. Incomparable opposing elements or a non-list raise TypeError, an element whose comparison raises lets its exception through, and no comparison changes either list.",
     ["histories", "inputs", "fault_sequences"], "Every pair of lists any history can produce, every element whose comparison may fail.",
     "Tests compare a handful of pairs of freshly built lists, none of unequal lengths with unequal elements.",
     [L + "linked_list.py", L + "doubly_linked_list.py", L + "circular_linked_list.py"],
     [("pairwise scan bounded by the shorter length", L + "linked_list.py:_compare"), ("verdict from the scan's end and the lengths", L + "linked_list.py:__gt__")],
     ["<, <=, >, >="])

prop("C26", "A parsed binary tree is what its nested list describes, mirrored per inversion",
     "After any interleaved history of parse, invert, clear and queries by several clients on any number of BinaryTree objects, including parses that were rejected or cut short by an allocation failure, each tree is exactly the one its nested list describes - [value], [value, left] or [value, left, right], a bare value standing for a leaf - mirrored as often as it was inverted, and every traversal, view and count describes that tree. An empty list, a list of more than three items or None anywhere raises ValueError, anything but a list or tuple raises TypeError, and a failed parse affects nothing; no parse changes the list it is given.",
     ["histories", "inputs", "fault_sequences"],
     "Every nested list, every history of inversions and clears over several trees, with rejected lists and failing allocations in between.",
     "Tests parse a few literals and invert once; what a tree is after further inversions, beside other trees and after failed parses is not observed.",
     [T + "binary_tree.py"], [("recursive parse", T + "binary_tree.py:parse"), ("mirror", T + "binary_tree.py:invert")], ["traversals, views, counts and printed form"])

prop("C27", "Suffix trie answers follow from the word whatever happened before",
     "At every point of any interleaved history of queries by several clients on any number of SuffixTrie objects, including queries interrupted at an arbitrary point and constructions cut short by an allocation failure, every answer follows from the trie's word alone (without its '$' characters): substring and occurrence queries for non-empty patterns (free of the terminator characters '$' and '⟶'), the suffix array, the longest repeated substrings, the lowest common ancestor of two suffixes, node and leaf counts, height and the listed edges. Invalid words and indices raise the documented errors.",
     ["histories", "inputs", "fault_sequences"],
     "Every word, pattern and pair of suffixes, every interleaving and interruption of the queries.",
     "Tests use a few words such as banana and ask each trie one thing; no query is ever interrupted or repeated.",
     [T + "suffix_trie.py", T + "radix_trie.py"],
     [("suffix insertion", T + "suffix_trie.py:__init__"), ("longest repeated substring from the leaves' ancestors", T + "suffix_trie.py:get_longest_common_substring"),
      ("pattern walk", T + "radix_trie.py:_follow_path")], ["query results"])

prop("C28", "Printing a container draws exactly what it holds, and its structure",
     "At every point of any interleaved history of operations by several clients, including operations that failed or were cut short, str() and repr() of a container are the documented drawing of its current state: linked lists, stacks, queues, deques and priority queues show one cell per element in order with borders as wide as the cell; a SkipList shows one line per level, each element a column that reaches up to its top level; a binary tree or heap shows every level on a line of its own and drawn lines that join each node to exactly its left and right child; Trie, RadixTrie and SuffixTrie show one line per node, whose branch marks tell last children, parents and ends of words. "
     "Reading the drawing back gives the contents and shape all other queries give; empty containers show their documented empty form; printing never changes anything.",
     ["histories", "inputs", "fault_sequences"],
     "Every shape and content any history can produce, with elements of every width.",
     "Tests never look at a drawing, or at a few fixed ones; offsets depend on the shape and on the width of every label at once.",
     [L + "linked_list.py", L + "doubly_linked_list.py", L + "circular_linked_list.py", L + "stack.py", L + "queue.py", L + "skip_list.py", T + "binary_tree.py", T + "tree.py", T + "trie.py"],
     [("cells and borders", L + "linked_list.py:_print_linked_list"), ("levels", L + "skip_list.py:__repr__"), ("boxes joined at their roots", T + "binary_tree.py:_print_subtree"), ("branch marks", T + "tree.py:__print_subtree")],
     ["str", "repr", "SHOW_PRIORITY"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

"""One scenario per property."""
from history import History
from scn_threads import Readers, Threads
from scn_memory import Lifetimes
from scn_repeat import Repeat
from scn_fs import FsScenario
from scn_shape import Derived, Queries


class Simple(History):
    """Histories with random draws, failing sources and, in two runs of three, injected faults inside the operations."""
    fault_p = 0.07
    faults = ("alloc", "alloc", "elem", "warn-error")
    huge_p = 0.006

    def __init__(self, pid, kinds, flags=None, **k):
        History.__init__(self, pid)
        self.kinds = kinds
        self.flags = flags or {}
        for a, b in k.items():
            setattr(self, a, b)

    elem_bias = 0

    def start(self, g, sim):
        if self.elem_bias and g.chance(self.elem_bias):
            g.vprofile = "elem"
        if self.rel > 1 and g.chance(0.6):
            g.vprofile = g.pick(["dupint", "dupint", "elem"])
            g.span = 5

    def pick_kinds(self, r):
        if len(self.kinds) > 1 and r.random() < 0.5:
            return [r.choice(self.kinds)]
        return list(self.kinds)


MAKE = {}
BUDGET = {}


def reg(pid, f, **budget):
    MAKE[pid] = f
    BUDGET[pid] = budget


reg("C01", lambda: Simple("C01", ["ll", "dll"]))
reg("C02", lambda: Simple("C02", ["cll"]))
reg("C04", lambda: Simple("C04", ["stack"], long_p=0.06, huge_p=0.003, fills=True))
reg("C05", lambda: Simple("C05", ["queue"], long_p=0.06, huge_p=0.003, fills=True))
reg("C06", lambda: Simple("C06", ["deque"], long_p=0.06, huge_p=0.003, fills=True))
reg("C07", lambda: Simple("C07", ["pq"], long_p=0.06, huge_p=0.003, fills=True))
reg("C08", lambda: Simple("C08", ["skip"]))
reg("C09", lambda: Simple("C09", ["bst"]))
reg("C10", lambda: Simple("C10", ["avl"]))
reg("C11", lambda: Simple("C11", ["rbt"]))
reg("C12", lambda: Simple("C12", ["splay"]))
reg("C13", lambda: Simple("C13", ["treap"]))
reg("C14", lambda: Simple("C14", ["minheap", "maxheap"]))
reg("C15", lambda: Simple("C15", ["trie"], long_p=0.03))
reg("C16", lambda: Simple("C16", ["radix"], long_p=0.05))

EVERY = ["ll", "dll", "cll", "stack", "queue", "deque", "pq", "skip", "bst", "avl", "rbt", "splay", "treap", "minheap", "maxheap", "trie", "radix"]
TREES = ["bst", "avl", "rbt", "splay", "treap", "minheap", "maxheap", "trie", "radix"]
reg("C18", lambda: Simple("C18", EVERY, {"strict_shape": True}, fault_p=0.3, faults=("alloc", "alloc", "alloc", "elem", "elem", "warn-error"), big_p=0.06, steps=(20, 70), elem_bias=0.5))

reg("C03", lambda: Derived("C03"))
reg("C19", lambda: Queries("C19"))
reg("C24", lambda: Simple("C24", TREES + ["btree"], {"shape": True}, p_query=0.3))

reg("C17", lambda: FsScenario("C17"))

reg("C25", lambda: Simple("C25", ["ll", "dll", "cll"], rel=1.6))

reg("C26", lambda: Simple("C26", ["btree"], {"shape": True}, p_new=0.2, p_query=0.3))
reg("C27", lambda: Queries("C27", ("suffix",)))

reg("C28", lambda: Simple("C28", EVERY + ["btree", "suffix"], {"draw": True}, hmax=2, p_query=0.1))

reg("C22", lambda: Repeat("C22"))
reg("C23", lambda: Lifetimes("C23"))

reg("C20", lambda: Readers("C20"))
reg("C21", lambda: Threads("C21"))

# about half a minute each on eight cores
for _p, _n in (("C08", 14000), ("C13", 16000), ("C15", 16000), ("C16", 16000), ("C19", 12000), ("C20", 14000), ("C21", 7000), ("C22", 12000),
               ("C24", 14000), ("C25", 18000), ("C26", 8000), ("C27", 4500), ("C28", 12000)):
    BUDGET[_p]["quick"] = _n

ALL = sorted(MAKE)


def make(pid):
    return MAKE[pid]()

"""Boot: installs every seam, then imports the package under test from REPO.

Nothing here changes /repo.  The seams are
  * random        - every module-level function and random.Random / SystemRandom
  * warnings.warn - recorded or escalated per simulated step
  * Extra.__new__ - the allocator of every node and container of the package
  * os.*          - simulated file system (simfs.py), for paths below its prefix
Element callbacks, source iterables, line events and threads are seams by construction.
"""
import os
import sys

REPO = os.path.abspath(os.environ.get("EXTRA_REPO", "/repo"))
PKG = os.path.join(REPO, "extra") + os.sep

sys.dont_write_bytecode = True
# never read or write byte code beside the sources: the checks see the working tree as it is
sys.pycache_prefix = "/nonexistent-dst-pycache"
sys.path.insert(0, REPO)
for _p in list(sys.meta_path):
    if "editable" in getattr(_p, "__name__", type(_p).__name__).lower() or "editable" in getattr(_p, "__module__", "").lower():
        sys.meta_path.remove(_p)

import random as _random  # noqa: E402
import warnings as _warnings  # noqa: E402
import weakref  # noqa: E402

RealRandom = _random.Random


class SimFault(Exception):
    """An injected element/iterator failure (an ordinary application exception)."""


class Ctx:
    """Per-process simulator context; the seams consult it."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.in_sut = False          # seams only act while real code runs
        self.allocs = 0              # allocations in this step
        self.alloc_fail = None       # fail the k-th one (0-based)
        self.cb = 0                  # element callbacks in this step
        self.cb_fail = None          # raise at the k-th one
        self.cb_kinds = None         # which callbacks count ("eq", "lt", "str")
        self.cb_reenter = None       # (k, callable): reentrant read at the k-th callback
        self.warns = []              # recorded warnings of this step
        self.warn_error = False      # escalate warnings to errors
        self.fired = []              # fault kinds that actually fired in this step
        self.draws = 0               # random draws in this step
        self.track = None            # list collecting weakrefs of allocated objects
        self.entropy = 0             # simulated OS entropy counter
        self.total_allocs = 0
        self.fs = None               # simulated file system
        self.atomic = 0              # no preemption while positive
        self.ids = {}                # simulated addresses: real id -> (reference, simulated id)
        self.idn = 0
        self.idsalt = 1              # another salt is another layout of memory


CTX = Ctx()


# ------------------------------------------------------------------ allocator
def _sim_new(cls, *a, **k):
    c = CTX
    if c.in_sut:
        n = c.allocs
        c.allocs = n + 1
        if c.alloc_fail is not None and n == c.alloc_fail:
            c.fired.append("alloc")
            raise MemoryError("sim: allocation %d refused" % n)
    o = object.__new__(cls)
    if c.track is not None:
        c.track.append(weakref.ref(o))
    return o


# ------------------------------------------------------------------ addresses
def sim_id(o):
    """id() as the package sees it: a simulated address, a function of the run and CTX.idsalt only."""
    c = CTX
    k = id(o)
    e = c.ids.get(k)
    if e is not None:
        r = e[0]
        if (r() if type(r) is weakref.ref else r) is o:
            return e[1]
    c.idn += 1
    v = 0x7f0000000000 + 16 * ((c.idn * 0x9E3779B1 * (2 * c.idsalt + 1) ^ c.idsalt * 0x85EBCA6B) & 0xffffffff)
    try:
        r = weakref.ref(o)
    except TypeError:
        r = o
    c.ids[k] = (r, v)
    return v


def _install_ids(Extra):
    """Addresses reach the package through id() and the default hash; both are simulated."""
    if Extra.__hash__ is object.__hash__:
        Extra.__hash__ = lambda self: sim_id(self) >> 4
    for n, m in list(sys.modules.items()):
        if (n == "extra" or n.startswith("extra.")) and m is not None and "id" not in m.__dict__:
            m.__dict__["id"] = sim_id


# ------------------------------------------------------------------ randomness
class SimRandom(RealRandom):
    """The only source of randomness the package can reach.

    mode None      : a real Mersenne Twister (seeded by the simulator, or by the program)
    mode (kind, r) : adversarial draws decided by r, a private PRNG
                     kinds: "low" "high" "p80" "p20" "alt" "runs"
    """
    _boot = True

    def __init__(self, x=None):
        self.mode = None
        self.shadow = None
        self.run = 0
        self.lastv = None
        super().__init__(0 if x is None else x)

    def seed(self, a=None, version=2):
        if a is None:
            # OS entropy is simulated: scripted, and different on every use
            CTX.entropy += 1
            a = "entropy-%d" % CTX.entropy
            self.reseeds = getattr(self, "reseeds", 0) + 1
        super().seed(a, version)

    def _pick(self, n):
        kind, r = self.mode
        CTX.draws += 1
        if n <= 1:
            return 0
        if kind == "low":
            v = 0 if r.random() < 0.9 else r.randrange(n)
        elif kind == "high":
            v = n - 1 if r.random() < 0.9 else r.randrange(n)
        elif kind == "p80":
            v = 0 if r.random() < 0.8 else r.randrange(n)
        elif kind == "p20":
            v = n - 1 if r.random() < 0.8 else r.randrange(n)
        elif kind == "alt":
            v = (CTX.draws % 2) * (n - 1)
        elif kind == "few":
            v = r.choice((0, n - 1, n // 2))
        else:
            v = r.randrange(n)
        # never the same extreme for ever: a coin that never falls is not a legal coin
        if v == self.lastv:
            self.run += 1
            if self.run >= 14:
                v = (v + 1) % n
                self.run = 0
        else:
            self.run = 0
        self.lastv = v
        return v

    def _randbelow(self, n):
        if self.mode is None:
            CTX.draws += 1
            return super()._randbelow_with_getrandbits(n)
        return self._pick(n)

    def random(self):
        if self.mode is None:
            CTX.draws += 1
            return super().random()
        return (self._pick(1 << 20) + 0.5) / (1 << 20)

    def getrandbits(self, k):
        if self.mode is None:
            return super().getrandbits(k)
        return self._pick(1 << k)


RNG = SimRandom()
_FUNCS = ["seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle",
          "choices", "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate", "gauss",
          "betavariate", "paretovariate", "weibullvariate", "binomialvariate", "getstate", "setstate", "getrandbits", "randbytes"]


class _NewRandom(SimRandom):
    """Stands for random.Random(...) made by the package: private streams, simulated entropy."""

    def __init__(self, x=None):
        super().__init__(0)
        self.seed(x)


def _install_random():
    for f in _FUNCS:
        if hasattr(RNG, f):
            setattr(_random, f, getattr(RNG, f))
    _random._inst = RNG
    _random.Random = _NewRandom
    _random.SystemRandom = _NewRandom


def _install_clock_and_entropy():
    """While package code runs, wall clocks and OS entropy are simulated too (nothing uses them today)."""
    import time
    real_urandom = os.urandom

    def urandom(n):
        if not CTX.in_sut:
            return real_urandom(n)
        CTX.entropy += 1
        return RealRandom("urandom-%d" % CTX.entropy).getrandbits(8 * n).to_bytes(n, "big") if n else b""
    os.urandom = urandom

    def clock(real, scale):
        def f():
            if not CTX.in_sut:
                return real()
            CTX.entropy += 1
            return RealRandom("clock-%d" % CTX.entropy).randrange(1 << 40) * scale
        return f
    for name, scale in (("time", 1e-6), ("monotonic", 1e-6), ("perf_counter", 1e-6), ("time_ns", 1),
                        ("monotonic_ns", 1), ("perf_counter_ns", 1)):
        setattr(time, name, clock(getattr(time, name), scale))


# ------------------------------------------------------------------ warnings
_real_warn = _warnings.warn


def _sim_warn(message, category=None, stacklevel=1, source=None, **kw):
    c = CTX
    if not c.in_sut:
        return
    if isinstance(message, Warning):
        category = type(message)
        exc = message
    else:
        category = category or UserWarning
        exc = category(message)
    c.warns.append(category.__name__)
    if c.warn_error:
        c.fired.append("warn-error")
        raise exc


# ------------------------------------------------------------------ elements
class Elem:
    """An application element: equality by key, identity by id; its callbacks are fault points."""
    __slots__ = ("key", "id", "__weakref__")

    def __init__(self, key, id):
        self.key = key
        self.id = id

    def _hook(self, kind):
        c = CTX
        if not c.in_sut or (c.cb_kinds is not None and kind not in c.cb_kinds):
            return
        n = c.cb
        c.cb = n + 1
        if c.cb_fail is not None and n == c.cb_fail:
            c.fired.append("elem-" + kind)
            raise SimFault("sim: element %s raised" % kind)
        if c.cb_reenter is not None and n == c.cb_reenter[0]:
            f = c.cb_reenter[1]
            c.cb_reenter = None
            c.fired.append("reenter-" + kind)
            f()

    def __eq__(self, other):
        self._hook("eq")
        if isinstance(other, Elem):
            return self.key == other.key
        return NotImplemented

    def __hash__(self):
        return hash(self.key)

    def __lt__(self, other):
        self._hook("lt")
        if isinstance(other, Elem):
            return self.key < other.key
        return NotImplemented

    def __le__(self, other):
        self._hook("lt")
        if isinstance(other, Elem):
            return self.key <= other.key
        return NotImplemented

    def __str__(self):
        self._hook("str")
        return "E%s.%s" % (self.key, self.id)

    __repr__ = __str__


class SimIter:
    """A source iterable owned by the simulator: may raise or yield an invalid item at position k."""

    def __init__(self, items, fail=None):
        self.items = items
        self.fail = fail            # None | ("raise", k) | ("none", k) | ("extra", k) | ("type", k)

    def __iter__(self):
        f = self.fail
        for i, x in enumerate(self.items):
            if f is not None and f[1] == i:
                yield self._bad(f[0])
            else:
                yield x
        if f is not None and f[1] >= len(self.items):
            yield self._bad(f[0])

    def _bad(self, kind):
        CTX.fired.append("iter-" + kind)
        if kind == "raise":
            raise SimFault("sim: source failed")
        if kind == "none":
            return None
        if kind == "type":
            return object()
        return LIB.Stack()


class _Lib:
    pass


LIB = _Lib()
_booted = False


def boot(points=False):
    """Install the seams and import the package under test (with preemption points, for the thread scenarios)."""
    global _booted
    if _booted:
        return LIB
    _booted = True
    _install_random()
    _install_clock_and_entropy()
    _warnings.warn = _sim_warn
    import simfs
    simfs.install()
    import importlib
    importlib.invalidate_caches()
    if points:
        import instr
        instr.install()
    for m in [m for m in sys.modules if m == "extra" or m.startswith("extra.")]:
        del sys.modules[m]
    iface = importlib.import_module("extra.interface")
    if not os.path.abspath(iface.__file__).startswith(PKG):
        raise RuntimeError("package imported from %s, not from %s" % (iface.__file__, PKG))
    iface.Extra.__new__ = staticmethod(_sim_new)
    LIB.Extra = iface.Extra
    mods = {
        "LinkedList": "lists.linked_list", "DoublyLinkedList": "lists.doubly_linked_list",
        "CircularLinkedList": "lists.circular_linked_list", "Stack": "lists.stack", "Queue": "lists.queue",
        "Deque": "lists.deque", "PriorityQueue": "lists.priority_queue", "SkipList": "lists.skip_list",
        "Tree": "trees.tree", "BinaryTree": "trees.binary_tree", "BST": "trees.bst", "AVL": "trees.avl",
        "RedBlackTree": "trees.red_black_tree", "SplayTree": "trees.splay_tree", "Treap": "trees.treap",
        "MinHeap": "trees.min_heap", "MaxHeap": "trees.max_heap", "Trie": "trees.trie",
        "RadixTrie": "trees.radix_trie", "SuffixTrie": "trees.suffix_trie",
    }
    LIB.classes = {}
    for cls, mod in mods.items():
        m = importlib.import_module("extra." + mod)
        c = getattr(m, cls)
        setattr(LIB, cls, c)
        LIB.classes[cls] = c
    _install_ids(iface.Extra)
    return LIB

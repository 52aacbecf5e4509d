"""Simulation kernel: scripts, world of handles, execution of one step against real code and model, violations."""
import gc
import hashlib
import sys

from env import CTX, LIB, PKG, RNG, Elem, RealRandom, SimFault, SimIter


class Violation(Exception):
    def __init__(self, clause, msg):
        super().__init__("%s: %s" % (clause, msg))
        self.clause = clause
        self.msg = msg


class RunTimeout(BaseException):
    """Raised by the watchdog; confirmed later with a deterministic line budget."""


class LineBudget(BaseException):
    pass


def H(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


# ---------------------------------------------------------------- values <-> JSON
def enc(v):
    t = type(v)
    if v is None or t is str:
        return v
    if t is bool:
        return {"b": int(v)}
    if t is int:
        return v if abs(v) < 1 << 50 else {"i": str(v)}
    if t is float:
        return {"f": repr(v)}
    if t is tuple:
        return {"t": [enc(x) for x in v]}
    if t is list:
        return [enc(x) for x in v]
    if t is Elem:
        return {"e": [v.key, v.id]}
    if t is slice:
        return {"s": [enc(v.start), enc(v.stop), enc(v.step)]}
    if t is Ref:
        return {"h": v.id}
    if t is Bad:
        return {"x": v.kind}
    if t is Src:
        return {"src": [v.shape, enc(v.items), enc(list(v.fail)) if v.fail else None]}
    if t is bytes:
        return {"y": v.hex()}
    raise TypeError(t)


class Ref:
    """A reference to another handle, as an argument."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class Bad:
    """An argument that must be rejected: none, extra (a package container), node, obj, str, bool ..."""
    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind


class Src:
    """A source iterable: shape (list tuple iter gen str dict range set) over items, possibly failing."""
    __slots__ = ("shape", "items", "fail")

    def __init__(self, shape, items, fail=None):
        self.shape, self.items, self.fail = shape, list(items), fail


def dec(j, elems):
    if isinstance(j, dict):
        (k, v), = j.items()
        if k == "b":
            return bool(v)
        if k == "i":
            return int(v)
        if k == "f":
            return float(v)
        if k == "t":
            return tuple(dec(x, elems) for x in v)
        if k == "e":
            e = elems.get(v[1])
            if e is None:
                e = elems[v[1]] = Elem(v[0], v[1])
            return e
        if k == "s":
            return slice(*[dec(x, elems) for x in v])
        if k == "h":
            return Ref(v)
        if k == "x":
            return Bad(v)
        if k == "y":
            return bytes.fromhex(v)
        if k == "src":
            f = dec(v[2], elems) if v[2] else None
            return Src(v[0], dec(v[1], elems), tuple(f) if f else None)
        raise ValueError(j)
    if isinstance(j, list):
        return [dec(x, elems) for x in j]
    # equal, never identical: what a replay reads back from its file is as new as this
    if type(j) is str:
        return j[:1] + j[1:]
    if type(j) is int:
        return j + 0
    return j


def canon(v):
    """A comparable, hashable, loggable picture of any value the package hands back."""
    t = type(v)
    if t is Elem:
        return ("E", v.key, v.id)
    if t in (int, bool, str, float, bytes) or v is None:
        return (t.__name__, repr(v))
    if t in (list, tuple):
        return (t.__name__,) + tuple(canon(x) for x in v)
    if t in (set, frozenset):
        return (t.__name__,) + tuple(sorted(map(canon, v)))
    if t is dict:
        return ("dict",) + tuple((canon(a), canon(b)) for a, b in v.items())
    if isinstance(v, LIB.Extra):
        return ("Extra", t.__name__)
    return ("obj", t.__name__)


def show(c, depth=0):
    """Render canon() output for messages."""
    if isinstance(c, tuple) and c:
        if c[0] == "E":
            return "E%s.%s" % (c[1], c[2])
        if c[0] in ("list", "tuple") and depth < 6:
            xs = [show(x, depth + 1) for x in c[1:]]
            if len(xs) > 40:
                xs = xs[:40] + ["...%d" % len(xs)]
            return ("[%s]" if c[0] == "list" else "(%s)") % ", ".join(xs)
        if len(c) == 2 and isinstance(c[1], str):
            return c[1]
    return repr(c)


class Exp:
    """What the model prescribes for one operation.

    state : the model state afterwards        ret : expected return value (via canon), when kind == "ret"
    kind  : "ret" | "exc" | "new" | "any"     warn: True / False / None (do not care)
    alts  : other acceptable outcomes; partial: states also acceptable when an injected fault interrupts it
    """
    __slots__ = ("state", "kind", "ret", "warn", "alts", "partial", "cmp")

    def __init__(self, state, kind="ret", ret=None, warn=None, alts=(), partial=(), cmp=None):
        self.state, self.kind, self.ret, self.warn, self.alts, self.partial, self.cmp = state, kind, ret, warn, alts, partial, cmp


def ret(state, value=None, **k):
    return Exp(state, "ret", value, **k)


def exc(state, *types, **k):
    return Exp(state, "exc", types, **k)


def new(state, items, **k):
    """items: list of (kind name, model state)."""
    return Exp(state, "new", items, **k)


class Handle:
    __slots__ = ("id", "kind", "sut", "st", "meta")

    def __init__(self, id, kind, sut, st):
        self.id, self.kind, self.sut, self.st = id, kind, sut, st
        self.meta = {}


class World:
    """The simulated application: handles on real containers, each with its model state."""

    def __init__(self, sim):
        self.sim = sim
        self.h = {}
        self.nextid = 0
        self.elems = {}
        self.srcs = None             # when a list: records the list objects handed to constructors

    def add(self, kind, sut, st, id=None):
        if id is None:
            id = self.nextid
        self.nextid = max(self.nextid, id + 1)
        hd = Handle(id, kind, sut, st)
        self.h[id] = hd
        return hd

    def get(self, id):
        return self.h.get(id)

    def resolve(self, a):
        """Argument as the real code sees it."""
        if type(a) is Ref:
            return self.h[a.id].sut
        if type(a) is Bad:
            return make_bad(a.kind)
        if type(a) is Src:
            s = make_src(a)
            if type(s) is list and self.srcs is not None:
                self.srcs.append((s, canon(s)))
            return s
        return a

    def refs_ok(self, args):
        return all(type(a) is not Ref or a.id in self.h for a in args)


def make_bad(k):
    if k == "none":
        return None
    if k == "extra":
        return LIB.Stack()
    if k == "ll":
        return LIB.LinkedList([1])
    if k == "node":
        return type(LIB.LinkedList([1])._head)(1) if hasattr(LIB.LinkedList([1]), "_head") else LIB.Stack()
    if k == "tree":
        return LIB.BST()
    if k == "obj":
        return object()
    if k == "str":
        return "x"
    if k == "bool":
        return True
    if k == "list":
        return [1]
    if k == "bytes":
        return b"a"
    if k == "complex":
        return 1j
    raise ValueError(k)


def make_src(s):
    if s.shape == "iter" or s.fail:
        return SimIter(s.items, s.fail)
    if s.shape == "tuple":
        return tuple(s.items)
    if s.shape == "gen":
        return (x for x in list(s.items))
    if s.shape == "str":
        return "".join(s.items)
    if s.shape == "dict":
        return {x: 1 for x in s.items}
    if s.shape == "range":
        return range(*s.items)
    return list(s.items)


def src_items(s):
    if s.shape == "range":
        return list(range(*s.items))
    if s.shape == "dict":
        return list({x: 1 for x in s.items})
    return list(s.items)


# ---------------------------------------------------------------- execution
class Outcome:
    __slots__ = ("kind", "val", "warns", "fired", "allocs", "cb", "draws", "lines")


class Sim:
    """One simulated execution."""

    def __init__(self, cfg, stats):
        self.cfg = cfg
        self.stats = stats
        self.world = World(self)
        self.digest = hashlib.blake2b(digest_size=16)
        self.steps = 0
        self.changes = 0
        self.nlog = 0
        self.counts = {}
        self.trace = None          # human readable log when not None
        self.line_budget = cfg.get("line_budget")
        self.states = set()
        self.measure = False       # count package lines of each call

    # -------------------------------------------------- log
    def log(self, *parts):
        s = repr(parts)
        self.digest.update(s.encode("utf-8", "backslashreplace"))
        self.nlog += 1
        if self.trace is not None:
            self.trace.append(s if len(s) < 600 else s[:600] + "...")

    def state(self, key):
        h = hash_state(key)
        self.states.add(h)

    def probe(self, name, n=1):
        self.stats["probes"][name] = self.stats["probes"].get(name, 0) + n

    def fault(self, name, n=1):
        self.stats["faults"][name] = self.stats["faults"].get(name, 0) + n

    # -------------------------------------------------- calling real code
    def call(self, f, fault=None, rng=None, interrupt=None):
        """Run f() as package code under the seams. Returns an Outcome; never lets SUT exceptions out."""
        c = CTX
        c.allocs = c.cb = c.draws = 0
        c.alloc_fail = c.cb_fail = c.cb_kinds = c.cb_reenter = None
        c.warns = []
        c.fired = []
        c.warn_error = False
        if fault:
            k = fault[0]
            if k == "alloc":
                c.alloc_fail = fault[1]
            elif k == "elem":
                c.cb_fail = fault[1]
                c.cb_kinds = None if len(fault) < 3 or fault[2] is None else (fault[2],)
            elif k == "warn-error":
                c.warn_error = True
            elif k == "interrupt":
                interrupt = fault[1]
        if rng is not None:
            set_rng(rng)
        o = Outcome()
        tr = None
        if interrupt is not None or self.line_budget is not None or self.measure:
            tr = LineTrace(interrupt, self.line_budget)
        c.in_sut = True
        try:
            if tr is not None:
                sys.settrace(tr.global_trace)
            try:
                o.val = f()
                o.kind = "ret"
            finally:
                if tr is not None:
                    sys.settrace(None)
        except (RunTimeout, LineBudget):
            raise
        except KeyboardInterrupt as e:
            if not (tr and tr.fired):
                raise
            o.kind, o.val = "exc", e
        except (Exception, GeneratorExit, StopIteration) as e:
            o.kind, o.val = "exc", e
        finally:
            c.in_sut = False
            if rng is not None:
                RNG.mode = None
            c.alloc_fail = c.cb_fail = c.cb_reenter = None
            c.warn_error = False
        o.warns, o.fired, o.allocs, o.cb, o.draws = c.warns, c.fired, c.allocs, c.cb, c.draws
        o.lines = tr.count if tr else None
        if tr is not None and tr.fired:
            o.fired.append("interrupt")
        if o.kind == "exc":
            # drop the traceback: it would keep frames, nodes and elements alive
            o.val.__traceback__ = None
            o.val.__context__ = None
        for k in o.fired:
            self.fault(k)
        return o

    def observe(self, what, f):
        """Run a fault-free observation; an exception in it is a violation of its own."""
        o = self.call(f)
        if o.kind == "exc":
            raise Violation("observe-raises", "%s raised %s: %s" % (what, type(o.val).__name__, str(o.val)[:200]))
        return o.val


class LineTrace:
    """Counts executed lines of package code; may raise KeyboardInterrupt at one of them."""

    def __init__(self, at, budget):
        self.at = at
        self.budget = budget
        self.count = 0
        self.fired = False

    def global_trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self.local_trace
        return None

    def local_trace(self, frame, event, arg):
        if event == "line":
            n = self.count
            self.count = n + 1
            if self.at is not None and n == self.at:
                self.fired = True
                raise KeyboardInterrupt("sim: interrupt at line event %d" % n)
            if self.budget is not None and n > self.budget:
                raise LineBudget(frame.f_code.co_name)
        return self.local_trace


def set_rng(rng):
    """rng: ["mt", seed] | [kind, seed]: how this step's random draws come out."""
    kind, seed = rng
    if kind == "mt":
        RNG.mode = None
        RealRandom.seed(RNG, seed)
    else:
        RNG.mode = (kind, RealRandom(seed))
        RNG.run = 0
        RNG.lastv = None


def hash_state(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=6).digest(), "big")


def outcome_str(o):
    if o.kind == "exc":
        return "raised %s(%s)" % (type(o.val).__name__, str(o.val)[:120])
    return "returned %s" % show(canon(o.val))

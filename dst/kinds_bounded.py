"""Stack, Queue, Deque, PriorityQueue, SkipList."""
import re

from env import CTX
from kinds_base import *  # noqa: F401,F403
from kinds_base import norm, num_refs, ref_src
from kinds_list import bad_exc, cells

INF = float("inf")


class BoundedKind(Kind):
    family = "bounded"
    iterable = False
    queries = frozenset(["peek", "len", "is_empty", "is_full", "str"])

    def size(self, st):
        return len(st[1])

    def gen_new(self, g, w):
        x = g.r.random()
        if x < 0.12:
            return [g.pick([-1, -0.5, "3", None, True, [], float("-inf")])]
        if x < 0.3:
            return []
        t = g.w.sim.cfg.get("long")
        if t and x < 0.8:
            return [g.pick([t, t + 7, 2 * t + 0.5, 1000, INF])]
        return [g.weighted([(100, 0.3), (0, 1), (1, 3), (2, 4), (3, 4), (5, 2), (8, 1), (40, 0.5), (0.4, 0.5), (0.5, 0.3), (1.5, 0.7), (2.5, 0.7), (3.0, 0.5), (INF, 1)])]

    def model_new(self, w, args):
        cap = args[0] if args else INF
        if type(cap) not in (int, float):
            return exc(None, TypeError)
        if cap < 0:
            return exc(None, ValueError)
        if cap != INF:
            cap = round(cap)
        return new(None, [(self.name, (cap, ()))])

    def full(self, st):
        return len(st[1]) == st[0]

    def m_len(self, w, st): return ret(st, len(st[1]))
    def m_is_empty(self, w, st): return ret(st, not st[1])
    def m_is_full(self, w, st): return ret(st, self.full(st))
    def m_clear(self, w, st): return ret((st[0], ()), warn=False)
    def m_str(self, w, st): return ret(st, [str(x) for x in st[1]])

    def c_len(self, s): return len(s)
    def c_is_empty(self, s): return s.is_empty()
    def c_is_full(self, s): return s.is_full()
    def c_clear(self, s): return s.clear()
    def c_str(self, s): return cells(str(s))

    def obs(self, sim, s):
        return (sim.observe("len()", lambda: len(s)), tuple(sim.observe("str()", lambda: cells(str(s)))))

    def expect(self, st):
        return (len(st[1]), tuple(str(x) for x in st[1]))

    def ends(self, sim, h):
        return []

    def shape(self, sim, s):
        return sim.observe("str()", lambda: str(s))

    def check(self, sim, h, flags):
        s, (cap, items) = h.sut, h.st
        if len(items) > cap:
            raise Violation("capacity", "holds %d items, capacity %s" % (len(items), cap))
        if sim.observe("is_empty()", s.is_empty) is not (not items):
            raise Violation("is_empty", "is_empty() wrong at %d items" % len(items))
        if sim.observe("is_full()", s.is_full) is not (len(items) == cap):
            raise Violation("is_full", "is_full() wrong at %d items, capacity %s" % (len(items), cap))
        for name, f, want in self.ends(sim, h):
            o = sim.call(f)
            if items:
                if o.kind == "exc" or canon(o.val) != canon(want):
                    raise Violation("end-item", "%s: %s, expected %s" % (name, (type(o.val).__name__ if o.kind == "exc" else show(canon(o.val))), show(canon(want))))
            elif not (o.kind == "exc" and isinstance(o.val, IndexError)):
                raise Violation("end-item", "%s on empty did not raise IndexError" % name)


def drain_bias(g, n, target):
    """Phase-like growth: long filling and long draining stretches."""
    ph = (g.ctr2 // g.period) % 2 if hasattr(g, "period") else 0
    return 2.2 if ph == 0 else 0.5


class Phased:
    def grow(self, g):
        if not hasattr(g, "period"):
            g.period = g.pick([3, 6, 12, 25])
            g.ctr2 = g.r.randrange(10)
        g.ctr2 += 1
        return drain_bias(g, 0, 0)


@kind
class StackKind(BoundedKind, Phased):
    name, cls = "stack", "Stack"

    def gen(self, g, w, h):
        items = h.st[1]
        gr = g.bias(len(h.st[1]), self.grow(g))
        op = g.weighted([("push", 4 * gr), ("pop", 4), ("peek", 0.7), ("clear", 0.15), ("bad", 0.5), ("is_full", 0.2), ("len", 0.1)])
        if op == "push":
            return op, [g.elem(items)]
        if op == "bad":
            return "push", [g.bad_elem()]
        return op, []

    def gen_query(self, g, w, h):
        return g.pick(["peek", "len", "is_empty", "is_full", "str"]), []

    def m_push(self, w, st, x):
        e = bad_exc(x)
        if self.full(st):
            return exc(st, OverflowError, *(e or ()), warn=False)
        if e:
            return exc(st, *e)
        return ret((st[0], st[1] + (norm(x),)), warn=False)

    def m_pop(self, w, st):
        if not st[1]:
            return ret(st, None, warn=True)
        return ret((st[0], st[1][:-1]), st[1][-1], warn=False)

    def m_peek(self, w, st):
        return ret(st, st[1][-1]) if st[1] else exc(st, IndexError)

    def c_push(self, s, x): return s.push(x)
    def c_pop(self, s): return s.pop()
    def c_peek(self, s): return s.peek()

    def ends(self, sim, h):
        return [("peek()", h.sut.peek, h.st[1][-1] if h.st[1] else None)]


@kind
class QueueKind(BoundedKind, Phased):
    """state: (cap, items newest..oldest) as printed left to right"""
    name, cls = "queue", "Queue"

    def gen(self, g, w, h):
        gr = g.bias(len(h.st[1]), self.grow(g))
        op = g.weighted([("enqueue", 4 * gr), ("dequeue", 4), ("peek", 0.7), ("clear", 0.15), ("bad", 0.5), ("is_full", 0.2)])
        if op == "enqueue":
            return op, [g.elem(h.st[1])]
        if op == "bad":
            return "enqueue", [g.bad_elem()]
        return op, []

    def gen_query(self, g, w, h):
        return g.pick(["peek", "len", "is_empty", "is_full", "str"]), []

    def m_enqueue(self, w, st, x):
        e = bad_exc(x)
        if e:
            return exc(st, *e)
        cap, it = st
        if self.full(st):
            return ret((cap, ((norm(x),) + it[:-1]) if cap > 0 else ()), warn=True)
        return ret((cap, (norm(x),) + it), warn=False)

    def m_dequeue(self, w, st):
        if not st[1]:
            return ret(st, None, warn=True)
        return ret((st[0], st[1][:-1]), st[1][-1], warn=False)

    def m_peek(self, w, st):
        return ret(st, st[1][-1]) if st[1] else exc(st, IndexError)

    def c_enqueue(self, s, x): return s.enqueue(x)
    def c_dequeue(self, s): return s.dequeue()
    def c_peek(self, s): return s.top()

    def ends(self, sim, h):
        return [("top()", h.sut.top, h.st[1][-1] if h.st[1] else None)]


@kind
class DequeKind(BoundedKind, Phased):
    name, cls = "deque", "Deque"
    queries = frozenset(["get_left", "get_right", "len", "is_empty", "is_full", "str"])

    def gen(self, g, w, h):
        gr = g.bias(len(h.st[1]), self.grow(g))
        if not hasattr(g, "side"):
            g.side = g.pick([0.1, 0.5, 0.5, 0.9])
        a = "left" if g.chance(g.side) else "right"
        b = "left" if g.chance(0.5) else "right"
        op = g.weighted([("append_" + a, 4 * gr), ("pop_" + b, 4), ("get_left", 0.4), ("get_right", 0.4), ("clear", 0.15), ("bad", 0.5), ("is_full", 0.2)])
        if op.startswith("append"):
            return op, [g.elem(h.st[1])]
        if op == "bad":
            return "append_" + a, [g.bad_elem()]
        return op, []

    def gen_query(self, g, w, h):
        return g.pick(["get_left", "get_right", "len", "is_empty", "is_full", "str"]), []

    def m_append_left(self, w, st, x):
        e = bad_exc(x)
        if e:
            return exc(st, *e)
        cap, it = st
        if self.full(st):
            return ret((cap, ((norm(x),) + it[:-1]) if cap > 0 else ()), warn=True)
        return ret((cap, (norm(x),) + it), warn=False)

    def m_append_right(self, w, st, x):
        e = bad_exc(x)
        if e:
            return exc(st, *e)
        cap, it = st
        if self.full(st):
            return ret((cap, (it[1:] + (norm(x),)) if cap > 0 else ()), warn=True)
        return ret((cap, it + (norm(x),)), warn=False)

    def m_pop_left(self, w, st):
        if not st[1]:
            return ret(st, None, warn=True)
        return ret((st[0], st[1][1:]), st[1][0], warn=False)

    def m_pop_right(self, w, st):
        if not st[1]:
            return ret(st, None, warn=True)
        return ret((st[0], st[1][:-1]), st[1][-1], warn=False)

    def m_get_left(self, w, st):
        return ret(st, st[1][0]) if st[1] else exc(st, IndexError)

    def m_get_right(self, w, st):
        return ret(st, st[1][-1]) if st[1] else exc(st, IndexError)

    def c_append_left(self, s, x): return s.append_left(x)
    def c_append_right(self, s, x): return s.append_right(x)
    def c_pop_left(self, s): return s.pop_left()
    def c_pop_right(self, s): return s.pop_right()
    def c_get_left(self, s): return s.get_left()
    def c_get_right(self, s): return s.get_right()

    def ends(self, sim, h):
        it = h.st[1]
        return [("get_left()", h.sut.get_left, it[0] if it else None), ("get_right()", h.sut.get_right, it[-1] if it else None)]


@kind
class PQKind(BoundedKind, Phased):
    """state: (cap, ((item, priority), ...) newest..oldest); priority None = drawn at random, bound when first seen"""
    name, cls = "pq", "PriorityQueue"

    def prio(self, g):
        if not hasattr(g, "pprofile"):
            g.pprofile = g.pick(["rand", "few", "neg", "float", "wide", "inf", "same", "mixed", "near"])
        p = g.pprofile
        if p == "mixed":
            p = g.pick(["rand", "few", "neg", "float", "near"])
        if p == "rand":
            return None
        if p == "few":
            return g.r.randrange(3)
        if p == "neg":
            return g.r.randrange(-5, 2)
        if p == "float":
            return g.pick([0.5, 1, 1.0, 2.5, -0.5, 0, -0.0])
        if p == "wide":
            return g.r.randrange(-10 ** 6, 10 ** 6)
        if p == "near":
            return g.near()
        if p == "inf":
            return g.pick([INF, -INF, 0, 5])
        return 7

    def gen(self, g, w, h):
        gr = g.bias(len(h.st[1]), self.grow(g))
        if not hasattr(g, "low"):
            g.low = g.pick([0.05, 0.5, 0.5, 0.95])
        op = g.weighted([("enqueue", 4 * gr), ("dequeue", 4), ("peek", 0.6), ("clear", 0.15), ("bad", 0.6), ("is_full", 0.2)])
        if op == "enqueue":
            p = self.prio(g)
            return op, [g.elem([x for x, _ in h.st[1]]), p]
        if op == "dequeue":
            return op, [g.chance(g.low)]
        if op == "bad":
            if g.chance(0.5):
                return "enqueue", [g.bad_elem(), self.prio(g)]
            return "enqueue", [g.elem(), g.pick(["x", [1], True, Bad("extra")])]
        return op, []

    def gen_query(self, g, w, h):
        return g.pick(["peek", "len", "is_empty", "is_full", "str"]), []

    def m_enqueue(self, w, st, x, p):
        e = tuple(bad_exc(x) or ())
        if p is not None and type(p) not in (int, float):
            e += (TypeError,)
        if e:
            return exc(st, *e)
        cap, it = st
        if self.full(st):
            return ret((cap, (((norm(x), p),) + it[:-1]) if cap > 0 else ()), warn=True)
        return ret((cap, ((norm(x), p),) + it), warn=False)

    def m_dequeue(self, w, st, low):
        cap, it = st
        if not it:
            return ret(st, None, warn=True)
        best = (min if low else max)(p for _, p in it)
        outs = [ret((cap, it[:i] + it[i + 1:]), x, warn=False) for i, (x, p) in enumerate(it) if p == best]
        outs[0].alts = tuple(outs[1:])
        return outs[0]

    def m_peek(self, w, st):
        return ret(st, st[1][-1][0]) if st[1] else exc(st, IndexError)

    def m_str(self, w, st):
        return ret(st, [str(x) for x, _ in st[1]])

    def c_enqueue(self, s, x, p):
        return s.enqueue(x) if p is None else s.enqueue(x, priority=p)

    def c_dequeue(self, s, low):
        return s.dequeue(lowest_priority=True) if low else s.dequeue()

    def c_peek(self, s): return s.top()

    def obs(self, sim, s):
        def f():
            C = LIB.PriorityQueue
            old = C.SHOW_PRIORITY
            CTX.atomic += 1          # the switch is the class's: no other thread may see it turned
            C.SHOW_PRIORITY = True
            try:
                return cells(str(s))
            finally:
                CTX.atomic -= 1
                C.SHOW_PRIORITY = old
        c = sim.observe("str()", f)
        return (sim.observe("len()", lambda: len(s)), tuple(tuple(x.rsplit("|P:", 1)) for x in c))

    def unbound(self, st):
        return any(p is None for _, p in st[1])

    def match(self, obs, st):
        n, it = obs
        cap, want = st
        if n != len(want) or len(it) != len(want):
            return None
        out = []
        for got, (x, p) in zip(it, want):
            if len(got) != 2 or got[0] != str(x):
                return None
            if p is None:
                try:
                    p = int(got[1])
                except ValueError:
                    try:
                        p = float(got[1])
                    except ValueError:
                        return None
            elif str(p) != got[1]:
                return None
            out.append((x, p))
        return (cap, tuple(out))

    def expect(self, st):
        return (len(st[1]), tuple((str(x), str(p)) for x, p in st[1]))

    def ends(self, sim, h):
        return [("top()", h.sut.top, h.st[1][-1][0] if h.st[1] else None)]


@kind
class SkipKind(Kind):
    """state: ascending tuple of numbers"""
    name, cls, family, iterable, numeric = "skip", "SkipList", "numset", True, True
    queries = frozenset(["contains", "get", "to_list", "iter", "len", "is_empty", "height", "str"])

    def iter_model(self, st):
        return list(st)

    def gen_new(self, g, w):
        x = g.r.random()
        refs = [h for h in w.h.values() if h.kind is self] or num_refs(g, w)
        if x < 0.3:
            return []
        if x < 0.33:
            return [g.pick([5, 0, True, 2.5, Bad("obj")])]
        if refs and x < 0.5:
            return [Ref(g.pick(refs).id)]
        n = g.weighted([(0, 1), (1, 1), (3, 2), (6, 3), (12, 2)])
        n = g.bulk(n, 150)
        items = [g.num() for _ in range(n)]
        return [g.source(items, kinds=("raise", "none", "extra", "type"))]

    def accept(self, x):
        if x is None:
            return (ValueError,)
        if type(x) not in (int, float):
            return (TypeError,)

    def add(self, st, x):
        if x in st:
            return st
        i = 0
        while i < len(st) and st[i] < x:
            i += 1
        return st[:i] + (x,) + st[i:]

    def model_new(self, w, args):
        if not args:
            return new(None, [(self.name, ())])
        a = args[0]
        if type(a) is Ref:
            st = ()
            for x in ref_src(w, a).items:
                st = self.add(st, x)
            return new(None, [(self.name, st)])
        if type(a) is not Src:
            return exc(None, TypeError)
        out, e = src_model(self, a, self.accept)
        if e:
            return exc(None, *e)
        st = ()
        for x in out:
            st = self.add(st, x)
        return new(None, [(self.name, st)])

    def gen(self, g, w, h):
        st = h.st
        n = len(st)
        gr = g.bias(n, 1.7 if n < g.w.sim.cfg.get("target", 8) else 0.7)
        op = g.weighted([("insert", 5 * gr), ("remove", 3.5), ("delitem", 1.5), ("contains", 1), ("get", 0.6), ("clear", 0.12), ("bad", 0.6)])
        return self.args_for(g, w, h, op)

    def args_for(self, g, w, h, op):
        st = h.st
        n = len(st)
        if op in ("insert", "remove", "contains"):
            x = g.num(st) if op == "insert" or not st or g.chance(0.35) else g.pick(st)
            if op == "contains" and g.chance(0.1):
                x = float("-inf")
            if op == "remove" and g.chance(0.03):
                x = float("-inf")
            return op, [x]
        if op in ("delitem", "get"):
            return op, [g.r.randrange(-2, n + 2) if g.chance(0.3) or not n else g.r.randrange(n)]
        if op == "bad":
            k = g.pick(["insert", "insert", "remove", "contains", "delitem", "get"])
            if k in ("delitem", "get"):
                return k, [g.pick(["x", 1.0, None, True, slice(0, 1)])]
            return k, [g.bad_num()]
        return op, []

    def gen_query(self, g, w, h):
        return self.args_for(g, w, h, g.pick(["contains", "contains", "get", "to_list", "iter", "len", "height", "str", "is_empty"]))

    def m_insert(self, w, st, x):
        if type(x) is Bad:
            return exc(st, ValueError if x.kind == "none" else TypeError)
        return ret(self.add(st, x))

    def m_remove(self, w, st, x):
        if type(x) is Bad:
            return ret(st)
        return ret(tuple(y for y in st if y != x))

    def m_contains(self, w, st, x):
        return ret(st, type(x) is not Bad and x in st)

    def m_delitem(self, w, st, i):
        e = self.vidx(st, i)
        return exc(st, *e) if e else ret(st[:i] + st[i + 1:])

    def m_get(self, w, st, i):
        e = self.vidx(st, i)
        return exc(st, *e) if e else ret(st, st[i])

    def vidx(self, st, i):
        if type(i) is slice:
            return (IndexError,)
        if type(i) is not int:
            return (TypeError,)
        if i < 0 or i >= len(st):
            return (IndexError,)

    def m_clear(self, w, st): return ret(())
    def m_to_list(self, w, st): return ret(st, list(st))
    m_iter = m_to_list
    def m_len(self, w, st): return ret(st, len(st))
    def m_is_empty(self, w, st): return ret(st, not st)
    def m_height(self, w, st): return Exp(st, "any")
    m_str = m_height

    def c_insert(self, s, x): return s.insert(x)
    def c_remove(self, s, x): return s.remove(x)
    def c_contains(self, s, x): return x in s
    def c_delitem(self, s, i): del s[i]
    def c_get(self, s, i): return s[i]
    def c_clear(self, s): return s.clear()
    def c_to_list(self, s): return s.to_list()
    def c_iter(self, s): return list(s)
    def c_len(self, s): return len(s)
    def c_is_empty(self, s): return s.is_empty()
    def c_height(self, s): return s.get_height()
    def c_str(self, s): return str(s)

    def obs(self, sim, s):
        return canon(sim.observe("to_list()", s.to_list))

    def expect(self, st):
        return canon(list(st))

    def shape(self, sim, s):
        return sim.observe("str()", lambda: str(s))

    def levels(self, sim, s):
        """Cells per level, top first, read from the printed form."""
        t = sim.observe("str()", lambda: str(s))
        lines = t.split("\n")
        return [level_cells(x) for x in lines[1::2]]

    def check(self, sim, h, flags):
        s, st = h.sut, h.st
        n = len(st)
        if sim.observe("len()", lambda: len(s)) != n:
            raise Violation("len", "len() is %r, contents have %d" % (len(s), n))
        if sim.observe("is_empty()", s.is_empty) is not (n == 0):
            raise Violation("is_empty", "is_empty() wrong")
        it = canon(sim.observe("iteration", lambda: list(s)))
        if it != canon(list(st)):
            raise Violation("iter", "iteration gives %s expected %s" % (show(it), show(canon(list(st)))))
        if n <= 16 or flags.get("deep"):
            for i in (range(n) if n <= 30 else range(0, n, n // 15)):
                if canon(sim.observe("[%d]" % i, lambda: s[i])) != canon(st[i]):
                    raise Violation("index", "[%d] wrong" % i)
            for x in st if n <= 30 else st[:: n // 15]:
                if sim.observe("in", lambda: x in s) is not True:
                    raise Violation("membership", "%r stored but not found" % (x,))
            for x in probes_between(st):
                if sim.observe("in", lambda: x in s) is not (x in st):
                    raise Violation("membership", "%r in list is wrong, contents %r" % (x, st[:30]))
            hgt = sim.observe("get_height()", s.get_height)
            lv = self.levels(sim, s)
            if len(lv) != hgt:
                raise Violation("levels", "get_height() %r but %d levels printed" % (hgt, len(lv)))
            base = lv[-1]
            if base != ["-∞"] + [numcell(x) for x in st]:
                raise Violation("levels", "base level prints %r, contents %r" % (base[:30], st[:30]))
            for a in range(len(lv) - 1):
                if not is_subseq(lv[a], lv[a + 1]):
                    raise Violation("levels", "level %d %r is not an ascending subset of the level below %r" % (len(lv) - 1 - a, lv[a][:20], lv[a + 1][:20]))
                if lv[a][:1] != ["-∞"]:
                    raise Violation("levels", "level without its head")
                if len(lv[a]) <= 1:
                    raise Violation("empty-level", "empty level %d remains above the base" % (len(lv) - 1 - a))
            if hgt >= 3:
                sim.probe("skip-height>=3")


def numcell(x):
    return "∞" if x == INF else str(x)


def level_cells(line):
    """Cells of a printed skip-list level: '| x |⟶' where present, arrows where absent."""
    return re.findall(r"[|│] (\S+) [|│]", line)


def is_subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def probes_between(st):
    if not st:
        return [0, 1.5, -1]
    out = []
    for x in (st[0], st[len(st) // 2], st[-1]):
        if abs(x) < 1 << 50:
            out += [x - 1, x + 1, x + 0.5]
    return out

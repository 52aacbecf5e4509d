"""LinkedList, DoublyLinkedList, CircularLinkedList against a tuple."""
import operator

from kinds_base import *  # noqa: F401,F403
from kinds_base import BAD_EXC, norm
from core import dec, enc


def bad_exc(x):
    """Exception types an element must be rejected with, or None when acceptable."""
    if type(x) is Bad:
        return BAD_EXC.get(x.kind)
    if x is None:
        return (ValueError,)
    return None


def real(x):
    return x


RELS = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}


def alike(a, b):
    """Length of the common beginning."""
    n = 0
    for x, y in zip(a, b):
        if x != y:
            break
        n += 1
    return n


class SeqKind(Kind):
    circular = False
    queries = frozenset(["get", "slice", "contains", "count", "to_list", "iter", "len", "eq", "ne", "str",
                         "split", "reverse", "copy", "rotate_left_out", "rotate_right_out", "is_empty", "badquery",
                         "lt", "le", "gt", "ge", "badrel"])

    # ------------------------------------------------ construction
    def gen_new(self, g, w):
        r = g.r
        x = r.random()
        refs = [h for h in w.h.values() if h.kind.family == "seq" or (h.kind.iterable and g.chance(0.3))]
        if x < 0.1:
            return []
        if refs and x < 0.35:
            return [Ref(g.pick(refs).id)]
        if x < 0.40:
            return [g.pick([5, 1.5, True, Bad("obj")])]
        n = g.weighted([(0, 1), (1, 2), (2, 3), (3, 3), (5, 3), (8, 2), (15, 1)])
        n = g.bulk(n, 120)
        items = [g.elem() for _ in range(n)]
        if g.chance(0.08) and items:
            items[r.randrange(n)] = None
        return [g.source(items)]

    def model_new(self, w, args):
        if not args:
            return new(None, [(self.name, ())])
        a = args[0]
        if type(a) is Ref:
            h = w.get(a.id)
            its = h.kind.iter_model(h.st)
            if its is None:
                its = w.sim.observe("iteration of the source", lambda: list(h.sut))
            return new(None, [(self.name, tuple(norm(x) for x in its))])
        if type(a) is not Src:
            return exc(None, TypeError)
        out, e = src_model(self, a, bad_exc)
        if e:
            return exc(None, *e)
        return new(None, [(self.name, tuple(norm(x) for x in out))])

    family = "seq"
    iterable = True

    def iter_model(self, st):
        return list(st)

    # ------------------------------------------------ generation
    def gen(self, g, w, h):
        st, r = h.st, g.r
        n = len(st)
        grow = g.bias(n, 1.6 if n < g.w.sim.cfg.get("target", 6) else 0.6)
        op = g.weighted([("add_front", 2 * grow), ("add_end", 3 * grow), ("insert", 3 * grow), ("extend", 1.2 * grow if n < 60 else 0.1),
                         ("setitem", 2), ("delitem", 2.5), ("remove_front", 1.2), ("remove_end", 1.2), ("remove", 2),
                         ("clear", 0.25), ("split", 0.7), ("rotate_left", 0.9), ("rotate_right", 0.9), ("reverse", 0.5),
                         ("copy", 0.7), ("get", 1), ("slice", 0.8), ("contains", 0.7), ("count", 0.4), ("eq", 0.5),
                         ("ne", 0.3), ("bad", 1.0), ("iter", 0.2), ("rotate_left_out", 0.4), ("rotate_right_out", 0.4), ("badquery", 0.4)]
                        + [(x, w.sim.cfg.get("rel", 0.12)) for x in ("lt", "le", "gt", "ge", "badrel")])
        return self.args_for(g, w, h, op)

    def idx(self, g, n):
        if self.circular:
            return g.r.randrange(0, 3 * n + 3) if g.chance(0.8) else g.pick([0, n, n - 1 if n else 0, -1, 10 ** 6 + g.r.randrange(7)])
        return g.index(n)

    def args_for(self, g, w, h, op):
        st, r = h.st, g.r
        n = len(st)
        if op in ("add_front", "add_end"):
            return op, [g.elem(st)]
        if op == "insert":
            return op, [self.idx(g, n), g.elem(st)]
        if op == "setitem":
            return op, [self.idx(g, n), g.elem(st)]
        if op in ("delitem", "get"):
            return op, [self.idx(g, n) if op == "delitem" else (g.r.randrange(-n - 2, n + 2) if not self.circular else self.idx(g, n))]
        if op == "slice":
            return op, [g.slice(n)]
        if op == "split":
            return op, [self.idx(g, n)]
        if op in ("rotate_left", "rotate_right"):
            return op, [r.randrange(0, 3 * n + 2)]
        if op in ("rotate_left_out", "rotate_right_out"):
            return op, [r.randrange(0, 3 * n + 2)]
        if op == "remove":
            return op, [g.probe(st), g.chance(0.5)]
        if op in ("contains", "count"):
            return op, [g.probe(st)]
        if op in ("extend", "eq", "ne"):
            refs = [x for x in w.h.values() if x.kind.family == "seq"]
            same = [x for x in refs if x.kind is self]
            t = g.pick(same) if g.chance(0.8) or op != "extend" else g.pick(refs)
            if op == "extend" and len(t.st) + n > 250:
                return "len", []
            return op, [Ref(t.id)]
        if op in RELS:
            same = [x for x in w.h.values() if x.kind is self]
            t = g.pick(same) if g.chance(0.4) else max(same, key=lambda x: (x is not h) * (1 + alike(st, x.st)))
            return op, [Ref(t.id)]
        if op == "badrel":
            return op, [g.pick(sorted(RELS) + ["eq", "ne"]), g.pick([5, None, "ab", Bad("tree"), Src("list", list(st)[:3])])]
        if op == "bad":
            k = g.pick(["add_front", "add_end", "insert", "setitem", "remove", "delitem", "insert_i", "setitem_i", "extend",
                        "split", "rotate_left", "rotate_right", "remove_flag", "delslice"])
            b = g.bad_elem()
            if k in ("add_front", "add_end"):
                return k, [b]
            if k in ("insert", "setitem"):
                return k, [self.idx(g, n), b]
            if k == "remove":
                return k, [b, True]
            if k == "remove_flag":
                return "remove", [g.probe(st), 1]
            bi = g.pick(["x", 1.0, None, True, slice(0, 1)])
            if k == "delitem" or k == "delslice":
                return "delitem", [bi]
            if k == "insert_i":
                return "insert", [bi, g.elem()]
            if k == "setitem_i":
                return "setitem", [bi, g.elem()]
            if k == "extend":
                return "extend", [Src("list", [g.elem()])]
            if k == "split":
                return "split", [bi]
            return k, [g.pick(["x", -1, 1.5, None])]
        if op == "badquery":
            return op, [g.pick(["get_float", "get_none", "get_far", "contains_none", "count_none", "inplace_left"] + ["inplace_right"] * (self.name == "dll"))]
        return op, []

    def gen_query(self, g, w, h):
        op = g.weighted([("get", 2), ("slice", 2), ("contains", 2), ("count", 1), ("to_list", 1), ("iter", 1), ("len", 0.3),
                         ("eq", 1), ("ne", 1), ("str", 1), ("split", 1), ("reverse", 1), ("copy", 1),
                         ("rotate_left_out", 1), ("rotate_right_out", 1), ("is_empty", 0.2), ("badquery", 0.3),
                         ("lt", 0.6), ("le", 0.6), ("gt", 0.6), ("ge", 0.6), ("badrel", 0.15)])
        if op == "slice" and self.circular:
            op = "get"
        return self.args_for(g, w, h, op)

    # ------------------------------------------------ index rules
    def vidx(self, st, i, neg=False):
        """None when ok, else exception types."""
        if type(i) is slice:
            return (IndexError,)
        if type(i) is not int:
            return (TypeError,)
        if i < 0 and not neg:
            return (IndexError,)
        if not self.circular and (i < -len(st) or i > len(st)):
            return (IndexError,)
        return None

    def both(self, a, b):
        return tuple(a or ()) + tuple(b or ())

    # ------------------------------------------------ updates
    def m_add_front(self, w, st, x):
        e = bad_exc(x)
        return exc(st, *e) if e else ret((norm(x),) + st)

    def m_add_end(self, w, st, x):
        e = bad_exc(x)
        return exc(st, *e) if e else ret(st + (norm(x),))

    def m_insert(self, w, st, i, x):
        e = self.both(self.vidx(st, i), bad_exc(x))
        if e:
            return exc(st, *e)
        if self.circular:
            i = i % (len(st) + 1)
        return ret(st[:i] + (norm(x),) + st[i:])

    def m_setitem(self, w, st, i, x):
        e = self.both(self.vidx(st, i), bad_exc(x))
        if not e and (not st if self.circular else i == len(st)):
            e = (IndexError,)
        elif e:
            e = e + (IndexError,)
        if e:
            return exc(st, *e)
        if self.circular:
            i = i % len(st)
        return ret(st[:i] + (norm(x),) + st[i + 1:])

    def m_delitem(self, w, st, i):
        e = self.vidx(st, i)
        if e:
            return exc(st, *e)
        if self.circular:
            if not st:
                return ret(st, alts=(exc(st, IndexError),))
            i = i % len(st)
        elif i == len(st):
            return exc(st, IndexError)
        return ret(st[:i] + st[i + 1:])

    def m_remove_front(self, w, st):
        return ret(st[1:])

    def m_remove_end(self, w, st):
        return ret(st[:-1])

    def m_remove(self, w, st, v, all):
        e = ()
        if type(all) is not bool:
            e += (TypeError,)
        e += tuple(bad_exc(v) or ())
        if e:
            return exc(st, *e)
        out, partial, done = [], [], False
        for k, x in enumerate(st):
            if x == v and not done:
                done = not all
                partial.append(tuple(out) + st[k + 1:])
            else:
                out.append(x)
        return ret(tuple(out), partial=tuple(partial))

    def m_clear(self, w, st):
        return ret(())

    def m_extend(self, w, st, o):
        if type(o) is not Ref:
            return exc(st, TypeError)
        h = w.get(o.id)
        if not issubclass(getattr(LIB, h.kind.cls), getattr(LIB, self.cls)):
            return exc(st, TypeError)
        return ret(st + tuple(h.st))

    # ------------------------------------------------ derived containers
    def m_split(self, w, st, i):
        e = self.vidx(st, i)
        if e:
            return exc(st, *e)
        if self.circular:
            i = i % len(st) if st else 0
        return new(st, [(self.name, st[:i]), (self.name, st[i:])])

    def _rot(self, st, d, right):
        if not st:
            return st
        d = d % len(st)
        if right:
            d = (len(st) - d) % len(st)
        return st[d:] + st[:d]

    def _rotcheck(self, st, d):
        if type(d) is not int:
            return exc(st, TypeError)
        if d < 0:
            return exc(st, ValueError)

    def m_rotate_left(self, w, st, d):
        return self._rotcheck(st, d) or ret(self._rot(st, d, False))

    def m_rotate_right(self, w, st, d):
        return self._rotcheck(st, d) or ret(self._rot(st, d, True))

    def m_rotate_left_out(self, w, st, d):
        return new(st, [(self.name, self._rot(st, d, False))])

    def m_rotate_right_out(self, w, st, d):
        return new(st, [(self.name, self._rot(st, d, True))])

    def m_reverse(self, w, st):
        return new(st, [(self.name, st[::-1])])

    def m_copy(self, w, st):
        return new(st, [(self.name, st)])

    def m_slice(self, w, st, s):
        if self.circular:
            return exc(st, IndexError)
        return new(st, [(self.name, st[s])])

    # ------------------------------------------------ queries
    def m_get(self, w, st, i):
        if self.circular:
            if i < 0 or not st:
                return exc(st, IndexError)
            return ret(st, st[i % len(st)])
        if not -len(st) <= i < len(st):
            return exc(st, IndexError)
        return ret(st, st[i])

    def m_badquery(self, w, st, k):
        if k in ("get_float", "get_none", "inplace_left", "inplace_right"):
            return exc(st, TypeError)
        if k == "get_far":
            if self.circular and st:
                return ret(st, st[(10 ** 9) % len(st)])
            return exc(st, IndexError)
        return ret(st, False if k == "contains_none" else 0)

    def m_contains(self, w, st, v):
        return ret(st, any(x == v for x in st))

    def m_count(self, w, st, v):
        return ret(st, sum(1 for x in st if x == v))

    def m_to_list(self, w, st):
        return ret(st, list(st))

    m_iter = m_to_list

    def m_len(self, w, st):
        return ret(st, len(st))

    def m_is_empty(self, w, st):
        return ret(st, not st)

    def m_str(self, w, st):
        return ret(st, [str(x) for x in st])

    def m_eq(self, w, st, o):
        h = w.get(o.id)
        if h.kind is not self:
            return Exp(st, "any")
        return ret(st, len(st) == len(h.st) and all(a == b for a, b in zip(st, h.st)))

    def m_ne(self, w, st, o):
        e = self.m_eq(w, st, o)
        if e.kind == "ret":
            e.ret = not e.ret
        return e

    def rel(self, w, st, o, op):
        """Every opposing pair in the relation, the shorter list being the lesser one; strict: and the lists not alike."""
        h = w.get(o.id)
        if h.kind is not self:
            return Exp(st, "any")
        a, b = st, h.st
        if op in ("gt", "ge"):
            a, b = b, a
        same, res, clash, clash_last = len(a) == len(b), len(a) <= len(b), False, False
        for x, y in zip(a, b):
            if x == y:
                continue
            same = False
            try:
                # the order in which the operands stand in the program
                ok = RELS[op](y, x) if op in ("gt", "ge") else RELS[op](x, y)
            except TypeError:
                clash = True
                continue
            res = res and ok
        if op in ("lt", "gt"):
            res = res and not same
        if clash and res:
            return exc(st, TypeError)
        return ret(st, bool(res), alts=(exc(st, TypeError),) if clash else ())

    def m_lt(self, w, st, o): return self.rel(w, st, o, "lt")
    def m_le(self, w, st, o): return self.rel(w, st, o, "le")
    def m_gt(self, w, st, o): return self.rel(w, st, o, "gt")
    def m_ge(self, w, st, o): return self.rel(w, st, o, "ge")
    def m_badrel(self, w, st, op, o): return exc(st, TypeError)

    # ------------------------------------------------ calls
    def c_lt(self, s, o): return s < o
    def c_le(self, s, o): return s <= o
    def c_gt(self, s, o): return s > o
    def c_ge(self, s, o): return s >= o
    def c_badrel(self, s, op, o): return {"eq": operator.eq, "ne": operator.ne, **RELS}[op](s, o)
    def c_add_front(self, s, x): return s.add_front(x)
    def c_add_end(self, s, x): return s.add_end(x)
    def c_insert(self, s, i, x): return s.insert(i, x)
    def c_setitem(self, s, i, x): s[i] = x
    def c_delitem(self, s, i): del s[i]
    def c_remove_front(self, s): return s.remove_front()
    def c_remove_end(self, s): return s.remove_end()
    def c_remove(self, s, v, all): return s.remove(v, all=all)
    def c_clear(self, s): return s.clear()
    def c_extend(self, s, o): return s.extend(o)
    def c_split(self, s, i): return s.split(i)
    def c_rotate_left(self, s, d): return s.rotate_left(d)
    def c_rotate_right(self, s, d): return s.rotate_right(d)
    def c_rotate_left_out(self, s, d): return s.rotate_left(d, inplace=False)
    def c_rotate_right_out(self, s, d): return s.rotate_right(d, inplace=False)
    def c_reverse(self, s): return s.reverse()
    def c_copy(self, s): return s.copy()
    def c_get(self, s, i): return s[i]
    def c_slice(self, s, sl): return s[sl]
    def c_contains(self, s, v): return v in s
    def c_count(self, s, v): return s.count(v)
    def c_to_list(self, s): return s.to_list()
    def c_iter(self, s): return list(s)
    def c_len(self, s): return len(s)
    def c_is_empty(self, s): return s.is_empty()
    def c_eq(self, s, o): return s == o
    def c_ne(self, s, o): return s != o
    def c_str(self, s): return cells(str(s))

    def c_badquery(self, s, k):
        if k == "get_float":
            return s[1.5]
        if k == "get_none":
            return s[None]
        if k == "get_far":
            return s[10 ** 9]
        if k == "contains_none":
            return None in s
        if k == "inplace_left":
            return s.rotate_left(1, inplace="no")
        if k == "inplace_right":
            return s.rotate_right(1, inplace="no")
        return s.count(None)

    # ------------------------------------------------ observation
    def obs(self, sim, s):
        return canon(sim.observe("to_list()", s.to_list))

    def expect(self, st):
        return canon(list(st))

    def shape(self, sim, s):
        n = sim.observe("len()", lambda: len(s))
        ends = [canon(sim.observe("[%d]" % i, lambda: s[i])) for i in ((0, n - 1) if self.circular else (0, n - 1, -1, -n))] if n else []
        return (self.obs(sim, s), sim.observe("str()", lambda: str(s)), n, tuple(ends), self.ring(s, n))

    def ring(self, s, n):
        """Number of steps after which a circular chain is back at its head (None: never within n)."""
        head = getattr(s, "_head", None)
        if not self.circular or not n or not hasattr(head, "get_next"):
            return n
        x = head
        for i in range(1, n + 1):
            x = x.get_next()
            if x is head:
                return i
            if x is None:
                break
        return None

    def check(self, sim, h, flags):
        s, st = h.sut, h.st
        n = len(st)
        want = canon(list(st))
        got = sim.observe("len()", lambda: len(s))
        if got != n:
            raise Violation("len", "len() is %r, contents have %d elements" % (got, n))
        if sim.observe("is_empty()", s.is_empty) is not (n == 0):
            raise Violation("is_empty", "is_empty() wrong for %d elements" % n)
        if self.ring(s, n) != n:
            raise Violation("ring", "following the chain from the head does not come back to it after exactly %d elements" % n)
        it = canon(sim.observe("iteration", lambda: take(s, n + 2)))
        if it != want:
            raise Violation("iter", "iteration gives %s, expected %s" % (show(it), show(want)))
        if n <= 12 or flags.get("deep"):
            ix = range(n) if n <= 40 else list(range(0, n, max(1, n // 25))) + [n - 1]
            for i in ix:
                x = canon(sim.observe("[%d]" % i, lambda: s[i]))
                if x != want[1 + i]:
                    raise Violation("index", "[%d] is %s, expected %s" % (i, show(x), show(want[1 + i])))
            if n and not self.circular:
                for i in {-1, -n, -(n // 2) - 1 if n > 1 else -1}:
                    x = canon(sim.observe("[%d]" % i, lambda: s[i]))
                    if x != want[1 + n + i]:
                        raise Violation("index", "[%d] is %s, expected %s" % (i, show(x), show(want[1 + n + i])))
            for i in {0, n // 2, n - 1} if n else ():
                # what is found is what is equal, not only what is identical
                x = st[i] if isinstance(st[i], Elem) else dec(enc(st[i]), {})
                if sim.observe("in", lambda: x in s) is not True:
                    raise Violation("membership", "%s is stored at %d but not found" % (show(canon(x)), i))
                if sim.observe("count()", lambda: s.count(x)) != list(st).count(x):
                    raise Violation("count", "%s is not counted %d times" % (show(canon(x)), list(st).count(x)))
            c = sim.observe("str()", lambda: cells(str(s)))
            if c != [str(x) for x in st]:
                raise Violation("str", "printed cells %r, expected %r" % (c[:40], [str(x) for x in st][:40]))


def take(it, n):
    out = []
    for x in it:
        out.append(x)
        if len(out) > n:
            break
    return out


ARROWS = ("⟶", "⟷")


def cells(text):
    """The element cells of a printed list: text between the vertical bars of the second line."""
    lines = text.split("\n")
    if len(lines) < 2:
        return ["<unparsable %r>" % text[:60]]
    parts = lines[1].split("│")
    out = []
    for p in parts[1:]:
        if len(p) >= 2 and p[0] == " " and p[-1] == " ":
            out.append(p[1:-1])
    return out


@kind
class LLKind(SeqKind):
    name, cls = "ll", "LinkedList"


@kind
class DLLKind(SeqKind):
    name, cls = "dll", "DoublyLinkedList"


@kind
class CLLKind(SeqKind):
    name, cls = "cll", "CircularLinkedList"
    circular = True

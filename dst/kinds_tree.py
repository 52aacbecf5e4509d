"""BST, AVL, RedBlackTree, SplayTree, Treap, MinHeap, MaxHeap, Trie, RadixTrie."""
import re

from env import CTX
from kinds_base import *  # noqa: F401,F403
from kinds_base import num_refs, ref_src
from kinds_list import take

INF = float("inf")


# ------------------------------------------------------------------ shapes
class N:
    __slots__ = ("v", "l", "r", "h")

    def __init__(self, v, l, r):
        self.v, self.l, self.r = v, l, r
        self.h = 1 + max(l.h if l else -1, r.h if r else -1)


def rebuild(pre, ino):
    """The unique binary tree with these preorder and inorder sequences of distinct keys, or None."""
    if len(pre) != len(ino):
        return None
    pos = {}
    for i, x in enumerate(ino):
        if x in pos:
            return None
        pos[x] = i
    it = iter(pre)

    def go(lo, hi):
        if lo >= hi:
            return None
        v = next(it)
        p = pos.get(v)
        if p is None or not lo <= p < hi:
            raise ValueError
        l = go(lo, p)
        r = go(p + 1, hi)
        return N(v, l, r)
    try:
        return go(0, len(ino))
    except (ValueError, StopIteration, TypeError):
        return None


def complete(arr):
    """Binary tree of an array in level order."""
    def go(i):
        if i >= len(arr):
            return None
        return N(arr[i], go(2 * i + 1), go(2 * i + 2))
    return go(0)


def post(t):
    return post(t.l) + post(t.r) + [t.v] if t else []


def pre(t):
    return [t.v] + pre(t.l) + pre(t.r) if t else []


def ino(t):
    return ino(t.l) + [t.v] + ino(t.r) if t else []


def levels(t):
    out, cur = [], [t] if t else []
    while cur:
        out.append([x.v for x in cur])
        cur = [c for x in cur for c in (x.l, x.r) if c]
    return out


def leaves(t):
    if not t:
        return 0
    return 1 if not t.l and not t.r else leaves(t.l) + leaves(t.r)


def strict(t):
    return not t or (not t.l and not t.r) or (bool(t.l) and bool(t.r) and strict(t.l) and strict(t.r))


def shape_str(t):
    return "." if t is None else "(%s%s%s)" % (shape_str(t.l), t.v, shape_str(t.r))


def skel(t):
    return "." if t is None else "(%s%s)" % (skel(t.l), skel(t.r))


BAD_TRAVERSE = ["sideways", "", "in order", "preorder ", "breadth", "order", "inorder\n", "bfs", 5, 0, None, b"inorder", ["inorder"], True, ("preorder",)]


class BSTKind(Kind):
    """state: tuple of numbers in ascending order (representation of first insertion)"""
    name, cls, family, iterable, numeric = "bst", "BST", "numset", True, True
    root_after_access = False
    queries = frozenset(["contains", "min", "max", "inorder", "preorder", "postorder", "bfs", "traverse", "to_list", "iter",
                         "len", "is_empty", "height", "leaves", "levels", "leftview", "rightview", "is_perfect", "is_strict",
                         "is_balanced", "depth", "str", "badtraverse"])

    def iter_model(self, st):
        return None         # breadth-first order: depends on the shape

    def gen_new(self, g, w):
        x = g.r.random()
        if x < 0.35:
            return []
        if x < 0.4:
            return [g.pick([5, Bad("obj")])]
        refs = num_refs(g, w)
        if refs and x < 0.55:
            return [Ref(g.pick(refs).id)]
        n = g.weighted([(0, 1), (1, 1), (3, 2), (6, 3), (10, 3), (16, 1)])
        n = g.bulk(n, 200, 0.6, 500)
        return [g.source([g.num() for _ in range(n)], kinds=("raise", "none", "extra", "type"))]

    def accept(self, x):
        if x is None:
            return (ValueError,)
        if type(x) not in (int, float):
            return (TypeError,)

    def add(self, st, x):
        if x in st:
            return st
        lo, hi = 0, len(st)
        while lo < hi:
            m = (lo + hi) // 2
            if st[m] < x:
                lo = m + 1
            else:
                hi = m
        return st[:lo] + (x,) + st[lo:]

    def model_new(self, w, args):
        if not args:
            return new(None, [(self.name, ())])
        a = args[0]
        if type(a) is Ref:
            a = ref_src(w, a)
        if type(a) is not Src:
            return exc(None, TypeError)
        out, e = src_model(self, a, self.accept)
        if e:
            return exc(None, *e)
        st = ()
        for x in out:
            st = self.add(st, x)
        return new(None, [(self.name, st)])

    # ---------------------------------------------- generation
    def gen(self, g, w, h):
        st = h.st
        n = len(st)
        if not hasattr(g, "phase"):
            g.phase = g.pick([8, 20, 60])
            g.pc = 0
        g.pc += 1
        gr = g.bias(n, 2.0 if n < 2 or (g.pc // g.phase) % 2 == 0 else 0.6)
        op = g.weighted([("insert", 4 * gr), ("remove", 4), ("contains", 1), ("clear", 0.08), ("bad", 0.5), ("min", 0.2), ("max", 0.2),
                         ("removemin", 0.5), ("removemax", 0.5)])
        return self.args_for(g, w, h, op)

    def args_for(self, g, w, h, op):
        st = h.st
        if op in ("insert",):
            return op, self.insert_args(g, st)
        if op in ("remove", "contains"):
            return op, [g.pick(st) if st and g.chance(0.75) else g.num(st)]
        if op in ("removemin", "removemax"):
            return "remove", [(st[0] if op == "removemin" else st[-1]) if st else 0]
        if op == "bad":
            k = g.pick(["insert", "insert", "remove", "contains"])
            return k, [g.bad_num()] if k != "insert" else self.bad_insert_args(g)
        if op == "traverse":
            return op, [g.pick(["inorder", "postorder", "preorder", "depth-first", "breadth-first", "INORDER", "PreOrder", "PostOrder", "Depth-First",
                               "Breadth-First", "BREADTH-FIRST", "inOrder"])]
        if op == "badtraverse":
            return op, [g.pick(BAD_TRAVERSE)]
        return op, []

    def insert_args(self, g, st):
        return [g.num(st)]

    def bad_insert_args(self, g):
        return [g.bad_num()]

    def gen_query(self, g, w, h):
        qs = sorted(self.queries)
        return self.args_for(g, w, h, g.pick(qs))

    # ---------------------------------------------- model
    def m_insert(self, w, st, x):
        if type(x) is Bad:
            return exc(st, ValueError if x.kind == "none" else TypeError)
        n = self.add(st, x)
        return ret(n, warn=(n == st))

    def m_remove(self, w, st, x):
        if type(x) is Bad:
            return ret(st, warn=True)
        n = tuple(y for y in st if y != x)
        return ret(n, warn=(n == st))

    def m_contains(self, w, st, x):
        return ret(st, type(x) is not Bad and x in st)

    def m_clear(self, w, st): return ret(())
    def m_min(self, w, st): return ret(st, st[0]) if st else exc(st, IndexError)
    def m_max(self, w, st): return ret(st, st[-1]) if st else exc(st, IndexError)
    def m_inorder(self, w, st): return ret(st, list(st))
    def m_len(self, w, st): return ret(st, len(st))
    def m_is_empty(self, w, st): return ret(st, not st)

    def m_traverse(self, w, st, m):
        return ret(st, list(st)) if m.lower() == "inorder" else Exp(st, "any")

    def m_badtraverse(self, w, st, m="sideways"):
        return exc(st, ValueError if type(m) is str else TypeError)

    def any(self, w, st):
        return Exp(st, "any")
    m_preorder = m_postorder = m_bfs = m_to_list = m_iter = m_height = m_leaves = m_levels = any
    m_leftview = m_rightview = m_is_perfect = m_is_strict = m_is_balanced = m_depth = m_str = any

    # ---------------------------------------------- calls
    def c_insert(self, s, x): return s.insert(x)
    def c_remove(self, s, x): return s.remove(x)
    def c_contains(self, s, x): return x in s
    def c_clear(self, s): return s.clear()
    def c_min(self, s): return s.get_min()
    def c_max(self, s): return s.get_max()
    def c_inorder(self, s): return s.inorder_traverse()
    def c_preorder(self, s): return s.preorder_traverse()
    def c_postorder(self, s): return s.postorder_traverse()
    def c_bfs(self, s): return s.breadth_first_traverse()
    def c_traverse(self, s, m): return s.traverse(m)
    def c_badtraverse(self, s, m="sideways"): return s.traverse(m)
    def c_to_list(self, s): return s.to_list()
    def c_iter(self, s): return list(s)
    def c_len(self, s): return len(s)
    def c_is_empty(self, s): return s.is_empty()
    def c_height(self, s): return s.get_height()
    def c_depth(self, s): return s.get_depth()
    def c_leaves(self, s): return s.count_leaf_nodes()
    def c_levels(self, s): return s.get_nodes_per_level()
    def c_leftview(self, s): return s.get_leftside_view()
    def c_rightview(self, s): return s.get_rightside_view()
    def c_is_perfect(self, s): return s.is_perfect()
    def c_is_strict(self, s): return s.is_strict()
    def c_is_balanced(self, s): return s.is_balanced()
    def c_str(self, s): return str(s)

    # ---------------------------------------------- observation
    def obs(self, sim, s):
        return canon(sim.observe("inorder_traverse()", s.inorder_traverse))

    def expect(self, st):
        return canon(list(st))

    def tree(self, sim, s):
        """The current shape, rebuilt from two public traversals."""
        p = sim.observe("preorder_traverse()", s.preorder_traverse)
        i = sim.observe("inorder_traverse()", s.inorder_traverse)
        if not i and not p:
            return None
        t = rebuild(p, i)
        if t is None:
            raise Violation("traversals", "preorder %s and inorder %s do not describe one tree" % (p[:40], i[:40]))
        return t

    def shape(self, sim, s):
        """Everything visible about the structure (contents, shape, colours or priorities)."""
        return (shape_str(self.tree(sim, s)), sim.observe("str()", lambda: self.marked(s)))

    def marked(self, s):
        return str(s)

    def check(self, sim, h, flags):
        s, st = h.sut, h.st
        n = len(st)
        if flags.get("set", True):
            if sim.observe("len()", lambda: len(s)) != n:
                raise Violation("len", "len() is %r, contents have %d" % (len(s), n))
            if sim.observe("is_empty()", s.is_empty) is not (n == 0):
                raise Violation("is_empty", "is_empty() wrong")
            if n:
                a, b = sim.observe("get_min()", s.get_min), sim.observe("get_max()", s.get_max)
                if canon(a) != canon(st[0]) or canon(b) != canon(st[-1]):
                    raise Violation("extremes", "get_min/get_max %r/%r, contents %r..%r" % (a, b, st[0], st[-1]))
            else:
                for f in (s.get_min, s.get_max):
                    o = sim.call(f)
                    if not (o.kind == "exc" and isinstance(o.val, IndexError)):
                        raise Violation("extremes", "extreme of an empty tree: %s" % o.kind)
            if not self.root_after_access and (n <= 24 or flags.get("deep")):
                step = max(1, n // 24)
                for x in st[::step]:
                    if sim.observe("in", lambda: x in s) is not True:
                        raise Violation("membership", "%r stored but not found" % (x,))
                for x in absent(st):
                    if sim.observe("in", lambda: x in s) is not False:
                        raise Violation("membership", "%r not stored but found" % (x,))
        if n <= 40 or flags.get("deep"):
            t = self.tree(sim, s)
            if ino(t) != list(st):
                raise Violation("order", "search order broken")
            self.invariant(sim, h, t, flags)
            if flags.get("shape"):
                self.check_shape(sim, s, t, st)
            sim.state((self.name, skel(t)))

    def invariant(self, sim, h, t, flags):
        pass

    def check_shape(self, sim, s, t, st):
        n = len(st)
        lv = levels(t)
        bfs = [x for l in lv for x in l]
        want = {"postorder_traverse": post(t), "depth_first_traverse": pre(t), "breadth_first_traverse": bfs,
                "to_list": bfs, "get_nodes_per_level": lv, "get_leftside_view": [l[0] for l in lv],
                "get_rightside_view": [l[-1] for l in lv], "get_height": t.h if t else 0, "get_depth": 0,
                "count_leaf_nodes": leaves(t), "is_perfect": all(len(l) == 2 ** i for i, l in enumerate(lv)),
                "is_strict": strict(t)}
        for name, v in want.items():
            got = sim.observe(name + "()", getattr(s, name))
            if canon(got) != canon(v):
                raise Violation("shape", "%s() gives %s, the current shape %s prescribes %s" % (name, show(canon(got)), shape_str(t)[:200], show(canon(v))))
        for m, v in (("inorder", ino(t)), ("postorder", post(t)), ("preorder", pre(t)), ("depth-first", pre(t)), ("breadth-first", bfs),
                     (("Inorder", ino(t)), ("PostOrder", post(t)), ("PREORDER", pre(t)), ("Depth-First", pre(t)), ("Breadth-First", bfs))[n % 5]):
            got = sim.observe("traverse(%r)" % m, lambda: s.traverse(m))
            if canon(got) != canon(v):
                raise Violation("shape", "traverse(%r) gives %s, expected %s" % (m, show(canon(got)), show(canon(v))))
        got = sim.observe("iteration", lambda: take(s, n + 2))
        if canon(got) != canon(bfs):
            raise Violation("shape", "iteration gives %s, expected %s" % (show(canon(got)), show(canon(bfs))))
        if n:
            v = verdict(t)
            got = sim.observe("is_balanced()", s.is_balanced)
            if got is not v if v is not None else got not in (True, False):
                raise Violation("shape", "is_balanced() is %r for %s" % (got, shape_str(t)[:300]))
        self.check_print(sim, s, t)

    token = staticmethod(lambda x: str(x))

    def check_print(self, sim, s, t):
        if t is None:
            return
        txt = sim.observe("str()", lambda: str(s))
        lv = levels(t)
        lines = txt.split("\n")
        got = [re.findall(r"[-+.0-9a-zA-Z|:]+", l) for l in lines[::2]]
        want = [[self.token(x) for x in l] for l in lv]
        if self.marks:
            got = [[x.rsplit("|", 1)[0] for x in l] for l in got]
        if got != want:
            raise Violation("shape", "printed levels %s, expected %s" % (got[:6], want[:6]))

    marks = False


def verdict(t):
    """is the tree balanced, where every reading of the documentation (the depths of the leaves; the heights below the root) agrees"""
    def go(n, d):
        if n is None:
            return True
        if not n.l and not n.r:
            depths.append(d)
        return (abs((n.l.h if n.l else -1) - (n.r.h if n.r else -1)) <= 1) & go(n.l, d + 1) & go(n.r, d + 1)
    depths = []
    even = go(t, 0)
    apart = max(depths) - min(depths) > 1
    if even and not apart:
        return True
    if apart and abs((t.l.h if t.l else -1) - (t.r.h if t.r else -1)) > 1:
        return False
    return None


def absent(st):
    if not st:
        return [0, 1.5]
    out = []
    for x in (st[0], st[len(st) // 2], st[-1]):
        if abs(x) < 1 << 50:
            out += [y for y in (x - 1, x + 1, x + 0.25) if y not in st]
    return out


kind(BSTKind)


@kind
class AVLKind(BSTKind):
    name, cls = "avl", "AVL"

    def invariant(self, sim, h, t, flags):
        def go(n):
            if n is None:
                return
            d = (n.l.h if n.l else -1) - (n.r.h if n.r else -1)
            if abs(d) > 1:
                raise Violation("balance", "node %r is out of balance by %d in %s" % (n.v, d, shape_str(t)[:300]))
            go(n.l)
            go(n.r)
        go(t)
        hh = sim.observe("get_height()", h.sut.get_height)
        if hh != (t.h if t else 0):
            raise Violation("height", "get_height() is %r, shape %s" % (hh, shape_str(t)[:300]))
        if sim.observe("is_balanced()", h.sut.is_balanced) is not True:
            raise Violation("is_balanced", "is_balanced() false for %s" % shape_str(t)[:300])


@kind
class RBTKind(BSTKind):
    name, cls, marks = "rbt", "RedBlackTree", True
    queries = BSTKind.queries | {"black_height"}

    m_black_height = BSTKind.any

    def c_black_height(self, s): return s.get_black_height()

    def m_black_height(self, w, st):
        return Exp(st, "any") if st else Exp(st, "any")

    def invariant(self, sim, h, t, flags):
        if not flags.get("color", True):
            return
        txt = sim.observe("str()", lambda: str(h.sut))
        col = dict(x.rsplit("|", 1) for x in re.findall(r"[-+.0-9a-z]+\|[RB]", txt))
        if len(col) != len(h.st) or any(str(x) not in col for x in h.st):
            raise Violation("colors", "printed colours %r do not cover contents %r" % (sorted(col.items())[:20], h.st[:20]))

        def go(n):
            if n is None:
                return 0
            c = col[str(n.v)]
            if c == "R":
                for k in (n.l, n.r):
                    if k is not None and col[str(k.v)] == "R":
                        raise Violation("red-red", "red %r has red child %r in %s" % (n.v, k.v, txt[:400]))
            a, b = go(n.l), go(n.r)
            if a != b:
                raise Violation("black-height", "node %r has black heights %d and %d in\n%s" % (n.v, a, b, txt[:600]))
            return a + (c == "B")
        if t is not None:
            if col[str(t.v)] != "B":
                raise Violation("red-root", "root %r is red" % (t.v,))
            bh = go(t)
            got = sim.observe("get_black_height()", h.sut.get_black_height)
            if got != bh:
                raise Violation("black-height", "get_black_height() is %r, tree has %d" % (got, bh))


@kind
class SplayKind(BSTKind):
    name, cls = "splay", "SplayTree"
    root_after_access = True
    queries = BSTKind.queries - {"contains"}

    def after(self, sim, h, op, args, outcome):
        """Root checks, right after the operation."""
        if op in ("insert", "contains") and outcome.kind == "ret" and type(args[0]) is not Bad and args[0] in h.st:
            p = sim.observe("preorder_traverse()", h.sut.preorder_traverse)
            if not p or p[0] != args[0]:
                raise Violation("root", "after %s(%r) the root is %r" % (op, args[0], p[:1]))


@kind
class TreapKind(BSTKind):
    """state: tuple of (value, priority) ascending by value; priority None = drawn, bound when first seen"""
    name, cls = "treap", "Treap"
    marks = False

    def vals(self, st):
        return tuple(x for x, _ in st)

    def unbound(self, st):
        return any(p is None for _, p in st)

    def model_new(self, w, args):
        e = BSTKind.model_new(self, w, args[:1])
        if e.kind == "new":
            e.ret = [(self.name, tuple((x, None) for x in e.ret[0][1]))]
        return e

    def make(self, sargs):
        if len(sargs) == 2:
            return LIB.Treap(sargs[0], seed=sargs[1])
        return LIB.Treap(*sargs)

    def gen_new(self, g, w):
        a = BSTKind.gen_new(self, g, w)
        if a and g.chance(0.2):
            a.append(g.r.randrange(100))
        return a

    def prio(self, g):
        if not hasattr(g, "pprofile"):
            g.pprofile = g.pick(["rand", "rand", "few", "neg", "float", "wide", "inf", "same", "mixed", "asc", "near"])
        p = g.pprofile
        if p == "mixed":
            p = g.pick(["rand", "few", "neg", "float", "inf", "near"])
        if p == "rand":
            return None
        if p == "few":
            return g.r.randrange(3)
        if p == "neg":
            return g.r.randrange(-60, -1)
        if p == "float":
            return g.pick([0.5, 1, 1.0, 2.5, -0.5, 0, -1, -1.5])
        if p == "wide":
            return g.r.randrange(-10 ** 6, 10 ** 6)
        if p == "near":
            return g.near()
        if p == "inf":
            return g.pick([INF, -INF, 0, 5])
        if p == "asc":
            g.ctr += 1
            return g.ctr
        return 7

    def gen(self, g, w, h):
        h2 = _View(h, self.vals(h.st))
        return BSTKind.gen(self, g, w, h2)

    def gen_query(self, g, w, h):
        return BSTKind.gen_query(self, g, w, _View(h, self.vals(h.st)))

    def insert_args(self, g, st):
        return [g.num(st), self.prio(g)]

    def bad_insert_args(self, g):
        if g.chance(0.5):
            return [g.bad_num(), None]
        return [g.num(), g.pick([Bad("str"), Bad("obj"), True])]

    def model(self, w, h, op, args):
        st = h.st
        if op == "insert":
            x, p = args
            e = ()
            if type(x) is Bad:
                e += (ValueError,) if x.kind == "none" else (TypeError,)
            if p is not None and type(p) not in (int, float):
                e += (TypeError,)
            if e:
                return exc(st, *e)
            v = self.vals(st)
            if x in v:
                return ret(st, warn=True)
            n = self.add(v, x)
            i = n.index(x)
            return ret(st[:i] + ((x, p),) + st[i:], warn=False)
        if op == "remove":
            if type(args[0]) is Bad:
                return ret(st, warn=True)
            n = tuple(e for e in st if e[0] != args[0])
            return ret(n, warn=(n == st))
        if op == "clear":
            return ret(())
        e = getattr(self, "m_" + op)(w, self.vals(st), *args)
        e.state = st
        return e

    def c_insert(self, s, x, p):
        return s.insert(x) if p is None else s.insert(x, priority=p)

    def marked(self, s):
        C = LIB.Treap
        old = C.SHOW_PRIORITY
        CTX.atomic += 1          # the switch is the class's: no other thread may see it turned
        C.SHOW_PRIORITY = True
        try:
            return str(s)
        finally:
            CTX.atomic -= 1
            C.SHOW_PRIORITY = old

    def obs(self, sim, s):
        i = sim.observe("inorder_traverse()", s.inorder_traverse)
        txt = sim.observe("str()", lambda: self.marked(s))
        toks = dict(x.split("|P:") for x in re.findall(r"[-+.0-9a-z]+\|P:[-+.0-9a-z]+", txt))
        return (canon(i), tuple(sorted(toks.items())))

    def match(self, obs, st):
        i, toks = obs
        if i != canon([x for x, _ in st]) or len(toks) != len(st):
            return None
        toks = dict(toks)
        out = []
        for x, p in st:
            t = toks.get(str(x))
            if t is None:
                return None
            if p is None:
                p = float(t) if ("." in t or "n" in t or "e" in t) else int(t)
            elif str(p) != t:
                return None
            out.append((x, p))
        return tuple(out)

    def expect(self, st):
        return (canon([x for x, _ in st]), tuple(sorted((str(x), str(p)) for x, p in st)))

    def check(self, sim, h, flags):
        BSTKind.check(self, sim, _View(h, self.vals(h.st), dict(h.st)), flags)

    def invariant(self, sim, h, t, flags):
        if not flags.get("prio", True):
            return
        pr = h.extra

        def go(n):
            for k in (n.l, n.r):
                if k is not None:
                    if pr[k.v] > pr[n.v]:
                        raise Violation("heap-order", "%r (priority %r) is above %r (priority %r)" % (n.v, pr[n.v], k.v, pr[k.v]))
                    go(k)
        if t is not None:
            go(t)


class _View:
    """A handle seen with another model state."""

    def __init__(self, h, st, extra=None):
        self.sut, self.st, self.extra, self.id, self.kind, self.meta = h.sut, st, extra, h.id, h.kind, h.meta


# ------------------------------------------------------------------ heaps
class HeapKind(Kind):
    """state: sorted tuple (multiset)"""
    family, iterable, numeric = "heap", True, True
    is_min = True
    queries = frozenset(["contains", "min", "max", "to_list", "iter", "len", "is_empty", "str"])

    def iter_model(self, st):
        return None

    def gen_new(self, g, w):
        if g.chance(0.4):
            return []
        if g.chance(0.06):
            return [g.pick([5, Bad("obj")])]
        refs = num_refs(g, w)
        if refs and g.chance(0.3):
            return [Ref(g.pick(refs).id)]
        n = g.weighted([(0, 1), (1, 1), (3, 2), (6, 3), (10, 3), (20, 1)])
        n = g.bulk(n, 200, 0.6, 500)
        return [g.source([g.num() for _ in range(n)], kinds=("raise", "none", "extra", "type"))]

    def make(self, sargs):
        C = getattr(LIB, self.cls)
        return C.heapify(sargs[0]) if sargs else C()

    def model_new(self, w, args):
        if not args:
            return new(None, [(self.name, ())])
        a = args[0]
        if type(a) is Ref:
            a = ref_src(w, a)
        if type(a) is not Src:
            return exc(None, TypeError)
        out, e = src_model(self, a, BSTKind.accept.__get__(self))
        if e:
            return exc(None, *e)
        return new(None, [(self.name, tuple(sorted(out)))])

    def gen(self, g, w, h):
        st = h.st
        if not hasattr(g, "phase"):
            g.phase = g.pick([8, 20, 60])
            g.pc = 0
        g.pc += 1
        gr = g.bias(len(st), 2.0 if (g.pc // g.phase) % 2 == 0 else 0.6)
        op = g.weighted([("insert", 4 * gr), ("remove", 3), ("remove_min", 0.8), ("remove_max", 0.8), ("contains", 0.7), ("clear", 0.08), ("bad", 0.5),
                         ("min", 0.3), ("max", 0.3)])
        return self.args_for(g, w, h, op)

    def args_for(self, g, w, h, op):
        st = h.st
        if op == "insert":
            return op, [g.num(st)]
        if op in ("remove", "contains"):
            return op, [g.pick(st) if st and g.chance(0.8) else g.num(st)]
        if op == "bad":
            return g.pick(["insert", "insert", "remove", "contains"]), [g.bad_num()]
        return op, []

    def gen_query(self, g, w, h):
        return self.args_for(g, w, h, g.pick(sorted(self.queries)))

    def m_insert(self, w, st, x):
        if type(x) is Bad:
            return exc(st, ValueError if x.kind == "none" else TypeError)
        return ret(tuple(sorted(st + (x,))))

    def rem(self, st, x):
        for i, y in enumerate(st):
            if y == x:
                return st[:i] + st[i + 1:]
        return st

    def m_remove(self, w, st, x):
        if type(x) is Bad:
            return ret(st, warn=True)
        n = self.rem(st, x)
        return ret(n, warn=(n == st))

    def m_remove_min(self, w, st):
        return ret(st[1:]) if st else ret(st, warn=True, alts=(exc(st, IndexError),))

    def m_remove_max(self, w, st):
        return ret(st[:-1]) if st else ret(st, warn=True, alts=(exc(st, IndexError),))

    def m_contains(self, w, st, x):
        return ret(st, type(x) is not Bad and x in st)

    def m_clear(self, w, st): return ret(())

    def m_min(self, w, st):
        return Exp(st, "ret", st[0], cmp="num") if st else exc(st, IndexError)

    def m_max(self, w, st):
        return Exp(st, "ret", st[-1], cmp="num") if st else exc(st, IndexError)

    def m_len(self, w, st): return ret(st, len(st))
    def m_is_empty(self, w, st): return ret(st, not st)
    def any(self, w, st): return Exp(st, "any")
    m_to_list = m_iter = m_str = any

    def c_insert(self, s, x): return s.insert(x)
    def c_remove(self, s, x): return s.remove(x)
    def c_remove_min(self, s): return s.remove_min()
    def c_remove_max(self, s): return s.remove_max()
    def c_contains(self, s, x): return x in s
    def c_clear(self, s): return s.clear()
    def c_min(self, s): return s.get_min()
    def c_max(self, s): return s.get_max()
    def c_to_list(self, s): return s.to_list()
    def c_iter(self, s): return list(s)
    def c_len(self, s): return len(s)
    def c_is_empty(self, s): return s.is_empty()
    def c_str(self, s): return str(s)

    def obs(self, sim, s):
        return sim.observe("to_list()", lambda: list(s.to_list()))

    def match(self, obs, st):
        try:
            return st if sorted(obs) == list(st) else None
        except TypeError:
            return None

    def expect(self, st):
        return "some heap order of %r" % (list(st),)

    def shape(self, sim, s):
        return canon(sim.observe("to_list()", lambda: list(s.to_list())))

    def check(self, sim, h, flags):
        s, st = h.sut, h.st
        n = len(st)
        a = sim.observe("to_list()", lambda: list(s.to_list()))
        if flags.get("set", True):
            if sim.observe("len()", lambda: len(s)) != n:
                raise Violation("len", "len() is %r, contents have %d" % (len(s), n))
            if sim.observe("is_empty()", s.is_empty) is not (n == 0):
                raise Violation("is_empty", "is_empty() wrong")
            for i in range(1, n):
                p = (i - 1) // 2
                if (a[p] > a[i]) if self.is_min else (a[p] < a[i]):
                    raise Violation("heap-order", "parent %r over child %r in %r" % (a[p], a[i], a[:40]))
            if n:
                lo, hi = sim.observe("get_min()", s.get_min), sim.observe("get_max()", s.get_max)
                if lo != st[0] or hi != st[-1]:
                    raise Violation("extremes", "get_min/get_max %r/%r, contents %r..%r" % (lo, hi, st[0], st[-1]))
            else:
                for f in (s.get_min, s.get_max):
                    o = sim.call(f)
                    if not (o.kind == "exc" and isinstance(o.val, IndexError)):
                        raise Violation("extremes", "extreme of an empty heap: %s" % o.kind)
            it = sim.observe("iteration", lambda: take(s, n + 2))
            if canon(it) != canon(a):
                raise Violation("iter", "iteration %s differs from to_list %s" % (show(canon(it)), show(canon(a))))
            for x in st[:: max(1, n // 10)]:
                if sim.observe("in", lambda: x in s) is not True:
                    raise Violation("membership", "%r stored but not found" % (x,))
            for x in absent(st):
                if sim.observe("in", lambda: x in s) is not False:
                    raise Violation("membership", "%r not stored but found" % (x,))
        if flags.get("shape") and (n <= 40 or flags.get("deep")):
            t = complete(a)
            it = sim.observe("iteration", lambda: take(s, n + 2))
            if canon(it) != canon(a):
                raise Violation("shape", "iteration %s differs from to_list %s" % (show(canon(it)), show(canon(a))))
            if len(s) != n:
                raise Violation("shape", "len() differs from to_list()")
            txt = sim.observe("str()", lambda: str(s))
            got = [re.findall(r"[-+.0-9a-zA-Z]+", l) for l in txt.split("\n")[::2]] if n else []
            want = [[str(x) for x in l] for l in levels(t)]
            if got != want:
                raise Violation("shape", "printed levels %r, expected %r" % (got[:5], want[:5]))
        sim.state((self.name, canon(a)))


@kind
class MinHeapKind(HeapKind):
    name, cls = "minheap", "MinHeap"


@kind
class MaxHeapKind(HeapKind):
    name, cls, is_min = "maxheap", "MaxHeap", False


# ------------------------------------------------------------------ tries
class TrieKind(Kind):
    """state: sorted tuple of words"""
    name, cls, family, iterable = "trie", "Trie", "trie", True
    radix = False
    queries = frozenset(["contains", "has_prefix", "auto_complete", "to_list", "iter", "len", "is_empty", "height", "depth",
                         "leaves", "levels", "str", "badquery"])

    def iter_model(self, st):
        return None

    def gen_new(self, g, w):
        return []

    def model_new(self, w, args):
        return new(None, [(self.name, ())])

    def alphabet(self, g):
        if not hasattr(g, "alpha"):
            g.alpha = g.pick(["ab", "ab", "abc", "a", "ab}", "a b", "aé", "xyz0", "a$⟶", "AaBb", "abcdefgh", "}~{",
                             "a\t", "a\r", "e\u0301é", "ab\x00", "ßsSẞ", "a\u2028b", "😀a", "İiIı", "09", "\udcffa", "/\\", "├─"])
            g.wlen = g.pick([3, 4, 6, 10] if not g.w.sim.cfg.get("long") else [6, 10, 20, 40])
            g.biglen = g.pick([70, 140, 300]) if g.chance(0.04) else 0
        return g.alpha

    def word(self, g, st):
        al = self.alphabet(g)
        x = g.r.random()
        if st and x < 0.25:
            s = g.pick(st)
            return s[: g.r.randrange(1, len(s) + 1)]
        if st and x < 0.5:
            s = g.pick(st)
            i = g.r.randrange(len(s) + 1)
            return s[:i] + "".join(g.pick(al) for _ in range(g.r.randrange(1, 4)))
        if st and x < 0.6:
            return g.pick(st)
        n = g.r.randrange(g.biglen // 2, g.biglen) if g.biglen and g.chance(0.4) else g.r.randrange(1, g.wlen + 1)
        return "".join(g.pick(al) for _ in range(n))

    def gen(self, g, w, h):
        st = h.st
        n = len(st)
        self.alphabet(g)
        gr = g.bias(n, 1.6 if n < g.w.sim.cfg.get("target", 6) else 0.6)
        op = g.weighted([("insert", 4 * gr), ("remove", 4), ("contains", 1), ("has_prefix", 0.8), ("auto_complete", 0.8), ("clear", 0.1), ("bad", 0.6)])
        return self.args_for(g, w, h, op)

    def args_for(self, g, w, h, op):
        st = h.st
        if op == "insert":
            return op, [self.word(g, st)]
        if op == "remove":
            return op, [g.pick(st) if st and g.chance(0.7) else self.word(g, st)]
        if op in ("contains", "has_prefix", "auto_complete"):
            x = self.word(g, st) if g.chance(0.85) else ""
            return op, [x]
        if op == "bad":
            k = g.pick(["insert", "insert", "remove", "contains", "has_prefix", "auto_complete"])
            if k == "insert":
                return k, [g.pick(["", " ", "  ", 5, Bad("none"), Bad("extra"), Bad("bytes"), Bad("tree"), Bad("list")])]
            return k, [g.pick(["", "", 5, Bad("none"), Bad("obj"), Bad("bytes")])]
        return op, []

    def gen_query(self, g, w, h):
        self.alphabet(g)
        return self.args_for(g, w, h, g.pick(["contains", "contains", "has_prefix", "has_prefix", "auto_complete", "auto_complete"] + sorted(self.queries)))

    def m_insert(self, w, st, x):
        if type(x) is not str:
            return exc(st, ValueError if type(x) is Bad and x.kind == "none" else TypeError)
        if not x.strip():
            return exc(st, ValueError)
        return ret(tuple(sorted(set(st) | {x})))

    def m_remove(self, w, st, x):
        return ret(tuple(y for y in st if y != x) if type(x) is str else st)

    def m_contains(self, w, st, x):
        return ret(st, type(x) is str and x in st)

    def m_has_prefix(self, w, st, x):
        return ret(st, type(x) is str and (x == "" or any(y.startswith(x) for y in st)))

    def m_auto_complete(self, w, st, x):
        if type(x) is not str:
            return exc(st, ValueError if type(x) is Bad and x.kind == "none" else TypeError)
        return Exp(st, "ret", sorted(y for y in st if y.startswith(x)), cmp="sorted")

    def m_clear(self, w, st): return ret(())
    def m_is_empty(self, w, st): return ret(st, not st)

    def m_len(self, w, st):
        return ret(st, 1 + len(prefixes(st))) if not self.radix else Exp(st, "any")

    def any(self, w, st): return Exp(st, "any")
    m_to_list = m_iter = m_height = m_depth = m_leaves = m_levels = m_str = m_badquery = any

    def c_insert(self, s, x): return s.insert(x)
    def c_remove(self, s, x): return s.remove(x)
    def c_contains(self, s, x): return x in s
    def c_has_prefix(self, s, x): return s.has_prefix(x)
    def c_auto_complete(self, s, x): return s.auto_complete(x)
    def c_clear(self, s): return s.clear()
    def c_to_list(self, s): return s.to_list()
    def c_iter(self, s): return list(s)
    def c_len(self, s): return len(s)
    def c_is_empty(self, s): return s.is_empty()
    def c_height(self, s): return s.get_height()
    def c_depth(self, s): return s.get_depth()
    def c_leaves(self, s): return s.count_leaf_nodes()
    def c_levels(self, s): return s.get_nodes_per_level()
    def c_str(self, s): return str(s)
    def c_badquery(self, s): return (5 in s, s.has_prefix(5), None in s)

    def obs(self, sim, s):
        return sorted(sim.observe("auto_complete()", s.auto_complete))

    def match(self, obs, st):
        return st if obs == list(st) else None

    def expect(self, st):
        return list(st)

    def shape(self, sim, s):
        return sim.observe("str()", lambda: str(s))

    def check(self, sim, h, flags):
        s, st = h.sut, h.st
        words = set(st)
        pref = prefixes(st)
        if flags.get("set", True):
            if sim.observe("is_empty()", s.is_empty) is not (not st):
                raise Violation("is_empty", "is_empty() wrong at %d words" % len(st))
            for x in st:
                if sim.observe("in", lambda: x in s) is not True:
                    raise Violation("membership", "%r stored but not found" % x)
            cand = set()
            ps = sorted(pref)
            for p in ps[:: len(ps) // 60 + 1] if not flags.get("deep") else ps:
                if sim.observe("in", lambda: p in s) is not (p in words):
                    raise Violation("membership", "%r in trie wrong, words %r" % (p, st[:20]))
                if sim.observe("has_prefix", lambda: s.has_prefix(p)) is not True:
                    raise Violation("prefix", "has_prefix(%r) false, words %r" % (p, st[:20]))
                cand.update((p + "a", p + "q", p[:-1] + "b", p + "}", p[:-1] + "z", p[::-1], p[1:]))
            cand.update(("a", "}", "q", "$"))
            for c in sorted(cand)[:80]:
                if c and c not in pref:
                    if sim.observe("has_prefix", lambda: s.has_prefix(c)) is not False:
                        raise Violation("prefix", "has_prefix(%r) true, words %r" % (c, st[:20]))
                    if sim.observe("in", lambda: c in s) is not False:
                        raise Violation("membership", "%r in trie, words %r" % (c, st[:20]))
            for p in ps[:: max(1, len(ps) // 10)] + sorted(cand)[:: max(1, len(cand) // 4)]:
                got = sim.observe("auto_complete(%r)" % p, lambda: s.auto_complete(p))
                if sorted(got) != [y for y in st if y.startswith(p)]:
                    raise Violation("completions", "auto_complete(%r) %r, words %r" % (p, got, st[:20]))
            n = sim.observe("len()", lambda: len(s))
            if not self.radix and n != 1 + len(pref):
                raise Violation("node-count", "len() is %d for %d distinct prefixes, words %r" % (n, len(pref), st[:20]))
        tree = self.parse(sim, s, st)
        if flags.get("set", True):
            if tree is not None and count(tree) != len(s):
                raise Violation("node-count", "len() is %d, %d nodes printed" % (len(s), count(tree)))
            self.structure(sim, h, tree)
        if flags.get("shape"):
            self.check_shape(sim, s, tree, st)

    def structure(self, sim, h, tree):
        words = []

        def go(node, path, root):
            lab, end, ch = node
            if not root:
                path = path + lab
                if end:
                    words.append(path)
                if not ch and not end:
                    raise Violation("dead-leaf", "leaf %r completes no word" % path)
                if not self.radix and len(lab) != 1:
                    raise Violation("labels", "label %r" % lab)
            if len({c[0][:1] for c in ch}) != len(ch):
                raise Violation("siblings", "siblings %r share a first character" % [c[0] for c in ch])
            for c in ch:
                if not c[0]:
                    raise Violation("labels", "empty label")
                go(c, path, False)
        go(tree, "", True)
        if sorted(words) != list(h.st):
            raise Violation("words", "printed words %r, contents %r" % (sorted(words)[:20], h.st[:20]))

    def parse(self, sim, s, st):
        t = sim.observe("str()", lambda: str(s))
        return parse_tree(t)

    def check_shape(self, sim, s, tree, st):
        lv = []

        def go(node, d):
            if d == len(lv):
                lv.append([])
            lv[d].append(node[0])
            return max([0] + [1 + go(c, d + 1) for c in node[2]])
        hgt = go(tree, 0)
        body = lv[1:]
        bfs = [x for l in body for x in l]

        def lf(node):
            return 1 if not node[2] else sum(lf(c) for c in node[2])
        want = {"to_list": bfs, "get_height": hgt, "get_depth": 0, "count_leaf_nodes": lf(tree) if tree[2] else 0,
                "get_nodes_per_level": body}
        for name, v in want.items():
            got = sim.observe(name + "()", getattr(s, name))
            if canon(got) != canon(v):
                raise Violation("shape", "%s() gives %s, the current shape prescribes %s" % (name, show(canon(got)), show(canon(v))))
        got = sim.observe("iteration", lambda: take(s, len(bfs) + 2))
        if canon(got) != canon(bfs):
            raise Violation("shape", "iteration gives %s, expected %s" % (show(canon(got)), show(canon(bfs))))
        if sim.observe("len()", lambda: len(s)) != 1 + len(bfs):
            raise Violation("shape", "len() %r but %d nodes" % (len(s), 1 + len(bfs)))


def prefixes(st):
    return {x[:i] for x in st for i in range(1, len(x) + 1)}


def parse_tree(text):
    """Parse the printed tree: returns (label, is_word, children)."""
    lines = text.split("\n")
    root = [lines[0], False, []]
    stack = [root]
    for l in lines[1:]:
        d, i = 1, 0
        while l[i:i + 2] in ("  ", "│ "):
            i += 2
            d += 1
        if l[i:i + 2] not in ("└─", "├─") or len(stack) < d:
            raise Violation("print", "unparsable line %r" % l)
        lab = l[i + 4:]
        end = lab.endswith(" ✓")
        node = [lab[:-2] if end else lab, end, []]
        del stack[d:]
        stack[-1][2].append(node)
        stack.append(node)
    return root


def count(t):
    return 1 + sum(count(c) for c in t[2])


kind(TrieKind)


@kind
class RadixKind(TrieKind):
    name, cls, radix = "radix", "RadixTrie", True

    def structure(self, sim, h, tree):
        TrieKind.structure(self, sim, h, tree)
        if not h.meta.get("removed"):
            def go(node, root):
                if not root and len(node[2]) == 1 and not node[1]:
                    raise Violation("compressed", "only child %r below non-word %r although nothing was removed" % (node[2][0][0], node[0]))
                for c in node[2]:
                    go(c, False)
            go(tree, True)

    def after(self, sim, h, op, args, outcome):
        if op == "remove":
            h.meta["removed"] = True
        if op == "clear" or not h.st:
            h.meta["removed"] = False

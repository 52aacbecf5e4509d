"""BinaryTree (parsed, inverted, cleared) and SuffixTrie (immutable)."""
from kinds_base import *  # noqa: F401,F403
from kinds_tree import BAD_TRAVERSE, BSTKind, N, ino, levels, post, pre, shape_str, skel


def build(t):
    return None if not t else N(t[0], build(t[1]), build(t[2]))


def mirror(t):
    return () if not t else (t[0], mirror(t[2]), mirror(t[1]))


def tsize(t):
    return 0 if not t else 1 + tsize(t[1]) + tsize(t[2])


def alias(x, seen):
    if type(x) is list:
        x = [alias(y, seen) for y in x]
    elif type(x) is tuple:
        x = tuple([alias(y, seen) for y in x])
    else:
        return x
    return seen.setdefault(repr(x), x)


class Unclear(Exception):
    """A nested list in the place of a value: not promised to be a value or an error."""


@kind
class BTreeKind(Kind):
    """state: (value, left, right) | ()"""
    name, cls, family, iterable = "btree", "BinaryTree", "tree", True
    queries = BSTKind.queries - {"min", "max"}
    marks = False
    token = staticmethod(lambda x: str(x))
    check_shape, check_print = BSTKind.check_shape, BSTKind.check_print

    def iter_model(self, st):
        return [x for l in levels(build(st)) for x in l]

    def size(self, st):
        return tsize(st)

    def make(self, sargs):
        if len(sargs) > 1:
            # equal parts of the nested list are one and the same object
            seen = {}
            x = alias(sargs[0], seen)
            said = repr(x)
            try:
                return LIB.BinaryTree.parse(x)
            finally:
                if repr(x) != said:
                    sargs[0] = x
        return LIB.BinaryTree.parse(*sargs) if sargs else LIB.BinaryTree()

    def gen_new(self, g, w):
        if g.chance(0.1):
            return []
        if g.chance(0.08):
            return [g.pick([5, "ab", [], [1, [], 2], [1, 2, 3, 4], [None], [1, None, 2], [1, [2, [3, None], 4]]])] if g.chance(0.5) else [[[1, 2, 3, 4], 5][g.r.randrange(2):]]
        n = g.weighted([(1, 1), (2, 1), (3, 2), (6, 3), (11, 3), (20, 1)])
        val = lambda: g.pick([g.r.randrange(-9, 20), g.r.randrange(0, 4), "ab", "x%d" % g.r.randrange(9), 1.5])

        def go(n):
            # nested list with n nodes; a right child needs a left one
            if n == 1:
                v = val()
                return v if g.chance(0.6) else [v]
            k = n - 1
            l = k if k == 1 or g.chance(0.2) else g.r.randrange(1, k)
            xs = [val(), go(l)] + ([go(k - l)] if k - l else [])
            return tuple(xs) if g.chance(0.15) else xs
        t = go(n)
        t = t if type(t) in (list, tuple) else [t]
        if len(t) > 1 and g.chance(0.2):
            # the same subtree in two places
            u = t[-1] if len(t) == 3 or g.chance(0.5) else t
            t = type(t)([val(), u, u] if g.chance(0.6) else [val(), [val(), u], u])
        if g.chance(0.06):
            t = self.spoil(g, t)
        return [t, "alias"] if g.chance(0.3) else [t]

    def spoil(self, g, t):
        """the nested list with one mistake, anywhere in it"""
        t, path = list(t), []
        while len(t) > 1 and g.chance(0.7):
            k = g.r.randrange(1, len(t))
            path.append((t, k))
            t = list(t[k]) if type(t[k]) in (list, tuple) else [t[k]]
        k = g.r.randrange(len(t))
        bad = g.pick(["none", "none", "empty", "empty", "long"])
        if bad == "none":
            t[k] = None
        elif bad == "long":
            t = (t + [1, 2, 3])[:g.pick([4, 4, 5])]
        elif len(t) > 1:
            t[g.r.randrange(1, len(t))] = g.pick([[], ()])
        else:
            t = []
        t = tuple(t) if g.chance(0.3) else t
        while path:
            up, k = path.pop()
            up[k] = t
            t = up
        return t

    def parsed(self, x, depth=0):
        if type(x) not in (list, tuple):
            x = [x]
        if len(x) == 0 or len(x) >= 4:
            raise ValueError
        v = x[0]
        if type(v) is list:
            raise Unclear
        if v is None or type(v) is Bad:
            raise ValueError
        l = self.parsed(x[1]) if len(x) > 1 else ()
        r = self.parsed(x[2]) if len(x) > 2 else ()
        return (v, l, r)

    def model_new(self, w, args):
        if not args:
            return new(None, [(self.name, ())])
        if type(args[0]) not in (list, tuple):
            return exc(None, TypeError)
        try:
            return new(None, [(self.name, self.parsed(args[0]))])
        except ValueError:
            return exc(None, ValueError)
        except Unclear:
            return Exp(None, "any")

    def gen(self, g, w, h):
        op = g.weighted([("invert", 3), ("clear", 0.2), ("contains", 1), ("levels", 1), ("leftview", 0.5), ("rightview", 0.5), ("traverse", 1), ("height", 0.5)])
        return self.args_for(g, w, h, op)

    def args_for(self, g, w, h, op):
        if op == "contains":
            xs = self.iter_model(h.st)
            return op, [g.pick(xs) if xs and g.chance(0.6) else g.pick([None, 99, "zz", 2.0, ""])]
        if op == "traverse":
            return op, [g.pick(["inorder", "postorder", "preorder", "depth-first", "breadth-first", "INORDER", "PreOrder"])]
        if op == "badtraverse":
            return op, [g.pick(BAD_TRAVERSE)]
        return op, []

    def gen_query(self, g, w, h):
        return self.args_for(g, w, h, g.pick(sorted(self.queries)))

    def m_invert(self, w, st): return ret(mirror(st))
    def m_clear(self, w, st): return ret(())
    def m_contains(self, w, st, x): return ret(st, x in self.iter_model(st))
    def m_inorder(self, w, st): return ret(st, ino(build(st)))
    def m_preorder(self, w, st): return ret(st, pre(build(st)))
    def m_postorder(self, w, st): return ret(st, post(build(st)))
    def m_to_list(self, w, st): return ret(st, self.iter_model(st))
    m_iter = m_bfs = m_to_list
    def m_levels(self, w, st): return ret(st, levels(build(st)))
    def m_leftview(self, w, st): return ret(st, [l[0] for l in levels(build(st))])
    def m_rightview(self, w, st): return ret(st, [l[-1] for l in levels(build(st))])
    def m_len(self, w, st): return ret(st, tsize(st))
    def m_is_empty(self, w, st): return ret(st, not st)

    def m_traverse(self, w, st, m):
        t = build(st)
        m = m.lower()
        return ret(st, {"inorder": ino, "postorder": post, "preorder": pre, "depth-first": pre}.get(m, lambda t: self.iter_model(st))(t))

    m_badtraverse = BSTKind.m_badtraverse

    def any(self, w, st): return Exp(st, "any")
    m_height = m_leaves = m_is_perfect = m_is_strict = m_is_balanced = m_depth = m_str = any

    for _c in [c for c in dir(BSTKind) if c.startswith("c_") and c not in ("c_min", "c_max", "c_insert", "c_remove")]:
        locals()[_c] = getattr(BSTKind, _c)

    def c_invert(self, s): return s.invert()

    def obs(self, sim, s):
        return (canon(sim.observe("preorder_traverse()", s.preorder_traverse)), canon(sim.observe("inorder_traverse()", s.inorder_traverse)),
                sim.observe("str()", lambda: str(s)))

    def match(self, obs, st):
        t = build(st)
        return st if obs[:2] == (canon(pre(t)), canon(ino(t))) else None

    def expect(self, st):
        return shape_str(build(st))

    def shape(self, sim, s):
        return (self.obs(sim, s), canon(sim.observe("get_nodes_per_level()", s.get_nodes_per_level)))

    def check(self, sim, h, flags):
        t = build(h.st)
        n = self.size(h.st)
        if sim.observe("len()", lambda: len(h.sut)) != n or sim.observe("is_empty()", h.sut.is_empty) is not (n == 0):
            raise Violation("len", "len() or is_empty() wrong at %d nodes" % n)
        if flags.get("shape"):
            self.check_shape(sim, h.sut, t, _Sized(n))
        sim.state((self.name, skel(t)))


class _Sized:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


@kind
class SuffixKind(Kind):
    """state: the word.  The expected answers follow from the word; where the documentation leaves a choice (order, empty pattern), from
    a second, untouched trie of the same word."""
    name, cls, family, iterable = "suffix", "SuffixTrie", "suffix", True
    queries = frozenset(["has_substring", "count", "array", "lcs", "lrs", "lca", "to_list", "iter", "len", "height", "depth", "leaves", "str"])

    def iter_model(self, st):
        return None

    def gen_new(self, g, w):
        al = g.pick(["ab", "abc", "a", "abcd", "an b", "mis"]) if g.chance(0.9) else g.pick(["aA", "é\u0301e", "a\tb", "😀a", "ßs", "01", "\u2028a", "a✓", "a>"])
        n = g.r.randrange(1, 12) if g.chance(0.8) else g.r.randrange(10, 24)
        w0 = "".join(g.pick(al) for _ in range(n))
        if g.chance(0.2):
            # something long that repeats beside something short that repeats often
            w0 = (w0[:6] + g.pick(["X", ""]) + w0[:g.r.randrange(1, 7)] + g.pick(["Y", "aaaa", "bb", ""]))[:22]
        if g.chance(0.01):
            w0 = (w0 + "".join(g.pick(al) for _ in range(g.r.randrange(60, 100)))) if g.chance(0.7) else (w0 * 30)[:g.r.randrange(65, 90)]
        if g.chance(0.05):
            for _ in range(g.pick([1, 1, 2, 4])):
                i = g.r.randrange(len(w0) + 1)
                w0 = w0[:i] + "$" + w0[i:]
        return [g.weighted([(w0, 9), ("banana", 1), ("", 0.3), (Bad("none"), 0.2), (Bad("extra"), 0.2), (5, 0.2)])]

    def model_new(self, w, args):
        x = args[0]
        if x == "" or type(x) is Bad and x.kind == "none":
            return exc(None, ValueError)
        if type(x) is not str:
            return exc(None, TypeError)
        return new(None, [(self.name, x)])

    def gen(self, g, w, h):
        return self.gen_query(g, w, h)

    def gen_query(self, g, w, h):
        op = g.pick(sorted(self.queries) + ["has_substring", "count", "lca"])
        st = h.st.replace("$", "") or "a"
        n = len(st)
        if op in ("has_substring", "count"):
            i = g.r.randrange(n)
            s = st[i:i + g.r.randrange(1, 5)]
            return op, [g.weighted([(s, 6), (s + "z", 1), ("", 0.3), ("q", 0.5), (5, 0.2), (s[::-1], 1)])]
        if op == "lca":
            return op, [g.weighted([(g.r.randrange(n + 1), 8), (n + 3, 0.3), (n + 1, 0.3), ("x", 0.2), (-1, 0.2), (1.0, 0.1), (0.0, 0.1)]), g.weighted([(g.r.randrange(n + 1), 8), (n + 1, 0.3), (None, 0.1), (-1, 0.2), (-n, 0.1), (1.0, 0.1), ("1", 0.1)])]
        return op, []

    def model(self, w, h, op, args):
        memo = h.meta.setdefault("memo", {})
        key = (op, canon(args))
        if key not in memo:
            twin = w.sim.call(lambda: self.make([h.st]))
            o = w.sim.call(lambda: self.call(twin.val, op, args))
            memo[key] = (o.kind, o.val if o.kind == "ret" else type(o.val))
        k, v = memo[key]
        e = self.defined(h.st, op, args)
        if e is None:
            return ret(h.st, v) if k == "ret" else exc(h.st, v)
        if op in ("lcs", "lrs", "to_list", "iter") and k == "ret" and type(v) is list and sorted(v) == e.ret:
            e.ret = v
        return e

    def defined(self, st, op, args):
        """What the word alone prescribes, or None."""
        s = st.replace("$", "")
        n = len(s)
        if op in ("has_substring", "count"):
            x = args[0]
            if type(x) is not str:
                return ret(st, 0 if op == "count" else False)
            if not x or "$" in x or "⟶" in x:
                return None
            c = sum(s.startswith(x, i) for i in range(n))
            return ret(st, c if op == "count" else c > 0)
        if op == "lca":
            if any(type(x) is not int for x in args):
                return exc(st, TypeError)
            i, j = args
            if not (0 <= i <= n and 0 <= j <= n):
                return exc(st, ValueError)
            if i == j:
                return ret(st, max((s[i:k] for k in range(i, n + 1) if k == i or self.branching(s, s[i:k])), key=len))
            k = 0
            while s[i + k:i + k + 1] == s[j + k:j + k + 1] != "":
                k += 1
            return ret(st, s[i:i + k])
        if op in ("lcs", "lrs"):
            c = {s[i:k] for i in range(n + 1) for k in range(i, n + 1)}
            best = max(len(x) for x in c if sum(s.startswith(x, i) for i in range(n + 1)) > 1 or not x)
            return ret(st, sorted(x for x in c if len(x) == best and (not x or sum(s.startswith(x, i) for i in range(n)) > 1)))
        if op == "array":
            return None if s and min(s) < "$" else ret(st, sorted(range(n + 1), key=lambda i: s[i:]))
        if op == "leaves":
            return ret(st, n + 1)
        inner = {s[i:k] for i in range(n) for k in range(i + 1, n + 1) if self.branching(s, s[i:k])}
        if op == "len":
            return ret(st, 1 + len(inner) + n + 1)
        if op == "depth":
            return ret(st, 0)
        if op == "height":
            return ret(st, 1 + max(sum(s[i:k] in inner for k in range(i + 1, n + 1)) for i in range(n + 1)))
        if op in ("to_list", "iter"):
            def edge(x, below):
                up = max((u for u in inner if x.startswith(u) and (len(u) < len(x) or below)), key=len, default="")
                return x[len(up):]
            return ret(st, sorted([edge(x, False) for x in inner] + [edge(s[i:], True) + "$" for i in range(n + 1)]))
        return None

    @staticmethod
    def branching(s, x):
        return len({s[i + len(x):i + len(x) + 1] for i in range(len(s)) if s.startswith(x, i)}) > 1

    def c_has_substring(self, s, x): return s.has_substring(x)
    def c_count(self, s, x): return s.count_pattern_occurrences(x)
    def c_array(self, s): return s.to_suffix_array()
    def c_lcs(self, s): return s.get_longest_common_substring()
    def c_lrs(self, s): return s.get_longest_repeated_substring()
    def c_lca(self, s, i, j): return s.get_lowest_common_ancestor(i, j)
    def c_to_list(self, s): return s.to_list()
    def c_iter(self, s): return list(s)
    def c_len(self, s): return len(s)
    def c_height(self, s): return s.get_height()
    def c_depth(self, s): return s.get_depth()
    def c_leaves(self, s): return s.count_leaf_nodes()
    def c_str(self, s): return str(s)

    def obs(self, sim, s):
        return (canon(sim.observe("to_list()", s.to_list)), sim.observe("len()", lambda: len(s)), canon(sim.observe("to_suffix_array()", s.to_suffix_array)))

    def match(self, obs, st):
        return st

    def expect(self, st):
        return st

    def shape(self, sim, s):
        return (self.obs(sim, s), sim.observe("str()", lambda: str(s)))

    def check(self, sim, h, flags):
        ob = self.obs(sim, h.sut)
        if h.meta.setdefault("first", ob) != ob:
            raise Violation("frozen", "an immutable suffix trie of %r changed" % h.st)
        sim.state((self.name, h.st))

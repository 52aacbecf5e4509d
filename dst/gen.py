"""Seeded generation of values and profiles. All choices come from one PRNG per run."""
import math

from core import Bad, Elem, Ref, Src
from env import RealRandom

NASTY_STR = ["", " ", "a", "b", "ab", "a\nb", "\n", "é", "⟶", "0", "1", "None", "x" * 30, "}", "$", "\\n",
             "\r", "a\tb", "a\r\nb", "a\u2028b", "\x85", "\x0b", "e\u0301", "\x00", "ß", "{0}", "%s %d", "{", "└─", "a\n\nb", "\udcff"]


class Gen:
    def __init__(self, seed, w):
        self.r = RealRandom(seed)
        self.w = w
        self.eid = 0
        r = self.r
        self.vprofile = r.choice(["int", "int", "elem", "elem", "str", "float", "mixed", "tuple", "dupint", "odd"])
        self.nprofile = r.choice(["small", "small", "small", "wide", "mixedif", "dense", "huge", "asc", "desc", "zigzag", "inf", "floats", "near"])
        self.span = r.choice([3, 5, 8, 12, 20, 40, 100])
        self.ctr = 0
        self.filling = True
        if w.sim.cfg.get("long"):
            self.nprofile = r.choice(["wide", "wide", "asc", "desc", "zigzag", "floats", "mixedif", "huge"])
            self.span = r.choice([40, 100, 300])

        if w.sim.cfg.get("huge"):
            self.nprofile = r.choice(["wide", "wide", "mixedif"])
            self.span = r.choice([700, 10 ** 4, 10 ** 7])

    def bulk(self, n, hi, p=0.5, cap=2000):
        """How many elements to build a container of: usually n, in big runs up to hi, in huge ones beyond what small integers count."""
        c = self.w.sim.cfg
        if c.get("huge") and self.chance(0.8):
            return self.r.randrange(257, min(c["huge"], cap))
        return self.r.randrange(30, hi) if c.get("big") and self.chance(p) else n

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[int(self.r.random() * len(xs))]

    def weighted(self, pairs):
        tot = sum(p for _, p in pairs)
        x = self.r.random() * tot
        for v, p in pairs:
            x -= p
            if x < 0:
                return v
        return pairs[-1][0]

    def bias(self, n, usual):
        """Weight of growing: in a long history, fill up to a size far beyond the usual, drain, and again."""
        t = self.w.sim.cfg.get("long")
        if not t:
            return usual
        if n >= t:
            self.filling = False
        elif n <= t // 6:
            self.filling = True
        return 6.0 if self.filling else 0.3

    # -------------------------------------------------- general elements
    def elem(self, pool=None):
        """A value for a general container; with a pool, often an equal one."""
        r = self.r
        if pool and r.random() < 0.35:
            x = self.pick(pool)
            if isinstance(x, Elem):
                return self.new_elem(x.key)
            return x
        p = self.vprofile
        if p == "mixed":
            p = self.pick(["int", "elem", "str", "float", "tuple", "bool", "odd"])
        if p == "int":
            return r.randrange(-self.span, self.span)
        if p == "dupint":
            return r.randrange(3)
        if p == "elem":
            return self.new_elem(r.randrange(max(2, self.span // 2)))
        if p == "str":
            return self.pick(NASTY_STR)
        if p == "float":
            return self.pick([0.0, -0.0, 1.0, 1, 2.5, float("inf"), float("-inf"), 1e300, -3])
        if p == "odd":
            # falsy, unhashable, mutable, large
            return self.pick([0, "", False, 0.0, (), [], [0], [1, [2]], b"", b"ab", 10 ** 30, [None], (None, 1), -1])
        if p == "bool":
            return self.pick([True, False])
        return (r.randrange(3), self.pick(["a", "b"]))

    def new_elem(self, key):
        e = Elem(key, self.eid)
        self.w.elems[self.eid] = e
        self.eid += 1
        return e

    def probe(self, pool):
        """A value to look for: present, equal-but-distinct, or absent."""
        if pool and self.chance(0.7):
            x = pool[self.pick((0, -1))] if self.chance(0.15) else self.pick(pool)
            if isinstance(x, Elem) and self.chance(0.5):
                return self.new_elem(x.key)
            return x
        return self.elem()

    # -------------------------------------------------- numbers
    def num(self, pool=None):
        r = self.r
        if pool and r.random() < 0.3:
            x = self.pick(pool)
            if self.chance(0.3) and x == x and abs(x) < 1e15 and float(x) == x:
                return float(x) if type(x) is int else (int(x) if x == int(x) else x)
            return x
        p = self.nprofile
        self.ctr += 1
        if p == "small":
            return r.randrange(-self.span, self.span)
        if p == "dense":
            return r.randrange(8)
        if p == "wide":
            return r.randrange(-1000, 1000)
        if p == "asc":
            return self.ctr if self.chance(0.9) else r.randrange(max(1, self.ctr))
        if p == "desc":
            return -self.ctr if self.chance(0.9) else -r.randrange(max(1, self.ctr))
        if p == "zigzag":
            return self.ctr if self.ctr % 2 else -self.ctr
        if p == "huge":
            return self.pick([1 << 60, (1 << 53) + 1, float(1 << 53), -(1 << 70), 1e308, 5e-324, 0, -1, 1]) + (r.randrange(3) if self.chance(0.5) else 0)
        if p == "inf":
            return self.pick([float("inf"), 0, 1, -1, 1e9, r.randrange(-5, 5)])
        if p == "floats":
            return round(r.uniform(-10, 10), 1)
        if p == "near":
            return self.near()
        x = r.randrange(-self.span, self.span)
        return float(x) if self.chance(0.4) else (x + 0.5 if self.chance(0.2) else x)

    def near(self):
        """Numbers that differ in their last bits only, also across int and float."""
        b = self.pick([1.0, 0.3, -3.3, 1e-9, 1e16, -0.1, 10 ** 17, 1 << 53, -(1 << 53)])
        k = self.r.randrange(-4, 5)
        if type(b) is int:
            return b + k if self.chance(0.7) else float(b + k)
        return b + k * math.ulp(b)

    def bad_num(self):
        return self.pick([Bad("none"), Bad("extra"), Bad("str"), Bad("bool"), Bad("obj"), Bad("list"), Bad("tree"), Bad("complex")])

    def bad_elem(self):
        return self.pick([Bad("none"), Bad("extra"), Bad("ll"), Bad("tree"), Bad("node")])

    def index(self, n, slack=2):
        return self.r.randrange(-n - slack, n + slack + 1) if self.chance(0.3) else self.r.randrange(0, n + 1)

    def slice(self, n):
        def b():
            x = self.r.random()
            return None if x < 0.3 else self.pick([10 ** 18, -10 ** 18, 1 << 20, n, -n]) if x < 0.34 else self.r.randrange(-n - 2, n + 3)
        st = self.weighted([(None, 5), (1, 2), (2, 2), (3, 1), (-1, 2), (-2, 1), (7, 1), (-5, 1), (n + 1, 0.2), (-n - 1, 0.2), (n - 1 or 1, 0.3), (70, 0.2), (10 ** 18, 0.1)])
        return slice(b(), b(), st)

    def source(self, items, fail_p=0.15, kinds=("raise", "none", "extra")):
        shape = self.weighted([("list", 4), ("tuple", 1), ("gen", 2), ("iter", 3)])
        fail = None
        if self.chance(fail_p):
            fail = (self.pick(list(kinds)), self.r.randrange(len(items) + 1))
            shape = "iter"
        return Src(shape, items, fail)

    def rng(self):
        k = self.weighted([("mt", 5), ("low", 1), ("high", 1), ("p80", 1), ("p20", 1), ("alt", 1), ("few", 2)])
        return [k, self.r.randrange(1 << 30)]

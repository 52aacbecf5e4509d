"""C03 (independence of derived containers) and C19 (pure, interruptible queries)."""
from core import Violation, canon, dec, enc, show
from execute import KINDS, check_all, check_one, describe, run_step, showobs
from history import History
from core import Src


def mutate(v, nested=False):
    """The client scribbles over a list it was given (and over the lists of a list of levels); elements are left alone."""
    if isinstance(v, list):
        for x in v if nested else ():
            mutate(x, True)
        v.reverse()
        if v:
            v.pop()
        v.append("scribble")
        v.insert(0, 10 ** 9)
        v.extend([-7, "x"])
    elif isinstance(v, dict):
        v["scribble"] = 1
    elif isinstance(v, set):
        v.add("scribble")


class Derived(History):
    """Containers built from containers, mutated in turn; returned and source lists scribbled over."""
    kinds = ("ll", "dll", "cll", "skip", "minheap", "maxheap", "bst", "avl", "rbt", "splay", "treap", "trie", "radix", "btree", "suffix")
    hmax = 6
    p_new = 0.16
    every_all = 1
    steps = (15, 60)
    DERIVE = ("copy", "split", "slice", "reverse", "rotate_left_out", "rotate_right_out", "extend")

    def pick_kinds(self, r):
        x = r.random()
        if x < 0.35:
            return [r.choice(("ll", "dll", "cll"))]
        if x < 0.5:
            return ["ll", "dll", "cll"]
        if x < 0.65:
            return [r.choice(("skip", "minheap", "maxheap")), r.choice(("ll", "dll", "cll", "skip"))]
        return list(r.sample(self.kinds, 4))

    def gen_step(self, g, sim, i):
        w = sim.world
        hs = [h for h in w.h.values() if h.kind.family == "seq"]
        if hs and g.chance(0.2):
            h = g.pick(hs)
            op = g.pick([o for o in self.DERIVE if not (o == "slice" and h.kind.circular)])
            op, args = h.kind.args_for(g, w, h, op)
            st = {"c": 0, "h": h.id, "op": op, "a": args}
            if op in ("split", "reverse", "copy", "slice", "rotate_left_out", "rotate_right_out"):
                room = 8 - len(w.h)
                st["out"] = [w.nextid + j if j < room else None for j in range(2 if op == "split" else 1)]
            return self.finish_step(g, sim, st, h.kind)
        st = History.gen_step(self, g, sim, i)
        if st and "k" in st and g.chance(0.5):
            # the source is a list the client goes on using
            st["a"] = [{"src": ["list", x["src"][1], None]} if isinstance(x, dict) and "src" in x and x["src"][2] is None and x["src"][0] != "range" else x for x in st["a"]]
            st["mut"] = 1
        elif st and "h" in st and st["op"] != "drop" and g.chance(0.3):
            h = w.get(st["h"])
            op, args = h.kind.gen_query(g, w, h)
            if op not in self.DERIVE:
                st["op"], st["a"] = op, [enc(x) for x in args]
                st.pop("out", None)
                st["mut"] = 1
        return st

    def exec_step(self, sim, st, i):
        w = sim.world
        if not st.get("mut"):
            return History.exec_step(self, sim, st, i)
        w.srcs = []
        try:
            before = None
            h = w.get(st["h"]) if "h" in st else None
            if h is not None and h.kind.pure(st["op"]) and not (h.kind.name == "splay" and st["op"] == "contains"):
                before = h.kind.shape(sim, h.sut)
            o = History.exec_step(self, sim, st, i)
        finally:
            srcs, w.srcs = w.srcs, None
        if o is None:
            return None
        if st["op"] == "new":
            for lst, snap in srcs:
                if canon(lst) != snap:
                    raise Violation("source-changed", "%s: the list it was built from changed from %s to %s" % (describe(st), show(snap), show(canon(lst))))
                mutate(lst)
                sim.probe("source-list-scribbled")
            check_all(sim, self.flags)
            return o
        holder = h is not None and h.kind.family in ("seq", "bounded")
        # an element that is itself a list is shared with the client by design: only the lists the container makes are its own
        if o.kind == "ret" and isinstance(o.val, (list, dict, set)) and (not holder or st["op"] in ("to_list", "iter")):
            said = canon(o.val)
            mutate(o.val, not holder)
            sim.probe("result-list-scribbled")
            if before is not None:
                now = h.kind.shape(sim, h.sut)
                if now != before:
                    raise Violation("result-aliases", "scribbling over the list returned by %s changed the container from\n%s\nto\n%s" % (
                        describe(st), showobs(before), showobs(now)))
                args = [w.resolve(dec(x, w.elems)) for x in st["a"]]
                again = sim.call(lambda: h.kind.call(h.sut, st["op"], args))
                if again.kind != "ret" or canon(again.val) != said:
                    raise Violation("result-aliases", "%s: first %s; after the client had scribbled over that list, %s" % (
                        describe(st), show(said), show(canon(again.val)) if again.kind == "ret" else repr(again.val)))
            check_one(sim, h, self.flags)
            check_all(sim, self.flags)
        return o


class Queries(History):
    """Every query, also cut short at any line, allocation or element callback."""
    def __init__(self, pid, kinds=None):
        History.__init__(self, pid)
        self.kinds = kinds or self.kinds

    kinds = ("ll", "dll", "cll", "stack", "queue", "deque", "pq", "skip", "bst", "avl", "rbt", "splay", "treap", "minheap", "maxheap",
             "trie", "radix", "btree", "suffix")
    every_all = 0
    p_query = 0.6
    p_new = 0.08
    steps = (15, 50)
    big_p = 0.05
    fault_p = 0.35
    faults = ("interrupt", "interrupt", "interrupt", "alloc", "elem", "elem")

    def config(self, seed, tier):
        cfg = History.config(self, seed, tier)
        cfg["fault_p"] = [0, 0.3, 0.6][seed % 3]
        return cfg

    def pick_kinds(self, r):
        return [r.choice(self.kinds)] if r.random() < 0.6 else list(r.sample(self.kinds, min(3, len(self.kinds))))

    def gen_fault(self, g, sim, st, kind):
        """Faults hit queries only; the point is a fraction of what the undisturbed query does."""
        if "h" not in st:
            al, _ = sim.counts.get((kind.name, "new"), (1, 1))
            return ["alloc", g.r.randrange(al + 1)] if st["op"] == "new" and g.chance(0.5) else None
        if not kind.pure(st["op"]):
            return None
        st["fq"] = [g.pick(self.faults), g.r.randrange(1000)]
        return None

    def gen_step(self, g, sim, i):
        st = History.gen_step(self, g, sim, i)
        if st and "h" in st and self.kinds == ("suffix",) and g.chance(0.2):
            st["mut"] = 1
        return st

    def exec_step(self, sim, st, i):
        w = sim.world
        h = w.get(st["h"]) if "h" in st else None
        if h is None or not h.kind.pure(st["op"]) or not w.refs_ok([dec(x, w.elems) for x in st["a"]]):
            return History.exec_step(self, sim, st, i)
        shapes = {x.id: x.kind.shape(sim, x.sut) for x in w.h.values()}
        fq = st.get("fq")
        sim.measure = bool(fq)
        try:
            o = run_step(sim, st, self.flags)
        finally:
            sim.measure = False
        self.unchanged(sim, st, shapes, "")
        if st.get("mut") and o is not None and o.kind == "ret" and isinstance(o.val, list):
            mutate(o.val, True)
            sim.probe("result-list-scribbled")
            self.unchanged(sim, st, shapes, ", its list then scribbled over,")
            again = {k: v for k, v in st.items() if k not in ("fq", "out")}
            o = run_step(sim, again, self.flags)
        if not fq or o is None:
            return o
        kind, frac = fq
        n = {"interrupt": o.lines or 0, "alloc": o.allocs, "elem": o.cb}[kind]
        if not n:
            kind, n = "interrupt", o.lines or 0
        if not n:
            return o
        again = {k: v for k, v in st.items() if k not in ("fq", "out")}
        o2 = run_step(sim, dict(again, f=[kind, n * frac // 1000] + ([None] if kind == "elem" else [])), self.flags)
        self.unchanged(sim, st, shapes, " cut short by %s" % kind)
        o3 = run_step(sim, again, self.flags)
        if canon(o3.val) != canon(o.val) and not (o.kind == o3.kind == "exc" and type(o.val) is type(o3.val)):
            raise Violation("answer-changed", "%s: first answer %s, after an interrupted attempt %s" % (describe(st), show(canon(o.val)), show(canon(o3.val))))
        self.unchanged(sim, st, shapes, " repeated after an interruption")
        sim.probe("query-cut-short" if o2.kind == "exc" else "query-survived-the-fault")
        return o3

    def start(self, g, sim):
        if g.chance(0.4):
            g.vprofile = "elem"

    def unchanged(self, sim, st, shapes, how):
        for x in sim.world.h.values():
            if x.id in shapes:
                now = x.kind.shape(sim, x.sut)
                if now != shapes[x.id]:
                    raise Violation("query-changes", "%s%s changed container #%d (%s) from\n%s\nto\n%s" % (
                        describe(st), how, x.id, x.kind.name, showobs(shapes[x.id]), showobs(now)))

"""C23: object lifetimes, seen through weak references to elements and through the allocator seam."""
import gc
import weakref

from core import Violation, canon, dec
from env import CTX, LIB, Elem
from execute import KINDS, describe, run_step
from history import History
from kinds_tree import count

LISTS = ("ll", "dll", "cll", "stack", "queue", "deque", "pq", "skip")
GENERAL = ("ll", "dll", "cll", "stack", "queue", "deque", "pq")
NODED = GENERAL + ("skip", "bst", "avl", "rbt", "splay", "treap", "trie", "radix", "minheap", "maxheap", "btree")


def elems_in(v, out):
    if isinstance(v, Elem):
        out[v.id] = v
    elif isinstance(v, (tuple, list)):
        for x in v:
            elems_in(x, out)


class Lifetimes(History):
    kinds = NODED
    p_new = 0.07
    every_all = 0
    hmax = 3
    steps = (15, 60)
    big_p = 0.03
    fault_p = 0.12
    faults = ("alloc", "alloc", "elem", "warn-error")
    frozen = False

    def pick_kinds(self, r):
        x = r.random()
        if x < 0.45:
            return [r.choice(GENERAL)]
        if x < 0.6:
            return ["ll", "dll", "cll"]
        if x < 0.85:
            return [r.choice(NODED)]
        return list(r.sample(NODED, 3))

    def setup(self, cfg, stats):
        if not Lifetimes.frozen:
            gc.collect()
            gc.freeze()
            Lifetimes.frozen = True
        sim = History.setup(self, cfg, stats)
        CTX.track = []
        sim.weak = []
        sim.check_in = 1
        return sim

    def run(self, *a, **k):
        try:
            return History.run(self, *a, **k)
        finally:
            CTX.track = None

    def cleanup(self):
        CTX.track = None

    def start(self, g, sim):
        g.vprofile = "elem"

    def gen_step(self, g, sim, i):
        st = History.gen_step(self, g, sim, i)
        # what the generator made lives on in the recorded step only
        self.forget(sim)
        if st is not None and g.chance(0.2):
            st["gc"] = 1
        return st

    def forget(self, sim):
        """Only models and containers may keep elements; the model's objects are reused by later steps."""
        keep = {}
        for h in sim.world.h.values():
            elems_in(h.st, keep)
        sim.world.elems = keep

    def exec_step(self, sim, st, i):
        w = sim.world
        self.forget(sim)
        known = set(w.elems)
        if st["op"] != "drop":
            for x in st["a"]:
                dec(x, w.elems)
        for id, e in w.elems.items():
            if id not in known:
                sim.weak.append((id, weakref.ref(e)))
        e = None
        o = run_step(sim, st, self.flags)
        ok = o is not None and o.kind == "ret"
        if o is not None:
            o.val = None
        del o
        self.forget(sim)
        if st.get("gc"):
            self.inspect(sim, describe(st) if st["op"] != "drop" else "drop")

    def inspect(self, sim, what):
        w = sim.world
        gc.collect()
        # elements
        stored = set()
        for h in w.h.values():
            d = {}
            elems_in(h.st, d)
            stored |= {id(e) for e in d.values()}
            del d
        alive = []
        for eid, ref in sim.weak:
            e = ref()
            if e is None:
                continue
            if id(e) not in stored and id(e) not in {id(x) for x in w.elems.values()}:
                holders = [type(x).__name__ for x in gc.get_referrers(e) if not isinstance(x, (dict, list)) or x is not alive]
                raise Violation("retained", "element %d is in no container's contents any more (last step %s) but is still alive, held by %s" % (
                    eid, what, sorted(set(holders) - {"frame"})[:4]))
            alive.append((eid, ref))
        e = None
        sim.weak = alive
        # nodes
        live = [r for r in CTX.track if r() is not None]
        CTX.track = live
        n = len(live)
        limit, parts = 0, []
        for h in w.h.values():
            s = self.measure(sim, h)
            d = self.overhead(sim, h)
            parts.append((h.kind.name, h.kind.size(h.st), s, d))
            # an emptied list may keep one blank node
            limit += s + d + (1 if h.kind.name in LISTS and not h.kind.size(h.st) else 0)
        if n > limit:
            raise Violation("nodes", "%d nodes and containers of the package are alive after %s; the contents account for %d (%s)" % (n, what, limit, parts))
        sim.probe("lifetime-inspection")

    def measure(self, sim, h):
        """How many nodes the present contents and structure account for."""
        k = h.kind.name
        if k == "skip":
            lv = h.kind.levels(sim, h.sut)
            return sum(map(len, lv)) + len(lv)
        if k in ("trie", "radix"):
            return count(h.kind.parse(sim, h.sut, h.st))
        if k in ("minheap", "maxheap"):
            return 0
        return h.kind.size(h.st)

    def overhead(self, sim, h):
        """Fixed part: what a fresh container with the same contents needs beyond that."""
        kd = h.kind
        track, CTX.track = CTX.track, []
        try:
            twin = self.twin(sim, h)
            gc.collect()
            n = sum(r() is not None for r in CTX.track)
            m = twin.m
            del twin
        finally:
            CTX.track = track
        return n - m

    def twin(self, sim, h):
        kd, st = h.kind, h.st
        t = _Twin()
        t.kind, t.st, t.meta, t.id = kd, st, {}, -1
        n = kd.name
        if n in ("ll", "dll", "cll"):
            t.sut = kd.make([list(st)])
        elif n in ("stack", "queue", "deque", "pq"):
            t.sut = kd.make([st[0]])
            add = {"stack": "push", "queue": "enqueue", "deque": "append_right", "pq": "enqueue"}[n]
            seq = st[1] if n in ("stack", "deque") else st[1][::-1]
            for x in seq:
                t.sut.enqueue(x[0], x[1]) if n == "pq" else getattr(t.sut, add)(x)
        elif n in ("trie", "radix"):
            t.sut = kd.make([])
            for x in st:
                t.sut.insert(x)
        elif n == "treap":
            t.sut = kd.make([[x for x, _ in st]])
        elif n == "btree":
            def nest(x):
                # an only right child cannot be written as a nested list: mirror it, the node count is the same
                l, r = (x[1], x[2]) if x[1] else (x[2], x[1])
                return [x[0]] + ([nest(l)] if l else []) + ([nest(r)] if r else [])
            t.sut = kd.make([nest(st)] if st else [])
        else:
            t.sut = kd.make([list(st)]) if st else kd.make([])
        t.m = self.measure(sim, t)
        return t

    def finish(self, sim):
        w = sim.world
        History.finish(self, sim)
        self.forget(sim)
        self.inspect(sim, "the end of the history")
        # stored elements must live although only their containers hold them now
        want = {h.id: repr(h.kind.expect(h.st)) for h in w.h.values() if h.kind.name in GENERAL}
        for h in w.h.values():
            if h.kind.name in GENERAL:
                h.st = None
        w.elems = {}
        gc.collect()
        for h in w.h.values():
            if h.id in want:
                got = repr(h.kind.obs(sim, h.sut))
                if got != want[h.id]:
                    raise Violation("lost", "%s no longer holds its elements: %s, expected %s" % (h.kind.name, got[:300], want[h.id][:300]))
        # and dropping the containers themselves releases everything
        w.h.clear()
        h = None
        gc.collect()
        left = [eid for eid, r in sim.weak if r() is not None]
        nodes = [type(r()).__name__ for r in CTX.track if r() is not None]
        if left or nodes:
            raise Violation("leak", "after all containers are gone, elements %s and objects %s are alive" % (left[:10], nodes[:10]))


class _Twin:
    pass

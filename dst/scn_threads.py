"""C20 (concurrent readers) and C21 (distinct containers on distinct threads)."""
from baton import Baton, gen_sched
from core import H, LineBudget, Ref, Sim, Violation, World, canon, dec, enc, show
from env import CTX, LIB
from execute import KINDS, RealMemory, check_all, check_one, describe, run_step, showobs
from gen import Gen
from history import SPAWN, History

READ_KINDS = ("ll", "dll", "cll", "stack", "queue", "deque", "pq", "skip", "bst", "avl", "rbt", "splay", "treap", "minheap", "maxheap",
              "trie", "radix", "btree", "suffix")


def result_key(sim, v):
    """A comparable picture of a query's result, looking into derived containers."""
    if isinstance(v, tuple) and v and all(isinstance(x, LIB.Extra) for x in v):
        return tuple(result_key(sim, x) for x in v)
    if isinstance(v, LIB.Extra):
        for k in KINDS.values():
            if type(v) is getattr(LIB, k.cls):
                return (k.name, repr(k.obs(sim, v)))
    return canon(v)


class Readers(History):
    kinds = READ_KINDS
    every_all = 0
    p_new = 0.1
    hmax = 3
    steps = (12, 30)
    big_p = 0.0

    def config(self, seed, tier):
        cfg = History.config(self, seed, tier)
        cfg["target"] = min(cfg["target"], 12)
        cfg["n"] = min(cfg["n"], 40)
        cfg["long"] = 0
        return cfg

    def pick_kinds(self, r):
        return [r.choice(self.kinds)] if r.random() < 0.7 else list(r.sample(self.kinds, 2))

    def gen_step(self, g, sim, i):
        w = sim.world
        hs = [h for h in w.h.values() if h.kind.size(h.st) <= 40]
        if not hs or g.chance(0.7):
            return History.gen_step(self, g, sim, i)
        n = g.weighted([(2, 5), (3, 3), (5, 1)])
        main = g.pick(hs)
        qs = []
        for _ in range(n):
            h = main if g.chance(0.8) else g.pick(hs)
            op, args = h.kind.gen_query(g, w, h)
            qs.append([h.id, op, [enc(x) for x in args]])
        x = g.r.random()
        if x < 0.25:
            qs[1] = qs[0]
        elif x < 0.65:
            # the same kind of question with different arguments
            for j in range(1, n):
                for _ in range(14):
                    op, args = main.kind.gen_query(g, w, main)
                    if op == qs[0][1] and qs[0][0] == main.id:
                        qs[j] = [main.id, op, [enc(a) for a in args]]
                        break
        st = {"op": "readers", "queries": qs, "sched": gen_sched(g, n)}
        if g.chance(0.2):
            st["kill"] = [g.r.randrange(n), g.r.randrange(1, 40)]
        if g.chance(0.25):
            st["opc"] = 1
        return st

    def exec_step(self, sim, st, i):
        if st["op"] != "readers":
            return History.exec_step(self, sim, st, i)
        w = sim.world
        qs, solo = [], []
        for hid, op, a in st["queries"]:
            h = w.get(hid)
            args = [dec(x, w.elems) for x in a]
            if h is None or not w.refs_ok(args):
                continue
            o = run_step(sim, {"c": 0, "h": hid, "op": op, "a": a}, self.flags)
            solo.append(("exc", type(o.val).__name__) if o.kind == "exc" else ("ret", result_key(sim, o.val)))
            qs.append((h, op, [w.resolve(x) for x in args]))
        if len(qs) < 2:
            return None
        shapes = {h.id: h.kind.shape(sim, h.sut) for h in w.h.values()}
        kill = {st["kill"][0]: st["kill"][1]} if st.get("kill") else {}

        def job(h, op, args):
            def f():
                CTX.in_sut = True
                try:
                    return ("ret", h.kind.call(h.sut, op, args))
                except (Exception, KeyboardInterrupt) as e:
                    return ("exc", type(e).__name__)
            return f
        baton = Baton([job(*q) for q in qs], st["sched"], sim.line_budget, bool(st.get("opc")), kill)
        save, sim.line_budget = sim.line_budget, None
        try:
            res = baton.run()
        finally:
            CTX.in_sut = False
            sim.line_budget = save
        sim.steps += 1
        sim.probe("preemptions", baton.switches)
        sim.fault("preemption", baton.switches)
        if baton.killed:
            sim.fault("reader-killed")
        sim.log("readers", [(q[0].id, q[1]) for q in qs], baton.switches, baton.lines, [r[0] for r in res])
        sim.state(("sched", tuple((q[0].kind.name, q[1]) for q in qs), tuple(baton.lines), baton.switches))
        for t, (q, want, got) in enumerate(zip(qs, solo, res)):
            if t in baton.killed:
                continue
            key = got if got[0] == "exc" else ("ret", result_key(sim, got[1]))
            if key != want:
                raise Violation("reader", "reader %d running %s on %s #%d beside %s got %s, alone it gets %s" % (
                    t, q[1], q[0].kind.name, q[0].id, [(x[0].id, x[1]) for x in qs], show(key[1]) if got[0] == "ret" else key, show(want[1]) if want[0] == "ret" else want))
        for h in w.h.values():
            now = h.kind.shape(sim, h.sut)
            if now != shapes[h.id]:
                raise Violation("readers-change", "concurrent readers %s changed %s #%d from\n%s\nto\n%s" % (
                    [(x[0].id, x[1]) for x in qs], h.kind.name, h.id, showobs(shapes[h.id]), showobs(now)))
        for (h, op, args), want in zip(qs, solo):
            check_one(sim, h, self.flags)
        return None


class Threads(History):
    kinds = READ_KINDS
    every_all = 2
    p_new = 0.1
    hmax = 5
    steps = (5, 14)
    blind_p = 0.6
    big_p = 0.0
    fault_p = 0.05
    faults = ("alloc",)

    def config(self, seed, tier):
        cfg = History.config(self, seed, tier)
        cfg["n"] = 3 + seed % (8 if tier != "thorough" else 20)
        cfg["target"] = min(cfg["target"], 10)
        return cfg

    def pick_kinds(self, r):
        x = r.random()
        if x < 0.55:
            return [r.choice(self.kinds)]
        if x < 0.7:
            return list(r.choice([("minheap", "maxheap"), ("ll", "dll", "cll"), ("queue", "deque", "pq"), ("bst", "avl", "rbt", "splay", "treap"), ("trie", "radix", "suffix"), ("skip", "ll")]))
        return list(r.sample(self.kinds, 4))

    def focused(self, g, s, focus):
        hs = list(s.world.h.values())
        h = g.pick(hs)
        op, args = h.kind.gen(g, s.world, h) if g.chance(0.6) else h.kind.gen_query(g, s.world, h)
        if op != focus:
            return None
        st = {"c": 0, "h": h.id, "op": op, "a": args}
        if op in SPAWN:
            st["out"] = [s.world.nextid + j for j in range(2 if op == "split" else 1)]
        return self.finish_step(g, s, st, h.kind)

    def setup(self, cfg, stats):
        sim = History.setup(self, cfg, stats)
        sim.sections = 0
        return sim

    def gen_step(self, g, sim, i):
        w = sim.world
        if g.chance(0.35):
            st = History.gen_step(self, g, sim, i)
            if st:
                st.pop("rng", None)
            return st
        n = g.weighted([(2, 5), (3, 3), (4, 1)])
        own = [[] for _ in range(n)]
        hs = list(w.h.values())
        for hid in sorted(w.h):
            if g.chance(0.7):
                own[g.r.randrange(n)].append(hid)
        st = {"op": "threads", "own": own, "threads": None, "gen": [g.r.randrange(1 << 40), [g.r.randrange(2, 8) for _ in range(n)]],
              "sched": gen_sched(g, n, True), "id": sim.sections}
        if g.chance(0.2):
            st["opc"] = 1
        if hs and g.chance(0.35):
            # every thread mostly runs the same operation, each on its own containers
            h = g.pick(hs)
            st["focus"] = (h.kind.gen(g, w, h) if g.chance(0.7) else h.kind.gen_query(g, w, h))[0]
        return st

    def exec_step(self, sim, st, i):
        if st["op"] != "threads":
            return History.exec_step(self, sim, st, i)
        w = sim.world
        n = len(st["own"])
        if st["threads"] is not None:
            n = min(n, len(st["threads"]))
        sim.sections = max(sim.sections, st["id"] + 1)
        sims = []
        for t in range(n):
            s = Sim(sim.cfg, sim.stats)
            s.cur = {}
            s.world.elems = w.elems
            s.world.nextid = 10000 * (st["id"] + 1) + 1000 * t
            for hid in st["own"][t]:
                if hid in w.h:
                    s.world.h[hid] = w.h[hid]
            sims.append(s)
        gen = st["threads"] is None
        if gen:
            st["threads"] = [[] for _ in range(n)]
            seed, counts = st.pop("gen")
        focus = st.pop("focus", None)

        def job(t):
            s, steps = sims[t], st["threads"][t]

            def f():
                if gen:
                    g = Gen(H(seed, t), s.world)
                    g.eid = 1000000 * (st["id"] + 1) + 100000 * t
                    for j in range(counts[t]):
                        x = History.gen_step(self, g, s, j)
                        for _ in range(12 if focus and s.world.h and j else 0):
                            if x and x["op"] == focus:
                                break
                            y = self.focused(g, s, focus)
                            x = y or x
                        if x is None:
                            continue
                        x.pop("rng", None)
                        steps.append(x)
                        run_step(s, x, self.flags)
                else:
                    for x in steps:
                        run_step(s, x, self.flags)
            return f
        baton = Baton([job(t) for t in range(n)], st["sched"], sim.line_budget, bool(st.get("opc")))
        save, sim.line_budget = sim.line_budget, None
        before = set(x for o in st["own"][:n] for x in o)
        try:
            baton.run()
        finally:
            sim.line_budget = save
            if baton.error is not None and sim.trace is not None:
                sim.log("threads", [[describe(x) if "a" in x else x["op"] for x in steps] for steps in st["threads"]])
            for s in sims:
                sim.steps += s.steps
                sim.changes += s.changes
        sim.fault("preemption", baton.switches)
        sim.probe("preemptions", baton.switches)
        sim.log("threads", [s.digest.hexdigest() for s in sims], baton.switches, baton.lines)
        sim.state(("section", tuple(baton.lines), baton.switches, tuple(sorted({h.kind.name for s in sims for h in s.world.h.values()}))))
        for hid in before:
            w.h.pop(hid, None)
        for s in sims:
            sim.states |= s.states
            w.h.update(s.world.h)
        check_all(sim, self.flags)
        for h in list(w.h.values()):
            check_one(sim, h, self.flags)
        while len(w.h) > 8:
            del w.h[min(w.h)]
        return None

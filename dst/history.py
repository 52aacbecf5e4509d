"""Multi-client histories over a world of containers: generation (recorded as concrete steps) and execution."""
from core import H, LineBudget, Ref, RunTimeout, Sim, Violation, dec, enc, set_rng
from env import CTX, LIB, RNG, RealRandom
from execute import KINDS, RANDOM_KINDS, check_all, check_one, run_step
from gen import Gen


def new_stats():
    return {"runs": 0, "steps": 0, "faults": {}, "probes": {}, "states": set(), "digests": set(), "nontrivial": set(),
            "samples": [], "lines": 0}


SPAWN = ("split", "reverse", "copy", "slice", "rotate_left_out", "rotate_right_out")
GROW = ("insert", "add", "push", "enqueue", "append", "extend")
SHRINK = ("remove", "del", "pop", "dequeue", "clear")


# Properties that promise something about operations cut short by an allocation failure or an escalated warning. The others judge only what
# follows a failure that left the container as it was before or after; what such a failure may leave behind is C18's question.
ATOMIC = frozenset(("C09", "C10", "C11", "C12", "C18", "C19", "C22", "C23", "C26", "C27"))


class History:
    """Base scenario. Subclasses choose kinds, fault menus, and extra checks."""
    kinds = ()
    flags = {}
    every_all = 6          # check every other container each so many steps
    hmax = 4
    steps = (20, 90)
    p_new = 0.06
    fault_p = 0.0
    faults = ()
    p_query = 0.0
    big_p = 0.12
    long_p = 0.025         # share of long histories over many more elements
    fills = False          # the container is filled one element at a time
    huge_p = 0.0           # share of histories over hundreds of elements from the start
    blind_p = 0.2          # share of histories most of whose steps are judged by their outcomes alone
    rel = 0.12             # weight of each relational operator on lists

    def __init__(self, pid):
        self.pid = pid

    # ------------------------------------------------ configuration of one run
    def config(self, seed, tier):
        r = RealRandom(seed)
        big = r.random() < self.big_p
        lo, hi = self.steps
        n = r.randrange(lo, hi)
        if tier == "thorough" and r.random() < 0.3:
            n = n * 3
        if r.random() < 0.3:
            n = r.randrange(5, 16)
        long = r.choice([12, 25, 50, 100]) if r.random() < self.long_p else 0
        if long:
            n = r.randrange(100, 260)
        huge = r.choice([300, 400, 600, 1200]) if not long and r.random() < self.huge_p else 0
        if huge:
            n = r.randrange(4, 20)
            if self.fills:
                n, long = 450, 300
        blind = r.choice([0.7, 0.9, 1.0]) if r.random() < self.blind_p else 0
        return {"seed": seed, "n": n, "blind": blind, "abandon": self.pid not in ATOMIC, "big": big, "long": long, "huge": huge, "clients": r.choice([1, 2, 2, 3, 5]),
                "target": r.choice([1, 2, 3, 5, 8, 12, 20, 40 if big else 10]),
                "hmax": r.choice([1, 2, 3, self.hmax]) if not (long or huge) else r.choice([1, 1, 2]), "rel": self.rel, "kinds": self.pick_kinds(r),
                "fault_p": r.choice([0.0, 0.0, self.fault_p, self.fault_p, 2 * self.fault_p]) if self.fault_p else 0}

    def pick_kinds(self, r):
        return list(self.kinds)

    # ------------------------------------------------ a run
    def setup(self, cfg, stats):
        CTX.reset()
        RNG.mode = None
        set_rng(["mt", cfg["seed"] & 0xffffffff])
        sim = Sim(cfg, stats)
        sim.cur = {}
        return sim

    def run(self, cfg, stats, steps=None, trace=None, line_budget=None):
        """Returns (sim, executed steps, Violation or None). With steps: replays them."""
        sim = self.setup(cfg, stats)
        sim.trace = trace
        sim.line_budget = line_budget
        done = []
        self.active = (sim, done)
        viol = None
        try:
            if steps is None:
                g = Gen(H(cfg["seed"], "gen"), sim.world)
                self.start(g, sim)
                for i in range(cfg["n"]):
                    st = self.gen_step(g, sim, i)
                    if st is None:
                        continue
                    done.append(st)
                    self.exec_step(sim, st, i)
            else:
                for i, st in enumerate(steps):
                    done.append(st)
                    self.exec_step(sim, st, i)
            self.finish(sim)
        except Violation as v:
            viol = v
        except LineBudget as b:
            viol = Violation("nontermination", "the last step does not terminate (over %d lines of package code in one call)" % line_budget)
        if viol is not None:
            sim.log("VIOLATION", viol.clause, viol.msg)
        self.active = None
        stats["steps"] += sim.steps
        return sim, done, viol

    def start(self, g, sim):
        pass

    # ------------------------------------------------ generation
    def gen_step(self, g, sim, i):
        w, cfg = sim.world, sim.cfg
        r = g.r
        c = r.randrange(cfg["clients"])
        hs = list(w.h.values())
        if not hs or r.random() < self.p_new:
            if len(hs) >= cfg["hmax"] and hs:
                return {"op": "drop", "h": g.pick(hs).id}
            k = g.pick(cfg["kinds"])
            return self.finish_step(g, sim, {"c": c, "op": "new", "k": k, "a": KINDS[k].gen_new(g, w), "out": [w.nextid]}, KINDS[k])
        cur = sim.cur.get(c)
        h = w.get(cur) if cur is not None and r.random() < 0.75 else None
        if h is None:
            h = g.pick(hs)
            sim.cur[c] = h.id
        if cfg.get("blind") and g.chance(0.3):
            op, args = self.echo(g, w, h)
        elif self.p_query and r.random() < self.p_query:
            op, args = h.kind.gen_query(g, w, h)
        else:
            op, args = h.kind.gen(g, w, h)
            if op == "clear" and cfg.get("long") and g.chance(0.85):
                op, args = h.kind.gen(g, w, h)
        st = {"c": c, "h": h.id, "op": op, "a": args}
        if op in SPAWN:
            room = cfg["hmax"] + 2 - len(hs)
            st["out"] = [w.nextid + j if j < room else None for j in range(2 if op == "split" else 1)]
        return self.finish_step(g, sim, st, h.kind)

    def echo(self, g, w, h):
        """The same question again after changes that, preferably, brought the size back: answers remembered from before show here."""
        last = h.meta.setdefault("echo", [])
        n = h.kind.size(h.st)
        if last and g.chance(0.5):
            op, args, size = g.pick(last)
            want = GROW if n < size else SHRINK if n > size else None
            if want is None or g.chance(0.3):
                return op, [dec(a, w.elems) for a in args]
            for _ in range(6):
                op, args = h.kind.gen(g, w, h)
                if op.startswith(want):
                    break
            return op, args
        op, args = h.kind.gen_query(g, w, h)
        if all(type(a) is not Ref for a in args):
            last.append((op, [enc(a) for a in args], n))
            del last[:-4]
        return op, args

    def finish_step(self, g, sim, st, kind):
        st["a"] = [enc(x) for x in st["a"]]
        b = sim.cfg.get("blind")
        if self.every_all and g.chance(1 / self.every_all if not b else 0.02):
            st["chk"] = 1
        if b and g.chance(b):
            st["b"] = 1
        if kind.name in RANDOM_KINDS:
            st["rng"] = g.rng()
        if self.faults and g.r.random() < sim.cfg["fault_p"]:
            f = self.gen_fault(g, sim, st, kind)
            if f:
                st["f"] = f
        return st

    def gen_fault(self, g, sim, st, kind):
        f = g.pick(self.faults)
        al, cb = sim.counts.get((kind.name, st["op"]), (1, 1))
        if cb and (kind.name, st["op"]) in sim.counts and "elem" in self.faults and g.chance(0.5):
            f = "elem"          # callbacks are rarer than allocations: take the chance
        if f == "elem" and not cb and g.chance(0.9):
            f = "alloc" if al else "warn-error"
        k = lambda n: 0 if g.chance(0.35) else g.r.randrange(0, max(1, n) + 1)
        if f == "alloc":
            return ["alloc", k(al)]
        if f == "elem":
            return ["elem", k(cb), None]
        if f == "interrupt":
            return ["interrupt", g.r.randrange(1, 4) if g.chance(0.2) else g.r.randrange(0, g.pick([10, 40, 150]))]
        return ["warn-error"]

    # ------------------------------------------------ execution
    def exec_step(self, sim, st, i):
        flags = self.flags
        if sim.cfg.get("deep_every") and i % sim.cfg["deep_every"] == 0:
            flags = dict(flags, deep=True)
        o = run_step(sim, st, flags)
        if o is not None and st.get("chk"):
            check_all(sim, self.flags)
        return o

    def finish(self, sim):
        if not sim.world.h:
            return
        for h in list(sim.world.h.values()):
            check_one(sim, h, dict(self.flags, deep=True))
        check_all(sim, self.flags)

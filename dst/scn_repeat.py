"""C22: a seeded program, executed twice after different pasts and under different entropy, does the same thing."""
import json
import os
import subprocess
import tempfile

from core import H, LineBudget, Sim, Violation, canon, enc, show
from env import CTX, RNG, RealRandom
from execute import KINDS, RANDOM_KINDS, describe, run_step, showobs
from gen import Gen
from history import History

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDSET = ("skip", "treap", "pq", "skip", "treap", "pq", "ll", "dll", "queue", "bst", "avl", "rbt", "splay", "minheap", "trie", "radix", "stack", "deque", "cll", "maxheap", "suffix", "btree")


class Repeat(History):
    kinds = KINDSET
    hmax = 5
    p_new = 0.12
    every_all = 0
    steps = (10, 45)
    big_p = 0.08

    def config(self, seed, tier):
        cfg = History.config(self, seed, tier)
        r = RealRandom(H(seed, "c22"))
        cfg["mode"] = r.choice(["global", "global", "global", "treap", "pq"])
        cfg["hmax"] = max(2, cfg["hmax"])
        if cfg["mode"] != "global":
            cfg["kinds"] = ["ll", "bst", "trie", "queue", "suffix"]
        cfg["pseed"] = r.randrange(1000)
        return cfg

    def pick_kinds(self, r):
        return list(r.sample(KINDSET, 6)) + [r.choice(("skip", "treap", "pq")), r.choice(("suffix", "skip", "treap", "pq"))]

    # ------------------------------------------------ generation
    def finish_step(self, g, sim, st, kind):
        st["a"] = [enc(x) for x in st["a"]]
        return st

    def gen_prog(self, g, sim, i):
        cfg = sim.cfg
        mode = cfg["mode"]
        if i == 0:
            if mode == "treap":
                return {"op": "new", "k": "treap", "a": [enc(self.numsrc(g)), cfg["pseed"]], "out": [sim.world.nextid]}
            if mode == "pq":
                return {"op": "new", "k": "pq", "a": [g.pick([3, 5, 1000]), cfg["pseed"]], "out": [sim.world.nextid]}
            return {"op": "seed", "v": cfg["pseed"]}
        if mode == "global":
            x = g.r.random()
            if x < 0.03:
                return {"op": "seed", "v": g.r.randrange(50)}
            if x < 0.08:
                return {"op": "draw"}
        hs = [h for h in sim.world.h.values() if hasattr(h.kind, "gen_query")]
        if hs and g.chance(0.15):
            h = g.pick([h for h in hs if h.kind.name == "suffix"] or hs)
            op, args = h.kind.gen_query(g, sim.world, h)
            if op not in ("copy", "slice", "split", "reverse", "rotate_left_out", "rotate_right_out"):
                return self.finish_step(g, sim, {"c": 0, "h": h.id, "op": op, "a": args}, h.kind)
        st = History.gen_step(self, g, sim, i)
        if st and st["op"] == "new" and st["k"] in ("treap", "pq") and mode == "global" and g.chance(0.25):
            st["a"] = (st["a"] or [{"src": ["list", [], None]} if st["k"] == "treap" else 50])[:1] + [g.r.randrange(5)]
        if st and st.get("h") is not None and st["op"] == "insert" and len(st["a"]) > 1 and g.chance(0.6):
            st["a"][1] = None         # let the package draw the priority
        if st and st["op"] == "enqueue" and g.chance(0.6):
            st["a"][1:] = [None] if len(st["a"]) > 1 else []
        return st

    def numsrc(self, g):
        from core import Src
        return Src("list", [g.num() for _ in range(g.r.randrange(0, 8))])

    # ------------------------------------------------ one execution of the program
    def fresh(self, cfg, stats, which):
        CTX.reset()
        CTX.entropy = 1000 * (which + 1)
        CTX.idsalt = 1 + which
        RNG.mode = None
        RealRandom.seed(RNG, "past-%d-%d" % (cfg["seed"], which))
        sim = Sim(cfg, stats)
        sim.cur = {}
        return sim

    def past(self, cfg, stats, which, steps):
        """Whatever happened before: other containers, kept alive or dropped. Its own misbehaviour is not judged here."""
        sim = self.fresh(cfg, stats, which)
        for st in steps:
            try:
                run_step(sim, st, {})
            except (Violation, LineBudget):
                pass
        return sim

    def gen_past(self, cfg, stats, which):
        r = RealRandom(H(cfg["seed"], "past", which))
        n = r.choice([0, 0, 3, 10, 25])
        sim = self.fresh(dict(cfg, kinds=list(KINDSET)), stats, which)
        g = Gen(H(cfg["seed"], "pastgen", which), sim.world)
        out = []
        for i in range(n):
            st = History.gen_step(self, g, sim, i)
            st["pre"] = which
            out.append(st)
            try:
                run_step(sim, st, {})
            except (Violation, LineBudget):
                pass
        return out

    def one(self, sim, st):
        """Execute a program step; returns the observable record."""
        if st["op"] == "seed":
            RNG.seed(st["v"])
            return ("seed",)
        if st["op"] == "draw":
            return ("draw", RNG.random())
        w = sim.world
        kn = st.get("k") or (w.get(st["h"]).kind.name if w.get(st.get("h")) else None)
        if kn is None:
            return ("skipped",)
        before = RNG.getstate() if kn not in RANDOM_KINDS else None
        try:
            o = run_step(sim, st, {"set": False, "shape": False, "color": False, "prio": False})
        except Violation as v:
            return ("bad", v.clause)        # judged by another property; here it only has to repeat
        if o is None:
            return ("skipped",)
        if before is not None and RNG.getstate() != before:
            raise Violation("random-stream", "%s uses no randomness but moved the random stream" % describe(st))
        rec = [o.kind, canon(o.val) if o.kind == "ret" else type(o.val).__name__, tuple(o.warns)]
        for id in [st.get("h")] + list(st.get("out") or []):
            x = w.get(id)
            if x is not None:
                try:
                    rec.append((id, x.kind.name, repr(x.kind.obs(sim, x.sut)), repr(x.kind.shape(sim, x.sut))))
                except Violation as v:
                    rec.append((id, "bad", v.clause))
        return tuple(rec)

    def run(self, cfg, stats, steps=None, trace=None, line_budget=None):
        self.active = None
        viol = None
        if steps is None:
            pre = self.gen_past(cfg, stats, 0) + self.gen_past(cfg, stats, 1)
            prog = []
        else:
            pre = [s for s in steps if "pre" in s]
            prog = [s for s in steps if "pre" not in s]
        keep = self.past(cfg, stats, 0, [s for s in pre if s["pre"] == 0])
        sim = Sim(cfg, stats)
        sim.cur = {}
        sim.trace, sim.line_budget = trace, line_budget
        recs = []
        done = list(pre)
        self.active = (sim, done)
        try:
            if steps is None:
                g = Gen(H(cfg["seed"], "gen"), sim.world)
                for i in range(cfg["n"]):
                    st = self.gen_prog(g, sim, i)
                    if st is None:
                        continue
                    prog.append(st)
                    done.append(st)
                    recs.append(self.one(sim, st))
            else:
                for st in prog:
                    done.append(st)
                    recs.append(self.one(sim, st))
            ok = cfg["mode"] == "global" and prog and prog[0]["op"] == "seed" or \
                prog and prog[0]["op"] == "new" and prog[0]["k"] == cfg["mode"] and len(prog[0]["a"]) == 2
            for i, (st, r) in enumerate(zip(prog, recs)):
                sim.log("rec", r)
                sim.state(r)
            del keep
            keep2 = self.past(cfg, stats, 1, [s for s in pre if s["pre"] == 1])
            sim2 = Sim(cfg, stats)
            sim2.cur = {}
            sim2.line_budget = line_budget
            for i, (st, r) in enumerate(zip(prog, recs)):
                r2 = self.one(sim2, st)
                if r2 != r and ok:
                    raise Violation("differs", "step %d (%s) gives %s in one execution and %s in another with the same seed" % (
                        i, describe(st) if "a" in st else st["op"], showobs(r), showobs(r2)))
            sim.probe("program-repeated")
            sim.fault("entropy-change")
            if pre:
                sim.fault("prior-history-change")
        except Violation as v:
            viol = v
        except LineBudget:
            viol = Violation("nontermination", "the last step does not terminate")
        if viol is not None:
            sim.log("VIOLATION", viol.clause, viol.msg)
        self.active = None
        stats["steps"] += sim.steps
        return sim, done, viol

    # ------------------------------------------------ hash seeds: separate processes
    HASHSEEDS = ("0", "1", "31337")

    def digests(self, hs, args):
        p = subprocess.run([os.path.join(VERIF, "check")] + args, capture_output=True, text=True, timeout=600, env=dict(os.environ, DST_HASHSEED=hs))
        if p.returncode not in (0, 1):
            raise RuntimeError("digest run failed: %s" % p.stderr[-500:])
        return p.stdout.split("\n")

    def preflight(self, base, tier):
        n = 1500 if tier == "thorough" else 300
        outs = [self.digests(hs, ["--digest", "C22", str(n), "--seed", str(base)]) for hs in self.HASHSEEDS]
        cov = {"hash_seeds": list(self.HASHSEEDS), "programs_per_hash_seed": n}
        for i, rows in enumerate(zip(*outs)):
            if len(set(rows)) > 1:
                j = next(j for j in range(1, len(rows)) if rows[j] != rows[0])
                path, msg = self.hash_replay(base, i, [self.HASHSEEDS[0], self.HASHSEEDS[j]])
                if path:
                    return {"coverage": cov, "violation": msg, "replay": path}
                # not a matter of the hash seed alone: repeat the whole batch
                for _ in range(4):
                    d = {"property": self.pid, "preflight": True, "batch": n, "base": base, "hash_seeds": list(self.HASHSEEDS), "clause": "hash-seed"}
                    if self.batch_differs(d):
                        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                        path = os.path.join(VERIF, "replays", "C22-batch-%d.json" % base)
                        with open(path, "w") as f:
                            json.dump(d, f, indent=1)
                        return {"coverage": cov, "replay": path, "violation": "program %d: hash-seed: the same seeded programs do different things in different processes" % i}
                raise RuntimeError("digest of program %d differed once and never again" % i)
        return {"coverage": cov}

    def hash_replay(self, base, i, seeds):
        from history import new_stats
        import runner
        cfg = self.config(H(base, self.pid, i), "quick")
        cfg["index"] = i
        sim, steps, v = self.run(cfg, new_stats())
        d = {"property": self.pid, "preflight": True, "cfg": cfg, "hash_seeds": seeds, "clause": "hash-seed", "index": i}
        if not self.hash_differs(d, steps):
            return None, None
        n, budget = 2, 60
        while len(steps) > 1 and budget > 0:
            size = max(1, len(steps) // n)
            hit = False
            k = 0
            while k < len(steps) and budget > 0:
                cand = steps[:k] + steps[k + size:]
                budget -= 1
                if cand and self.hash_differs(d, cand):
                    steps, hit = cand, True
                else:
                    k += size
            if not hit:
                if size == 1:
                    break
                n = min(len(steps), n * 2)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "C22-hash-seed-%d.json" % i)
        d["steps"] = steps
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        return path, "program %d: hash-seed: the same seeded program does different things under PYTHONHASHSEED %s and %s; steps %s" % (
            i, seeds[0], seeds[1], json.dumps(steps)[:600])

    def batch_differs(self, d):
        outs = [self.digests(hs, ["--digest", "C22", str(d["batch"]), "--seed", str(d["base"])]) for hs in d["hash_seeds"]]
        return any(o != outs[0] for o in outs)

    def hash_differs(self, d, steps):
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump(dict(d, steps=steps), f)
        try:
            a, b = [self.digests(hs, ["--exec", f.name]) for hs in d["hash_seeds"]]
        finally:
            os.unlink(f.name)
        return a != b

    def replay_preflight(self, d):
        if self.batch_differs(d) if "batch" in d else self.hash_differs(d, d["steps"]):
            print("hash-seed: executions under PYTHONHASHSEED %s differ" % " and ".join(d["hash_seeds"]))
            print("VIOLATION property=C22 replay=%s" % d.get("path", ""))
            return 1
        print("no violation")
        return 0


"""C17: Tree.from_path over a simulated file system with errors and concurrent changes."""
import os
import pathlib
import posixpath

from core import Violation, canon, show
from env import CTX, LIB
import drawing
from history import History
from kinds_list import take
from simfs import FS, disp

NAMES = ["a", "b", "c", "A", "B", "1", "10", "2", "a.txt", ".hidden", "a b", "é", "Z", "_x", "a-b", "dir", "new\nline", "│ x", "├── y", "x" * 20, "\udcff", "$", "~"]
ODD_NAMES = ["lost+found", ".git", ".svn", "__pycache__", ".DS_Store", "Thumbs.db", "desktop.ini", ".nfs", ".nfs0001", "...", "..a", "a~", "#a#", ".a.swp", "con", "nul", "proc", "tmp",
             "node_modules", ".gitignore", "CVS", "a.pyc", "-", "--", "*", "?", "%20", "a\\b", "a:b", " ", " a", "a ", "a.", ".a", "a\tb", "\r", "0", "00", "01", "-1", "None", "core",
             "a.lnk", "a.tmp", "a.bak", "ROOT", "└── z", "\u200b", "ſ", "ß", "É", "e\u0301", "İ", "y" * 200]
ERRS = ["EACCES", "EIO", "ENOMEM", "EMFILE", "ESTALE", "EPERM"]


def parse(text):
    """(name, children) from the printed form."""
    lines = text.split("\n")
    root = (lines[0], [])
    stack = [root]
    for l in lines[1:]:
        d, i = 1, 0
        while l[i:i + 2] in ("  ", "│ "):
            i += 2
            d += 1
        if l[i:i + 2] not in ("└─", "├─") or l[i + 2:i + 4] not in ("┬ ", "─ ") or len(stack) < d:
            raise Violation("print", "unparsable line %r in\n%s" % (l, text[:300]))
        node = (l[i + 4:], [])
        del stack[d:]
        stack[-1][1].append(node)
        stack.append(node)
    return root


def size(t):
    return 1 + sum(map(size, t[1]))


def height(t):
    return max([0] + [1 + height(c) for c in t[1]])


def leaves(t):
    return sum(map(leaves, t[1])) if t[1] else 1


def levels(t):
    out, cur = [], [t]
    while cur:
        out.append([c[0] for c in cur])
        cur = [k for c in cur for k in c[1]]
    return out


class FsScenario(History):
    def config(self, seed, tier):
        cfg = History.config(self, seed, tier)
        cfg["n"] = min(cfg["n"], 40)
        cfg["kinds"] = ["tree"]
        cfg["ev_p"] = [0, 0.5, 0.9][seed % 3]
        cfg["crowd"] = seed % 29 == 0
        cfg["names"] = 3 + seed // 3 % (len(NAMES) - 3)
        return cfg

    def setup(self, cfg, stats):
        sim = History.setup(self, cfg, stats)
        sim.fs = FS()
        sim.trees = {}
        sim.tid = 0
        return sim

    def run(self, *a, **k):
        try:
            return History.run(self, *a, **k)
        finally:
            CTX.fs = None

    def cleanup(self):
        CTX.fs = None

    # ------------------------------------------------ generation
    def name(self, g, sim):
        if g.chance(0.06):
            return g.pick(ODD_NAMES)
        return NAMES[(sim.cfg["names"] + g.r.randrange(sim.cfg["names"])) % len(NAMES)] if g.chance(0.5) else g.pick(NAMES[:8])

    def paths(self, sim, dirs=False):
        s = sim.fs.snap()
        return sorted(p for p, v in s.items() if p != "/" and (type(v) is list or not dirs))

    def fsop(self, g, sim):
        ds = self.paths(sim, True)
        d = g.pick(ds)
        x = g.r.random()
        if x < 0.62 or len(self.paths(sim)) < 4:
            path, k = d + "/" + self.name(g, sim), g.weighted([("d", 5), ("f", 5), ("l", 0.8), ("p", 0.3)])
            return ["mk", path, k] + ([self.target(g, sim, path)] if k == "l" else [])
        if x < 0.78:
            return ["rm", g.pick(self.paths(sim))]
        if x < 0.94:
            return ["mv", g.pick(self.paths(sim)), d + "/" + self.name(g, sim)]
        return ["ch", d, int(g.chance(0.5)), int(g.chance(0.6))]

    def target(self, g, sim, path):
        """Where a new link points: nowhere, to a folder or file (absolute or relative), to itself, above itself, through a file."""
        if g.chance(0.3) or sim.cfg["crowd"] or sim.fs.links() >= 2:
            return "nowhere"
        x = g.r.random()
        if x < 0.12:
            return posixpath.basename(path)
        if x < 0.24:
            return g.pick([".", "..", "./", "../.", "/sim"])
        t = g.pick(self.paths(sim, x < 0.8))
        if x > 0.95:
            t += "/x"
        return t if g.chance(0.5) else posixpath.relpath(t, posixpath.dirname(path))

    def gen_step(self, g, sim, i):
        fs = sim.fs
        if sim.cfg.get("crowd") and i == 4:
            # one folder with very many entries, or one very deep chain of folders
            d = g.pick(self.paths(sim, True))
            n = g.pick([60, 130, 300])
            if g.chance(0.7):
                return {"c": g.r.randrange(3), "op": "fs", "a": [["mk", "%s/%s%d" % (d, g.pick(["", "", "n"]), k), "d" if k % 7 == 3 else "f"] for k in range(n)]}
            return {"c": g.r.randrange(3), "op": "fs", "a": [["mk", d + "/k" * (k + 1), "d"] for k in range(min(n, 130))]}
        if g.chance(0.55) or i < 4:
            return {"c": g.r.randrange(3), "op": "fs", "a": [self.fsop(g, sim) for _ in range(g.r.randrange(1, 5))]}
        if sim.trees and g.chance(0.3):
            t = g.pick(sorted(sim.trees))
            return {"op": g.weighted([("check", 5), ("clear", 1), ("drop", 1)]), "t": t}
        ps = self.paths(sim)
        p = g.pick(self.paths(sim, True) if g.chance(0.8) else ps)
        x = g.r.random()
        if x < 0.08:
            p = g.pick([p + "/nope", "nope", "", 5, None, "/nowhere", ["bytes", p], ["pathlike", p], ["list", p]])
        elif x < 0.16:
            p = p + g.pick(["/", "//", "/.", "/./"])
        elif x < 0.24 and p.startswith("/sim/home/"):
            p = p[len("/sim/home/"):]
        elif x < 0.28:
            p = g.pick([".", "./", "..", "../home"])
        elif x < 0.32:
            p = p + "/../" + posixpath.basename(p) if fs.find(p).kind != "l" else p
        elif x < 0.5 and fs.links():
            # a path that ends in a link or goes through one
            p = g.pick([q for q, v in fs.snap().items() if type(v) is tuple])
            kids = fs.listing(fs.snap(), p)
            if kids and g.chance(0.4):
                p += "/" + g.pick(kids)
        st = {"op": "from_path", "a": [p], "order": g.r.randrange(1 << 30), "ev": [], "out": sim.tid}
        if g.chance(sim.cfg["ev_p"]):
            total = 4 + len(ps) + len(self.paths(sim, True))
            for _ in range(g.weighted([(1, 5), (2, 3), (4, 2), (8, 1)])):
                k = g.r.randrange(total)
                st["ev"].append([k, "err", g.pick(ERRS)] if g.chance(0.4) else [k] + self.fsop(g, sim))
        if g.chance(0.05):
            st["f"] = ["alloc", g.r.randrange(0, len(ps) + 2)]
        return st

    # ------------------------------------------------ execution
    def exec_step(self, sim, st, i):
        sim.steps += 1
        op = st["op"]
        fs = sim.fs
        if op == "fs":
            for o in st["a"]:
                if fs.op(o):
                    sim.changes += 1
            sim.log("fs", st["a"])
            return
        if op == "from_path":
            return self.from_path(sim, st)
        t = sim.trees.get(st["t"])
        if t is None:
            return
        tree, want = t
        if op == "drop":
            del sim.trees[st["t"]]
            return
        if op == "clear":
            o = self.call(sim, tree.clear)
            if o.kind == "exc":
                raise Violation("raises", "clear() raised %r" % o.val)
            sim.trees[st["t"]] = (tree, None)
            want = None
        self.check_tree(sim, tree, want)

    def call(self, sim, f, fault=None):
        CTX.fs = sim.fs
        try:
            return sim.call(f, fault)
        finally:
            CTX.fs = None

    def obs(self, sim, what, f):
        o = self.call(sim, f)
        if o.kind == "exc":
            raise Violation("raises", "%s raised %s: %s" % (what, type(o.val).__name__, o.val))
        return o.val

    def from_path(self, sim, st):
        fs = sim.fs
        path = st["a"][0]
        if type(path) is list:
            path = {"bytes": os.fsencode, "pathlike": pathlib.PurePosixPath, "list": lambda p: [p]}[path[0]](path[1])
        fs.begin(st["order"], st["ev"])
        o = self.call(sim, lambda: LIB.Tree.from_path(path), st.get("f"))
        sim.log("from_path", path, st["ev"], st.get("f"), fs.log, o.kind, type(o.val).__name__ if o.kind == "exc" else None, o.fired)
        snaps, quiet = fs.snaps, not fs.errs and not fs.changed
        what = "from_path(%r) with %s" % (path, o.fired or "no disturbance")
        if o.kind == "exc":
            sim.probe("from_path-raised")
            if "alloc" in o.fired and isinstance(o.val, MemoryError):
                return
            if type(path) is not str:
                if isinstance(o.val, TypeError):
                    return
                raise Violation("raises", "%s raised %r instead of TypeError" % (what, o.val))
            if not isinstance(o.val, (OSError, ValueError)):
                raise Violation("raises", "%s raised %s: %s" % (what, type(o.val).__name__, o.val))
            if not quiet:
                return
            p = self.norm(fs, path)
            if fs.tree(p) is None or path == "" or fs.hindered(p) or self.oddly(fs, path):
                return
            raise Violation("raises", "%s raised %s: %s although nothing failed" % (what, type(o.val).__name__, o.val))
        tree = o.val
        if type(path) is not str or not isinstance(tree, LIB.Tree):
            raise Violation("accepts", "%s returned %s" % (what, show(canon(tree))))
        text = self.obs(sim, "str()", lambda: str(tree))
        got = parse(text)
        drawing.compare(text, drawing.draw_tree(*got), what)
        p = self.norm(fs, path)
        if got[0] != disp(posixpath.basename(p)):
            raise Violation("root", "%s has root %r" % (what, got[0]))
        if quiet:
            want = fs.tree(p)
            if want is None or path == "":
                raise Violation("accepts", "%s returned a tree for a missing path" % what)
            if got != want:
                raise Violation("mirror", "%s gives %s, the file system has %s" % (what, got, want))
            sim.probe("exact-mirror")
        else:
            self.judge(sim, what, snaps, p, got)
            sim.probe("mirror-under-disturbance")
        sim.trees[st["out"]] = (tree, got)
        sim.tid = max(sim.tid, st["out"] + 1)
        sim.changes += 1
        self.check_tree(sim, tree, got)
        sim.state(repr(got))
        while len(sim.trees) > 4:
            del sim.trees[min(sim.trees)]

    def judge(self, sim, what, snaps, path, node):
        """Every directory's children must be one listing it really had."""
        name, kids = node
        cands = [FS.listing(s, path) for s in snaps]
        if not kids:
            if not any(c in (0, None) or c == [] for c in cands):
                raise Violation("dropped", "%s shows %r empty, but it always had entries: %s" % (what, path, cands[:4]))
            return
        shown = [k[0] for k in kids]
        match = [c for c in cands if c not in (0, None) and [disp(x) for x in c] == shown]
        if not match:
            raise Violation("listing", "%s lists %r as %s, its listings were %s" % (what, path, shown, cands[:6]))
        for real, k in zip(match[0], kids):
            self.judge(sim, what, snaps, path.rstrip("/") + "/" + real, k)

    def norm(self, fs, path):
        return posixpath.normpath(posixpath.join(fs.cwd, path)) if path != "" else fs.cwd

    def oddly(self, fs, path):
        """The path as given does not resolve although its normal form does (a trailing slash on a file, a/.. over a file)."""
        try:
            fs.walk(path)
        except OSError:
            return True
        return False

    def check_tree(self, sim, tree, want):
        if want is None:
            q = {"len": (lambda: len(tree), 0), "is_empty": (tree.is_empty, True), "to_list": (tree.to_list, []), "levels": (tree.get_nodes_per_level, []),
                 "height": (tree.get_height, 0), "depth": (tree.get_depth, 0), "leaves": (tree.count_leaf_nodes, 0), "iter": (lambda: list(tree), []),
                 "in": (lambda: "a" in tree, False)}
        else:
            lv = levels(want)
            flat = [x for l in lv for x in l]
            n = len(flat)
            some = sorted(set(flat))
            q = {"len": (lambda: len(tree), n), "is_empty": (tree.is_empty, False), "to_list": (tree.to_list, flat), "levels": (tree.get_nodes_per_level, lv),
                 "height": (tree.get_height, height(want)), "depth": (tree.get_depth, 0), "leaves": (tree.count_leaf_nodes, leaves(want)),
                 "iter": (lambda: take(tree, n + 2), flat), "in": (lambda: [x in tree for x in some], [True] * len(some)),
                 "not in": (lambda: ["no such entry" in tree, "" in tree, 5 in tree, None in tree], [False] * 4),
                 "str": (lambda: parse(str(tree)), want)}
        for name, (f, exp) in q.items():
            got = self.obs(sim, name, f)
            if canon(got) != canon(exp):
                raise Violation("agree", "%s is %s, the tree %s prescribes %s" % (name, show(canon(got)), str(want)[:300], show(canon(exp))))

    def finish(self, sim):
        for t in sorted(sim.trees):
            self.check_tree(sim, *sim.trees[t])

"""What printing a container must draw: one cell per element, borders under and over each cell, one line to each child.

Linear structures are drawn again from their contents; trees are read back, by following the drawn lines, into the tree the traversals give."""
import re
from core import Violation, show
from env import CTX, LIB


def rstrip(t):
    return "\n".join(x.rstrip() for x in t.split("\n"))


def compare(text, want, what):
    if rstrip(text) != rstrip(want):
        raise Violation("drawing", "%s is printed as\n%s\nexpected\n%s" % (what, text[:1500], want[:1500]))


def joined(cells):
    return "\n".join("".join(x) for x in zip(*cells))


def draw_list(toks, circular=False, double=False):
    if not toks:
        return "┌─\n│\n└─"
    if double:
        top = "".join(" ┌%s┐" % ("─" * (len(t) + 2)) for t in toks)
        mid = "".join("⟷│ %s │" % t for t in toks) + "⟷"
        low = "".join(" └%s┘" % ("─" * (len(t) + 2)) for t in toks)
        return "\n".join((top, mid, low))
    top = "".join("┌%s┐ " % ("─" * (len(t) + 2)) for t in toks)
    mid = "".join("│ %s │⟶" % t for t in toks)
    low = "".join("└%s┘ " % ("─" * (len(t) + 2)) for t in toks)
    if not circular:
        return "\n".join((top, mid, low))
    at = (len(toks[0]) + 4) // 2
    gap = " " * (len(mid) - at)
    return "\n".join((top, mid + " ┐", low + " │", " " * at + "↑" + gap + "│", " " * at + "└" + "─" * len(gap) + "┘"))


def draw_queue(toks, arrow):
    end = ("─", arrow, "─") if toks else ("", "", "")
    return "\n".join(("─┬" + "".join("─" * (len(t) + 2) + "┬" for t in toks) + end[0],
                      arrow + "│" + "".join(" %s │" % t for t in toks) + end[1],
                      "─┴" + "".join("─" * (len(t) + 2) + "┴" for t in toks) + end[2]))


def draw_stack(toks):
    return "\n".join(("┌" + "".join("─" * (len(t) + 2) + "┬" for t in toks) + "─",
                      "│" + "".join(" %s │" % t for t in toks),
                      "└" + "".join("─" * (len(t) + 2) + "┴" for t in toks) + "─"))


def draw_skip(levels):
    """levels, top first, each a list of cells; the last one has every cell."""
    base = levels[-1]
    out = []
    above = set()
    for lv in levels:
        here = set(lv)
        border, line = "", ""
        for t in base:
            w = len(t) + 2
            if t in here:
                border += ("├%s┤ " if t in above else "┌%s┐ ") % ("─" * w)
                line += "| %s │⟶" % t
            else:
                border += " " * (w + 3)
                line += "⟶" * (w + 3)
        out += [border, line]
        above = here
    out.append("".join("└%s┘ " % ("─" * (len(t) + 2)) for t in base))
    return "\n".join(out)


def draw_tree(label, children, lines=None, lead="", first=True):
    """label and (label, children) pairs, one line each."""
    lines = [label] if lines is None else lines
    for i, (l, cs) in enumerate(children):
        last = i == len(children) - 1
        lines.append(lead + ("└─" if last else "├─") + ("┬ " if cs else "─ ") + l)
        draw_tree(l, cs, lines, lead + ("  " if last else "│ "), False)
    return "\n".join(lines)


def read_binary(text):
    """(token, left, right) by following the drawn lines."""
    def bad(why):
        raise Violation("drawing", "%s in\n%s" % (why, text[:2000]))
    lines = text.split("\n")
    if len(lines) % 2 == 0:
        bad("a line is missing")
    rows = [[(m.start(), m.end(), m.group()) for m in re.finditer(r"[^\s_]+", l)] for l in lines[::2]]
    if len(rows[0]) != 1:
        bad("not one root")
    kids = {(0, rows[0][0][0]): {}}
    for r in range(1, len(rows)):
        up, mid = lines[2 * r - 2], lines[2 * r - 1]
        used = set()
        if not mid.strip():
            bad("a level without lines to it")
        for c, ch in enumerate(mid):
            if ch == " ":
                continue
            if ch not in "/\\":
                bad("%r between two levels" % ch)
            step = 1 if ch == "/" else -1
            k = c + step
            while 0 <= k < len(up) and up[k] == "_":
                used.add(k)
                k += step
            par = [t for t in rows[r - 1] if (t[0] == k if step == 1 else t[1] - 1 == k)]
            if not par:
                bad("a line from no node (level %d, column %d)" % (r, c))
            ch2 = [t for t in rows[r] if (t[0] + t[1] - 1) // 2 == c - step]
            if not ch2:
                bad("a line to no node (level %d, column %d)" % (r, c))
            node = kids[(r - 1, par[0][0])]
            if step in node:
                bad("two lines on one side of %s" % par[0][2])
            if (r, ch2[0][0]) in kids:
                bad("two lines to %s" % ch2[0][2])
            node[step] = ch2[0]
            kids[(r, ch2[0][0])] = {}
        if len([1 for t in rows[r] if (r, t[0]) in kids]) != len(rows[r]):
            bad("a node without a line to it")
        if used != {k for k, ch in enumerate(up) if ch == "_"}:
            bad("a line that leads nowhere")
    if "_" in lines[-1]:
        bad("a line below the last level")

    def go(r, t):
        n = kids[(r, t[0])]
        return (t[2], go(r + 1, n[1]) if 1 in n else None, go(r + 1, n[-1]) if -1 in n else None)
    return go(0, rows[0][0])


def same_binary(got, t, tok):
    """The node where a drawn tree differs from t, or None."""
    st = [(got, t)]
    while st:
        g, n = st.pop()
        if g is None and n is None:
            continue
        if g is None or n is None or g[0] != tok(n.v):
            return (g[0] if g else "nothing", tok(n.v) if n else "nothing")
        st += [(g[1], n.l), (g[2], n.r)]


def check_binary(text, t, what, tok=str):
    if t is None:
        compare(text, "/ \\", what)
        return True
    nodes, st = [], [t]
    while st:
        n = st.pop()
        nodes.append(n)
        st += [c for c in (n.l, n.r) if c]
    if any(not re.fullmatch(r"[^\s_/\\]+", tok(n.v)) for n in nodes):
        return False
    d = same_binary(read_binary(text), t, tok)
    if d:
        raise Violation("drawing", "%s is printed with %s in the place of %s:\n%s" % (what, d[0], d[1], text[:2000]))
    return True


def with_priorities(C, f):
    old = C.SHOW_PRIORITY
    CTX.atomic += 1
    C.SHOW_PRIORITY = True
    try:
        return f()
    finally:
        CTX.atomic -= 1
        C.SHOW_PRIORITY = old


def check(sim, h):
    k, s, st = h.kind, h.sut, h.st
    text = sim.observe("str()", lambda: str(s))
    if sim.observe("repr()", lambda: repr(s)) != text:
        raise Violation("drawing", "str() and repr() differ for %s" % k.name)
    what = "%s #%d" % (k.name, h.id)
    if k.family == "seq":
        compare(text, draw_list([str(x) for x in st], circular=k.circular, double=k.name == "dll"), what)
    elif k.name == "skip":
        lv = k.levels(sim, s)
        if len(lv) != sim.observe("get_height()", s.get_height):
            raise Violation("drawing", "%s: get_height() is not the number of levels printed:\n%s" % (what, text[:1500]))
        want = ["-∞"] + ["∞" if x == float("inf") else str(x) for x in st]
        if not lv or lv[-1] != want:
            raise Violation("drawing", "%s with contents %s has the lowest level\n%s" % (what, show(st), text[:1500]))
        compare(text, draw_skip(lv), what)
    elif k.family == "bounded":
        toks = [str(x[0] if k.name == "pq" else x) for x in st[1]]
        if k.name == "stack":
            compare(text, draw_stack(toks), what)
        else:
            compare(text, draw_queue(toks, "⟷" if k.name == "deque" else "⟶"), what)
        if k.name == "pq":
            txt = with_priorities(LIB.PriorityQueue, lambda: sim.observe("str()", lambda: str(s)))
            compare(txt, draw_queue(["%s|P:%s" % (x, p) for x, p in st[1]], "⟶"), what + " with SHOW_PRIORITY")
    elif k.family == "heap":
        from kinds_tree import complete
        check_binary(text, complete(sim.observe("to_list()", s.to_list)), what)
    elif k.family == "numset":
        t = k.tree(sim, s)
        if t is None:
            compare(text, "/ \\", what)
            return
        got = read_binary(text)
        strip = (lambda g: g and (g[0].rsplit("|", 1)[0], strip(g[1]), strip(g[2]))) if k.marks else (lambda g: g)
        d = same_binary(strip(got), t, str)
        if d:
            raise Violation("drawing", "%s is printed with %s in the place of %s:\n%s" % (what, d[0], d[1], text[:2000]))
        if k.name == "treap":
            got = read_binary(sim.observe("str()", lambda: k.marked(s)))
            strip = lambda g: g and (g[0].split("|P:")[0], strip(g[1]), strip(g[2]))
            if same_binary(strip(got), t, str):
                raise Violation("drawing", "%s with SHOW_PRIORITY draws another tree" % what)
    elif k.name == "btree":
        from kinds_frozen import build
        if not check_binary(text, build(st), what):
            sim.probe("drawing-unreadable-element")
    elif k.family == "trie":
        from kinds_tree import parse_tree
        if not st:
            compare(text, "--", what)
            return
        r = k.parse(sim, s, st)
        compare(text, draw_tree(r[0], pairs(r)), what)
    elif k.name == "suffix":
        if "\n" in st or "✓" in st:
            return
        from kinds_tree import parse_tree
        r = parse_tree(text)
        compare(text, draw_tree(r[0], pairs(r)), what)
        word = st.replace("$", "")
        ends = []

        def go(n, path):
            path += n[0] if n is not r else ""
            if not n[2]:
                ends.append(path)
            elif n is not r and len(n[2]) < 2:
                raise Violation("drawing", "%s: a chain of single children in\n%s" % (what, text[:1500]))
            for c in n[2]:
                go(c, path)
        go(r, "")
        want = ["%s$ ⟶ %d" % (word[i:], i) for i in range(len(word) + 1)]
        if sorted(ends) != sorted(want):
            raise Violation("drawing", "%s of %r prints the suffixes %s" % (what, word, show(sorted(ends))))
    sim.probe("drawn-%s" % k.name)


def pairs(n):
    return [(c[0] + (" ✓" if c[1] else ""), pairs(c)) for c in n[2]]

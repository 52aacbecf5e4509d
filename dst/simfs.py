"""A simulated file system behind os.*: active only while package code runs and CTX.fs is set."""
import errno as E
import os
import posixpath
import stat as S

from env import CTX, RealRandom


LINKS = 5       # links followed in one path before ELOOP (40 on Linux)


class Node:
    __slots__ = ("kind", "kids", "r", "x", "ino", "to")

    def __init__(self, kind, ino, to=None):
        self.kind = kind          # d f l p
        self.to = to              # where a link points
        self.kids = {} if kind == "d" else None
        self.r = self.x = True
        self.ino = ino


MODE = {"d": S.S_IFDIR | 0o755, "f": S.S_IFREG | 0o644, "l": S.S_IFLNK | 0o777, "p": S.S_IFIFO | 0o600}


class FS:
    """Root at /, with /sim and /sim/home; one process calls, others change things between its system calls."""

    def __init__(self):
        self.ino = 1
        self.root = Node("d", 1)
        self.cwd = "/sim/home"
        self.op(["mk", "/sim", "d"])
        self.op(["mk", "/sim/home", "d"])
        self.begin(0, [])
        self.snaps = None

    # ------------------------------------------------ state
    def split(self, p):
        return [c for c in p.split("/") if c]

    def find(self, p):
        n = self.root
        for c in self.split(p):
            if n.kind != "d" or c not in n.kids:
                return None
            n = n.kids[c]
        return n

    def op(self, op):
        """A change by some other process; False when it is not possible now."""
        if op[0] == "mk":
            d, name = posixpath.split(op[1])
            n = self.find(d)
            if n is None or n.kind != "d" or name in n.kids or not name:
                return False
            self.ino += 1
            # with circular links the tree doubles at every link followed: two of them will do
            to = op[3] if len(op) > 3 and self.links() < 2 else "nowhere"
            n.kids[name] = Node(op[2], self.ino, to)
        elif op[0] == "rm":
            d, name = posixpath.split(op[1])
            n = self.find(d)
            if n is None or n.kind != "d" or name not in n.kids or op[1] in ("/sim", "/sim/home"):
                return False
            del n.kids[name]
        elif op[0] == "mv":
            if op[1] in ("/sim", "/sim/home") or (op[2] + "/").startswith(op[1] + "/"):
                return False
            d, name = posixpath.split(op[1])
            d2, name2 = posixpath.split(op[2])
            n, n2 = self.find(d), self.find(d2)
            if n is None or n2 is None or n.kind != "d" or n2.kind != "d" or name not in n.kids or name2 in n2.kids or not name2:
                return False
            n2.kids[name2] = n.kids.pop(name)
        elif op[0] == "ch":
            n = self.find(op[1])
            if n is None or op[1] in ("/sim", "/sim/home", "/"):
                return False
            n.r, n.x = bool(op[2]), bool(op[3])
        return True

    def links(self, n=None):
        """How many links lead somewhere."""
        n = n or self.root
        if n.kind == "l":
            return n.to != "nowhere"
        return sum(self.links(k) for k in n.kids.values()) if n.kind == "d" else 0

    def tree(self, p):
        """(display name, sorted children) below p with links followed (dangling and circular ones are leaves), or None."""
        try:
            n = self.resolve(p, True, False)
        except OSError:
            return None
        return self._tree(p, n)

    def _tree(self, p, n):
        kids = []
        if n is not None and n.kind == "d":
            for k in sorted(n.kids):
                c = p.rstrip("/") + "/" + k
                try:
                    m = self.resolve(c, True, False)
                except OSError:
                    m = None
                kids.append(self._tree(c, m))
        return (disp(posixpath.basename(p)), kids)

    def hindered(self, p):
        """Permissions keep some part of the tree at p from being read."""
        try:
            n = self.resolve(p)
        except OSError as e:
            return e.errno == E.EACCES
        if n.kind != "d":
            return False
        return not n.r or any(self.hindered(p.rstrip("/") + "/" + k) for k in n.kids)

    def snap(self):
        """path -> sorted names for every directory, ("l", target) for every link, None for other entries."""
        out = {}

        def go(p, n):
            out[p] = sorted(n.kids) if n.kind == "d" else ("l", n.to) if n.kind == "l" else None
            if n.kind == "d":
                for k, c in n.kids.items():
                    go(p.rstrip("/") + "/" + k, c)
        go("/", self.root)
        return out

    @staticmethod
    def listing(snap, path):
        """What path (links followed) was in a snapshot: the names of a directory, None for another entry, 0 for nothing."""
        todo = [c for c in path.split("/") if c][::-1]
        at = []
        links = 0
        while todo:
            c = todo.pop()
            if c == ".":
                continue
            if c == "..":
                del at[-1:]
                continue
            v = snap.get("/" + "/".join(at + [c]), 0)
            if type(v) is tuple:
                links += 1
                if links > LINKS:
                    return 0
                if v[1].startswith("/"):
                    at = []
                todo.extend([x for x in v[1].split("/") if x][::-1])
                continue
            if v == 0 or v is None and todo:
                return 0
            at.append(c)
        return snap.get("/" + "/".join(at), 0)

    # ------------------------------------------------ one call of the package
    def begin(self, order, events):
        self.order = RealRandom(order)
        self.events = {}
        for e in events:
            self.events.setdefault(e[0], []).append(e[1:])
        self.n = 0
        self.snaps = [self.snap()]
        self.log = []
        self.errs = 0
        self.changed = 0

    def tick(self, what, path):
        """Every system call passes here: others run first, then it may fail."""
        k = self.n
        self.n = k + 1
        fail = None
        for e in self.events.get(k, ()):
            if e[0] == "err":
                fail = e[1]
            elif self.op(e):
                self.changed += 1
                CTX.fired.append("fs-" + e[0])
                self.snaps.append(self.snap())
        if fail is not None:
            self.errs += 1
            CTX.fired.append("errno-" + fail)
            self.log.append((what, path, fail))
            raise OSError(getattr(E, fail), os.strerror(getattr(E, fail)), path)
        self.log.append((what, path))

    def abs(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith("/") else self.cwd + "/" + p

    def walk(self, path, follow=True):
        """Kernel-like resolution ('.', '..' and links included)."""
        if path == "":
            self.bad(E.ENOENT, path)
        return self.resolve(self.abs(path), follow)

    def resolve(self, p, follow=True, perms=True):
        stack = [self.root]
        todo = self.split(p)[::-1]
        folder = p.endswith("/")
        links = 0
        while todo:
            c = todo.pop()
            n = stack[-1]
            if n.kind != "d":
                self.bad(E.ENOTDIR, p)
            if c == ".":
                continue
            if c == "..":
                if len(stack) > 1:
                    stack.pop()
                continue
            if perms and not n.x:
                self.bad(E.EACCES, p)
            if c not in n.kids:
                self.bad(E.ENOENT, p)
            n = n.kids[c]
            if n.kind == "l" and (follow or todo or folder):
                links += 1
                if links > LINKS:
                    self.bad(E.ELOOP, p)
                if n.to.startswith("/"):
                    stack = [self.root]
                todo.extend(self.split(n.to)[::-1])
                continue
            stack.append(n)
        if folder and stack[-1].kind != "d":
            self.bad(E.ENOTDIR, p)
        return stack[-1]

    def bad(self, no, path):
        raise OSError(no, os.strerror(no), path)

    def stat(self, path, *, dir_fd=None, follow_symlinks=True):
        self.tick("stat", path)
        return self.result(self.walk(path, follow_symlinks))

    def result(self, n):
        return os.stat_result((MODE[n.kind], n.ino, 1, 1, 0, 0, 0, 0, 0, 0))

    def lstat(self, path, *, dir_fd=None):
        self.tick("lstat", path)
        return self.result(self.walk(path, False))

    def names(self, path, what):
        self.tick(what, path)
        n = self.walk(path)
        if n.kind != "d":
            self.bad(E.ENOTDIR, path)
        if not n.r:
            self.bad(E.EACCES, path)
        xs = sorted(n.kids)
        self.order.shuffle(xs)
        return n, xs

    def listdir(self, path="."):
        return self.names(path, "listdir")[1]

    def scandir(self, path="."):
        n, xs = self.names(path, "scandir")
        return Scan(self, os.fspath(path), [(x, n.kids[x]) for x in xs])

    def getcwd(self):
        self.tick("getcwd", "")
        return self.cwd

    def access(self, path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        try:
            self.tick("access", path)
            n = self.walk(path)
        except OSError:
            return False
        return n.kind != "d" or ((n.r or not mode & 4) and (n.x or not mode & 1))

    def readlink(self, path, *, dir_fd=None):
        self.tick("readlink", path)
        n = self.walk(path, False)
        if n.kind != "l":
            self.bad(E.EINVAL, path)
        return n.to


class Scan:
    def __init__(self, fs, path, items):
        self.it = iter([Entry(fs, path, a, b) for a, b in items])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        self.it = iter(())


class Entry:
    def __init__(self, fs, parent, name, node):
        self.fs, self.name, self.node = fs, name, node
        self.path = os.path.join(parent, name)

    def __fspath__(self):
        return self.path

    def kind(self, follow):
        if self.node.kind != "l" or not follow:
            return self.node.kind
        try:
            return {S.S_IFDIR: "d", S.S_IFREG: "f"}.get(S.S_IFMT(self.fs.stat(self.path).st_mode))
        except FileNotFoundError:
            return None

    def is_dir(self, *, follow_symlinks=True):
        return self.kind(follow_symlinks) == "d"

    def is_file(self, *, follow_symlinks=True):
        return self.kind(follow_symlinks) == "f"

    def is_symlink(self):
        return self.node.kind == "l"

    def inode(self):
        return self.node.ino

    def stat(self, *, follow_symlinks=True):
        return self.fs.stat(self.path, follow_symlinks=follow_symlinks)


def disp(name):
    return name.replace("\n", "\\n")


def install():
    for name in ("stat", "lstat", "listdir", "scandir", "getcwd", "access", "readlink"):
        real = getattr(os, name)

        def f(*a, _real=real, _name=name, **k):
            if CTX.in_sut and CTX.fs is not None:
                return getattr(CTX.fs, _name)(*a, **k)
            return _real(*a, **k)
        f.__name__ = name
        setattr(os, name, f)

"""Preemption points for the thread scenarios: while the package is imported, its syntax tree gets a call before every
statement of a function and around every attribute, subscript and call read.  The calls do nothing until a Baton runs.
/repo is not touched; the code that runs is the working tree's, statement for statement.
"""
import ast
import builtins
import importlib.machinery
import sys

POINT = [None]          # the running Baton
COUNT = [0]


def pt():
    b = POINT[0]
    if b is not None:
        b.event()


def pv(v):
    b = POINT[0]
    if b is not None and b.opcodes:
        b.event()
    return v


class Points(ast.NodeTransformer):
    depth = 0

    def body(self, stmts):
        out = []
        for i, s in enumerate(stmts):
            doc = i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if self.depth and not doc and not isinstance(s, (ast.Global, ast.Nonlocal)):
                c = ast.Expr(ast.Call(ast.Name("__sim_pt__", ast.Load()), [], []))
                out.append(ast.fix_missing_locations(ast.copy_location(c, s)))
            out.append(self.visit(s))
        return out

    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = self.body(n.body)
        self.depth -= 1
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        n.body = [self.visit(x) for x in n.body]
        self.depth = d
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, self.body(v))
        for f, v in ast.iter_fields(n):
            if f in ("body", "orelse", "finalbody") and isinstance(v, list):
                continue
            if isinstance(v, list):
                v[:] = [self.visit(x) if isinstance(x, ast.AST) and not isinstance(x, ast.pattern) else x for x in v]
            elif isinstance(v, ast.AST) and not isinstance(v, ast.pattern):
                setattr(n, f, self.visit(v))
        return n

    def wrap(self, n):
        n = self.generic_visit(n)
        if not self.depth or (not isinstance(n, ast.Call) and not isinstance(n.ctx, ast.Load)):
            return n
        return ast.fix_missing_locations(ast.copy_location(ast.Call(ast.Name("__sim_pv__", ast.Load()), [n], []), n))

    visit_Attribute = visit_Subscript = visit_Call = wrap


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = Points().visit(ast.parse(data, path))
        COUNT[0] += 1
        return compile(tree, path, "exec", dont_inherit=True)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "extra" and not name.startswith("extra."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    builtins.__sim_pt__ = pt
    builtins.__sim_pv__ = pv
    sys.meta_path.insert(0, Finder)

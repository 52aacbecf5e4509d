"""Kind adapters: how the simulator drives, models and observes one container class."""
from core import Bad, Elem, Exp, Ref, Src, Violation, canon, exc, new, ret, show, src_items
from env import CTX, LIB, SimFault

KINDS = {}


def kind(cls):
    inst = cls()
    KINDS[inst.name] = inst
    return cls


BAD_EXC = {"none": (ValueError,), "extra": (TypeError,), "ll": (TypeError,), "node": (TypeError,), "tree": (TypeError,)}
SRC_EXC = {"raise": (SimFault,), "none": (ValueError,), "extra": (TypeError,), "type": (TypeError, ValueError)}


def norm(x):
    return x.replace("\n", "\\n") if type(x) is str else x


class Kind:
    """name; new(); gen(); model(); call(); obs(); match(); check()."""
    name = None
    cls = None                 # class name in LIB
    numeric = False            # numbers only
    fault_ops = True

    # ---- construction
    def make(self, sargs):
        return getattr(LIB, self.cls)(*sargs)

    def model_new(self, w, args):
        raise NotImplementedError

    def gen_new(self, g, w):
        raise NotImplementedError

    # ---- operations
    def gen(self, g, w, h):
        raise NotImplementedError

    def model(self, w, h, op, args):
        return getattr(self, "m_" + op)(w, h.st, *args)

    def call(self, sut, op, args):
        return getattr(self, "c_" + op)(sut, *args)

    # ---- observation
    def obs(self, sim, sut):
        raise NotImplementedError

    def match(self, obs, st):
        """Return the (possibly bound) state when obs is what st prescribes, else None."""
        return st if obs == self.expect(st) else None

    def unbound(self, st):
        """Does the state hold something only an observation can settle (a drawn priority)?"""
        return False

    def expect(self, st):
        raise NotImplementedError

    def check(self, sim, h, flags):
        pass

    def pure(self, op):
        return op in self.queries

    def size(self, st):
        return len(st)

    queries = frozenset()

    def gen_query(self, g, w, h):
        raise NotImplementedError


def ref_src(w, a):
    """Another container as the source of a constructor: what iterating it gives."""
    h = w.get(a.id)
    its = h.kind.iter_model(h.st)
    if its is None:
        its = w.sim.observe("iteration of the source", lambda: list(h.sut))
    return Src("list", its)


def num_refs(g, w):
    return [h for h in w.h.values() if h.kind.iterable and h.kind.numeric]


def src_model(kind, s, accept):
    """Fold a source; returns (items accepted so far, exception types or None)."""
    items = src_items(s)
    out = []
    for i, x in enumerate(items):
        if s.fail and s.fail[1] == i:
            return out, SRC_EXC[s.fail[0]]
        e = accept(x)
        if e:
            return out, e
        out.append(x)
    if s.fail and s.fail[1] >= len(items):
        return out, SRC_EXC[s.fail[0]]
    return out, None

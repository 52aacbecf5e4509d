"""Executes one recorded step on the real code and the model, and judges it."""
import functools

from core import Bad, Exp, Ref, Src, Violation, canon, dec, enc, outcome_str, show
from env import CTX, LIB, RNG, SimFault
import kinds_list  # noqa: F401
import kinds_bounded  # noqa: F401
import kinds_tree  # noqa: F401
import kinds_frozen  # noqa: F401
import drawing
from kinds_base import KINDS

RANDOM_KINDS = {"skip", "treap", "pq"}
NEUTRAL_FAULTS = {"alloc": (MemoryError,), "elem": (SimFault,), "warn-error": (Warning,), "interrupt": (KeyboardInterrupt,)}


class RealMemory(BaseException):
    """The real process ran out of memory: confirm with the deterministic line budget."""


def describe(step):
    a = ", ".join(str(x) for x in step.get("a", []))
    return "%s %s(%s)%s" % (step.get("k") or "#%s" % step.get("h"), step["op"], a[:200], " fault %s" % step["f"] if step.get("f") else "")


def one_outcome(e, o):
    """Does the outcome (without the state) match this expectation?"""
    if e.kind == "any":
        ok = True
    elif e.kind == "exc":
        ok = o.kind == "exc" and isinstance(o.val, e.ret)
    elif o.kind == "exc":
        return False
    elif e.kind == "new":
        vals = o.val if len(e.ret) > 1 else (o.val,)
        ok = isinstance(vals, tuple) and len(vals) == len(e.ret) and all(
            isinstance(v, getattr(LIB, KINDS[k].cls)) for v, (k, _) in zip(vals, e.ret))
    elif e.cmp == "num":
        ok = type(o.val) in (int, float) and o.val == e.ret
    elif e.cmp == "sorted":
        try:
            ok = isinstance(o.val, list) and sorted(o.val) == e.ret
        except TypeError:
            ok = False
    else:
        ok = canon(o.val) == canon(e.ret)
    if ok and e.warn is not None and o.kind == "ret":
        ok = bool(o.warns) == e.warn
    return ok


def expect_str(e):
    if e.kind == "ret":
        s = "returns %s" % show(canon(e.ret))
    elif e.kind == "exc":
        s = "raises %s" % "/".join(t.__name__ for t in e.ret)
    elif e.kind == "new":
        s = "gives %s" % ", ".join("%s%s" % (k, show(canon(list(st))) if isinstance(st, (tuple, list)) else st) for k, st in e.ret)
    else:
        s = "anything"
    if e.warn is not None:
        s += ", warning" if e.warn else ", no warning"
    return s


def run_step(sim, step, flags):
    """Returns the Outcome, or None when the step does not apply. Raises Violation."""
    w = sim.world
    op = step["op"]
    if op == "drop":
        if w.h.pop(step["h"], None) is None:
            return None
        sim.log("drop", step["h"])
        return None
    args = [dec(x, w.elems) for x in step["a"]]
    if not w.refs_ok(args):
        return None
    h = None
    if op == "new":
        kind = KINDS[step["k"]]
        exp = kind.model_new(w, args)
        pre = None
    else:
        h = w.get(step["h"])
        if h is None:
            return None
        kind = h.kind
        exp = kind.model(w, h, op, args)
        pre = h.st
    fault = step.get("f")
    pre_shape = None
    strict_shape = flags.get("strict_shape") and h is not None and hasattr(kind, "shape") and not kind.__dict__.get("root_after_access")
    if strict_shape and (fault or exp.kind == "exc"):
        pre_shape = kind.shape(sim, h.sut)
    sargs = [w.resolve(a) for a in args]
    if op == "new":
        given = repr(sargs) if kind.name == "btree" else None
        o = sim.call(lambda: kind.make(sargs), fault, step.get("rng"))
        if given is not None and repr(sargs) != given:
            raise Violation("source-changed", "%s: the nested list became %r" % (describe(step), sargs))
    else:
        o = sim.call(lambda: kind.call(h.sut, op, sargs), fault, step.get("rng"))
    sim.steps += 1
    sim.counts[(kind.name, op)] = (o.allocs, o.cb)
    if o.kind == "exc" and isinstance(o.val, MemoryError) and "alloc" not in o.fired:
        raise RealMemory()
    sim.log(step.get("c"), h.id if h else step.get("k"), op, step["a"], fault, o.kind,
            type(o.val).__name__ if o.kind == "exc" else canon(o.val), o.warns, o.fired)
    return settle(sim, h, kind, step, op, args, exp, o, pre, pre_shape, fault, flags)


def answered(f):
    """What the checks read comes from the subject: an answer they cannot even interpret is a wrong answer, not a failure of the harness."""
    @functools.wraps(f)
    def g(*a):
        try:
            return f(*a)
        except (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, RecursionError) as e:
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            raise Violation("unusable-answer", "an answer could not be interpreted: %s: %s (in %s)" % (
                type(e).__name__, str(e)[:300], tb.tb_frame.f_code.co_name)) from e
    return g


@answered
def settle(sim, h, kind, step, op, args, exp, o, pre, pre_shape, fault, flags):
    w = sim.world
    if exp.kind == "exc" and exp.ret == () :
        raise RuntimeError("model bug: no exception types")
    injected = fault is not None and any(f == fault[0] or (fault[0] == "elem" and f.startswith("elem-")) for f in o.fired)
    if injected and o.kind == "exc":
        allowed = NEUTRAL_FAULTS[fault[0]]
        if not isinstance(o.val, allowed) and not any(e.kind == "exc" and isinstance(o.val, e.ret) for e in (exp,) + tuple(exp.alts)):
            raise Violation("fault-exception", "%s: injected %s, but it %s" % (describe(step), o.fired, outcome_str(o)))
        sim.probe("op-failed-by-%s" % fault[0])
        if h is not None:
            cands = [("before", pre)]
            for e in (exp,) + tuple(exp.alts):
                if e.kind in ("ret", "new"):
                    cands.append(("after", e.state))
            cands += [("partial", s) for s in exp.partial]
            try:
                after_fault(sim, h, kind, step, cands, o, pre, pre_shape, exp, flags)
            except Violation:
                if not (sim.cfg.get("abandon") and fault[0] in ("alloc", "warn-error")):
                    raise
                # the client gives this container up
                w.h.pop(h.id, None)
                sim.probe("abandoned-after-fault")
        return o
    # ---------------------------------------------------------------- ordinary completion
    # a blind step is judged by its outcome alone: looking at the contents could repair, or hide, what the operation left behind
    blind = bool(step.get("b")) and not injected
    see = lambda k, st: not blind or k.unbound(st)
    obs = kind.obs(sim, h.sut) if h is not None and not blind else None
    chosen, bound = None, None
    for e in (exp,) + tuple(exp.alts):
        if not one_outcome(e, o):
            continue
        if h is not None:
            if blind and see(kind, e.state):
                obs = kind.obs(sim, h.sut)
            m = kind.match(obs, e.state) if obs is not None else e.state
            if m is None:
                continue
            bound = m
        chosen = e
        break
    if chosen is None:
        okout = [e for e in (exp,) + tuple(exp.alts) if one_outcome(e, o)]
        if not okout:
            clause = "outcome"
            if o.kind == "exc" and exp.kind != "exc":
                clause = "raises"
            elif exp.kind == "exc" and o.kind == "ret":
                clause = "accepts"
            raise Violation(clause, "%s on %s: %s%s; expected: %s" % (
                describe(step), showobs(safe_expect(kind, pre)) if h else "nothing", outcome_str(o),
                " with warnings %s" % o.warns if o.warns else "", expect_str(exp)))
        raise Violation("contents", "%s on %s: contents are now %s, expected %s" % (
            describe(step), showobs(safe_expect(kind, pre)), showobs(obs), showobs(safe_expect(kind, okout[0].state))))
    if h is not None:
        if bound != pre:
            sim.changes += 1
        h.st = bound
        if pre_shape is not None and chosen.kind == "exc":
            now = kind.shape(sim, h.sut)
            if now != pre_shape:
                raise Violation("atomicity-shape", "%s was refused with %s but the structure changed from\n%s\nto\n%s" % (
                    describe(step), type(o.val).__name__, showobs(pre_shape), showobs(now)))
    if chosen.kind == "exc":
        sim.probe("refused")
    if chosen.kind == "new":
        vals = o.val if len(chosen.ret) > 1 else (o.val,)
        outs = step.get("out") or []
        for i, (v, (k, st)) in enumerate(zip(vals, chosen.ret)):
            kk = KINDS[k]
            ob = kk.obs(sim, v) if see(kk, st) else None
            m = kk.match(ob, st) if ob is not None else st
            if m is None:
                raise Violation("result", "%s: result %d holds %s, expected %s" % (describe(step), i, showobs(ob), showobs(safe_expect(kk, st))))
            id = outs[i] if i < len(outs) else None
            if id is not None:
                nh = w.add(kk, v, m, id)
                if not blind:
                    check_one(sim, nh, flags)
                if op != "new":
                    nh.meta["from"] = h.id
    if h is not None:
        if hasattr(kind, "after"):
            kind.after(sim, h, op, args, o)
        if blind:
            sim.probe("unobserved-steps")
            return o
        check_one(sim, h, flags)
        sim.state((kind.name, obs if len(repr(obs)) < 4000 else hash(repr(obs))))
    return o


@answered
def after_fault(sim, h, kind, step, cands, o, pre, pre_shape, exp, flags):
    """The container is as before or as after the operation, and in order."""
    obs = kind.obs(sim, h.sut)
    for name, s in cands:
        m = kind.match(obs, s)
        if m is not None:
            break
    else:
        raise Violation("atomicity", "%s failed with %s; contents are now %s, neither %s (before) nor %s (after)" % (
            describe(step), type(o.val).__name__, showobs(obs), showobs(kind.expect(pre)), showobs(safe_expect(kind, exp.state))))
    sim.probe("failed-op-left-%s" % name)
    h.st = m
    if pre_shape is not None and name == "before":
        now = kind.shape(sim, h.sut)
        if now != pre_shape:
            raise Violation("atomicity-shape", "%s failed with %s; contents unchanged but the structure changed from\n%s\nto\n%s" % (
                describe(step), type(o.val).__name__, showobs(pre_shape), showobs(now)))
    check_one(sim, h, flags)


@answered
def check_one(sim, h, flags):
    h.kind.check(sim, h, flags)
    if flags.get("draw") and (flags.get("deep") or h.kind.size(h.st) <= 60):
        drawing.check(sim, h)


@answered
def check_all(sim, flags, skip=None):
    """Every other handle still holds what its own history gives it."""
    for h in list(sim.world.h.values()):
        if h is skip:
            continue
        obs = h.kind.obs(sim, h.sut)
        if h.kind.match(obs, h.st) is None:
            raise Violation("foreign-change", "container #%d (%s) holds %s, its own history prescribes %s" % (
                h.id, h.kind.name, showobs(obs), showobs(safe_expect(h.kind, h.st))))
        if flags.get("all_checks"):
            check_one(sim, h, flags)


def safe_expect(kind, st):
    try:
        return kind.expect(st)
    except Exception:
        return st


def showobs(o):
    if isinstance(o, tuple) and o and o[0] in ("list", "tuple", "E"):
        return show(o)
    s = str(o) if isinstance(o, str) else repr(o)
    return s if len(s) < 500 else s[:500] + "..."

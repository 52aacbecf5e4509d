"""A deterministic thread scheduler: real threads, one running at a time, switched only at recorded points.

Each thread passes the package's preemption points (instr.py: statements, optionally expressions); the recorded schedule [[tid, quantum], ...] says
who runs and for how many events.  After the schedule ends the threads run to completion in order.
"""
import threading

from core import LineBudget, RunTimeout, Violation
from env import CTX
from instr import COUNT, POINT

PER_THREAD = ("in_sut", "allocs", "alloc_fail", "cb", "cb_fail", "cb_kinds", "cb_reenter", "warns", "warn_error", "fired", "draws")


class Abort(BaseException):
    pass


class Baton:
    def __init__(self, jobs, sched, budget=None, opcodes=False, kill=None):
        self.jobs = jobs
        n = self.n = len(jobs)
        self.sched = [tuple(x) for x in sched]
        self.pos = 0
        self.budget = budget
        self.opcodes = opcodes
        self.kill = kill or {}
        self.locks = [threading.Lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.main = threading.Lock()
        self.main.acquire()
        self.done = [False] * n
        self.lines = [0] * n
        self.left = 0
        self.abort = False
        self.error = None
        self.killed = []
        self.switches = 0
        self.saved = [dict((k, getattr(CTX, k)) for k in PER_THREAD) for _ in range(n)]
        self.results = [None] * n

    # ------------------------------------------------ scheduling (only the running thread gets here)
    def choose(self, tid):
        while self.pos < len(self.sched):
            t, q = self.sched[self.pos]
            self.pos += 1
            t = t % self.n
            if not self.done[t]:
                return t, max(1, q)
        if tid is not None and not self.done[tid]:
            return tid, 1 << 60
        for t in range(self.n):
            if not self.done[t]:
                return t, 1 << 60
        return None, 0

    def save(self, tid):
        d = self.saved[tid]
        for k in PER_THREAD:
            d[k] = getattr(CTX, k)

    def load(self, tid):
        self.cur = tid
        CTX.__dict__.update(self.saved[tid])

    def event(self):
        """A preemption point of the running thread."""
        tid = self.cur
        self.lines[tid] = n = self.lines[tid] + 1
        if self.abort:
            raise Abort()
        if self.budget is not None and n > self.budget:
            raise LineBudget("thread %d" % tid)
        if self.kill and self.kill.get(tid) == n:
            self.killed.append(tid)
            raise KeyboardInterrupt("sim: reader killed")
        self.left -= 1
        if self.left <= 0 and CTX.in_sut and not CTX.atomic:
            t, q = self.choose(tid)
            self.left = q
            if t != tid:
                self.switches += 1
                self.save(tid)
                self.locks[t].release()
                self.locks[tid].acquire()
                self.load(tid)
                if self.abort:
                    raise Abort()

    # ------------------------------------------------ threads
    def body(self, tid):
        self.locks[tid].acquire()
        self.load(tid)
        try:
            if not self.abort:
                self.results[tid] = self.jobs[tid]()
        except Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            if self.error is None:
                e.__traceback__ = None
                self.error = e
                self.abort = True
        self.save(tid)
        self.done[tid] = True
        self.cur = None
        t, q = self.choose(None)
        self.left = q
        if t is None:
            self.main.release()
        else:
            self.locks[t].release()

    def run(self):
        """Runs all jobs; re-raises the first error (Violation, LineBudget, ...)."""
        if not COUNT[0]:
            raise RuntimeError("the package was imported without preemption points")
        self.cur = None
        threading.stack_size(64 << 20)
        POINT[0] = self
        own = dict((k, getattr(CTX, k)) for k in PER_THREAD)
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        t, q = self.choose(None)
        self.left = q
        timeout = None
        try:
            self.locks[t].release()
            self.main.acquire()
        except RunTimeout as e:
            timeout = e
            self.abort = True
            self.main.acquire()
        for t in ts:
            t.join()
        POINT[0] = None
        CTX.__dict__.update(own)
        if timeout is not None:
            raise timeout
        if self.error is not None:
            raise self.error
        return self.results


def gen_sched(g, n, long=False):
    """Random quanta: mostly short, sometimes long, over n threads."""
    style = g.pick(["fine", "fine", "mixed", "coarse", "burst", "single"])
    if style == "single":
        # a few preemptions at any depth: one thread stops, another runs far or to its end, the first goes on
        far = lambda: int(2 ** g.r.uniform(0, 9))
        out = []
        for _ in range(g.pick([1, 1, 2, 3])):
            a = g.r.randrange(n)
            out += [[a, far()], [(a + 1 + g.r.randrange(n - 1)) % n, 100000 if g.chance(0.5) else far()]]
        return out
    m = g.r.randrange(5, g.pick([160, 500]) if long else 80)
    out = []
    for _ in range(m):
        if style == "fine":
            q = g.r.randrange(1, 4)
        elif style == "mixed":
            q = g.pick([1, 2, 3, 5, 10, 30])
        elif style == "coarse":
            q = g.r.randrange(5, 60)
        else:
            q = 1 if g.chance(0.8) else g.r.randrange(20, 100)
        out.append([g.r.randrange(n), q])
    return out

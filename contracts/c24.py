"""C24: a secondary thread always takes one of the highest-priority waiting tasks."""
from .queues import *
from . import c22

TB = c22.TB


class PTake(Contract):
    """removals, as seen by popPoolTask: who asks which queue"""
    trusted = True; prioq = False
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost
        if self.prioq:
            ex.prove("priority tasks are taken from the pool's priority queue", this == ex.rd("UThreadBase.pool_priority_task_queue_", ex.spec.c.this)); gset(ex, "asked", gh["asked"] + 1)
        r = z3.BoolVal(bool(ex.choose(2))); gset(ex, "got", Or(gh["got"], r)); 
        if self.prioq: gset(ex, "pgot", Or(gh["pgot"], r))
        return r


class PopPool(Contract):
    fn = TB + "popPoolTask"; modifies = Any; raw = RAW; check_null = False
    def requires(self, c): ty = c("UThreadBase.type_"); return [("a primary or a secondary thread", Or(ty == 1, ty == 2))]
    def setup(self, c): gh = c.ex.st.ghost; gh["asked"] = z3.IntVal(0); gh["got"] = gh["pgot"] = z3.BoolVal(False)
    def ensures(self, c):
        gh = c.ex.st.ghost
        return [("reports whether it took anything", c.ret == gh["got"]), ("a secondary thread without other work takes a priority task", Implies(And(c("UThreadBase.type_") == 2, Not(c.ret)), gh["asked"] == 1)), ("at most one request", gh["asked"] <= 1)]
    def covers(self, c): return [("priority task", c.ex.st.ghost["pgot"]), ("nothing", Not(c.ret))]
    which = 0
    def find(self, p): fs = sorted((f for f in p.byqn.get(self.fn, ()) if f.body is not None), key=lambda f: str(p.ty(f.params[0]))); return fs[self.which] if self.which < len(fs) else None
POOL = [PopPool(which=w, label="UThreadBase::popPoolTask#%d" % w) for w in (0, 1)]
for _c in POOL: _c.registry = [PTake(fn=AQ + "tryPop", nparams=n) for n in (1, 2)] + [PTake(fn=PQ + "tryPop", nparams=n, prioq=True) for n in (1, 2)]

SUBP = [c for c in c22.SUB if c.fn.endswith("commitWithPriority")]
CONTRACTS = PRQ + POOL + SUBP + [c for c in c22.TASK if c.fn == c22.T + "UTask" or c.fn.endswith("operator=")] + [c for c in c22.WORK if c.fn.startswith(c22.TS)]
VERIFY = CONTRACTS
DRIVERS = ["c24"]
DRIVER_SECONDS = 15
NOTE = ("The operations of the priority queue are proved for every content: push stores the given task with the given priority, tryPop hands out a stored task such that no waiting task has a higher priority (the queue's comparator and "
        "UTask's comparison operators are the real ones, inlined; that the comparator is a strict weak ordering, which std::priority_queue needs, is an obligation), the batch form hands them out in that order; commitWithPriority passes the priority on; "
        "a secondary thread that finds no ordinary task asks the pool's priority queue; it executes what it takes once. Assumed: std::priority_queue::top returns an element that precedes no other. "
        "Not decided: that a secondary thread exists to take the tasks (a pool whose maximum equals its default size has none).")

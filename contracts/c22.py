"""C22: every task handed to the pool is stored once and executed once.

Queues: contracts/queues.py.  Workers: ghosts ngot / nran = tasks taken / executed by this worker, tk(k) = the k-th task taken; a worker only
executes tasks it has taken, in the order taken, each once, and returns to its loop with nothing left over.  Submission: npush = tasks stored."""
from .queues import *
from . import engine

T, TP = "CGraph::UTask::", "CGraph::UThreadPool::"
IMPL, PRIO = "UTask.impl_", "UTask.priority_"


# ---- the task itself -------------------------------------------------------------------------------------------------
class TaskMove(Contract):
    modifies = ((IMPL, lambda c: [c.this, c.a(0)]), (PRIO, lambda c: [c.this])); check_null = False
    def requires(self, c): return [("another task", c.this != c.a(0))]
    def ensures(self, c):
        return [("runs what the source ran", c(IMPL) == c.o(IMPL, c.a(0))), ("with the same priority", c(PRIO) == c.o(PRIO, c.a(0))), ("the source keeps its priority", c(PRIO, c.a(0)) == c.o(PRIO, c.a(0)))]
def instances(p, fn, n): return sorted((f for f in p.byqn.get(fn, ()) if len(f.params) == n and f.targs and f.body is not None), key=lambda f: (f.targs == ["CGraph::UTask"], str(f.targs)))
class TaskNew(Contract):
    """UTask(function, priority), every instance (packaged tasks, the engines' lambdas, a task wrapped for the priority queue)"""
    fn = T + "UTask"; nparams = 2; modifies = Any; check_null = False; which = 0; sub_alive = True
    def find(self, p): fs = instances(p, self.fn, 2); return fs[min(self.which, len(fs) - 1)] if fs else None
    def requires(self, c): al = z3.Const("alive0", z3.ArraySort(I, B)); return [("the task is an object", And(al[c.this], *([al[c.a(0)]] if c.f.targs == ["CGraph::UTask"] else [])))]
    def ensures(self, c):
        ex = c.ex; im = c(IMPL); t = c.f.targs[0]; cl = [k for n, k in ex.p.classes.items() if n.startswith(T + "TaskDerided<%s, " % t)]
        if not cl: return [("runs the given function", z3.BoolVal(False))]
        cl = cl[0]; fld = cl.fields["func_"]; ty = ex.T.of(fld)
        o = [("has the given priority", c(PRIO) == c.a(1))]
        if ty.k == "cls": return o + [("runs what the given task ran", And(im > 0, ex.rd(IMPL, ex.subobj(cl.qn, "func_", im)) == c.o(IMPL, c.a(0))))]
        return o + [("runs the given function", And(im > 0, ex.hread(cl.qn, "func_", im, ty) == c.a(0)))]
class TaskCall(Contract):
    fn = T + "operator()"; modifies = Any; check_null = False
    def setup(self, c): c.ex.st.ghost["ncall"] = z3.IntVal(0)
    def ensures(self, c): return [("runs its function exactly once", c.ex.st.ghost["ncall"] == 1)]
class ImplCall(Contract):
    fn = T + "TaskBased::call"; trusted = True; virtual_any = True; nparams = 0
    def apply(self, ex, f, this, vals, objty):
        if "ncall" not in ex.st.ghost: raise Unsupported("a task is run elsewhere")
        ex.prove("its own function", this == ex.rd(IMPL, ex.spec.c.this)); gset(ex, "ncall", ex.st.ghost["ncall"] + 1); return None
class Derided(Contract):
    fn = T + "TaskDerided<>::call"; which = 0
    def find(self, p):
        fs = [f for k in sorted(p.byqn) if k.startswith(T + "TaskDerided<") and k.endswith("::call") for f in p.byqn[k] if f.body is not None]
        return fs[min(self.which, len(fs) - 1)] if fs else None
    modifies = Any; check_null = False
    def setup(self, c): c.ex.st.ghost["ncall"] = z3.IntVal(0)
    def on_unknown_call(self, ex, v, vals, lv):
        ex.prove("the stored function", z3.BoolVal(isinstance(lv, LField) and lv.name == "func_" and z3.simplify(lv.ref == self.c.this) is not None and lv.ref.eq(self.c.this))); gset(ex, "ncall", ex.st.ghost["ncall"] + 1); return None
    def ensures(self, c): return [("calls the stored function exactly once", c.ex.st.ghost["ncall"] == 1)]


class WrapCall(Contract):
    fn = T + "operator()"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        cls = ex.spec.c.f.qn.rsplit("::", 1)[0]
        ex.prove("the stored task", this == ex.subobj(cls, "func_", ex.spec.c.this)); gset(ex, "ncall", ex.st.ghost["ncall"] + 1); return None
TASK = [TaskNew(which=w, label="UTask::UTask(function, priority)#%d" % w) for w in range(7)] + [TaskMove(fn=T + "UTask", nparams=1), TaskMove(fn=T + "operator=", nparams=1), TaskCall(), *[Derided(which=w, label="UTask::TaskDerided::call#%d" % w) for w in range(7)]]
for _c in TASK: _c.registry = [ImplCall()] if isinstance(_c, TaskCall) else [WrapCall()] if isinstance(_c, Derided) else []


# ---- workers ---------------------------------------------------------------------------------------------------------
TB, TM, TS = "CGraph::UThreadBase::", "CGraph::UThreadPrimary::", "CGraph::UThreadSecondary::"
CFG = "UThreadBase.config_"
PTS = "UThreadPrimary.pool_threads_"
tk = z3.Function("taken", I, I)


class Take(Contract):
    """a removal as the caller sees it (contracts/queues.py): a task comes with a success, nothing with a failure; the k-th task taken is taken(k)"""
    trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost
        if "ngot" not in gh: raise Unsupported("tasks are taken elsewhere")
        if self.cls is not None: ex.prove("a queue", this != 0)
        if not vals or self.ptr:
            if ex.choose(2): return z3.IntVal(0)
            x = tk(gh["ngot"]); ex.assume(x > 0); gset(ex, "ngot", gh["ngot"] + 1); return x
        lv = vals[0]; ex.prove("nothing taken before is overwritten", gh["ngot"] == gh["nran"])
        if self.batch: v = lv.get(ex); ex.prove("tasks are collected in an empty list", v.lo == v.hi)
        if ex.choose(2): return z3.BoolVal(False)
        if not self.batch: ex.assume(tk(gh["ngot"]) > 0); lv.set(ex, tk(gh["ngot"])); gset(ex, "ngot", gh["ngot"] + 1); return z3.BoolVal(True)
        n = ex.fresh("batch", I); w = ex.fresh_value(v.ty, "batch"); ex.assume(And(n > 0, w.lo == 0, w.hi == n, ForAll([i_], Implies(And(0 <= i_, i_ < n), And(w.d[i_] == tk(gh["ngot"] + i_), w.d[i_] > 0)), patterns=[w.d[i_]])))
        lv.set(ex, w); gset(ex, "ngot", gh["ngot"] + n); return z3.BoolVal(True)
    batch = False; ptr = False; cls = None
TAKE = [Take(fn=q + f, nparams=n, batch=n == 2) for q, fs in ((WS, ("tryPop", "trySteal")), (AQ, ("tryPop",)), (PQ, ("tryPop",))) for f in fs for n in (1, 2)] + [Take(fn=AQ + "popWithTimeout", nparams=1, ptr=True), Take(fn=AQ + "tryPop", nparams=0), Take(fn=AQ + "waitPop", nparams=1)]
class Wait(Contract):
    fn = TM + "fatWait"; trusted = True; modifies = ("UThreadBase.is_running_", "UThreadPrimary.cur_empty_epoch_")
    def requires(self, c): gh = c.ex.st.ghost; return [("no task is kept while waiting", gh["ngot"] == gh["nran"])]


class Worker(Contract):
    """a worker executes each task it has taken, once, in order"""
    modifies = Any; raw = RAW; check_null = False; check_bounds = True
    def requires(self, c):
        ex = c.ex; o = [("configured", c(CFG) != 0)]
        if self.fn.startswith(TM):
            v = ex.rd("UThreadPrimary.steal_targets_", c.this); d = ex.rd("UThreadPoolConfig.default_thread_size_", c(CFG))
            o += [("the pool's threads are known", c(PTS) != 0), ("steal targets denote configured threads", ForAll([i_], Implies(And(v.lo <= i_, i_ < v.hi), And(v.d[i_] >= 0, v.d[i_] < d)), patterns=[v.d[i_]])), ("-", And(v.lo <= v.hi, v.hi - v.lo <= 1 << 30))]
        return o
    def setup(self, c): gh = c.ex.st.ghost; gh["ngot"] = c.ex.fresh("ngot", I); gh["nran"] = gh["ngot"]; gh["got0"] = gh["ngot"]
    def on_unknown_call(self, ex, v, vals, lv):
        gh = ex.st.ghost; v = v if z3.is_expr(v) else lv.get(ex)
        ex.prove("executes the next task it has taken", And(v == tk(gh["nran"]), gh["nran"] < gh["ngot"])); gset(ex, "nran", gh["nran"] + 1); return None
    def ensures(self, c): gh = c.ex.st.ghost; return [("every task taken has been executed, once", gh["nran"] == gh["ngot"])]
    def covers(self, c): gh = c.ex.st.ghost; return [("one executed", gh["nran"] > gh["got0"]), ("nothing to do", gh["nran"] == gh["got0"])]
    def loop_invs(self, L):
        ex = L.ex; gh = ex.st.ghost; G = lambda n: ex.st.ghost[n]
        E = L.entry.ghost
        o = [("nothing left over", lambda L: G("nran") == G("ngot")), ("nothing taken in the loop", lambda L: G("ngot") == E["ngot"]), ("nothing executed in the loop", lambda L: G("nran") == E["nran"]),
             ("whatever was taken comes later", lambda L: G("ngot") >= G("got0"))]
        if L.rng is not None: o.append(("one execution per element", lambda L: G("nran") == E["nran"] + (L.k - L.seq.lo)))
        for k, t in L.locals(lambda t, n: t.k == "vec"):
            o.append(("list so far", lambda L, k=k: L.value(k).lo == L.value(k).hi))
        for k, t in L.locals(lambda t, n: t.k == "bool"): o.append(("nothing found so far", lambda L, k=k: Not(L.value(k))))
        for k, t in L.locals(lambda t, n: t.k == "int"):
            o.append(("one execution per turn", lambda L, k=k: G("nran") == E["nran"] + L.value(k))); o.append(("not negative", lambda L, k=k: L.value(k) >= 0))
        return o
class Loop(Worker):
    """the worker's loop: between two steps nothing is left over"""
    def covers(self, c): return []
class Step(Contract):
    """one step (virtual): proved for both kinds of workers above"""
    trusted = True; virtual_any = True; modifies = ("UThreadBase.is_running_", "UThreadBase.done_", "UThreadBase.total_task_num_"); ghosts = ("ngot", "nran")
    def requires(self, c): gh = c.ex.st.ghost; return [("nothing left over", gh["nran"] == gh["ngot"])]
    def ensures(self, c): gh = c.ex.st.ghost; return [("-", And(gh["nran"] == gh["ngot"], gh["ngot"] >= c.old_st.ghost["ngot"]))]
WORK = [Worker(fn=k + m, nparams=0) for k in (TM, TS) for m in ("processTask", "processTasks")] + [Worker(fn=TS + "waitRunTask", nparams=1, inline_only=True)]
LOOP = [Loop(fn=TB + "loopProcess", nparams=0, may_throw=True)]
for _c in WORK: _c.registry = TAKE + [Wait()]
for _c in LOOP: _c.registry = [Step(fn=TB + "processTask", nparams=0), Step(fn=TB + "processTasks", nparams=0)]


# ---- submission ------------------------------------------------------------------------------------------------------
class Store(Contract):
    """an insertion as the caller sees it: the task is stored (contracts/queues.py)"""
    trusted = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost
        if "npush" not in gh: raise Unsupported("tasks are stored elsewhere")
        x = vals[0]; x = x.get(ex) if isinstance(x, LV) else x
        ex.prove("stored in an existing queue", this != 0); ex.prove("the submitted task is stored", x == gh["mine"]); gset(ex, "npush", gh["npush"] + 1)
        if len(vals) == 2: gh["prio"] = ex.num(vals[1])
        if len(vals) == 3: gh["flags"] = (vals[1], vals[2])
        return z3.BoolVal(True) if f.name == "tryPush" else None
STORE = [Store(fn=WS + "push", nparams=1), Store(fn=WS + "push", nparams=3), Store(fn=AQ + "push", nparams=1), Store(fn=PQ + "push", nparams=2)]
DT = "UThreadPoolConfig.default_thread_size_"
class Wake(Contract): fn = TP + "wakeupAllThread"; trusted = True; modifies = ()
class Sec(Contract): fn = TP + "createSecondaryThread"; trusted = True; modifies = ("UThreadPool.secondary_threads_",)


class Submit(Contract):
    modifies = Any; raw = RAW; check_null = False; check_bounds = True; which = None
    def find(self, p): return [f for f in p.byqn.get(self.fn, ()) if f.body is not None and (self.nparams is None or len(f.params) == self.nparams)][self.which or 0]
    def requires(self, c):
        ex = c.ex; v = ex.rd("UThreadPool.primary_threads_", c.this); d = self.dsize(ex)
        return [("a running pool: one primary thread per configured thread", And(v.lo == 0, v.hi == d, ForAll([i_], Implies(And(0 <= i_, i_ < v.hi), v.d[i_] > 0), patterns=[v.d[i_]]))), ("at least one thread is allowed", ex.rd("UThreadPoolConfig.max_thread_size_", ex.subobj("CGraph::UThreadPool", "config_", c.this)) >= 1)]
    def dsize(self, ex): return ex.rd(DT, ex.subobj("CGraph::UThreadPool", "config_", self.c.this))
    def setup(self, c): gh = c.ex.st.ghost; gh["npush"] = z3.IntVal(0); gh["prio"] = None; self.own(c)
    def own(self, c): c.ex.st.ghost["mine"] = c.a(0)
    def on_token(self, ex, t, vals):
        """UTask(function[, priority]): constructor contract above"""
        x = vals[0]; x = x.get(ex) if isinstance(x, LV) else x
        gh = ex.st.ghost; 
        return x
    def ensures(self, c):
        gh = c.ex.st.ghost; o = [("the task is stored exactly once", gh["npush"] == 1)]
        if "commit" in self.fn: o += [("the result is delivered through the returned future", And(c.ret.c[".valid"], c.ret.c[".id"] == z3.Function("futof", I, I)(gh["mine"])))]
        if "Priority" in self.fn: o.append(("with the given priority", gh["prio"] == c.a(1) if gh["prio"] is not None else z3.BoolVal(False)))
        if "flags" in gh and self.flags is not None: o.append(("the lock flags are passed on", And(gh["flags"][0] == c.a(self.flags), gh["flags"][1] == c.a(self.flags + 1))))
        return o
    flags = None
SUB = [Submit(fn=TM + "pushTask", nparams=1), Submit(fn=TM + "pushTask", nparams=3, flags=1)]
for _c in SUB: _c.registry = STORE + [Wake(), Sec()]; _c.requires = lambda c: []
EX = [Submit(fn=TP + n, nparams=k, which=w, flags=2 if n == "executeWithTid" else None, label="UThreadPool::%s#%d" % (n, w)) for n, k, m in (("execute", 2, 5), ("executeWithTid", 4, 1), ("commit", 2, 6), ("commitWithPriority", 2, 1)) for w in range(m)]
for _c in EX: _c.registry = STORE + [Wake(), Sec()]
SUB += EX


# ---- the engine keeps a local queue locked while it submits a whole row ------------------------------------------------
class Row(Contract):
    """executeWithTid(task, tid, enable, lockable) leaves the queue locked exactly between the first and the last task of a row"""
    fn = TP + "executeWithTid"; nparams = 4; trusted = True
    def apply(self, ex, f, this, vals, objty):
        v = [x.get(ex) if isinstance(x, LV) else x for x in vals]; tid, en, lk = ex.num(v[1]), v[2], v[3]; h = ex.st.ghost["heldrow"]
        ex.prove("the first task of a row takes the lock, the others are stored under it", If(And(en, lk), h == -1, h == tid)); gset(ex, "heldrow", If(And(en, Not(lk)), -1, tid)); return None
class NoRow(Contract):
    trusted = True; modifies = ()
    def requires(self, c): return [("no queue is left locked", c.ex.st.ghost["heldrow"] == -1)]
class RowRun(Contract):
    fn = engine.GD + "parallelRunAll"; raw = ("useq",); modifies = Any; check_null = False
    def requires(self, c): M = c(engine.MX); return [("rows", And(M.lo == 0, M.hi >= 0, *engine.rowwf(M)))]
    def setup(self, c): c.ex.st.ghost["heldrow"] = z3.IntVal(-1)
    def on_wait(self, ex, cv, m, pred): ex.prove("no queue is left locked while waiting", ex.st.ghost["heldrow"] == -1)
    def ensures(self, c): return [("no queue is left locked", c.ex.st.ghost["heldrow"] == -1)]
    def shared(self, cls, name): return cls != "GDynamicEngine" or name != "parallel_element_matrix_"
    def loop_invs(self, L):
        ex = L.ex; h = lambda: ex.st.ghost["heldrow"]; o = [("no queue is locked", lambda L: h() == -1)]
        if L.rng is not None:
            for k, t in L.locals(lambda t, n: t.k == "int"): o.append(("locked between the first and the last task", lambda L, k=k: If(Or(L.k == L.seq.lo, L.k == L.seq.hi), h() == -1, h() == L.value(k))))
        return o
ROW = [RowRun()]
for _c in ROW: _c.registry = [Row(), NoRow(fn=TP + "execute", nparams=2), NoRow(fn=TP + "wakeupAllThread", nparams=0)]

CONTRACTS = TASK + WORK + LOOP + SUB + ROW + WSQ + ATQ + PRQ
VERIFY = CONTRACTS
DRIVERS = ["c22"]
DRIVER_SECONDS = 20
NOTE = ("Each of the 20 queue operations is proved, for every queue content and any number of concurrent owners, thieves and submitters, to be one critical section of the queue's own lock that stores or removes exactly the "
        "tasks it reports, at the end it is specified for (fields outside the lock are arbitrary at every read); a task's construction, moves and call are proved on UTask for every function type the library uses; "
        "workers (primary and secondary, single and batch) execute every task taken exactly once, in order, before they take or wait again; every submission function stores the submitted task exactly once in an existing "
        "queue and returns the future of that task; the engine keeps a local queue locked exactly while it submits one row. Assumed: a single-use function object (std::packaged_task, lambda) runs once per call; memory-order effects of "
        "std::mutex; the pool has one primary thread per configured thread while it runs and max_thread_size_ >= 1. Not decided: that a stored task is ever taken when no worker is allowed to take it (the priority queue of a pool without secondary threads), "
        "and tasks still stored when the pool is destroyed.")

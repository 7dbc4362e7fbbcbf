"""C25: task groups.  Ghosts: ncom = tasks handed to the pool so far, the k-th of them is task k of the group; its future is futof(k).
nwt = futures waited for so far; bad = one of them was not ready at the deadline; nfin = calls of the finish callback."""
from .base import *
from cgv.types import *
from cgv.interp import *
from .life import gset, g

UP = "CGraph::UThreadPool::"
INIT, TA, TT, FIN = "UThreadPool.is_init_", "UTaskGroup.task_arr_", "UTaskGroup.ttl_", "UTaskGroup.on_finished_"
MAX = 2**31


class Submit(Contract):
    fn = UP + "submit"; nparams = 2; modifies = Any; check_null = False; may_throw = True
    def G(self): return self.c.args[0]
    def lim(self): t, u = self.c.ex.rd(TT, self.G(), self.c.old_st), self.c.args[1]; return If(t < u, t, u)
    def setup(self, c):
        gh = c.ex.st.ghost
        for n in ("ncom", "nwt", "nfin", "fincode"): gh[n] = z3.IntVal(0)
        gh["bad"] = z3.BoolVal(False); gh["tnow"] = z3.IntVal(-1); gh["fut0"] = z3.Function("taskfut", I, I); gh["thrown"] = z3.BoolVal(False)
    def requires(self, c):
        if getattr(c, "call", False): return []
        a = c(TA, c.a(0)); return [("limits in range", And(c(TT, c.a(0)) < MAX, c.a(1) < MAX, -MAX < c(TT, c.a(0)), -MAX < c.a(1)))]
    def on_now(self, ex, v): ex.assume(And(v >= ex.st.ghost["tnow"], v < 2**62)); gset(ex, "tnow", v)
    def on_future(self, ex, lv, v, name):
        gh = ex.st.ghost; n = self.n(ex)
        ex.prove("the group's futures are waited for one by one", And(v.c[".valid"], v.c[".id"] == gh["fut0"](gh["nwt"]), gh["nwt"] < n, gh["nfin"] == 0))
        gset(ex, "nwt", gh["nwt"] + 1)
        if name == "wait_until": ex.prove("waits until the smaller limit after the last submission", And(gh["tnow"] >= 0, ex.num(ex.fut_args[0]) == self.deadline(ex), gh["ncom"] == n))
        elif name == "wait_for": ex.prove("not beyond the smaller limit", And(z3.BoolVal(False)))
        else: ex.prove("never waits beyond the limit", z3.BoolVal(False)); return NotImplemented
        r = ex.fresh("futst", I); ex.assume(And(r >= 0, r <= 2)); gset(ex, "bad", Or(gh["bad"], r != 0)); return r
    def n(self, ex): a = ex.rd(TA, self.G(), self.c.old_st); return a.hi - a.lo
    def deadline(self, ex): return ex.st.ghost["dl"] if "dl" in ex.st.ghost else ex.st.ghost["tnow"] + self.lim()
    def on_unknown_call(self, ex, v, vals, lv):
        gh = ex.st.ghost; old = self.c.old_st
        ex.prove("the finish callback of this group, once, after every task", And(z3.simplify(ex.coerce(v, Ty("fn"))) == ex.rd(FIN, self.G(), old), gh["nfin"] == 0, gh["nwt"] == self.n(ex)))
        s = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]; gset(ex, "nfin", 1); gset(ex, "fincode", s.code)
        ex.prove("the callback is told an error exactly when a task was late", (s.code < 0) == gh["bad"])
        if ex.choose(2) == 1: gset(ex, "thrown", z3.BoolVal(True)); raise CxxThrow(*Contract.thrown(self, ex))
        return None
    def ensures(self, c):
        ex = c.ex; gh = ex.st.ghost; F = ex.rd(FIN, c.a(0), c.old_st)
        if getattr(c, "call", False): return []
        return [("refused unless the pool is initialised", Implies(Not(c.o(INIT)), And(c.ret.code < 0, gh["ncom"] == 0, gh["nfin"] == 0))),
                ("every task is handed over exactly once and waited for once", Implies(c.o(INIT), And(gh["ncom"] == self.n(ex), gh["nwt"] == self.n(ex)))),
                ("success exactly when every task finished within the limit", Implies(c.o(INIT), (c.ret.code >= 0) == Not(gh["bad"]))),
                ("the finish callback was called exactly once with the returned status", Implies(c.o(INIT), And(gh["nfin"] == If(F != 0, 1, 0), Implies(F != 0, gh["fincode"] == c.ret.code))))]
    def on_throw(self, c): return [("only the finish callback throws", c.ex.st.ghost["thrown"])]
    def covers(self, c): return [] if c.threw else [("in time", And(c.ret.code >= 0, c.ex.st.ghost["nwt"] > 0)), ("late", And(c.ret.code < 0, c.ex.st.ghost["bad"]))]
    def loop_invs(self, L):
        ex = L.ex; gh = ex.st.ghost; out = []; n = self.n(ex); G = lambda k: ex.st.ghost[k]
        out += [("nothing reported yet", lambda L: And(G("nfin") == 0, Not(G("thrown")))), ("one by one", lambda L: And(0 <= G("nwt"), G("nwt") <= G("ncom"), G("ncom") <= n))]
        for k, t in L.locals(lambda t, n: t.k == "vec" and t.a[0].k == "future"):
            out.append(("one future per handed over task, in order", lambda L, k=k: And(L.value(k).lo == 0, L.value(k).hi == G("ncom"), ForAll([i_], Implies(And(0 <= i_, i_ < G("ncom")), And(L.value(k).c[".d.valid"][i_], L.value(k).c[".d.id"][i_] == gh["fut0"](i_))), patterns=[L.value(k).c[".d.id"][i_]]))))
        if L.rng is not None and L.seq.ty.a[0].k == "future":
            out += [("every task was submitted before", lambda L: G("ncom") == n), ("waited in order", lambda L: G("nwt") == L.k - L.seq.lo)]
        elif L.rng is not None:
            out += [("one task per iteration", lambda L: And(G("nwt") == 0, G("ncom") == L.k - L.seq.lo))]
        else:
            for k, t in L.locals(lambda t, n: t.k == "int"):
                out.append(("one task per iteration", lambda L, k=k: L.value(k) == G("ncom"))); out.append(("one future per iteration", lambda L, k=k: L.value(k) == G("nwt")))
        for k, t in L.locals(lambda t, n: t.k == "status"): out.append(("status so far", lambda L, k=k: (L.value(k).code < 0) == G("bad")))
        return out
class Commit(Contract):
    """thread pool (C22): the task runs exactly once; the future is ready when it has finished"""
    fn = UP + "commit"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost; sp = ex.spec
        if "ncom" not in gh: raise Unsupported("commit outside submit")
        v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]; a = ex.rd(TA, sp.G(), sp.c.old_st)
        ex.prove("the tasks of the group are handed to this pool, each once, in order", And(this == sp.c.this, gh["ncom"] < sp.n(ex), gh["nwt"] == 0, ex.coerce(v, Ty("fn")) == a.d[a.lo + gh["ncom"]]))
        r = gh["fut0"](gh["ncom"]); gset(ex, "ncom", gh["ncom"] + 1); return CV(Ty("future", [VOID], "future"), {".valid": z3.BoolVal(True), ".id": r})


class Tg(Contract):
    """operations of a task group"""
    modifies = ((TA, lambda c: [c.this]), (TT, lambda c: [c.this]), (FIN, lambda c: [c.this])); keep = ()
    def ensures(self, c):
        a, b = c.o(TA), c(TA); n = b.hi - b.lo; m = a.hi - a.lo
        def same(k): return ForAll([i_], Implies(And(0 <= i_, i_ < m), b.d[b.lo + i_] == a.d[a.lo + i_]), patterns=[b.d[b.lo + i_]])
        if self.fn.endswith("addTask"): return [("the task is appended", And(n == m + 1, b.d[b.hi - 1] == c.a(0), same(0))), ("nothing else changes", And(c(TT) == c.o(TT), c(FIN) == c.o(FIN))), ("same group", c.ret == c.this)]
        if self.fn.endswith("setTtl"): return [("the limit is set", c(TT) == c.a(0)), ("nothing else changes", And(n == m, same(0), c(FIN) == c.o(FIN))), ("same group", c.ret == c.this)]
        if self.fn.endswith("setOnFinished"): return [("the callback is set", c(FIN) == c.a(0)), ("nothing else changes", And(n == m, same(0), c(TT) == c.o(TT))), ("same group", c.ret == c.this)]
        if self.fn.endswith("clear"): return [("no task is left", n == 0), ("nothing else changes", And(c(TT) == c.o(TT), c(FIN) == c.o(FIN)))]
        if self.fn.endswith("getTtl"): return [("the limit", c.ret == c.o(TT)), ("nothing changes", And(n == m, same(0), c(TT) == c.o(TT), c(FIN) == c.o(FIN)))]
        if self.fn.endswith("getSize"): return [("the number of tasks", c.ret == m), ("nothing changes", And(n == m, same(0), c(TT) == c.o(TT), c(FIN) == c.o(FIN)))]
        return [("a group of exactly this task, limit and callback", And(n == 1, b.d[b.lo] == c.a(0), c(TT) == c.a(1), c(FIN) == c.a(2)))]
class Call(Contract):
    """submit as seen by its wrappers (proved above)"""
    fn = UP + "submit"; nparams = 2; trusted = True
    def apply(self, ex, f, this, vals, objty):
        if "nsub" not in ex.st.ghost: raise Unsupported("submit elsewhere")
        v = [x.get(ex) if isinstance(x, LV) and not isinstance(x, LObj) else x.ref if isinstance(x, LObj) else x for x in vals]
        ex.spec.on_submit(ex, this, v); gset(ex, "nsub", ex.st.ghost["nsub"] + 1)
        r = ex.fresh_value(STATUS, "sub"); gset(ex, "code", r.code); return r
class Wrap(Contract):
    check_null = True; may_throw = True
    def setup(self, c): c.ex.st.ghost["nsub"] = z3.IntVal(0); c.ex.st.ghost["code"] = z3.IntVal(0)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        gh = c.ex.st.ghost; ok = self.able(c); return [("submitted exactly once, its status is the result", Implies(ok, And(gh["nsub"] == 1, c.ret.code == gh["code"]))), ("otherwise an error, or whatever the pool reports", Implies(Not(ok), Or(And(gh["nsub"] == 0, c.ret.code < 0), And(gh["nsub"] == 1, c.ret.code == gh["code"]))))]
class Submit3(Wrap):
    fn = UP + "submit"; nparams = 3; modifies = Any
    def able(self, c): return c.o(INIT)
    def on_submit(self, ex, this, v):
        c = self.c; a = ex.rd(TA, v[0]); t = ex.rd(TT, v[0]); t = If(t < v[1], t, v[1])
        ex.prove("this pool, a group of exactly that task, limit and callback", And(this == c.this, a.hi - a.lo == 1, a.d[a.lo] == c.args[0], ex.rd(FIN, v[0]) == c.args[2], Or(t == c.args[1], And(c.args[1] > 1999999999, t == 1999999999))))
class CallSub(Call):
    nparams = None
class Spawn(Wrap):
    fn = "CGraph::GNode::spawn"; modifies = Any
    def able(self, c): return And(c.o("GElement.is_init_"), c.o("GElement.thread_pool_") != 0)
    def on_submit(self, ex, this, v):
        c = self.c; 
        ex.prove("the node's own pool, the same request", And(this == c.o("GElement.thread_pool_"), *[a == b for a, b in zip(v, c.args)]))


S = Submit(); S.registry = [Commit()]
TG = [Tg(fn="CGraph::UTaskGroup::" + n) for n in ("addTask", "setTtl", "setOnFinished", "clear", "getTtl", "getSize")] + [Tg(fn="CGraph::UTaskGroup::UTaskGroup", nparams=3)]
for _c in TG: _c.registry = []
S3 = Submit3(); S3.registry = [Call()]
SP = [Spawn(nparams=2)]
for _c in SP: _c.registry = [CallSub()]
CONTRACTS = [S, S3] + TG + SP
VERIFY = CONTRACTS
DRIVERS = ["c25"]
DRIVER_SECONDS = 10
NOTE = ("Proved for every group: UThreadPool::submit hands every task to the pool once and in order, waits for each future until one common deadline (the smaller limit after the last submission), returns success exactly when every future was ready, and calls the finish callback once with the returned status; the wrapper submit(func), GNode::spawn and the task group's own operations. "
        "Assumed: commit hands over the task once and its future is ready when the task has finished (C22); limits below 2^31 ms. The driver explores schedules with virtual time and is bounded.")

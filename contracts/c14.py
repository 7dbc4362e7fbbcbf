"""C14: elements with a timeout.

Ghost state of asyncRun: nsub = tasks handed to the pool, nrun = callbacks executed by the task, ready = the last deadline wait ended in time,
ngot = results collected, nto = ENTER_TIMEOUT hooks.  TO(e) is the specification of "timed out": e or a group around e is in the TIMEOUT state."""
from .life import *
from . import c13
from . import static as _st

RE, ASY, AR, STG = "GElementRepository.elements_", "GElementRepository.async_elements_", "GElement.async_result_", "GElement.timeout_strategy_"
REP = "CGraph::GElementRepository::"
COUNTS = ("nsub", "nrun", "ready", "ngot", "nto", "waited", "code", "late")


class IsTimeout(Contract):
    """timed out = the element or any group around it is in the TIMEOUT state (states fixed during the query)"""
    fn = GE + "isTimeout"; modifies = ()
    def to(self, ex, e): return z3.Function("TO", I, B)(e)
    def own(self, ex, e): return ex.rd(CS, e) == state(ex, "TIMEOUT")
    def requires(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex
        # definition of TO by recursion over the owner chain (a finite chain: groups are built bottom-up, C12)
        return [("definition of timed out", ForAll([a_], Implies(a_ != 0, self.to(ex, a_) == Or(self.own(ex, a_), And(ex.rd(BL, a_) != 0, self.to(ex, ex.rd(BL, a_))))), patterns=[self.to(ex, a_), ex.rd(BL, a_)]))]
    def ensures(self, c):
        if getattr(c, "call", False): return []
        return [("exactly when it or a group around it is timed out", c.ret == self.to(c.ex, c.this))]
    def covers(self, c): return [("timed out by a group", And(c.ret, Not(self.own(c.ex, c.this)))), ("not timed out", Not(c.ret)), ("itself", self.own(c.ex, c.this))]
    def loop_invs(self, L):
        ex = L.ex; T = self.to; this = self.c.this
        for k, t in L.locals(lambda t, n: t.k == "bool"):
            yield "found means timed out", lambda L, k=k: Implies(L.value(k), T(ex, this))
            for q, u in L.locals(lambda t, n: t.k == "ptr"):
                yield "timed out if the rest of the chain is", lambda L, k=k, q=q: And(T(ex, this) == Or(L.value(k), And(L.value(q) != 0, T(ex, L.value(q)))))
        for q, u in L.locals(lambda t, n: t.k == "ptr"):
            yield "timed out exactly if the rest of the chain is", lambda L, q=q: T(ex, this) == And(L.value(q) != 0, T(ex, L.value(q)))


class Bg(Contract):
    """functions about the background execution of one element"""
    def setup(self, c):
        for n in COUNTS: c.ex.st.ghost[n] = z3.IntVal(0)
    def on_future(self, ex, lv, v, name):
        G = lambda n: g(ex, n)
        if name == "get":
            ex.prove("a result is collected once", v.c[".valid"])
            gset(ex, "ngot", G("ngot") + 1); lv.set(ex, v.upd(valid=z3.BoolVal(False)))
            if self.may_throw and ex.choose(2) == 1: gset(ex, "late", 1); raise CxxThrow(*Contract.thrown(self, ex))
            r = ex.fresh_value(STATUS, "res"); gset(ex, "code", r.code); return r
        if name == "wait_for":
            ex.prove("the deadline is waited for once, on the submitted task", And(v.c[".valid"], G("waited") == 0, G("nsub") == 1))
            r = ex.fresh("futst", I); ex.assume(And(r >= 0, r <= 2)); gset(ex, "waited", 1); gset(ex, "ready", If(r == 0, 1, 0)); return r
        return NotImplemented


class GetResult(Bg):
    """collect the result of the background task if there is one that was not collected yet; a late exception comes out here"""
    fn = GE + "getAsyncResult"; may_throw = True; modifies = ((AR, lambda c: [c.this]),)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        v = c.o(AR).c[".valid"]; G = lambda n: g(c.ex, n)
        return [("a pending result is collected", G("ngot") == If(v, 1, 0)), ("its status is returned", Implies(v, c.ret.code == G("code"))), ("nothing pending is a success", Implies(Not(v), c.ret.code == 0)),
                ("it is collected only once", Not(c(AR).c[".valid"]))]
    def on_throw(self, c): return [("an exception is the one of the background task", c.o(AR).c[".valid"])]
    def covers(self, c): return [] if c.threw else [("pending", c.o(AR).c[".valid"]), ("none", Not(c.o(AR).c[".valid"]))]
    def apply(self, ex, f, this, vals, objty):
        if "nsub" not in ex.st.ghost: raise Unsupported("result collected outside the life of a task")
        v = ex.rd(AR, this); cls, n, t = self.fld(ex, AR)
        ex.wr(AR, this, v.upd(valid=z3.BoolVal(False))); ex.spec.collected(ex, this, v)
        gset(ex, "ngot", g(ex, "ngot") + 1)
        if ex.choose(2) == 1: gset(ex, "late", 1); ex.assume(v.c[".valid"]); ex.spec.lates(ex, this); raise CxxThrow(*Contract.thrown(self, ex))
        r = ex.fresh_value(STATUS, "res"); ex.assume(Implies(Not(v.c[".valid"]), And(r.code == 0))); gset(ex, "code", If(v.c[".valid"], r.code, g(ex, "code"))); ex.spec.got(ex, this, r); return r


class Task(Contract):
    """thread pool (C22): the task is executed exactly once, on some thread; the future yields its result or its exception"""
    fn = "CGraph::UThreadPool::commit"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        if "nsub" not in ex.st.ghost: raise Unsupported("commit outside asyncRun")
        clo = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        clo = ex.unfn(clo)
        if not isinstance(clo, Closure): raise Unsupported("task of unknown form")
        ex.prove("only elements with a timeout run in the background", ex.rd(TMO, ex.spec.c.this) != 0)
        ex.prove("one background task per run", And(g(ex, "nsub") == 0, g(ex, "waited") == 0))
        gset(ex, "nsub", 1)
        if ex.choose(2) == 0:
            r = ex.call_value(clo, [])
            if isinstance(r, LV): r = r.get(ex)
            ex.prove("the task executes the element's callback once", g(ex, "nrun") == 1)
            ex.prove("the task yields the callback's status", r.code == g(ex, "code"))
            raise PathEnd("task")
        return CV(_st.FT, {".valid": z3.BoolVal(True), ".id": z3.IntVal(7)})
class Cb(Contract):
    """the user's run callback: any status"""
    fn = "CGraph::CObject::run"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        if "nsub" not in ex.st.ghost: raise Unsupported("callback outside asyncRun")
        ex.prove("the callback of this element", this == ex.spec.c.this); ex.prove("the callback runs in the background task, not in place", g(ex, "nsub") == 1)
        gset(ex, "nrun", g(ex, "nrun") + 1); r = ex.fresh_value(STATUS, "cb"); gset(ex, "code", r.code); return r
class Asp(Contract):
    fn = GE + "doAspect"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        if "nsub" not in ex.st.ghost: raise Unsupported("hook outside asyncRun")
        ex.prove("only the timeout hook, after a missed deadline", And(v == asp(ex, "ENTER_TIMEOUT"), g(ex, "waited") == 1, g(ex, "ready") == 0))
        gset(ex, "nto", g(ex, "nto") + 1); return ex.fresh_value(STATUS, "asp")


class AsyncRun(Bg):
    fn = GE + "asyncRun"; may_throw = True; check_null = True; modifies = ((AR, lambda c: [c.this]), CS)
    def requires(self, c): return [] if getattr(c, "call", False) else [("the element has a pool (checkSuitable)", c("GElement.thread_pool_") != 0)]
    def collected(self, ex, this, v): ex.prove("its own result, only when it was in time", And(this == self.c.this, g(ex, "ready") == 1))
    def lates(self, ex, this): pass
    def got(self, ex, this, r): pass
    def after_atomic(self, ex, lv, op, old, new):
        if lv.name != "cur_state_" or op == "load": return
        ex.prove("the element itself enters the timed-out state, after a missed deadline, unless that is an error",
                 And(lv.ref == self.c.this, new == state(ex, "TIMEOUT"), g(ex, "waited") == 1, g(ex, "ready") == 0, ex.rd(STG, self.c.this) != self.err(ex)))
    def err(self, ex): return ex.p.enums["CGraph::GElementTimeoutStrategy::AS_ERROR"]
    def ensures(self, c):
        ex = c.ex; G = lambda n: g(ex, n); asy = c.o(TMO) != 0; missed = And(asy, G("ready") == 0); iserr = c.o(STG) == self.err(ex)
        return [("an element without a timeout is refused and not started", Implies(Not(asy), And(c.ret.code < 0, G("nsub") == 0, c(CS) == c.o(CS)))),
                ("an element with a timeout runs as one background task and its deadline is observed", Implies(asy, And(G("nsub") == 1, G("waited") == 1))),
                ("in time: its own status, and no timed-out state", Implies(And(asy, G("ready") == 1), And(G("ngot") == 1, c.ret.code == G("code"), G("nto") == 0, c(CS) == c.o(CS)))),
                ("missed deadline as error: an error, no timed-out state", Implies(And(missed, iserr), And(c.ret.code < 0, c(CS) == c.o(CS)))),
                ("missed deadline otherwise: success and the timed-out state", Implies(And(missed, Not(iserr)), And(c.ret.code >= 0, c(CS) == state(ex, "TIMEOUT")))),
                ("a missed deadline calls the timeout hooks once and leaves the task its result", Implies(missed, And(G("nto") == 1, G("ngot") == 0, c(AR).c[".valid"])))]
    def on_throw(self, c): return [("an exception is the task's own, in time", And(g(c.ex, "ready") == 1, g(c.ex, "late") == 1))]
    def covers(self, c): return [] if c.threw else [("in time", g(c.ex, "ngot") == 1), ("missed", g(c.ex, "nto") == 1), ("refused", c.o(TMO) == 0), ("state", c(CS) != c.o(CS))]


class IsAsync(Contract):
    fn = GE + "isAsync"; modifies = ()
    def ensures(self, c): return [("exactly the elements with a timeout", c.ret == (c.o(TMO) != 0))]
class Suitable(Contract):
    """checked for every element at init: the timeout configuration is usable"""
    fn = GE + "checkSuitable"; modifies = ()
    def requires(self, c): return []
    def ensures(self, c):
        bad = Or(c.o("GElement.thread_pool_") == 0, And(c.o(LOOP) > 1, c.o(TMO) != 0))
        return [("a timeout together with a loop, or a missing pool, is an error", Implies(bad, c.ret.code < 0)), ("anything else is accepted", Implies(Not(bad), c.ret.code >= 0))]
    def covers(self, c): return [("ok", c.ret.code >= 0), ("loop with timeout", And(c.o("GElement.thread_pool_") != 0, c.ret.code < 0))]


class Reset(Bg):
    """end of a run: every held element is waited for and its result reported, no element stays timed out"""
    fn = REP + "reset"; modifies = (AR, CS)
    def setup(self, c):
        Bg.setup(self, c); ex = c.ex; ex.st.ghost["acc"] = z3.IntVal(0)
        ex.ghost_field("held", BOOL); ex.havoc_key("ghost", "held", BOOL); ex.assume(ForAll([a_], Not(ex.rd("ghost.held", a_)), patterns=[ex.rd("ghost.held", a_)]))
    modifies = (AR, CS, "ghost.held")
    def requires(self, c):
        if getattr(c, "call", False): return []
        return [("elements exist", ForAll([a_], Implies(c(ASY).m[a_], a_ > 0), patterns=[c(ASY).m[a_]]))]
    def hold(self, ex, e): return ex.rd(STG, e) == ex.p.enums["CGraph::GElementTimeoutStrategy::HOLD_BY_PIPELINE"]
    def collected(self, ex, this, v):
        ex.prove("only held elements are waited for", And(ex.rd(ASY, self.c.this).m[this], self.hold(ex, this)))
        ex.wr("ghost.held", this, z3.BoolVal(True))
    def lates(self, ex, this): self.add(ex, z3.IntVal(-996))
    def got(self, ex, this, r): self.add(ex, r.code)
    def add(self, ex, code): gset(ex, "acc", If(And(g(ex, "acc") >= 0, code < 0), code, g(ex, "acc")))
    def before_atomic(self, ex, lv, op): pass
    def after_atomic(self, ex, lv, op, old, new):
        if lv.name == "cur_state_" and op != "load": ex.prove("the state goes back to normal", new == state(ex, "NORMAL"))
    def timed(self, ex, e): return ex.rd(CS, e) == state(ex, "TIMEOUT")
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; s = c.o(ASY); a = g(ex, "acc")
        return [("every held element was waited for", ForAll([a_], Implies(And(s.m[a_], self.hold(ex, a_)), ex.rd("ghost.held", a_)), patterns=[s.m[a_]])),
                ("no timed-out state is carried over", ForAll([a_], Implies(s.m[a_], Not(self.timed(ex, a_))), patterns=[s.m[a_]])),
                ("the first error of a held element is the result", And(Implies(a < 0, c.ret.code == a), Implies(a >= 0, c.ret.code >= 0))),
                ("other states are kept", ForAll([a_], Implies(ex.rd(CS, a_, c.old_st) != state(ex, "TIMEOUT"), Or(ex.rd(CS, a_) == ex.rd(CS, a_, c.old_st), s.m[a_])), patterns=[ex.rd(CS, a_)]))]
    def covers(self, c): return [("late error", g(c.ex, "acc") < 0), ("late exception", And(g(c.ex, "late") == 1, c.ret.code < 0)), ("fine", And(c.o(ASY).hi > 0, c.ret.code >= 0))]
    def loop_invs(self, L):
        ex = L.ex
        if L.rng is None: return
        s = L.seq; vis = lambda L: And(L.seq.m[a_], L.seq.pos[a_] < L.k)
        yield "visited held elements were waited for", lambda L: ForAll([a_], Implies(And(vis(L), self.hold(ex, a_)), ex.rd("ghost.held", a_)), patterns=[L.seq.m[a_]])
        yield "visited elements are not timed out", lambda L: ForAll([a_], Implies(vis(L), Not(self.timed(ex, a_))), patterns=[L.seq.m[a_]])
        yield "other elements keep their state", lambda L: ForAll([a_], Implies(Not(L.seq.m[a_]), ex.rd(CS, a_) == ex.rd(CS, a_, self.c.old_st)), patterns=[ex.rd(CS, a_)])
        for k, t in L.locals(lambda t, n: t.k == "status"):
            yield "local status = first error", lambda L, k=k: And(Implies(g(ex, "acc") < 0, L.value(k).code == g(ex, "acc")), Implies(g(ex, "acc") >= 0, L.value(k).code >= 0))
class QIsTimeout(IsTimeout):
    """as used by reset: at least the element's own state (proved above)"""
    label = "GElement::isTimeout"; trusted = True
    def ensures(self, c): return [("its own timed-out state counts", Implies(self.own(c.ex, c.this), c.ret))]
class Crash(Contract):
    fn = GE + "crashed"; trusted = True; modifies = ()
    def ensures(self, c): return [("a crash is reported as the crash status", c.ret.code == -996)]


_it, _gr, _ar, _rs, _su, _ia = IsTimeout(), GetResult(), AsyncRun(), Reset(), Suitable(), IsAsync()
REG = [QIsTimeout(), _gr, _ar, _rs, _su, Task(), Cb(), Asp(), Crash()]
for _c in (_gr, _ar, _rs, _su, _ia): _c.registry = REG
_it.registry = []
_ri = next(c for c in c13.CONTRACTS if type(c).__name__ == "RInit")
_ri.registry = c13.CONTRACTS
CONTRACTS = REG
VERIFY = [_it, _ia, _su, _gr, _ar, _rs, _ri]
DRIVERS = ["c14"]
DRIVER_SECONDS = 20
NOTE = ("Proved for every configuration, callback result and outcome of the deadline wait: asyncRun (one background task, own status in time, error or timed-out state afterwards, timeout hooks), getAsyncResult, checkSuitable, isTimeout over owner chains of any length, the exact recording of asynchronous elements at init and their collection at the end of a run (held ones waited for, late errors and exceptions reported, no timed-out state left). "
        "Assumed: the pool executes the submitted task once (C22) and std::future delivers its result or exception; the order of these steps within a run is C15. The replay driver runs real pipelines with virtual time and is bounded.")

"""C13: state changes reach every element under its own lock and are announced; waiters wait exactly for the end of the suspension.

No lost wake-up = (1) an element's state leaves SUSPEND only inside the element's suspend lock, followed by a notification (pushAllState),
and (2) a suspended element re-tests the state under that lock and waits with exactly that condition (checkSuspend)."""
from .life import *

RE, RS = "GElementRepository.elements_", "GElementRepository.cur_state_"
REP = "CGraph::GElementRepository::"
ASY = "GElementRepository.async_elements_"
KIDS = "GElement.children_" 


class Held(Contract):
    def acquire(self, ex, m, k):
        hl = dict(ex.st.ghost.get("hl", {})); hl[k] = m; ex.st.ghost["hl"] = hl
    def holds(self, ex, e):
        """this thread holds the suspend lock of element e"""
        return Or(False, *[own(m.ref) == e for k, m in ex.st.ghost.get("hl", {}).items() if k in ex.st.held and m.name == "mtx_"])
own = z3.Function("own:GElement.suspend_locker_", I, I)


class PushAll(Held):
    fn = REP + "pushAllState"; modifies = (CS, (RS, lambda c: [c.this]), "ghost.given", "ghost.told", "ghost.pushed")
    def setup(self, c): self.ghosts_(c.ex)
    @staticmethod
    def ghosts_(ex): ex.ghost_field("given", INT); ex.ghost_field("told", BOOL); ex.ghost_field("pushed", BOOL)
    def requires(self, c): return [("elements exist", ForAll([a_], Implies(c(RE).m[a_], a_ > 0), patterns=[c(RE).m[a_]]))] if not getattr(c, "call", False) else []
    def prologue(self, c):
        ex = c.ex; self.want = c.arg_now(0)
        for n, t in (("ghost.told", BOOL), ("ghost.pushed", BOOL)): ex.havoc_key("ghost", n[6:], t); ex.assume(ForAll([a_], Not(ex.rd(n, a_))))
    def before_atomic(self, ex, lv, op):
        if lv.name != "cur_state_" or "quiet" in ex.st.ghost: return
        if op in ("store", "exchange", "cas"): ex.prove("an element's state is changed under its suspend lock", self.holds(ex, lv.ref))
    def after_atomic(self, ex, lv, op, old, new):
        if lv.name != "cur_state_" or op == "load": return
        ex.wr("ghost.given", lv.ref, new); ex.wr("ghost.pushed", lv.ref, z3.BoolVal(True)); ex.wr("ghost.told", lv.ref, z3.BoolVal(False))
    def on_notify(self, ex, cv, n): ex.wr("ghost.told", own(cv.ref), z3.BoolVal(True))
    def ensures(self, c):
        ex = c.ex; want = c.a(0) if getattr(c, "call", False) else self.want
        s = c.o(RE); change = c.o(RS) != want; P = lambda n: ex.rd("ghost." + n, a_)
        return [("the requested state is recorded", c(RS) == want), ("the request succeeds", c.ret.code == 0),
                ("every element gets the requested state", Implies(change, ForAll([a_], Implies(s.m[a_], And(P("pushed"), P("given") == want)), patterns=[s.m[a_]]))),
                ("every element that may be waiting is told", Implies(And(change, want != state(ex, "SUSPEND")), ForAll([a_], Implies(s.m[a_], P("told")), patterns=[s.m[a_]])))]
    def covers(self, c): return [("a change", And(c.o(RS) != c(RS), c.o(RE).hi > 1)), ("no change", c.o(RS) == c(RS))]
    def loop_invs(self, L):
        ex = L.ex
        if L.rng is None: return []
        P = lambda n: ex.rd("ghost." + n, a_); want = self.want
        def vis(L): s = L.seq; return s, And(s.m[a_], s.pos[a_] < L.k)
        def given(L): s, v = vis(L); return ForAll([a_], Implies(v, And(P("pushed"), P("given") == want)), patterns=[s.m[a_]])
        def told(L): s, v = vis(L); return Implies(want != state(ex, "SUSPEND"), ForAll([a_], Implies(v, P("told")), patterns=[s.m[a_]]))
        def told2(L): s, v = vis(L); return ForAll([a_], Implies(v, P("told")), patterns=[s.m[a_]])
        return [("visited elements have the state", given), ("visited elements are told", told), ("all visited elements are told", told2)]


class CheckSusp(Held):
    """wait while suspended: the state is re-tested under the lock, with exactly the condition the announcer changes"""
    fn = GE + "checkSuspend"; modifies = (CS,)
    def setup(self, c): c.ex.st.ghost["last"] = z3.IntVal(-1); c.ex.st.ghost["waits"] = z3.IntVal(0)
    def before_atomic(self, ex, lv, op):
        if lv.name == "cur_state_":
            cls, n, t = self.fld(ex, CS); ex.havoc_at(cls, n, lv.ref, t)
            ex.prove("the state is only observed here", z3.BoolVal(op == "load"))
    def after_atomic(self, ex, lv, op, old, new):
        if lv.name == "cur_state_": gset(ex, "last", If(lv.ref == self.c.this, new, g(ex, "last")))
    def on_wait(self, ex, cv, m, pred):
        ex.prove("waits on its own condition and lock", And(own(cv.ref) == self.c.this, own(m.ref) == self.c.this, m.name == "mtx_"))
        gset(ex, "waits", g(ex, "waits") + 1)
        # the wait condition must become true exactly when the state is not SUSPEND: evaluate it once under any state
        s0 = ex.st.ghost["last"]
        p = ex.boolv(ex.call_value(pred, []))
        ex.prove("the wait ends exactly when the state is not SUSPEND", p == (g(ex, "last") != state(ex, "SUSPEND")))
    def ensures(self, c):
        return [] if getattr(c, "call", False) else [("returns only after a state other than SUSPEND was observed", g(c.ex, "last") != state(c.ex, "SUSPEND"))]
    def covers(self, c): return [("waited", g(c.ex, "waits") == 1), ("did not wait", g(c.ex, "waits") == 0)]
    def loop_invs(self, L): return []


class Uses(PushAll):
    """functions that delegate to pushAllState"""
    want_state = "NORMAL"; name_ = ""
    def setup(self, c): self.ghosts_(c.ex)
    def requires(self, c): return []
    def prologue(self, c): self.want = state(c.ex, self.want_state)
    def loop_invs(self, L): return []
    def covers(self, c): return []
class RSetup(Uses):
    fn = REP + "setup"
class RDestroy(Uses):
    fn = REP + "destroy"
class RInit(Uses):
    fn = REP + "init"; may_throw = True
    modifies = Uses.modifies + ((ASY, lambda c: [c.this]), "GElement.aspect_manager_")
    def on_throw(self, c): return []
    def ensures(self, c):
        ex = c.ex; ok = c.ret.code >= 0; s, a = c.o(RE), c(ASY)
        out = [(n, Implies(ok, f)) for n, f in PushAll.ensures(self, c) if n != "the request succeeds"]
        return out + [("the asynchronous elements are recorded exactly", Implies(ok, ForAll([a_], a.m[a_] == And(s.m[a_], ex.rd(TMO, a_) != 0), patterns=[a.m[a_]])))]
    def loop_invs(self, L):
        ex = L.ex; this = self.c.this
        if L.rng is None: return []
        def rec(L): s = L.seq; a = ex.rd(ASY, this); return ForAll([a_], a.m[a_] == And(s.m[a_], s.pos[a_] < L.k, ex.rd(TMO, a_) != 0), patterns=[a.m[a_]])
        return [("asynchronous elements recorded so far", rec)]
class Suitable(Contract):
    fn = GE + "checkSuitable"; trusted = True; virtual_any = True
class UpdAsp(Contract):
    fn = GE + "updateAspectInfo"; trusted = True


class Req(Contract):
    """GPipeline::cancel / suspend / resume"""
    to = None; INIT_F = "GPipeline.is_init_"
    modifies = (CS, RS, "ghost.given", "ghost.told", "ghost.pushed")
    def setup(self, c): PushAll.ghosts_(c.ex)
    def repo(self, c): return c.ex.subobj("CGraph::GPipeline", "repository_", c.this)
    def ensures(self, c):
        ex = c.ex; rep = self.repo(c); s = ex.rd(RE, rep, c.old_st); want = state(ex, self.to); P = lambda n: ex.rd("ghost." + n, a_)
        init = c.o(self.INIT_F); change = ex.rd(RS, rep, c.old_st) != want
        return [("refused before initialisation", (c.ret.code < 0) == Not(init)),
                ("a refused request changes nothing", Implies(Not(init), ex.rd(RS, rep) == ex.rd(RS, rep, c.old_st))),
                ("the state reaches every element", Implies(init, And(ex.rd(RS, rep) == want, Implies(change, ForAll([a_], Implies(s.m[a_], And(P("pushed"), P("given") == want)), patterns=[s.m[a_]])))))]
class IsCancel(Contract):
    fn = REP + "isCancelState"; modifies = ()
    def ensures(self, c): return [("exactly the cancelled state", c.ret == (c.o(RS) == state(c.ex, "CANCEL")))]
class GetState(Contract):
    fn = "CGraph::GPipeline::getCurState"; modifies = ()
    def ensures(self, c): return [("the pipeline's recorded state", c.ret == c.ex.rd(RS, c.ex.subobj("CGraph::GPipeline", "repository_", c.this)))]


class Fetch(Contract):
    """the repository contains every registered element and everything nested in it"""
    fn = REP + "fetch"; may_throw = True; modifies = ((RE, lambda c: [c.this]),)
    def group(self, c, e): return c.ex.rd("GElement.element_type_", e)
    def closed(self, c, x, now):
        s = now; kids = c.ex.rd("GGroup.children_" if False else self.kids(c.ex), x)
        return ForAll([i_], Implies(And(i_ >= kids.lo, i_ < kids.hi), s.m[kids.d[i_]]))
    @staticmethod
    def kids(ex): return "GElement.children_" if ex._hasfield("CGraph::GElement", "children_") else "GGroup.children_"
    def isgroup(self, ex, e, st=None): return z3.Function("isgroup", I, B)(ex.rd("GElement.element_type_", e, st))
    def ensures(self, c):
        ex = c.ex; s0, s1 = c.o(RE), c(RE); e = c.a(0)
        return [("the element is included", s1.m[e]), ("nothing is lost", ForAll([a_], Implies(s0.m[a_], s1.m[a_]), patterns=[s0.m[a_]])),
                ("children of a fetched group are included", Implies(self.isgroup(ex, e), self.closed(c, e, s1))),
                ("children of every newly included group are included", ForAll([a_], Implies(And(s1.m[a_], Not(s0.m[a_]), self.isgroup(ex, a_)), self.closed(c, a_, s1)), patterns=[s1.m[a_]]))]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; this = c.this; e = c.args[0]
        if L.rng is None: return []
        s0 = ex.rd(RE, this, c.old_st)
        def inc(L): return ex.rd(RE, this).m[e]
        def keep(L): s1 = ex.rd(RE, this); return ForAll([a_], Implies(s0.m[a_], s1.m[a_]), patterns=[s0.m[a_]])
        def vis(L): s1 = ex.rd(RE, this); q = L.seq; return ForAll([i_], Implies(And(i_ >= q.lo, i_ < L.k), s1.m[q.d[i_]]))
        def clo(L): s1 = ex.rd(RE, this); return ForAll([a_], Implies(And(s1.m[a_], Not(s0.m[a_]), a_ != e, self.isgroup(ex, a_)), self.closed(c, a_, s1)), patterns=[s1.m[a_]])
        return [("included", inc), ("nothing lost", keep), ("visited children included", vis), ("closed so far", clo)]
class IsGroup(Contract):
    fn = GE + "isGGroup"; modifies = ()
    def apply(self, ex, f, this, vals, objty):
        return z3.Function("isgroup", I, B)(ex.rd("GElement.element_type_", this))
class FetchAll(Fetch):
    fn = REP + "fetchAll"
    def ensures(self, c):
        ex = c.ex; s0, s1 = c.o(RE), c(RE); m = ex.rd("GElementManager.manager_elements_", c.a(0))
        return [("every registered element is included", ForAll([a_], Implies(m.m[a_], s1.m[a_]), patterns=[m.m[a_]])), ("nothing is lost", ForAll([a_], Implies(s0.m[a_], s1.m[a_]), patterns=[s0.m[a_]])),
                ("children of every registered group are included", ForAll([a_], Implies(And(m.m[a_], self.isgroup(ex, a_)), self.closed(c, a_, s1)), patterns=[m.m[a_]])),
                ("children of every newly included group are included", ForAll([a_], Implies(And(s1.m[a_], Not(s0.m[a_]), self.isgroup(ex, a_)), self.closed(c, a_, s1)), patterns=[s1.m[a_]]))]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; this = c.this
        if L.rng is None: return []
        s0 = ex.rd(RE, this, c.old_st)
        def keep(L): s1 = ex.rd(RE, this); return ForAll([a_], Implies(s0.m[a_], s1.m[a_]), patterns=[s0.m[a_]])
        def vis(L): s1 = ex.rd(RE, this); q = L.seq; return ForAll([a_], Implies(And(q.m[a_], q.pos[a_] < L.k), And(s1.m[a_], Implies(self.isgroup(ex, a_), self.closed(c, a_, s1)))), patterns=[q.m[a_]])
        def clo(L): s1 = ex.rd(RE, this); return ForAll([a_], Implies(And(s1.m[a_], Not(s0.m[a_]), self.isgroup(ex, a_)), self.closed(c, a_, s1)), patterns=[s1.m[a_]])
        return [("nothing lost", keep), ("visited included", vis), ("closed so far", clo)]


_push = PushAll()
REQS = [Req(fn="CGraph::GPipeline::cancel", to="CANCEL"), Req(fn="CGraph::GPipeline::suspend", to="SUSPEND"), Req(fn="CGraph::GPipeline::resume", to="NORMAL")]
CONTRACTS = [_push, RSetup(), RDestroy(), RInit(), Suitable(), UpdAsp(), IsCancel(), GetState(), Fetch(), FetchAll(), IsGroup(inline_only=False)] + REQS
_cs = CheckSusp(); _cs.registry = []
_ir = [c for c in life() if type(c).__name__ in ("IsRunnable",)]
for _c in _ir: _c.registry = life()
VERIFY = [c for c in CONTRACTS if not c.trusted and not isinstance(c, IsGroup)] + [_cs] + _ir
DRIVERS = ["c13"]
DRIVER_SECONDS = 10
NOTE = "The announcer (pushAllState, cancel, suspend, resume, setup, init, destroy), the waiter (checkSuspend, isRunnable) and the collection of all nested elements are proved for every element set and interleaving of state changes; fatProcessor's use of isRunnable is proved in C06; assumed: a group's stored type flag tells whether it has children, the operating system schedules a notified waiter."

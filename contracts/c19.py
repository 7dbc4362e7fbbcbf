"""C19: stages.  Monitor of the stage's lock: between critical sections the counter is the number of participants of the current round (0 .. N-1, N = max(1, threshold)),
and the round counter is the number of completed rounds.  A participant of round r returns only after round r was completed."""
from .base import *
from cgv.types import *
from cgv.interp import *
from .life import gset, g

ST, SM = "CGraph::GStage::", "CGraph::GStageManager::"
CV_, CR, TH, PA, MP = "GStage.cur_value_", "GStage.cur_round_", "GStage.threshold_", "GStage.param_", "GStageManager.stage_map_"
k_ = z3.Const("qk", Str)


class Waiting(Contract):
    fn = ST + "waiting"; modifies = ((CV_, lambda c: [c.this]), (CR, lambda c: [c.this])); check_null = True
    def N(self, ex): t = ex.rd(TH, self.c.this); return If(t < 1, 1, t)
    def setup(self, c):
        for n in ("secs", "launch", "told", "waits", "r0", "v0", "now"): c.ex.st.ghost[n] = z3.IntVal(0)
        c.ex.st.ghost["inside"] = z3.IntVal(0)
    def mine(self, ex, m): return m.name == "mtx_"
    def acquire(self, ex, m, k):
        if not self.mine(ex, m): return
        this = self.c.this; gh = ex.st.ghost
        ex.prove("the stage's own lock", m.ref == ex.subobj("CGraph::GStage", "locker_", this))
        for f in (CV_, CR): cls, n, t = ex.find_field(f); ex.havoc_at(cls, n, this, t)
        v, r = ex.rd(CV_, this), ex.rd(CR, this); ex.assume(And(0 <= v, v < self.N(ex)))
        ex.assume(And(r >= 0, r < 2**63))                     # fewer than 2^63 rounds
        first = gh["secs"] == 0
        ex.assume(Implies(Not(first), And(r >= gh["r0"], Implies(r == gh["r0"], v >= gh["v0"] + 1))))     # rounds only advance; within a round participants only arrive
        gset(ex, "r0", If(first, r, gh["r0"])); gset(ex, "v0", If(first, v, gh["v0"])); gset(ex, "secs", gh["secs"] + 1); gset(ex, "now", r); gset(ex, "inside", 1)
    def release(self, ex, m, k):
        if not self.mine(ex, m): return
        this = self.c.this; gh = ex.st.ghost; v, r = ex.rd(CV_, this), ex.rd(CR, this); r0, v0, N = gh["r0"], gh["v0"], self.N(ex)
        first = gh["secs"] == 1; L = gh["launch"] == 1
        ex.prove("the N-th arrival completes the round, no other does", Implies(first, L == (v0 + 1 == N)))
        ex.prove("completing a round starts the next one", Implies(And(first, L), And(v == 0, r == r0 + 1, gh["told"] == 1)))
        ex.prove("any other arrival is counted once", Implies(And(first, Not(L)), And(v == v0 + 1, r == r0)))
        ex.prove("a woken participant changes nothing", Implies(Not(first), And(v == gh["vin"], r == gh["now"])) if "vin" in gh else z3.BoolVal(True))
        ex.prove("between critical sections the counter stays below the threshold", And(v >= 0, v < N))
        gset(ex, "inside", 0)
    def on_notify(self, ex, cv, n):
        this = self.c.this; gh = ex.st.ghost
        if cv.ref is not None: gset(ex, "told", If(And(z3.BoolVal("all" in n), cv.ref == ex.subobj("CGraph::GStage", "locker_", this)), 1, gh["told"]))
    def on_wait(self, ex, cv, m, pred):
        this = self.c.this; gh = ex.st.ghost; st = ex.st
        ex.prove("waits on the stage's own condition and lock", And(cv.ref == ex.subobj("CGraph::GStage", "locker_", this), m.ref == cv.ref))
        gset(ex, "waits", gh["waits"] + 1)
        v, r = ex.rd(CV_, this), ex.rd(CR, this); v1, r1 = ex.fresh("anyv", I), ex.fresh("anyr", I)
        ex.assume(And(0 <= v1, v1 < self.N(ex), r1 >= gh["r0"], r1 < 2**63, Implies(r1 == gh["r0"], v1 >= gh["v0"] + 1)))
        ex.wr(CV_, this, v1); ex.wr(CR, this, r1); p = ex.boolv(ex.call_value(pred, [])); 
        ex.prove("the wait ends exactly when the participant's round is complete", p == (r1 != gh["r0"]))
        ex.wr(CV_, this, v); ex.wr(CR, this, r)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        gh = c.ex.st.ghost
        return [("no participant returns before its round is complete", Or(gh["launch"] == 1, gh["now"] > gh["r0"])), ("arrived exactly once", gh["secs"] >= 1)]
    def covers(self, c): return [("completes a round", c.ex.st.ghost["launch"] == 1), ("waits", c.ex.st.ghost["waits"] == 1)]
    def loop_invs(self, L): return []
class Launch(Contract):
    """the stage's action (does not throw, does not enter the same stage)"""
    fn = ST + "launch"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost
        if "launch" not in gh: raise Unsupported("action outside a stage")
        v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        ex.prove("the stage's own action, once, before the round is released", And(this == ex.spec.c.this, v == ex.rd(PA, this), gh["launch"] == 0, gh["inside"] == 1, gh["told"] == 0, ex.rd(CR, this) == gh["r0"]))
        gset(ex, "launch", 1); return None


class Ctor(Contract):
    fn = ST + "GStage"; nparams = 0; modifies = Any; check_null = False
    def ensures(self, c): return [("a new stage has no participants", And(c(CV_) == 0, c(CR) == 0, c(PA) == 0))]
class SetThr(Contract):
    fn = ST + "setThreshold"; modifies = ((TH, lambda c: [c.this]),)
    def ensures(self, c): return [("the threshold is what was asked for", And(c(TH) == c.a(0), c.ret == c.this))]


class Man(Contract):
    check_null = True; modifies = ()
    def setup(self, c): c.ex.st.ghost["nw"] = z3.IntVal(0); c.ex.st.ghost["code"] = z3.IntVal(0)
class Ready(Man):
    fn = SM + "waitForReady"
    def requires(self, c):
        if getattr(c, "call", False): return []
        m = c(MP); return [("registered stages exist", ForAll([k_], Implies(m.m[k_], m.c[".v"][k_] > 0), patterns=[m.c[".v"][k_]]))]
    def on_stage(self, ex, this): m = self.c.o(MP); ex.prove("the stage of that key", And(m.m[self.c.a(0)], this == m.c[".v"][self.c.a(0)]))
    def ensures(self, c):
        if getattr(c, "call", False): return []
        m = c.o(MP); return [("an unknown stage is an error", (c.ret.code >= 0) == m.m[c.a(0)]), ("a known stage is entered exactly once", c.ex.st.ghost["nw"] == If(m.m[c.a(0)], 1, 0))]
    def covers(self, c): return [("known", c.ret.code >= 0), ("unknown", c.ret.code < 0)]
class CWaiting(Contract):
    fn = ST + "waiting"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        if not hasattr(ex.spec, "on_stage"): raise Unsupported("stage entered elsewhere")
        ex.spec.on_stage(ex, this); gset(ex, "nw", g(ex, "nw") + 1 if "n.nw" in ex.st.ghost else ex.st.ghost["nw"] + 1); return None
class Enter(Man):
    fn = "CGraph::GElement::enterStage"; SMF = "GElement.stage_manager_"
    def on_ready(self, ex, this, vs): ex.prove("its own stage manager, with that key", And(this == self.c.o(self.SMF), vs[0] == self.c.a(0)))
    def ensures(self, c):
        gh = c.ex.st.ghost; m = c.o(self.SMF)
        return [("the stage is entered once and its status is the result", Implies(m != 0, And(gh["nw"] == 1, c.ret.code == gh["code"]))), ("without a manager an error", Implies(m == 0, And(gh["nw"] == 0, c.ret.code < 0)))]
class CReady(Contract):
    fn = SM + "waitForReady"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        if not hasattr(ex.spec, "on_ready"): raise Unsupported("stage entered elsewhere")
        ex.spec.on_ready(ex, this, [v.get(ex) if isinstance(v, LV) else v for v in vals]); gset(ex, "nw", ex.st.ghost["nw"] + 1); r = ex.fresh_value(STATUS, "rdy"); gset(ex, "code", r.code); return r


class Session(Contract):
    """names are random strings; nothing here depends on them"""
    fn = "CGraph::URandom<>::generateSession"; trusted = True
    def apply(self, ex, f, this, vals, objty): return ex.fresh("session", Str)
class Create(Contract):
    fn = SM + "create"; check_null = True; modifies = Any; frame_ignore = ("ghost",)
    def requires(self, c):
        m = c(MP); return [("registered stages exist", ForAll([k_], Implies(m.m[k_], And(m.c[".v"][k_] > 0, c.ex.alive(m.c[".v"][k_]))), patterns=[m.c[".v"][k_]]))]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; out = []; pre = c.o(MP)
        for k, t in L.locals(lambda t, n: t.k == "ptr"):
            out.append(("allocated object is new", lambda L, k=k: Implies(L.value(k) != 0, And(L.value(k) > 0, ex.alive(L.value(k)), Not(ex.alive(L.value(k), c.old_st))))))
            if t.a and t.a[0].n and t.a[0].n.endswith("VStage"): out.append(("an allocated stage has no participants", lambda L, k=k: Implies(L.value(k) != 0, And(ex.rd(CV_, L.value(k)) == 0, ex.rd(CR, L.value(k)) == 0, ex.rd(PA, L.value(k)) == 0))))
        out.append(("stages that existed before are not touched", lambda L: ForAll([a_], Implies(ex.alive(a_, c.old_st), And(ex.rd(TH, a_) == c.o(TH, a_), ex.rd(CV_, a_) == c.o(CV_, a_), ex.rd(CR, a_) == c.o(CR, a_), ex.rd(PA, a_) == c.o(PA, a_))), patterns=[ex.rd(CV_, a_)])))
        return out
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; pre, post = c.o(MP), c(MP); k = c.a(0); v = post.c[".v"][k]
        return [("a new key holds a new stage without participants and with its threshold", Implies(Not(pre.m[k]), And(c.ret.code >= 0, post.m[k], v > 0, Not(ex.alive(v, c.old_st)), ex.rd(TH, v) == c.a(1), ex.rd(CV_, v) == 0, ex.rd(CR, v) == 0))),
                ("an existing key keeps its stage", Implies(pre.m[k], And(post.m[k], v == pre.c[".v"][k]))),
                ("no other key is affected", ForAll([k_], Implies(k_ != k, And(pre.m[k_] == post.m[k_], Implies(pre.m[k_], pre.c[".v"][k_] == post.c[".v"][k_]))), patterns=[post.m[k_], post.c[".v"][k_]])),
                *[("a registered stage is not touched: " + f, ForAll([a_], Implies(ex.alive(a_, c.old_st), ex.rd(f, a_) == c.o(f, a_)), patterns=[ex.rd(f, a_)])) for f in (TH, CV_, CR, PA)]]
class Clone(Contract):
    """user's clone: anything on the new parameter"""
    trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty): return None


W = Waiting(); W.registry = [Launch()]
R = Ready(); R.registry = [CWaiting()]
EN = Enter(); EN.registry = [CReady()]
S = [Ctor(), SetThr()]
for _c in S: _c.registry = [Session()]
CRE = Create(); CRE.registry = [Session(), Clone(fn="CGraph::GPassedParam::clone")]
CONTRACTS = [W, R, EN, CRE] + S
VERIFY = CONTRACTS
DRIVERS = ["c19"]
DRIVER_SECONDS = 12
NOTE = ("Proved for every interleaving: the critical sections of GStage::waiting under the monitor invariant 0 <= counter < N, rounds only grow: the N-th arrival of a round, and no other, runs the action once and starts the next round, a waiter leaves exactly when its own round is complete; waitForReady, enterStage, GStageManager::create (as an instance of the real template), the constructor and setThreshold. "
        "Meta-argument (not machine-checked): a completed round notifies all waiters while the lock is held, and their predicate has become true for ever, so none is left waiting given a fair scheduler. Assumed: the action does not throw and does not enter the same stage; fewer than 2^63 rounds. The driver explores schedules and is bounded.")

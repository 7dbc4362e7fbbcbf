"""C18: events.  Ghost counters: ntrig = handler calls, nsub = tasks handed to the pool, nproc / nasync / nwait = calls of the event's own operations.
A future id stands for one submitted task; ghost.waited[id] = it was waited for."""
from .base import *
from cgv.types import *
from cgv.interp import *
from . import c15
from .life import gset, g

EV, EM = "CGraph::GEvent::", "CGraph::GEventManager::"
RL, DL, PA, TP, MP = "GEvent.async_run_finish_futures_", "GEvent.async_destroy_futures_", "GEvent.param_", "GEventObject.thread_pool_", "GEventManager.events_map_"
LOCK = {"async_run_finished_lock_": RL, "async_destroy_lock_": DL}
NS = ("ntrig", "nsub", "nproc", "nasync", "nwait", "futid", "code")
def E(c, s): return c.ex.p.enums["CGraph::internal::" + s]
k_ = z3.Const("qk", Str)


class Op(Contract):
    """operations of one event; its two lists are only touched under their own lock"""
    check_null = True; locked = True; modifies = (); sync = False
    def setup(self, c):
        ex = c.ex
        for n in NS: ex.st.ghost[n] = z3.IntVal(0)
        ex.st.ghost.update({"sec." + l: z3.IntVal(0) for l in LOCK}); self.pre = {}
        ex.ghost_field("waited", BOOL); ex.havoc_key("ghost", "waited", BOOL); ex.assume(ForAll([a_], Not(ex.rd("ghost.waited", a_))))
        ex.st.ghost["str"] = z3.IntVal(-1)
    def acquire(self, ex, m, k):
        if m.name not in LOCK: return
        f = LOCK[m.name]; ex.prove("own lock, taken once", And(m.ref == self.c.this, ex.st.ghost["sec." + m.name] == 0)); gset(ex, "sec." + m.name, 1)
        cls, n, t = ex.find_field(f); ex.havoc_at(cls, n, self.c.this, t); ex.st.ghost["pre." + m.name] = ex.rd(f, self.c.this)
    def release(self, ex, m, k):
        if m.name in LOCK: ex.st.ghost["post." + m.name] = ex.rd(LOCK[m.name], self.c.this)
    def on_read(self, ex, cls, name, ref):
        if self.locked and cls.endswith("GEvent"):
            for l, f in LOCK.items():
                if f.endswith("." + name): ex.prove("the list of futures is only touched under its lock", z3.BoolVal(any(str(h).find(l) >= 0 for h in ex.st.held)))
    on_write = on_read
    def on_future(self, ex, lv, v, name):
        if name == "wait": ex.wr("ghost.waited", v.c[".id"], z3.BoolVal(True)); return None
        return NotImplemented
    def secs(self, ex, l): gh = ex.st.ghost; return gh["sec." + l], gh.get("pre." + l), gh.get("post." + l)


class Trigger(Contract):
    """the user's handler: anything; an exception of a synchronous trigger goes to the caller, one of an asynchronous trigger into the future"""
    fn = EV + "trigger"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        if "ntrig" not in ex.st.ghost: raise Unsupported("handler outside an event")
        v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        ex.prove("the event's own handler with its own parameter", And(this == ex.spec.c.this, v == ex.rd(PA, this)))
        gset(ex, "ntrig", g(ex, "ntrig") + 1)
        if ex.spec.sync and ex.choose(2) == 1: gset(ex, "code", 1); raise CxxThrow(*Contract.thrown(self, ex))
        return None
class Commit(Contract):
    """thread pool (C22): the task runs exactly once; the future is ready when it has finished"""
    fn = "CGraph::UThreadPool::commit"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        if "nsub" not in ex.st.ghost: raise Unsupported("commit outside an event")
        ex.prove("the event's own pool", And(this == ex.rd(TP, ex.spec.c.this), this != 0)); gset(ex, "nsub", g(ex, "nsub") + 1)
        clo = vals[0]; clo = clo.get(ex) if isinstance(clo, LV) else clo
        before = g(ex, "ntrig"); ex.call_value(clo, []); ex.prove("the submitted task runs the handler exactly once", g(ex, "ntrig") == before + 1)
        r = ex.fresh("futid", I); gset(ex, "futid", r)
        return CV(Ty("future", [VOID], "future"), {".valid": z3.BoolVal(True), ".id": r})


class AsyncProcess(Op):
    fn = EV + "asyncProcess"; modifies = ((RL, lambda c: [c.this]), (DL, lambda c: [c.this])); may_throw = True
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; G = lambda n: g(ex, n); out = [("handed to the pool exactly once", And(G("nsub") == 1, G("ntrig") == 1)), ("the caller gets the handle of that task", And(c.ret.c[".valid"], c.ret.c[".id"] == G("futid")))]
        for l, s in (("async_run_finished_lock_", "PIPELINE_RUN_FINISH"), ("async_destroy_lock_", "PIPELINE_DESTROY")):
            n, pre, post = self.secs(ex, l); mine = c.a(0) == E(c, "GEVENT_ASYNC_STRATEGY::" + s)
            if pre is None: out.append(("not held for " + s, Not(mine))); continue
            if post is None: out.append(("lock released", z3.BoolVal(False))); continue
            D = lambda v: v.c[".d.id"]
            out += [("held for its own strategy only: " + s, mine), ("the pipeline keeps the handle of that task", And(post.hi - post.lo == pre.hi - pre.lo + 1, D(post)[post.hi - 1] == G("futid"), post.c[".d.valid"][post.hi - 1])),
                    ("the handles kept before stay", ForAll([i_], Implies(And(pre.lo <= i_, i_ < pre.hi), And(D(post)[i_ - pre.lo + post.lo] == D(pre)[i_], post.c[".d.valid"][i_ - pre.lo + post.lo] == pre.c[".d.valid"][i_])), patterns=[D(pre)[i_]]))]
        return out
    def on_throw(self, c): return [("refused only without a pool, and then nothing is scheduled", And(c.o(TP) == 0, g(c.ex, "nsub") == 0))]
    def covers(self, c): return [] if c.threw else [("held until the end of the run", self.secs(c.ex, "async_run_finished_lock_")[0] == 1), ("held until destroy", self.secs(c.ex, "async_destroy_lock_")[0] == 1), ("not held", And(self.secs(c.ex, "async_run_finished_lock_")[0] == 0, self.secs(c.ex, "async_destroy_lock_")[0] == 0))]


class AsyncWait(Op):
    fn = EV + "asyncWait"; modifies = ((RL, lambda c: [c.this]), (DL, lambda c: [c.this]), "ghost.waited"); may_throw = True
    def ensures(self, c):
        ex = c.ex; out = []
        for l, s in (("async_run_finished_lock_", "PIPELINE_RUN_FINISH"), ("async_destroy_lock_", "PIPELINE_DESTROY")):
            n, pre, post = self.secs(ex, l); mine = c.a(0) == E(c, "GEVENT_ASYNC_STRATEGY::" + s)
            if pre is None: out.append(("the requested list is waited for: " + s, Not(mine))); continue
            if post is None: out.append(("lock released", z3.BoolVal(False))); continue
            out += [("only the requested list: " + s, mine), ("every task held so far was waited for", ForAll([i_], Implies(And(pre.lo <= i_, i_ < pre.hi, pre.c[".d.valid"][i_]), ex.rd("ghost.waited", pre.c[".d.id"][i_])), patterns=[pre.c[".d.id"][i_]])), ("nothing is held any more", post.hi == post.lo)]
        return out
    def on_throw(self, c): return [("only an unknown strategy throws", And(*[c.a(0) != E(c, "GEVENT_ASYNC_STRATEGY::" + s) for s in ("PIPELINE_RUN_FINISH", "PIPELINE_DESTROY")]))]
    def loop_invs(self, L):
        ex = L.ex
        if L.rng is None: return []
        return [("every visited task was waited for", lambda L: ForAll([i_], Implies(And(L.seq.lo <= i_, i_ < L.k, L.seq.c[".d.valid"][i_]), ex.rd("ghost.waited", L.seq.c[".d.id"][i_])), patterns=[L.seq.c[".d.id"][i_]]))]



class CAsync(Contract):
    fn = EV + "asyncProcess"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        if "nasync" not in ex.st.ghost: raise Unsupported("asyncProcess outside an event")
        v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        ex.spec.on_event(ex, this); gset(ex, "nasync", g(ex, "nasync") + 1); ex.st.ghost["str"] = v
        if ex.choose(2) == 1: gset(ex, "code", 1); ex.assume(ex.rd(TP, this) == 0); raise CxxThrow(*Contract.thrown(self, ex))
        ex.assume(ex.rd(TP, this) != 0); r = ex.fresh("futid", I); gset(ex, "futid", r); return CV(Ty("future", [VOID], "shared_future"), {".valid": z3.BoolVal(True), ".id": r})
class Process(Op):
    fn = EV + "process"; may_throw = True; sync = True
    def on_event(self, ex, ref): ex.prove("this event", ref == self.c.this)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; G = lambda n: g(ex, n); S, A = c.a(0) == E(c, "GEVENT_TYPE::SYNC"), c.a(0) == E(c, "GEVENT_TYPE::ASYNC")
        return [("a synchronous trigger runs the handler exactly once before returning", Implies(S, And(G("ntrig") == 1, G("nasync") == 0, c.ret.code >= 0))),
                ("an asynchronous trigger schedules it exactly once", Implies(And(A, c.o(TP) != 0), And(G("nasync") == 1, G("ntrig") == 0, ex.st.ghost["str"] == c.a(1), c.ret.code >= 0))),
                ("without a pool an asynchronous trigger is an error", Implies(And(A, c.o(TP) == 0), And(G("nasync") == 0, G("ntrig") == 0, c.ret.code < 0))),
                ("an unknown type is an error and triggers nothing", Implies(And(Not(S), Not(A)), And(G("nasync") == 0, G("ntrig") == 0, c.ret.code < 0)))]
    def on_throw(self, c): return [("only the handler of a synchronous trigger throws", And(c.a(0) == E(c, "GEVENT_TYPE::SYNC"), g(c.ex, "ntrig") == 1))]
    def covers(self, c): return [] if c.threw else [("sync", g(c.ex, "ntrig") == 1), ("async", g(c.ex, "nasync") == 1)]


class CWait(Contract):
    fn = EV + "asyncWait"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        if "nwait" not in ex.st.ghost: raise Unsupported("asyncWait outside an event")
        v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        ex.spec.on_wait_ev(ex, this, v); return None
class Cb(Contract):
    """the user's init / destroy"""
    trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        if "code" not in ex.st.ghost or not hasattr(ex.spec, "on_cb"): raise Unsupported("callback outside fatInit / fatDestroy")
        ex.prove("the event's own callback", this == ex.spec.c.this); ex.spec.on_cb(ex, f)
        r = ex.fresh_value(STATUS, "cb"); gset(ex, "code", r.code); gset(ex, "nproc", g(ex, "nproc") + 1); return r
class Fat(Op):
    locked = False; modifies = ((RL, lambda c: [c.this]), (DL, lambda c: [c.this]), ("GEvent.param_manager_", Any)); modifies = modifies[:2]
    def setup(self, c): Op.setup(self, c); c.ex.st.ghost["wr"] = z3.BoolVal(False); c.ex.st.ghost["wd"] = z3.BoolVal(False)
    def on_wait_ev(self, ex, this, v):
        c = self.c; ex.prove("own tasks are waited for", this == c.this); 
        R, D = (v == E(c, "GEVENT_ASYNC_STRATEGY::" + s) for s in ("PIPELINE_RUN_FINISH", "PIPELINE_DESTROY"))
        ex.prove("a known strategy is waited for", Or(R, D)); gh = ex.st.ghost
        gh["wr"] = Or(gh["wr"], R); gh["wd"] = Or(gh["wd"], D)
    def ensures(self, c):
        ex = c.ex; R, D = c(RL), c(DL)
        return [("the callback runs once and its status is the result", And(g(ex, "nproc") == 1, c.ret.code == g(ex, "code"))), ("nothing is held", And(R.hi == R.lo, D.hi == D.lo))]
class FatInit(Fat):
    fn = EV + "fatInit"
    def on_cb(self, ex, f): ex.prove("init", z3.BoolVal(f.name == "init"))
class FatDestroy(Fat):
    fn = EV + "fatDestroy"
    def on_cb(self, ex, f): ex.prove("destroy", z3.BoolVal(f.name == "destroy")); ex.prove("every held task has finished before the event is destroyed", And(ex.st.ghost["wr"], ex.st.ghost["wd"]))


class EvProc(Contract):
    fn = EV + "process"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        if "nproc" not in ex.st.ghost or not hasattr(ex.spec, "on_process"): raise Unsupported("process outside the manager")
        vs = [v.get(ex) if isinstance(v, LV) else v for v in vals]; ex.spec.on_process(ex, this, vs); gset(ex, "nproc", g(ex, "nproc") + 1)
        if ex.choose(2) == 1: raise CxxThrow(*Contract.thrown(self, ex))
        r = ex.fresh_value(STATUS, "proc"); gset(ex, "code", r.code); return r
class Man(Op):
    locked = False; may_throw = True
    def has(self, c): m = c.o(MP); return And(m.m[c.a(0)], m.c[".v"][c.a(0)] != 0)
    def ev(self, c): return c.o(MP).c[".v"][c.a(0)]
class MTrigger(Man):
    fn = EM + "trigger"
    def on_process(self, ex, this, vs):
        c = self.c; ex.prove("the event registered under that key, with the requested type and strategy", And(self.has(c), this == self.ev(c), vs[0] == c.args[1], vs[1] == c.args[2]))
    def ensures(self, c):
        if getattr(c, "call", False): return []
        return [("an unknown event is an error and nothing is triggered", Implies(Not(self.has(c)), And(c.ret.code < 0, g(c.ex, "nproc") == 0))), ("a known event is triggered exactly once and its status is the result", Implies(self.has(c), And(g(c.ex, "nproc") == 1, c.ret.code == g(c.ex, "code"))))]
    def on_throw(self, c): return [("only the event throws", g(c.ex, "nproc") == 1)]
    def covers(self, c): return [] if c.threw else [("unknown", g(c.ex, "nproc") == 0), ("known", g(c.ex, "nproc") == 1)]
class MAsync(Man):
    fn = EM + "asyncTrigger"
    def on_event(self, ex, ref): ex.prove("the event registered under that key", And(self.has(self.c), ref == self.ev(self.c)))
    def ensures(self, c):
        if getattr(c, "call", False): return []
        return [("a known event is scheduled exactly once, with the requested strategy, and its handle is returned", And(self.has(c), g(c.ex, "nasync") == 1, c.ex.st.ghost["str"] == c.a(1), c.ret.c[".id"] == g(c.ex, "futid"), c.ret.c[".valid"]))]
    def on_throw(self, c): return [("throws exactly for an unknown event or when scheduling failed", And(self.has(c) == (g(c.ex, "nasync") == 1)))]
class MReset(Man):
    """end of a run: every event's held tasks are waited for"""
    fn = EM + "reset"; modifies = ("ghost.nw",); may_throw = False
    def setup(self, c): Man.setup(self, c); ex = c.ex; ex.ghost_field("nw", INT); ex.havoc_key("ghost", "nw", INT); ex.assume(ForAll([a_], ex.rd("ghost.nw", a_) == 0))
    def val(self, m, k): return m.c[".v"][k]
    def requires(self, c):
        if getattr(c, "call", False): return []
        m = c(MP); return [("registered events exist", ForAll([k_], Implies(m.m[k_], self.val(m, k_) > 0), patterns=[self.val(m, k_)]))]
    def on_wait_ev(self, ex, this, v):
        ex.prove("the tasks held until the end of the run are waited for", v == E(self.c, "GEVENT_ASYNC_STRATEGY::PIPELINE_RUN_FINISH")); ex.wr("ghost.nw", this, z3.IntVal(1))
    def ensures(self, c):
        if getattr(c, "call", False): return []
        m = c.o(MP); return [("every event was waited for", ForAll([i_], Implies(And(m.lo <= i_, i_ < m.hi), c.ex.rd("ghost.nw", self.val(m, m.d[i_])) == 1), patterns=[m.d[i_]])), ("success", c.ret.code >= 0)]
    def loop_invs(self, L):
        ex = L.ex
        if L.rng is None: return []
        out = [("every visited event was waited for", lambda L: ForAll([i_], Implies(And(L.seq.lo <= i_, i_ < L.k), ex.rd("ghost.nw", self.val(L.seq, L.seq.d[i_])) == 1), patterns=[L.seq.d[i_]]))]
        return out


class Notify(Man):
    """the wrappers by which elements, aspects and daemons trigger events"""
    man = None
    def on_trigger(self, ex, this, vs):
        c = self.c; ex.prove("the manager it belongs to, with the same request", And(this == c.o(self.man), vs[0] == c.args[0], *[a == b for a, b in zip(vs[1:], c.args[1:])]))
    def ensures(self, c):
        if getattr(c, "call", False): return []
        G = lambda n: g(c.ex, n); m = c.o(self.man)
        if ".code" in getattr(c.ret, "c", {}): return [("one trigger of its manager; its status is the result", Implies(m != 0, And(G("nproc") == 1, c.ret.code == G("code")))), ("without a manager an error", Implies(m == 0, And(G("nproc") == 0, c.ret.code < 0)))]
        return [("one trigger of its manager; its handle is the result", And(m != 0, G("nproc") == 1, c.ret.c[".id"] == G("futid"), c.ret.c[".valid"]))]
    def on_throw(self, c): return [("only the trigger itself, or a missing manager, throws", Or(g(c.ex, "nproc") == 1, c.o(self.man) == 0))]
class CTrig(Contract):
    trusted = True
    def apply(self, ex, f, this, vals, objty):
        if "nproc" not in ex.st.ghost or not hasattr(ex.spec, "on_trigger"): raise Unsupported("trigger outside a wrapper")
        ex.spec.on_trigger(ex, this, [v.get(ex) if isinstance(v, LV) else v for v in vals]); gset(ex, "nproc", g(ex, "nproc") + 1)
        if ex.choose(2) == 1: raise CxxThrow(*Contract.thrown(self, ex))
        if f.name == "trigger": r = ex.fresh_value(STATUS, "trg"); gset(ex, "code", r.code); return r
        r = ex.fresh("futid", I); gset(ex, "futid", r); return CV(Ty("future", [VOID], "shared_future"), {".valid": z3.BoolVal(True), ".id": r})


class Create(Contract):
    """registering an event: a new one under a new key, an error for a known key"""
    fn = EM + "createWithParam"; check_null = True; modifies = Any; frame_ignore = ("ghost",)
    def requires(self, c):
        m = c(MP); return [("registered events exist", ForAll([k_], Implies(m.m[k_], And(m.c[".v"][k_] > 0, c.ex.alive(m.c[".v"][k_]))), patterns=[m.c[".v"][k_]]))]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; out = []
        for k, t in L.locals(lambda t, n: t.k == "ptr"):
            out.append(("allocated object is new", lambda L, k=k: Implies(L.value(k) != 0, And(L.value(k) > 0, ex.alive(L.value(k)), Not(ex.alive(L.value(k), c.old_st))))))
        out.append(("events that existed before are not touched", lambda L: ForAll([a_], Implies(ex.alive(a_, c.old_st), ex.rd(PA, a_) == c.o(PA, a_)), patterns=[ex.rd(PA, a_)])))
        return out
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; pre, post = c.o(MP), c(MP); k = c.a(0); v = post.c[".v"][k]
        return [("a new key holds a new event", Implies(Not(pre.m[k]), And(c.ret.code >= 0, post.m[k], v > 0, Not(ex.alive(v, c.old_st))))),
                ("a known key is an error and keeps its event", Implies(pre.m[k], And(c.ret.code < 0, post.m[k], v == pre.c[".v"][k]))),
                ("no other key is affected", ForAll([k_], Implies(k_ != k, And(pre.m[k_] == post.m[k_], Implies(pre.m[k_], pre.c[".v"][k_] == post.c[".v"][k_]))), patterns=[post.m[k_], post.c[".v"][k_]])),
                ("a registered event keeps its parameter", ForAll([a_], Implies(ex.alive(a_, c.old_st), ex.rd(PA, a_) == c.o(PA, a_)), patterns=[ex.rd(PA, a_)]))]
    def covers(self, c): return [("created", c.ret.code >= 0), ("refused", c.ret.code < 0)]
class Session(Contract):
    fn = "CGraph::URandom<>::generateSession"; trusted = True
    def apply(self, ex, f, this, vals, objty): return ex.fresh("session", Str)
class Clone(Contract):
    """the parameter type's clone: fills the new parameter"""
    fn = "CGraph::GPassedParam::clone"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty): return None


_w = [("GElement", "GElement.event_manager_"), ("GAspectObject", "GAspectObject.event_manager_"), ("GDaemonObject", "GDaemonObject.event_manager_")]
WR = [Notify(fn="CGraph::%s::%s" % (cl, n), man=m) for cl, m in _w for n in ("notify", "asyncNotify")]
for _c in WR: _c.registry = [CTrig(fn=EM + "trigger"), CTrig(fn=EM + "asyncTrigger")]
A = [AsyncProcess(), AsyncWait()]
for _c in A: _c.registry = [Trigger(), Commit()]
P = [Process()]
for _c in P: _c.registry = [Trigger(), CAsync()]
F = [FatInit(), FatDestroy()]
for _c in F: _c.registry = [CWait(), Cb(fn="CGraph::CObject::init"), Cb(fn="CGraph::CObject::destroy")]
M = [MTrigger(), MAsync(), MReset()]
for _c in M: _c.registry = [EvProc(), CAsync(), CWait()]
EACH = [e for e in c15.EACH if e.fn in (EM + "init", EM + "destroy")]
CR = [Create()]
CR[0].registry = [Session(), Clone()]
PIPE = [e for e in c15.V if e.fn in (c15.GP + "run", c15.GP + "destroy")]
CONTRACTS = A + P + F + M + CR + WR + EACH + PIPE
VERIFY = CONTRACTS
DRIVERS = ["c18"]
DRIVER_SECONDS = 12
NOTE = ("Proved for every interleaving of the list locks: GEvent::process / asyncProcess run or submit the handler exactly once and append the handle to the list of its strategy; the wait operations wait for every handle in the list and empty it; fatInit, fatDestroy; GEventManager::trigger / asyncTrigger / reset / createWithParam; the notify wrappers of elements, aspects and daemons; init and destroy of the manager; GPipeline::run (events awaited after the elements) and GPipeline::destroy (events and daemons before the pool). "
        "Assumed: the pool and std::async run a submitted task exactly once and its future becomes ready when it has finished (C22). The driver explores schedules and is bounded.")

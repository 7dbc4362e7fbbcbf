"""C15: what one pipeline run, init, destroy and process do, in which order and with which result.

Ghost counters: n.<phase> = how often the phase was called, acc = the first error reported so far (0 = none).
The phases are proved elsewhere (C11 elements, C13/C14 repository, engines C01-C05, C17 parameters, C18 events); here they may return anything."""
from .base import *
from cgv.types import *
from cgv.interp import *

GP, PIN = "CGraph::GPipeline::", "GPipeline.is_init_"
REP = "CGraph::GElementRepository::"
MG = {"P": "GParamManager", "V": "GEventManager", "E": "GElementManager", "T": "GStageManager", "D": "GDaemonManager"}


def gset(ex, n, v): ex.st.ghost[n] = z3.IntVal(v) if isinstance(v, int) else z3.simplify(v); ex.note_write(("g", n))
def g(ex, n): return ex.st.ghost[n if n.startswith("ok.") else "n." + n]


class Phase(Contract):
    """one phase of another part: any status (or nothing), counted"""
    trusted = True; key = None; before = (); after_ok = (); modifies = (); crash = False; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        k = self.key
        if ("n." + k) not in ex.st.ghost: raise Unsupported("phase outside a pipeline function")
        sp = ex.spec
        own = sp.owner(ex, k)
        if own is not None and this is not None: ex.prove("the phase belongs to this pipeline", this == own)
        for nm, fm in sp.order(ex, k, vals): ex.prove(nm, fm)
        gset(ex, "n." + k, g(ex, k) + 1)
        for m in self.modifies: cls, n, t = ex.find_field(m); ex.havoc_key(cls, n, t)
        if self.crash and ex.choose(2) == 1:
            gset(ex, "thrown", 1); raise CxxThrow(*self.thrown(ex))
        rt = ex.T.parse(ex.ret_type(f.node))
        if rt.k != "status": return None if rt.k == "void" else ex.fresh_value(rt, "phase")
        r = ex.fresh_value(STATUS, k)
        gset(ex, "acc", If(And(ex.st.ghost["acc"] >= 0, r.code < 0), r.code, ex.st.ghost["acc"]))
        gset(ex, "ok." + k, If(r.code < 0, 0, 1))
        return r


class Pipe(Contract):
    check_null = True; may_throw = True; modifies = ((PIN, lambda c: [c.this]),); keys = ""
    ALL = ("rs", "ps", "eng", "rr", "er", "pr", "env", "pi", "vi", "ei", "ti", "di", "rd", "sd", "vd", "dd", "ed", "td", "pd", "init", "run", "destroy")
    def setup(self, c):
        gh = c.ex.st.ghost
        for k in self.ALL: gh["n." + k] = z3.IntVal(0); gh["ok." + k] = z3.IntVal(0)
        gh["acc"] = z3.IntVal(0); gh["thrown"] = z3.IntVal(0)
    def requires(self, c):
        if getattr(c, "call", False): return []
        return [("the pipeline has its managers", And(*[c("GPipeline.%s_" % n) > 0 for n in ("element_manager", "param_manager", "event_manager", "stage_manager", "daemon_manager")]))]
    def owner(self, ex, k):
        c = self.c; f = {"p": "param", "v": "event", "e": "element", "t": "stage", "d": "daemon"}
        if k in ("rs", "rr", "rd"): return ex.subobj("CGraph::GPipeline", "repository_", c.this)
        if k in ("sd",): return ex.subobj("CGraph::GPipeline", "schedule_", c.this)
        if k in ("env", "init", "run", "destroy", "process"): return c.this
        if k == "eng": return ex.rd("GPipeline.element_manager_", c.this)
        if k == "er": return ex.rd("GPipeline.event_manager_", c.this)
        return ex.rd("GPipeline.%s_manager_" % f[k[0]], c.this)
    def order(self, ex, k, vals): return [("each phase once", g(ex, k) == 0)]
    def acc(self, ex): return ex.st.ghost["acc"]
    def result(self, c):
        a = self.acc(c.ex); return [("the first error is the result", Implies(a < 0, c.ret.code == a))]
    def on_throw(self, c): return [("an exception reports a crash of a phase", Or(self.acc(c.ex) == -996, c.ex.st.ghost["thrown"] == 1)), ("the initialised flag is unchanged", c(PIN) == c.o(PIN))]
class Run(Pipe):
    fn = GP + "run"; modifies = ("GElement.cur_state_", "GElement.done_")
    def order(self, ex, k, vals):
        out = [("each phase once", g(ex, k) == 0)]
        if k in ("rs", "ps"): out.append(("states and parameters are set up before the elements run", g(ex, "eng") == 0))
        if k == "eng": out.append(("the elements run only after a successful set-up", And(g(ex, "rs") == 1, g(ex, "ps") == 1, self.acc(ex) >= 0)))
        if k in ("rr", "er"): out.append(("results are collected after the elements ran", g(ex, "eng") == 1))
        if k == "pr":
            v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
            out.append(("parameters are reset last", And(g(ex, "eng") == 1, g(ex, "rr") == 1, g(ex, "er") == 1)))
            out.append(("the reset is told the run's result", And(Implies(self.acc(ex) < 0, v.code == self.acc(ex)), Implies(self.acc(ex) >= 0, v.code >= 0))))
        return out
    def ensures(self, c):
        ex = c.ex
        if getattr(c, "call", False): return []
        return self.result(c) + [("refused unless initialised", Implies(Not(c.o(PIN)), And(c.ret.code < 0, *[g(ex, k) == 0 for k in ("rs", "ps", "eng", "rr", "er", "pr")]))),
                ("success means every phase ran", Implies(c.ret.code >= 0, And(*[g(ex, k) == 1 for k in ("rs", "ps", "eng", "rr", "er", "pr")]))),
                ("after the elements ran, results are collected and parameters reset, whatever happened", Implies(g(ex, "eng") == 1, And(g(ex, "rr") == 1, g(ex, "er") == 1, g(ex, "pr") == 1))),
                ("a successful set-up leads to the execution", Implies(And(c.o(PIN), g(ex, "ok.rs") == 1, g(ex, "ok.ps") == 1), g(ex, "eng") == 1)),
                ("initialised and all phases fine means success", Implies(And(c.o(PIN), self.acc(ex) >= 0), c.ret.code >= 0))]
    def covers(self, c): return [] if c.threw else [("executed", And(g(c.ex, "pr") == 1, c.ret.code >= 0)), ("execution failed", And(g(c.ex, "pr") == 1, c.ret.code < 0)), ("set-up failed", And(c.o(PIN), g(c.ex, "eng") == 0))]
class Init(Pipe):
    fn = GP + "init"
    MUST = ("env", "pi", "vi", "ei", "ti", "di")
    def order(self, ex, k, vals):
        out = [("each phase once", g(ex, k) == 0)]
        if k != "env": out.append(("the environment is prepared first", And(g(ex, "env") == 1, g(ex, "ok.env") == 1)))
        if k == "di": out.append(("daemons start after the elements were initialised", g(ex, "ei") == 1))
        return out
    def ensures(self, c):
        ex = c.ex
        if getattr(c, "call", False): return []
        return self.result(c) + [("a second initialisation is refused", Implies(c.o(PIN), And(c.ret.code < 0, c(PIN), *[g(ex, k) == 0 for k in self.MUST]))),
                ("initialised exactly when every phase succeeded", Implies(Not(c.o(PIN)), And(c(PIN) == (c.ret.code >= 0), Implies(c.ret.code >= 0, And(*[And(g(ex, k) == 1, g(ex, "ok." + k) == 1) for k in self.MUST])))))]
    def covers(self, c): return [] if c.threw else [("initialised", And(Not(c.o(PIN)), c(PIN)))]
class Destroy(Pipe):
    fn = GP + "destroy"
    MUST = ("rd", "sd", "vd", "dd", "ed", "td", "pd")
    def order(self, ex, k, vals):
        out = [("each phase once", g(ex, k) == 0)]
        if k == "ed": out.append(("no pool thread is left when elements are destroyed", g(ex, "sd") == 1))
        if k == "sd": out.append(("the pool outlives the daemons and the events that use it", And(g(ex, "dd") == 1, g(ex, "vd") == 1)))
        return out
    def ensures(self, c):
        ex = c.ex
        if getattr(c, "call", False): return []
        return self.result(c) + [("refused unless initialised", Implies(Not(c.o(PIN)), And(c.ret.code < 0, Not(c(PIN)), *[g(ex, k) == 0 for k in self.MUST]))),
                ("deinitialised exactly when every phase succeeded", Implies(c.o(PIN), And(c(PIN) == (c.ret.code < 0), Implies(c.ret.code >= 0, And(*[And(g(ex, k) == 1, g(ex, "ok." + k) == 1) for k in self.MUST])))))]
    def covers(self, c): return [] if c.threw else [("destroyed", And(c.o(PIN), Not(c(PIN))))]


class Call(Phase):
    """init / run / destroy as seen by process (proved above): they may report an error or throw a crash"""
    virtual_any = False; crash = True
class Process(Pipe):
    fn = GP + "process"; modifies = (PIN, "GElementRepository.cur_state_", "GElement.cur_state_", "GElement.done_")
    def order(self, ex, k, vals):
        a = self.acc(ex)
        if k == "init": return [("one initialisation", And(g(ex, "init") == 0, g(ex, "run") == 0, g(ex, "destroy") == 0))]
        if k == "run": return [("runs only while initialised and nothing failed", And(g(ex, "init") == 1, a >= 0, g(ex, "destroy") == 0)), ("no more runs than asked for", g(ex, "run") < self.c.args[0])]
        if k == "destroy": return [("one destruction, after an initialisation", And(g(ex, "init") == 1, g(ex, "ok.init") == 1, g(ex, "destroy") == 0))]
        return []
    def ensures(self, c):
        ex = c.ex; n = c.a(0)
        return self.result(c) + [("one initialisation", g(ex, "init") == 1), ("one destruction if it was initialised", g(ex, "destroy") == g(ex, "ok.init")),
                ("success means every run happened unless it was cancelled", Implies(And(c.ret.code >= 0, ex.st.ghost["cancel"] == 0), g(ex, "run") == n)), ("success when nothing failed", Implies(self.acc(ex) >= 0, c.ret.code >= 0))]
    def on_throw(self, c): return [("an exception comes from a phase", Or(c.ex.st.ghost["thrown"] == 1, self.acc(c.ex) == -996))]
    def setup(self, c): Pipe.setup(self, c); c.ex.st.ghost["cancel"] = z3.IntVal(0)
    def loop_invs(self, L):
        ex = L.ex; n = self.c.args[0]
        out = [("one initialisation so far", lambda L: And(g(ex, "init") == 1, g(ex, "ok.init") == 1, g(ex, "destroy") == 0)), ("no exception so far", lambda L: ex.st.ghost["thrown"] == 0), ("not cancelled so far", lambda L: ex.st.ghost["cancel"] == 0),
               ("runs counted", lambda L: And(0 <= g(ex, "run"), g(ex, "run") <= n))]
        for k, t in L.locals(lambda t, n: t.k == "status"): out.append(("local status = first error", lambda L, k=k: And(Implies(self.acc(ex) < 0, L.value(k).code == self.acc(ex)), Implies(self.acc(ex) >= 0, L.value(k).code >= 0))))
        for k, t in L.locals(lambda t, n: t.k == "int"):
            out.append(("counter counts down", lambda L, k=k: L.value(k) + g(ex, "run") == n)); out.append(("counter counts up", lambda L, k=k: L.value(k) == g(ex, "run")))
        return out
class IsCancel(Contract):
    fn = REP + "isCancelState"; trusted = True; modifies = ()
    def effect(self, c):
        if "cancel" in c.ex.st.ghost: gset(c.ex, "cancel", If(c.ret, 1, c.ex.st.ghost["cancel"]))


class Async(Contract):
    """std::async runs the given function once (assumed); the future yields its result"""
    may_throw = True; modifies = Process.modifies; what = None; arg = None
    ALL = ()
    def setup(self, c): self.ALL = Pipe.ALL; Pipe.setup(self, c); c.ex.st.ghost["launched"] = z3.IntVal(0)
    owner = Pipe.owner
    def order(self, ex, k, vals):
        out = [("the pipeline's own %s is what runs" % self.what, z3.BoolVal(k == self.what))]
        if self.arg is not None: out.append(("with the requested number of runs", (vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]) == self.c.args[self.arg]))
        return out
    def on_async(self, ex, n, vals):
        ex.prove("launched once", ex.st.ghost["launched"] == 0); gset(ex, "launched", 1)
        clo = vals[-1]; clo = clo.get(ex) if isinstance(clo, LV) else clo
        r = ex.call_value(clo, []); r = r.get(ex) if isinstance(r, LV) else r
        ex.prove("runs once", g(ex, self.what) == 1); ex.prove("the future yields the result", And(Implies(ex.st.ghost["acc"] < 0, r.code == ex.st.ghost["acc"]), Implies(ex.st.ghost["acc"] >= 0, r.code >= 0)))
        return ex.fresh_value(Ty("future", [STATUS]), "fut")
    def ensures(self, c): return [("the work is launched", c.ex.st.ghost["launched"] == 1), ("accepted only in the right state", c.o(PIN) == z3.BoolVal(self.what == "run"))]
    def on_throw(self, c): return [("refused only in the wrong state", Or(c.ex.st.ghost["launched"] == 1, c.o(PIN) != z3.BoolVal(self.what == "run")))]
class AsyncRun(Async): fn = GP + "asyncRun"; what = "run"
class AsyncProcess(Async): fn = GP + "asyncProcess"; what = "process"; arg = 0
Pipe.ALL = Pipe.ALL + ("process",)


class InitEnv(Contract):
    """the pool is created, handed to events, elements and every nested element, before the repository is initialised"""
    fn = GP + "initEnv"; may_throw = True; check_null = True; modifies = Any
    K = ("si", "vt", "et", "fa", "rt", "ri")
    def setup(self, c):
        for k in self.K: c.ex.st.ghost["n." + k] = z3.IntVal(0); c.ex.st.ghost["ok." + k] = z3.IntVal(0)
        c.ex.st.ghost["acc"] = z3.IntVal(0); c.ex.st.ghost["thrown"] = z3.IntVal(0)
    def owner(self, ex, k):
        c = self.c
        if k == "si": return ex.subobj("CGraph::GPipeline", "schedule_", c.this)
        if k in ("fa", "rt", "ri"): return ex.subobj("CGraph::GPipeline", "repository_", c.this)
        return ex.rd("GPipeline.%s_manager_" % {"vt": "event", "et": "element"}[k], c.this)
    def order(self, ex, k, vals):
        out = [("each step once", g(ex, k) == 0)]
        v = vals[0] if vals else None; v = v.get(ex) if isinstance(v, LV) else v
        if k != "si": out.append(("the scheduler comes first", And(g(ex, "si") == 1, ex.st.ghost["acc"] >= 0)))
        if k in ("vt", "et", "rt"): out.append(("the scheduler's pool is handed out", v == ex.st.ghost["tp"]))
        if k == "fa": out.append(("the pipeline's own elements", v == ex.rd("GPipeline.element_manager_", self.c.this)))
        if k == "rt": out.append(("nested elements are collected before the pool is handed out", g(ex, "fa") == 1))
        if k == "ri": out.append(("the repository is initialised last", And(*[g(ex, x) == 1 for x in ("vt", "et", "fa", "rt")])))
        return out
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; a = ex.st.ghost["acc"]
        return [("the first error is the result", And(Implies(a < 0, c.ret.code == a))), ("success means every step happened", Implies(c.ret.code >= 0, And(*[g(ex, k) == 1 for k in self.K])))]
class Pool(Contract):
    """GSchedule::getThreadPool: the pool in use"""
    fn = "CGraph::GSchedule::getThreadPool"; modifies = ()
    def requires(self, c): return []
    def ensures(self, c):
        u, s = c.o("GSchedule.unique_tp_"), c.o("GSchedule.shared_tp_"); return [("the own pool if there is one, else the shared one", c.ret == If(u == 0, s, u))]
    def effect(self, c): c.ex.st.ghost["tp"] = c.ret


class Each(Contract):
    """a manager's phase: the callback of every member once, the first error is the result"""
    fld_ = None; ismap = True; may_throw = True; check_null = True; cb = None; modifies = ("ghost.calls",)
    def setup(self, c):
        ex = c.ex; ex.ghost_field("calls", INT); ex.havoc_key("ghost", "calls", INT); ex.assume(ForAll([a_], ex.rd("ghost.calls", a_) == 0)); ex.st.ghost["acc"] = z3.IntVal(0)
    def items(self, v): return (lambda i: v.c[".v"][v.d[i]]) if self.ismap else (lambda i: v.d[i])
    def requires(self, c):
        if getattr(c, "call", False): return []
        v = c(self.fld_); it = self.items(v); R = lambda i: And(v.lo <= i, i < v.hi)
        return [("members exist", ForAll([i_], Implies(R(i_), it(i_) > 0), patterns=[v.d[i_]])), ("members are distinct", ForAll([i_, j_], Implies(And(R(i_), R(j_), i_ != j_), it(i_) != it(j_)), patterns=[z3.MultiPattern(v.d[i_], v.d[j_])]))]
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; v = c.o(self.fld_); it = self.items(v); a = ex.st.ghost["acc"]
        out = [("every member's callback is called once", ForAll([i_], Implies(And(v.lo <= i_, i_ < v.hi), ex.rd("ghost.calls", it(i_)) == 1), patterns=[v.d[i_]]))]
        if c.ret is not None and hasattr(c.ret, "code"): out.append(("the first error is the result", And(Implies(a < 0, c.ret.code == a), Implies(a >= 0, c.ret.code >= 0))))
        return out
    def covers(self, c): return [] if c.threw else [("several members", c.o(self.fld_).hi >= 2)]
    def loop_invs(self, L):
        ex = L.ex
        if L.rng is None: return []
        C = lambda x: ex.rd("ghost.calls", x)
        def done(L): s = L.seq; it = self.items(s); return ForAll([i_], Implies(And(s.lo <= i_, i_ < s.hi), C(it(i_)) == If(i_ < L.k, 1, 0)), patterns=[s.d[i_]])
        out = [("visited members were called once", done)]
        for k, t in L.locals(lambda t, n: t.k == "status"):
            out.append(("local status = first error", lambda L, k=k: And(Implies(ex.st.ghost["acc"] < 0, L.value(k).code == ex.st.ghost["acc"]), Implies(ex.st.ghost["acc"] >= 0, L.value(k).code >= 0))))
        return out
class Member(Contract):
    """a user callback of one parameter / daemon / event / stage"""
    trusted = True; virtual_any = True; modifies = ()
    def apply(self, ex, f, this, vals, objty):
        sp = ex.spec
        if not isinstance(sp, Each): raise Unsupported("callback outside its manager")
        ex.prove("the manager's own callback for this phase", z3.BoolVal(f.name == sp.cb))
        ex.wr("ghost.calls", this, ex.rd("ghost.calls", this) + 1)
        if sp.cb == "reset" and vals:
            v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]; ex.prove("the callback is told the run's result", v.code == sp.c.args[0].code)
        rt = ex.T.parse(ex.ret_type(f.node))
        if rt.k == "void": return None
        if rt.k != "status": return ex.fresh_value(rt, "cb")
        r = ex.fresh_value(STATUS, "cb"); a = ex.st.ghost["acc"]; gset(ex, "acc", If(And(a >= 0, r.code < 0), r.code, a))
        return r
class Skip(Contract):
    trusted = True; modifies = ()


def ph(fn, key, **kw): return Phase(fn=fn, key=key, **kw)
_em, _pm, _vm, _tm, _dm = ("CGraph::%s::" % MG[k] for k in "EPVTD")
RUNP = [ph(REP + "setup", "rs", modifies=("GElement.cur_state_",)), ph(_pm + "setup", "ps"), ph(_em + "run", "eng", modifies=("GElement.cur_state_", "GElement.done_")), ph(REP + "reset", "rr", modifies=("GElement.cur_state_",)), ph(_vm + "reset", "er"), ph(_pm + "resetWithStatus", "pr")]
INITP = [ph(GP + "initEnv", "env"), ph(_pm + "init", "pi"), ph(_vm + "init", "vi"), ph(_em + "init", "ei", crash=True), ph(_tm + "init", "ti"), ph(_dm + "init", "di")]
DESP = [ph(REP + "destroy", "rd"), ph("CGraph::GSchedule::destroy", "sd"), ph(_vm + "destroy", "vd"), ph(_dm + "destroy", "dd"), ph(_em + "destroy", "ed", crash=True), ph(_tm + "destroy", "td"), ph(_pm + "destroy", "pd")]
ENVP = [ph("CGraph::GSchedule::init", "si"), Pool(), ph(_vm + "setThreadPool", "vt"), ph(_em + "setThreadPool", "et"), ph(REP + "fetchAll", "fa"), ph(REP + "setThreadPool", "rt", crash=True), ph(REP + "init", "ri", crash=True)]
PROCP = [Call(fn=GP + "init", key="init", modifies=(PIN,)), Call(fn=GP + "run", key="run"), Call(fn=GP + "destroy", key="destroy", modifies=(PIN,)), Call(fn=GP + "process", key="process", modifies=(PIN,)), IsCancel()]

CB = [Member(fn="CGraph::" + q) for q in ("GParam::setup", "GParam::reset", "CObject::init", "CObject::destroy", "GDaemon::init", "GDaemon::destroy", "GEvent::fatInit", "GEvent::fatDestroy")]
EACH = [Each(fn=_pm + "init", fld_="GParamManager.params_map_", cb="init"), Each(fn=_pm + "destroy", fld_="GParamManager.params_map_", cb="destroy"), Each(fn=_pm + "setup", fld_="GParamManager.params_map_", cb="setup"),
        Each(fn=_pm + "resetWithStatus", fld_="GParamManager.params_map_", cb="reset"), Each(fn=_dm + "init", fld_="GDaemonManager.daemons_", cb="init", ismap=False), Each(fn=_dm + "destroy", fld_="GDaemonManager.daemons_", cb="destroy", ismap=False),
        Each(fn=_vm + "init", fld_="GEventManager.events_map_", cb="fatInit", modifies=("ghost.calls", "GEvent.param_manager_")), Each(fn=_vm + "destroy", fld_="GEventManager.events_map_", cb="fatDestroy"),
        Each(fn=_tm + "init", fld_="GStageManager.stage_map_", cb="init"), Each(fn=_tm + "destroy", fld_="GStageManager.stage_map_", cb="destroy")]
for e in EACH: e.registry = CB + [Skip(fn="CGraph::GEventObject::setGParamManager"), Skip(fn="CGraph::GEvent::setGParamManager")]
V = [Run(registry=RUNP), Init(registry=INITP), Destroy(registry=DESP), Process(registry=PROCP), AsyncRun(registry=PROCP), AsyncProcess(registry=PROCP), InitEnv(registry=ENVP)]
CONTRACTS = V + EACH + [Pool()]
VERIFY = CONTRACTS
DRIVERS = ["c15"]
DRIVER_SECONDS = 8
NOTE = "GPipeline::run / init / destroy / process / asyncRun / asyncProcess / initEnv and the parameter, event, daemon and stage managers' phases are proved for every result of every phase; assumed: std::async runs its function once, user callbacks report errors by status (crashes of elements are turned into exceptions by the managers, covered)."

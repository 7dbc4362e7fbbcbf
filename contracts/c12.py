"""C12: configuration is frozen between initialisation and destruction: every configuration function refuses (exception or error)
while the element / pipeline is initialised and then changes nothing (frame), and takes effect otherwise."""
from .base import *
from cgv.types import *
from .c13 import IsGroup

GE, GP = "CGraph::GElement::", "CGraph::GPipeline::"
NM, LP, LV_, VI, BI, TO, TS, MA = "CDescInfo.name_", "GElement.loop_", "GElement.level_", "GElement.visible_", "GElement.binding_index_", "GElement.timeout_", "GElement.timeout_strategy_", "GElement.is_marco_"
IN, PIN, ET = "GElement.is_init_", "GPipeline.is_init_", "GElement.element_type_"
EMIT = "CGraph::GElementType::MUTABLE"


def mutable(c): return And(c.o(BL) != 0, c.o(ET, c.o(BL)) == c.ex.p.enums[EMIT])
class Set(Contract):
    """a setter of one element: field := argument, or an exception and nothing changed"""
    may_throw = True; field = None; allow_mutable = False; check_null = True; returns_this = True; extra = None
    @property
    def modifies(self): return ((self.field, lambda c: [c.this]),) + tuple((f, lambda c: [c.this]) for f in self.more)
    more = ()
    def frozen(self, c): return And(c.o(IN), Not(mutable(c))) if self.allow_mutable else c.o(IN)
    def bad(self, c): return z3.BoolVal(False)
    def value(self, c): return c.a(0)
    def ensures(self, c):
        out = [("accepted only while not frozen", Not(self.frozen(c))), ("inconsistent settings are refused", Not(self.bad(c))), ("the setting takes effect", c(self.field) == self.value(c))]
        return out + self.post(c)
    def post(self, c): return []
    def on_throw(self, c):
        return [("refused only when frozen or inconsistent", Or(self.frozen(c), self.bad(c)))] + [("a refused request changes nothing", c(f) == c.o(f)) for f in (self.field,) + tuple(self.more)]
    def covers(self, c): return [("accepted", z3.BoolVal(True))] if c.threw is None else []
class SetName(Set):
    fn = GE + "setName"; field = NM
    def value(self, c): return If(c.a(0) == z3.Const("str!empty", Str), c.o("CDescInfo.session_"), c.a(0)) if False else c(NM)
    def post(self, c): return [("the given name or the session name", Or(c(NM) == c.arg_now(0), c(NM) == c.o("CDescInfo.session_")))]
class SetLoop(Set):
    fn = GE + "setLoop"; field = LP; allow_mutable = True
    def bad(self, c): return And(c.o(TO) > 0, c.a(0) != 1)
class SetTimeout(Set):
    fn = GE + "setTimeout"; field = TO; more = (TS,)
    def bad(self, c): return Or(c.a(0) < 0, And(c.o(LP) > 1, c.a(0) != 0))
    def post(self, c): return [("the strategy takes effect", c(TS) == c.a(1))]
class SetMacro(Set):
    fn = GE + "setMacro"; field = MA
    def bad(self, c): return z3.Function("isgroup", I, B)(c.o(ET))
class SetPool(Set):
    fn = GE + "setThreadPool"; field = "GElement.thread_pool_"; more = ()
    modifies = (("GElement.thread_pool_", lambda c: [c.this]), "GElementManager.thread_pool_")
    def bad(self, c): return c.a(0) == 0
class PoolEx(Contract):
    fn = GE + "setThreadPoolEx"; trusted = True; virtual_any = True; may_throw = False; modifies = ("GElementManager.thread_pool_",); returns_this = True


class Noexc(Contract):
    """operator* / operator--: a refused request changes nothing (and is only echoed)"""
    returns_this = True
    @property
    def modifies(self): return ((self.field, lambda c: [c.this]),)
    def ensures(self, c):
        fr = Or(And(c.o(IN), Not(mutable(c))), self.bad(c))
        return [("a refused request changes nothing", Implies(fr, c(self.field) == c.o(self.field))), ("otherwise it takes effect", Implies(Not(fr), c(self.field) == self.val(c)))]
    def bad(self, c): return z3.BoolVal(False)
class Star(Noexc):
    fn = GE + "operator*"; field = LP
    def bad(self, c): return And(c.o(TO) > 0, c.a(0) != 1)
    def val(self, c): return c.a(0)
class MinusMinus(Noexc):
    fn = GE + "operator--"; field = VI
    def val(self, c): return z3.BoolVal(True)


class Frozen(Contract):
    """returns an error and changes nothing while initialised (the accepted effect is specified in C10)"""
    check_null = False
    def same(self, c):
        out = []
        for f in (RB, DP):
            x0, x1 = c.ex.rd(f, a_, c.old_st), c.ex.rd(f, a_); out.append(ForAll([a_], x0.m == x1.m))
        out.append(ForAll([a_], c.ex.rd(LD, a_, c.old_st) == c.ex.rd(LD, a_)))
        for f in (LP, NM): out.append(c(f) == c.o(f))
        return And(*out)
    may_throw = True
    modifies = (RB, DP, LD, LP, NM, "GElement.aspect_manager_", "GAspectManager.aspect_arr_")
    mut = False
    def fr(self, c): return And(c.o(IN), Not(mutable(c))) if self.mut else c.o(IN)
    def ensures(self, c): return [("refused while initialised", Implies(self.fr(c), c.ret.code < 0)), ("a refused request changes nothing", Implies(self.fr(c), And(self.same(c), *self.more_same(c))))]
    def on_throw(self, c): return [("a refused request changes nothing", Implies(self.fr(c), self.same(c)))]
    def more_same(self, c): return []
    def covers(self, c): return [("not frozen", Not(self.fr(c)))]
class FAdd(Frozen):
    fn = GE + "addDependGElements"; mut = True
class FRem(Frozen): fn = GE + "removeDepend"
class FInfo(Frozen): fn = GE + "addElementInfo"; mut = False
class FPop(Frozen):
    fn = GE + "popLastAspect"
    def more_same(self, c):
        m0 = c.o("GElement.aspect_manager_"); ar0, ar1 = c.ex.rd("GAspectManager.aspect_arr_", m0, c.old_st), c.ex.rd("GAspectManager.aspect_arr_", m0)
        return [c("GElement.aspect_manager_") == m0, ar0.hi == ar1.hi]


class Pipe(Contract):
    """a configuration function of the pipeline"""
    may_throw = True; throws = True; modifies = ()
    frame_ignore = Contract.frame_ignore
    eff = staticmethod(lambda c: [])
    def ensures(self, c):
        i = c.o(PIN)
        if self.throws: return [("accepted only while not initialised", Not(i))] + self.eff(c)
        return [("refused while initialised", Implies(i, c.ret.code < 0)), ("a refused request changes nothing", Implies(i, self.nothing(c)))] + [(n, Implies(c.ret.code >= 0, f)) for n, f in self.eff(c)]
    def on_throw(self, c): return [("a refused request changes nothing", Implies(c.o(PIN), self.nothing(c)))]
    watch = ()
    def nothing(self, c):
        out = [z3.BoolVal(True)]
        for f in self.modifies:
            f = f if isinstance(f, str) else f[0]
            v0, v1 = c.ex.rd(f, r_, c.old_st), c.ex.rd(f, r_)
            if isinstance(v0, CV): out.append(ForAll([r_], And(*[v0.c[k] == v1.c[k] for k in v0.c if k in (".m", ".hi", ".lo")])) if not v0.c.get(".code") is not None else z3.BoolVal(True))
            else: out.append(ForAll([r_], v0 == v1))
        return And(*out)
from cgv.core import CV
class Engine(Contract):
    fn = "CGraph::GElementManager::setEngineType"; modifies = (("GElementManager.engine_type_", lambda c: [c.this]),); returns_this = True
    def ensures(self, c): return [("engine type recorded", c("GElementManager.engine_type_") == c.a(0))]
class Other(Contract):
    """work of another part, relevant here only for whether it is reached"""
    trusted = True
EM = "GPipeline.element_manager_"
ETY = "GElementManager.engine_type_"
PIPES = [Pipe(fn=GP + "setGEngineType", modifies=(ETY,), eff=lambda c: [("the engine type takes effect", c.ex.rd(ETY, c.o(EM)) == c.a(0))]),
         Pipe(fn=GP + "trim", modifies=(RB, DP, LD)), Pipe(fn=GP + "getMaxPara"), Pipe(fn=GP + "perf"),
         Pipe(fn=GP + "save", throws=False), Pipe(fn=GP + "load", throws=False)]
class InnerReg(Pipe):
    fn = GP + "innerRegister"; throws = False
    modifies = (RB, DP, LD, LP, NM, "GElementManager.manager_elements_", "GElementRepository.elements_", "GElement.param_manager_", "GElement.event_manager_", "GElement.stage_manager_")
    def eff(self, c):
        e = c.a(0); ex = c.ex; rep = ex.subobj("CGraph::GPipeline", "repository_", c.this)
        return [("an accepted element is registered with the pipeline", And(ex.rd("GElementRepository.elements_", rep).m[e], ex.rd("GElementManager.manager_elements_", c.o(EM)).m[e])),
                ("no registered element is lost", ForAll([a_], Implies(ex.rd("GElementManager.manager_elements_", c.o(EM), c.old_st).m[a_], ex.rd("GElementManager.manager_elements_", c.o(EM)).m[a_])))]
class AddInfo(Contract):
    fn = GE + "addElementInfo"; virtual_any = True; trusted = True; may_throw = True; modifies = (RB, DP, LD, LP, NM)
class AddMgrs(Contract):
    fn = GE + "addManagers"; virtual_any = True; trusted = True; modifies = ("GElement.param_manager_", "GElement.event_manager_", "GElement.stage_manager_")
class GetName(Contract):
    fn = GE + "getName"; virtual_any = True; trusted = True; modifies = ()
class Trim(Contract):
    fn = "CGraph::GElementManager::trim"; trusted = True; modifies = (RB, DP, LD)
class MaxPara(Contract):
    fn = "CGraph::GElementManager::calcMaxParaSize"; trusted = True; may_throw = True; modifies = ()
class SetPoolCfg(Pipe):
    fn = GP + "setUniqueThreadPoolConfig"; throws = True
    modifies = tuple("UThreadPoolConfig." + f for f in ("default_thread_size_", "secondary_thread_size_", "max_thread_size_", "max_task_steal_range_", "max_local_batch_size_", "max_pool_batch_size_", "max_steal_batch_size_", "primary_thread_busy_epoch_", "primary_thread_empty_interval_", "secondary_thread_ttl_", "monitor_span_", "queue_emtpy_interval_", "primary_thread_policy_", "secondary_thread_policy_", "primary_thread_priority_", "secondary_thread_priority_", "bind_cpu_enable_", "batch_task_enable_", "monitor_enable_", "pipeline_wait_busy_epoch_", "deliver_running_primary_thread_enable_"))
class MkSerial(Pipe):
    fn = GP + "makeSerial"; throws = False; modifies = SetPoolCfg.modifies
class PerfRun(Contract):
    fn = "CGraph::GPerf::perf"; trusted = True
class ChkSer(Contract):
    fn = "CGraph::GElementManager::checkSerializable"; trusted = True; modifies = ()

SETTERS = [SetName(), SetLoop(), Set(fn=GE + "setLevel", field=LV_), Set(fn=GE + "setVisible", field=VI, allow_mutable=True), Set(fn=GE + "setBindingIndex", field=BI), SetTimeout(), SetMacro(), SetPool()]
_add = [FAdd(), FRem(), FInfo(), FPop()]
CONTRACTS = SETTERS + [PoolEx(), Star(), MinusMinus(), IsGroup(), Engine(), Trim(), MaxPara(), PerfRun(), AddInfo(), AddMgrs(), GetName(), ChkSer()] + PIPES + [InnerReg(), MkSerial(), SetPoolCfg()]
for f in _add: f.registry = SETTERS + [x for x in _add if x is not f]
VERIFY = SETTERS + [c for c in CONTRACTS if isinstance(c, (Star, MinusMinus, Engine, Pipe))] + _add
DRIVERS = ["c12"]
DRIVER_SECONDS = 8
NOTE = "Every setter of an element, the dependency functions and the pipeline's configuration functions are proved to refuse (and change nothing) while initialised and to take effect otherwise, for every state; children of groups count as initialised through C11; registration templates are covered by the replay driver only (bounded)."

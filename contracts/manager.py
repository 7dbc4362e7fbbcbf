"""GElementManager and the engines it drives: the analysis comes first, with exactly the manager's elements; a refused graph is neither
initialised nor executed.  Ghost `setup`: result code of the last analysis (-1: none yet); `runs`: executions of the engine."""
from .c11 import *
from .c11 import EngineSetup as _ES, InitEngine as _IE, MInit as _MI, Phase as _Ph


class Setup3(_ES):
    def requires(self, c):
        ex = c.ex; sp = ex.spec; el = getattr(sp, "analysed", None)
        if el is None: return []
        m = el(ex); E = c.args[0]
        return [("exactly the given elements are analysed", ForAll([a_], E.m[a_] == m.m[a_], patterns=[E.m[a_]])), ("the manager's engine is set up", c.this == ex.rd(EN, sp.c.this))]
class Init3(_IE):
    def analysed(self, ex): return ex.rd(ME, self.c.this)
    def setup(self, c): c.ex.st.ghost["setup"] = z3.IntVal(-1)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        return [("the result is that of the analysis", (c.ret.code < 0) == (c.ex.st.ghost["setup"] < 0))]
class MInit3(_MI):
    def setup(self, c): _MI.setup(self, c); c.ex.st.ghost["setup"] = z3.IntVal(-1)
    def allowed(self, ex, e): return _MI.allowed(self, ex, e) + [("no element is initialised unless the analysis accepted the graph", ex.st.ghost["setup"] >= 0)]
    def loop_invs(self, L): return _MI.loop_invs(self, L) + [("the graph was accepted", lambda L: L.ex.st.ghost["setup"] >= 0)]
    def ensures(self, c):
        if getattr(c, "call", False): return []
        return _MI.ensures(self, c) + [("a refused graph fails the initialisation", Implies(c.ex.st.ghost["setup"] < 0, c.ret.code < 0))]
class ERun(Contract):
    """the engine's run (C01, C02)"""
    fn = "CGraph::CObject::run"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        g = ex.st.ghost; sp = ex.spec
        ex.prove("the manager's engine is run", this == ex.rd(EN, sp.c.this)); ex.prove("only an accepted graph is executed", g["setup"] >= 0); ex.prove("the graph is executed once", g["runs"] == 0)
        g["runs"] = z3.IntVal(1); ex.note_write(("g", "runs")); r = ex.fresh_value(STATUS, "ran"); g["ranc"] = r.code; ex.note_write(("g", "ranc")); return r
class MRun(Contract):
    fn = EM + "run"; check_null = True; may_throw = True
    init_state = 0
    def setup(self, c):
        g = c.ex.st.ghost; g["setup"] = z3.IntVal(self.init_state); g["runs"] = z3.IntVal(0); g["ranc"] = z3.IntVal(0); c.ex.assume(c(EN) > 0)
    def ensures(self, c):
        g = c.ex.st.ghost
        if getattr(c, "call", False): return []
        return [("the graph is executed exactly when it was accepted", (g["runs"] == 1) == (g["setup"] >= 0)), ("the engine's status is reported", Implies(g["setup"] >= 0, c.ret.code == g["ranc"])), ("a refused graph is an error", Implies(g["setup"] < 0, c.ret.code < 0))]
    def on_throw(self, c):
        g = c.ex.st.ghost; return [("only a crash makes it throw", Or(g["setup"] == -996, g["ranc"] == -996))]
class MProcess(MRun):
    fn = EM + "process"; init_state = -1; modifies = _ES.modifies
    def analysed(self, ex): return self.c.args[0]
MGR = [_Ph(), Setup3(), Init3(), MInit3()]
MPR = [Setup3(), ERun(), MRun(inline_only=True), MProcess()]

"""Shared contracts around GElement::fatProcessor: the user callbacks (assumed, any behaviour allowed that does not reach into
the element's private configuration) and the ghost automaton that records in which order they are invoked.

Ghost state: ph 0 outside an iteration, 1 begin hooks succeeded, 2 the callback has run; it = iterations begun; nrun, nprep, ninit,
ndes = callback counts; hold = the last isHold() answer (only meaningful in phase 2); norm = the last state observed was NORMAL;
acc = the status accumulated so far (0 none, otherwise code); nfin = finish hooks called; ncrash = crash callback calls; nasync."""
from .base import *
from cgv.types import *
from cgv.interp import *

GE = "CGraph::GElement::"
CS, VIS, LOOP, PREPD, TMO = "GElement.cur_state_", "GElement.visible_", "GElement.loop_", "GElement.is_prepared_", "GElement.timeout_"
INTS = ("ph", "it", "nrun", "nprep", "nbegin", "nfin", "ncrash", "nasync", "acc", "accinfo", "hold", "norm", "abn", "nenter", "nchk", "seen")
STATE = {"NORMAL": 0, "CANCEL": 0x1001, "SUSPEND": 0x1002, "TIMEOUT": 0x1010}
KIND = {"INIT": 1, "RUN": 2, "DESTROY": 3}
def state(ex, n): return ex.p.enums.get("CGraph::GElementState::" + n, STATE[n])
def kind(ex, n): return ex.p.enums["CGraph::CFunctionType::" + n]
def asp(ex, n): return ex.p.enums["CGraph::internal::GAspectType::" + n]


def gset(ex, n, v): ex.st.ghost[n] = z3.IntVal(v) if isinstance(v, int) else z3.simplify(v); ex.note_write(("g", n))
def g(ex, n): return ex.st.ghost[n]


class Life(Contract):
    """functions that run while other threads may change the element's state"""
    def env(self, ex):
        cls, n, t = self.fld(ex, CS); ex.havoc_key(cls, n, t)
    def before_atomic(self, ex, lv, op):
        if getattr(lv, "name", "") == "cur_state_": self.env(ex)
    def setup(self, c):
        ex = c.ex
        for n in INTS: ex.st.ghost[n] = z3.IntVal(0)
        ex.st.ghost["self"] = c.this if c.this is not None else z3.IntVal(0)


def err(code): return code < 0


class Callback(Contract):
    """a user callback: may throw CException, may change nothing the caller's contract speaks about except the element states"""
    trusted = True; virtual_any = True; modifies = (CS,); may_throw = True; nparams = 0
    def apply(self, ex, f, this, vals, objty):
        if "ph" in ex.st.ghost: self.before(ex, this, vals)
        ex.spec.env(ex) if hasattr(ex.spec, "env") else None
        if self.may_throw and ex.choose(2) == 1:
            if "ph" in ex.st.ghost: self.threw_effect(ex)
            raise CxxThrow(Ty("cls", n="CGraph::internal::CEXCEPTION") if False else Contract.thrown(self, ex)[0], ex.fresh("exc", I))
        t = ex.T.parse(ex.ret_type(f.node)); r = ex.fresh_value(t, f.name) if t.k != "void" else None
        if "ph" in ex.st.ghost: self.after(ex, this, r)
        return r
    def before(self, ex, this, vals): pass
    def after(self, ex, this, r): pass
    def threw_effect(self, ex): pass
def accumulate(ex, r):
    a = g(ex, "acc")
    gset(ex, "accinfo", If(And(a >= 0, r.code < 0), r.info, g(ex, "accinfo")) if r.info.sort() == I else g(ex, "accinfo"))
    gset(ex, "acc", If(And(a >= 0, r.code < 0), r.code, a))


class Prepare(Callback):
    fn = GE + "prepareRun"
    def before(self, ex, this, vals):
        ex.prove("preparation happens only before the first run after an initialisation", And(Not(ex.rd(PREPD, this)), g(ex, "nprep") == 0, g(ex, "nbegin") == 0))
        gset(ex, "nprep", g(ex, "nprep") + 1)
    def after(self, ex, this, r): accumulate(ex, r); gset(ex, "acc", r.code)
class RunCb(Callback):
    fn = "CGraph::CObject::run"
    def before(self, ex, this, vals):
        ex.prove("the run callback is invoked once per iteration, again only while held and without error",
                 And(g(ex, "acc") >= 0, Or(g(ex, "ph") == 1, And(g(ex, "ph") == 2, g(ex, "hold") == 1))))
        ex.prove("the element was prepared before its first run", ex.rd(PREPD, this))
        ex.prove("an element without a timeout runs in place, one with a timeout asynchronously", (ex.rd(TMO, this) == 0) if self.sync else (ex.rd(TMO, this) != 0))
    sync = True
    def after(self, ex, this, r):
        accumulate(ex, r); gset(ex, "ph", 2); gset(ex, "nrun", g(ex, "nrun") + 1); gset(ex, "hold", 0)
class AsyncRun(RunCb):
    fn = GE + "asyncRun"; virtual_any = False; sync = False
class Hold(Callback):
    fn = GE + "isHold"
    def before(self, ex, this, vals): ex.prove("the hold condition is asked after a run", g(ex, "ph") == 2)
    def after(self, ex, this, r): gset(ex, "hold", If(r, 1, 0))
class CheckResult(Callback):
    fn = GE + "checkRunResult"
    def before(self, ex, this, vals): gset(ex, "nchk", g(ex, "nchk") + 1)
class InitCb(Callback):
    fn = "CGraph::CObject::init"
    def before(self, ex, this, vals):
        ex.prove("the init callback is invoked once, after the begin hooks", And(g(ex, "ph") == 1, g(ex, "acc") >= 0, g(ex, "nrun") == 0))
        ex.prove("a new initialisation asks for a new preparation", Not(ex.rd(PREPD, this)))
    def after(self, ex, this, r): accumulate(ex, r); gset(ex, "ph", 2); gset(ex, "nrun", g(ex, "nrun") + 1)
class DestroyCb(Callback):
    fn = "CGraph::CObject::destroy"
    def before(self, ex, this, vals): ex.prove("the destroy callback is invoked once, after the begin hooks", And(g(ex, "ph") == 1, g(ex, "acc") >= 0, g(ex, "nrun") == 0))
    def after(self, ex, this, r): accumulate(ex, r); gset(ex, "ph", 2); gset(ex, "nrun", g(ex, "nrun") + 1)


class DoAspect(Contract):
    """dispatch to the attached aspects (proved in C07)"""
    fn = GE + "doAspect"; trusted = False; modifies = (CS,); may_throw = True
    def apply(self, ex, f, this, vals, objty):
        if "ph" not in ex.st.ghost: return Contract.apply(self, ex, f, this, vals, objty)
        v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]; k = ex.st.ghost["kind"]
        cur = vals[1].get(ex) if len(vals) > 1 and isinstance(vals[1], LV) else (vals[1] if len(vals) > 1 else None)
        names = {asp(ex, n): n for n in ("BEGIN_RUN", "FINISH_RUN", "BEGIN_INIT", "FINISH_INIT", "BEGIN_DESTROY", "FINISH_DESTROY", "ENTER_CRASHED", "ENTER_TIMEOUT")}
        v = z3.simplify(v); n = names.get(v.as_long()) if z3.is_int_value(v) else None
        if n is None: raise Unsupported("aspect kind is not a constant")
        what = n.split("_")[-1]
        if n.startswith("BEGIN"):
            ex.prove("begin hooks belong to the phase being executed", k == kind(ex, what))
            ex.prove("begin hooks start an iteration: none is open, no error so far", And(g(ex, "ph") == 0, g(ex, "acc") >= 0))
            if what == "RUN":
                ex.prove("no more iterations than configured", g(ex, "it") < ex.rd(LOOP, this))
                ex.prove("an iteration starts only in the normal state", g(ex, "norm") == 1)
                gset(ex, "norm", 0)
            else: ex.prove("one bracket per init / destroy", g(ex, "nbegin") == 0)
            gset(ex, "nbegin", g(ex, "nbegin") + 1); gset(ex, "it", g(ex, "it") + 1)
        elif n.startswith("FINISH"):
            ex.prove("finish hooks belong to the phase being executed", k == kind(ex, what))
            ex.prove("finish hooks follow the callback", g(ex, "ph") == 2)
            if what == "RUN": ex.prove("the iteration ends when the element is not held any more or failed", Or(g(ex, "hold") == 0, g(ex, "acc") < 0))
            ex.prove("finish hooks receive the status the callback produced", (cur.code if cur is not None else z3.IntVal(0)) == g(ex, "last")
                     if False else And(Implies(g(ex, "acc") < 0, cur.code == g(ex, "acc")), Implies(g(ex, "acc") >= 0, cur.code >= 0)) if cur is not None else z3.BoolVal(False))
            gset(ex, "nfin", g(ex, "nfin") + 1); gset(ex, "ph", 0)
        elif n == "ENTER_CRASHED": gset(ex, "nenter", g(ex, "nenter") + 1)
        ex.spec.env(ex)
        if not n.startswith("ENTER") and ex.choose(2) == 1:
            raise CxxThrow(*Contract.thrown(self, ex))
        r = ex.fresh_value(STATUS, "asp")
        if n.startswith("BEGIN"):
            accumulate(ex, r)
            gset(ex, "ph", If(r.code >= 0, 1, 0)); gset(ex, "begerr", If(r.code < 0, 1, g(ex, "begerr")))
        else: ex.assume(r.code >= 0) if False else None
        return r


class Crashed(Contract):
    fn = GE + "crashed"; modifies = ()
    def ensures(self, c): return [("a crash is reported as the crash status", c.ret.code == -996)]
    def effect(self, c):
        if "ph" in c.ex.st.ghost: gset(c.ex, "ncrash", g(c.ex, "ncrash") + 1)


def observed(ex, v):
    """a suspended element has to wait; only a cancel or a timeout entitles it to stop"""
    if "ph" not in ex.st.ghost: return
    gset(ex, "seen", v); gset(ex, "norm", If(v == state(ex, "NORMAL"), 1, 0))
    gset(ex, "abn", If(Or(v == state(ex, "NORMAL"), v == state(ex, "SUSPEND")), g(ex, "abn"), 1))
class GetCurState(Life):
    """the element's state: timed out when it or an enclosing group is, otherwise its own"""
    fn = GE + "getCurState"; modifies = (CS,)
    def effect(self, c): observed(c.ex, c.ret)


class IsRunnable(Life):
    """waits out a suspension, then tells whether the state is normal"""
    fn = GE + "isRunnable"; modifies = (CS,); ghosts = ("seen",)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex
        return [("true only when the normal state was observed last", Implies(c.ret, g(ex, "norm") == 1)),
                ("false only when a cancel or a timeout was observed last", Implies(Not(c.ret), And(g(ex, "abn") == 1, g(ex, "norm") == 0)))]
    def effect(self, c):
        ex = c.ex
        if "ph" not in ex.st.ghost: return
        gset(ex, "norm", If(c.ret, 1, 0)); gset(ex, "abn", If(c.ret, g(ex, "abn"), 1))
    def loop_invs(self, L):
        ex = L.ex; out = [("no stop entitled yet", lambda L: g(ex, "abn") == 0)]
        for k, t in L.locals(lambda t, n: t.k in ("int", "enum")): 
            out.append(("local = last observed state", lambda L, k=k: L.value(k) == g(ex, "seen")))
        out.append(("observation", lambda L: And(g(ex, "norm") == If(g(ex, "seen") == state(ex, "NORMAL"), 1, 0), (g(ex, "abn") == 1) == And(g(ex, "seen") != state(ex, "NORMAL"), g(ex, "seen") != state(ex, "SUSPEND")))))
        return out
class CheckSuspend(Life):
    fn = GE + "checkSuspend"; modifies = (CS,)


class Fat(Life):
    fn = GE + "fatProcessor"; timeout = 200
    modifies = (CS, (PREPD, lambda c: [c.this]), ("GElement.concerned_params_", lambda c: [c.this]), "CEXCEPTION.exception_info_")
    def setup(self, c):
        Life.setup(self, c); c.ex.st.ghost["kind"] = c.args[0]; c.ex.st.ghost["begerr"] = z3.IntVal(0)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; G = lambda n: g(ex, n); v = c.o(VIS); k = c.a(0)
        quiet = And(*[G(n) == 0 for n in ("nrun", "nprep", "nbegin", "nfin", "ncrash", "nenter")])
        run, one = k == kind(ex, "RUN"), Or(k == kind(ex, "INIT"), k == kind(ex, "DESTROY"))
        nocrash = G("ncrash") == 0
        return [("an invisible element invokes no callback and reports success", Implies(Not(v), And(quiet, c.ret.code == 0))),
                ("an exception ends in the crash callback, its status is the result", Implies(G("ncrash") > 0, And(G("ncrash") == 1, c.ret.code == -996))),
                ("crash hooks are called exactly with the crash callback", G("nenter") == G("ncrash")),
                ("the first error becomes the result", Implies(And(nocrash, v, Or(run, one), G("acc") < 0), c.ret.code == G("acc"))),
                ("success is reported when nothing failed", Implies(And(nocrash, v, Or(run, one), G("acc") >= 0), c.ret.code >= 0)),
                ("every configured iteration runs unless an error or a state change stops it", Implies(And(nocrash, v, run, G("acc") == 0, G("abn") == 0), G("it") == c.o(LOOP))),
                ("every iteration runs the callback", Implies(And(nocrash, run, G("begerr") == 0), And(G("nrun") >= G("it"), G("nfin") == G("it")))),
                ("init / destroy run their callback once", Implies(And(nocrash, v, one), And(G("nbegin") == 1, Implies(G("begerr") == 0, And(G("nrun") == 1, G("nfin") == 1)), Implies(G("begerr") == 1, G("nrun") == 0)))),
                ("nothing is left open", Implies(nocrash, G("ph") == 0)),
                ("preparation is not repeated until the next initialisation", Implies(run, And(Implies(c.o(PREPD), And(G("nprep") == 0, c(PREPD))), Implies(And(nocrash, v, G("acc") >= 0), c(PREPD))))),
                ("an unknown phase is refused", Implies(And(v, Not(run), Not(one)), And(quiet, c.ret.code < 0)))]
    def covers(self, c):
        ex = c.ex; G = lambda n: g(ex, n)
        return [("crash", G("ncrash") == 1), ("several iterations", G("it") == 2), ("held", And(G("it") == 1, G("nrun") == 2, G("ncrash") == 0)), ("failed", G("acc") < 0)]
    def loop_invs(self, L):
        ex = L.ex; G = lambda n: g(ex, n); this = self.c.this; out = []
        out += [("between iterations", lambda L: And(G("ph") == 0)), ("inside an iteration", lambda L: Or(G("ph") == 1, G("ph") == 2)),
                ("before the callback or held", lambda L: And(G("acc") >= 0, Or(G("ph") == 1, And(G("ph") == 2, G("hold") == 1)))), ("after the callback", lambda L: G("ph") == 2),
                ("no error so far", lambda L: G("acc") >= 0), ("prepared", lambda L: ex.rd(PREPD, this)), ("no crash", lambda L: And(G("ncrash") == 0, G("nenter") == 0)),
                ("not more iterations than configured", lambda L: And(G("it") <= ex.rd(LOOP, this), G("it") >= 0)), ("begin hooks ok", lambda L: G("begerr") == 0),
                ("an iteration was begun", lambda L: G("it") >= 1),
                ("callbacks cover the iterations", lambda L: And(G("nrun") >= G("it"), G("nfin") == G("it"))), ("callbacks cover the earlier iterations", lambda L: And(G("nrun") >= G("it") - 1, G("nfin") == G("it") - 1)),
                ("callbacks counted within the iteration", lambda L: Implies(G("ph") == 2, G("nrun") >= G("it"))),
                ("begins counted", lambda L: G("nbegin") == G("it")),
                ("no state change seen or loop left", lambda L: G("abn") == 0), ("preparations", lambda L: G("nprep") == L.entry.ghost["nprep"])]
        for k, t in L.locals(lambda t, n: t.k == "int"):
            out.append(("counter = iterations begun", lambda L, k=k: L.value(k) == G("it")))
            out.append(("counter = iterations left", lambda L, k=k: L.value(k) == ex.rd(LOOP, this) - G("it")))
            out.append(("counter = iterations begun before this one", lambda L, k=k: L.value(k) + 1 == G("it")))
            out.append(("counter within bound", lambda L, k=k: L.value(k) < ex.rd(LOOP, this)))
        for k, t in L.locals(lambda t, n: t.k == "bool"):
            out.append(("first pass: the callback has not run", lambda L, k=k: And(Implies(L.value(k), And(G("ph") == 1, G("acc") >= 0)), Implies(Not(L.value(k)), G("ph") == 2))))
        for k, t in L.locals(lambda t, n: t.k == "status"):
            out.append(("local status = accumulated status", lambda L, k=k: And(Implies(G("acc") < 0, L.value(k).code == G("acc")), Implies(G("acc") >= 0, L.value(k).code >= 0))))
            out.append(("local status exactly", lambda L, k=k: L.value(k).code == G("acc")))
            out.append(("local status", lambda L, k=k: Implies(G("acc") >= 0, L.value(k).code == 0)))
        return out
def life(): return [Prepare(), RunCb(), AsyncRun(), Hold(), CheckResult(), InitCb(), DestroyCb(), DoAspect(), Crashed(), GetCurState(), IsRunnable(), CheckSuspend(), Fat()]

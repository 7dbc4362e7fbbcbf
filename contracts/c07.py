"""C07: aspects bracket every callback (GAspectManager::reflect, GElement::doAspect, and the brackets in GElement::fatProcessor, see C06)."""
from .life import *

AM = "CGraph::GAspectManager::"
EXI = "CEXCEPTION.exception_info_"
ARR, MGR = "GAspectManager.aspect_arr_", "GElement.aspect_manager_"
HOOKS = {"beginRun": "BEGIN_RUN", "finishRun": "FINISH_RUN", "beginInit": "BEGIN_INIT", "finishInit": "FINISH_INIT", "beginDestroy": "BEGIN_DESTROY",
         "finishDestroy": "FINISH_DESTROY", "enterTimeout": "ENTER_TIMEOUT", "enterCrashed": "ENTER_CRASHED"}


class Hook(Contract):
    """a hook of a user aspect: reports any status, may throw"""
    trusted = True; virtual_any = True; may_throw = True
    def apply(self, ex, f, this, vals, objty):
        G = ex.st.ghost; sp = ex.spec
        if "na" not in G: raise Unsupported("aspect hook called outside the aspect manager")
        arr = ex.rd(ARR, sp.c.this, sp.c.old_st); n = self.fn.split("::")[-1]
        ex.prove("hooks are called in attachment order, each aspect once", And(G["na"] < arr.hi - arr.lo, this == arr.d[arr.lo + G["na"]]))
        ex.prove("the hook of the requested phase is called", sp.c.args[0] == asp(ex, HOOKS[n]))
        ex.prove("no hook is called after one reported an error", G["lastcode"] >= 0)
        if vals:
            s = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]; want = sp.c.args[1]
            ex.prove("the finish hook receives the given status", And(s.code == want.code, Implies(s.code != 0, s.info == want.info)))
        gset(ex, "na", G["na"] + 1)
        if ex.choose(2) == 1: gset(ex, "thrown", 1); raise CxxThrow(*Contract.thrown(self, ex))
        if ex.T.parse(ex.ret_type(f.node)).k == "void": return None
        r = ex.fresh_value(STATUS, "hook"); gset(ex, "lastcode", r.code)
        return r


class Reflect(Contract):
    fn = AM + "reflect"; may_throw = True; modifies = (EXI,)
    def setup(self, c):
        for n in ("na", "lastcode", "thrown"): c.ex.st.ghost[n] = z3.IntVal(0)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; G = ex.st.ghost; arr = c.o(ARR); k = c.a(0)
        known = Or(*[k == asp(ex, n) for n in HOOKS.values()])
        return [("every attached aspect is told unless one reports an error", Implies(And(known, c.ret.code >= 0), G["na"] == arr.hi - arr.lo)),
                ("an error of a begin hook is the result", Implies(G["lastcode"] < 0, c.ret.code == G["lastcode"])),
                ("no error is invented", Implies(And(known, G["lastcode"] >= 0), c.ret.code >= 0))]
    def on_throw(self, c): return [("only a throwing hook or a crash status throws", Or(c.ex.st.ghost["thrown"] == 1, c.ex.st.ghost["lastcode"] == -996))]
    def covers(self, c): return [("several aspects", c.ex.st.ghost["na"] == 2), ("stopped by an error", And(c.ret.code < 0, c.ex.st.ghost["na"] == 1))]
    def loop_invs(self, L):
        ex = L.ex; G = ex.st.ghost; arr0 = ex.rd(ARR, self.c.this, self.c.old_st); k = self.c.args[0]
        known = Or(*[k == asp(ex, n) for n in HOOKS.values()])
        out = [("no error so far", lambda L: ex.st.ghost["lastcode"] >= 0), ("nothing thrown", lambda L: ex.st.ghost["thrown"] == 0)]
        if L.rng is not None: out.append(("aspects told = visited", lambda L: Implies(known, ex.st.ghost["na"] == L.k - arr0.lo)))
        for key, t in L.locals(lambda t, n: t.k == "int"): out.append(("aspects told = counter", lambda L, key=key: Implies(known, ex.st.ghost["na"] == L.value(key))))
        for key, t in L.locals(lambda t, n: t.k == "status"): out.append(("status keeps success", lambda L, key=key: Or(L.value(key).code >= 0)))
        out.append(("unknown phase tells nobody", lambda L: Implies(Not(known), ex.st.ghost["na"] == 0)))
        return out


class DoAspectReal(Contract):
    """fatProcessor's gateway to the aspects"""
    fn = GE + "doAspect"; may_throw = True; modifies = (CS, EXI)
    def setup(self, c): c.ex.st.ghost["reflected"] = z3.IntVal(0)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; m = c.o(MGR); arr = ex.rd(ARR, m, c.old_st); G = ex.st.ghost
        some = And(m != 0, arr.hi != arr.lo)
        return [("aspects are reflected exactly when there are any", G["reflected"] == If(some, 1, 0)), ("without aspects the phase succeeds", Implies(Not(some), c.ret.code == 0)),
                ("the aspects' verdict is the result", Implies(And(some), c.ret.code == G["verdict"]) if "verdict" in G else z3.BoolVal(True))]
class ReflectCall(Contract):
    fn = AM + "reflect"
    def apply(self, ex, f, this, vals, objty):
        sp = ex.spec
        if "reflected" not in ex.st.ghost: return Contract.apply(self, ex, f, this, vals, objty)
        k = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]; s = vals[1].get(ex) if isinstance(vals[1], LV) else vals[1]
        ex.prove("the phase is passed on", And(this == sp.c(MGR, st=sp.c.old_st), k == sp.c.args[0]))
        ex.prove("the status is passed on", And(s.code == sp.c.args[1].code, Implies(s.code != 0, s.info == sp.c.args[1].info)))
        gset(ex, "reflected", ex.st.ghost["reflected"] + 1)
        if ex.choose(2) == 1: raise CxxThrow(*Contract.thrown(self, ex))
        r = ex.fresh_value(STATUS, "verdict"); ex.st.ghost["verdict"] = r.code
        return r


class Add(Contract):
    fn = AM + "add"; modifies = ((ARR, lambda c: [c.this]),)
    def ensures(self, c):
        a0, a1 = c.o(ARR), c(ARR); n0, n1 = a0.hi - a0.lo, a1.hi - a1.lo; ok = c.ret.code >= 0
        keep = ForAll([i_], Implies(And(i_ >= 0, i_ < n0), a1.d[a1.lo + i_] == a0.d[a0.lo + i_]))
        return [("the new aspect comes last, the others keep their order", Implies(ok, And(n1 == n0 + 1, a1.d[a1.hi - 1] == c.a(0), keep))), ("a refused aspect changes nothing", Implies(Not(ok), n1 == n0)), ("null is refused", ok == (c.a(0) != 0))]
class PopLast(Contract):
    fn = AM + "popLast"; modifies = ((ARR, lambda c: [c.this]),)
    def ensures(self, c):
        a0, a1 = c.o(ARR), c(ARR); n0, n1 = a0.hi - a0.lo, a1.hi - a1.lo; ok = c.ret.code >= 0
        return [("exactly the last aspect goes", Implies(n0 > 0, And(ok, n1 == n0 - 1, ForAll([i_], Implies(And(i_ >= 0, i_ < n1), a1.d[a1.lo + i_] == a0.d[a0.lo + i_]))))), ("nothing to remove is an error", Implies(n0 == 0, And(Not(ok), n1 == 0)))]


HK = [Hook(fn="CGraph::GAspect::" + n) for n in HOOKS]
_l = life()
_fat = next(c for c in _l if type(c).__name__ == "Fat"); _fat.registry = _l
_do = DoAspectReal(); _do.registry = [ReflectCall()]
CONTRACTS = HK + [Reflect(), Add(), PopLast()]
VERIFY = [c for c in CONTRACTS if not c.trusted] + [_do, _fat]
DRIVERS = ["c07"]
DRIVER_SECONDS = 8
NOTE = "GAspectManager::reflect, GElement::doAspect and the brackets inside GElement::fatProcessor are proved for every aspect list, element configuration and callback behaviour; assumed: user hooks do not edit the aspect list or the element's private configuration while they run."

"""C11: managers initialise / destroy their elements once each, in level order, stopping at the first error; groups initialise every
child; the elements whose initialisation succeeded count as initialised.

Ghost fields: calls(e) = phase callbacks invoked for e by the function under verification, okc(e) = the last one reported success.
`nested(x, e)` = x lies inside element e (assumed: an element of a manager / a child is not nested in its siblings)."""
from .base import *
from cgv.types import *
from cgv.interp import *

ME, EN, INI, LVL = "GElementManager.manager_elements_", "GElementManager.engine_", "GElement.is_init_", "GElement.level_"
EM = "CGraph::GElementManager::"
nested = z3.Function("nested", I, I, B)
KF = "GGroup.children_"


def rel(ex, a, b, st=None):
    la, lb = ex.rd(LVL, a, st), ex.rd(LVL, b, st)
    return Or(la < lb, And(la == lb, a < b))


class Phase(Contract):
    """the element's own init / destroy bracket (C06, C07): any result, any change inside the element, none to its siblings"""
    fn = "CGraph::GElement::fatProcessor"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        sp = ex.spec; k = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        if "kind" not in ex.st.ghost: raise Unsupported("fatProcessor outside a lifecycle function")
        ex.prove("the element is not null", this != 0)
        ex.prove("the element's phase is the one being executed", ex.num(k) == ex.st.ghost["kind"])
        for nm, fm in sp.allowed(ex, this): ex.prove(nm, fm)
        r = ex.fresh_value(STATUS, "phase")
        h0 = ex.st.copy(); cls, n, t = ex.find_field(INI); ex.havoc_key(cls, n, t)
        ex.assume(ForAll([a_], Or(a_ == this, nested(a_, this), ex.rd(INI, a_) == ex.rd(INI, a_, h0)), patterns=[ex.rd(INI, a_)]))
        if sp.init: ex.assume(Implies(And(r.code < 0, Not(ex.rd(INI, this, h0))), Not(ex.rd(INI, this))))
        else: ex.assume(Implies(And(r.code < 0, ex.rd(INI, this, h0)), ex.rd(INI, this)))
        ex.wr("ghost.calls", this, ex.rd("ghost.calls", this) + 1); ex.wr("ghost.okc", this, r.code >= 0)
        e0 = ex.st.ghost["err"]; ex.st.ghost["err"] = If(And(e0 >= 0, r.code < 0), r.code, e0); ex.note_write(("g", "err"))
        return r


class EngineSetup(Contract):
    """GEngine::setup of any engine: analyses the elements (C02, C03), does not initialise or register anything"""
    fn = "CGraph::GEngine::setup"; trusted = True; virtual_any = True
    modifies = (RB, DP, LD, "GElement.shape_", "GElement.done_")
    def effect(self, c):
        if "setup" in c.ex.st.ghost: c.ex.st.ghost["setup"] = c.ret.code; c.ex.note_write(("g", "setup"))


class InitEngine(Contract):
    """a fresh engine of the configured type, set up with exactly the manager's elements"""
    fn = EM + "initEngine"; may_throw = True; check_null = True
    modifies = ((EN, lambda c: [c.this]),) + EngineSetup.modifies
    frame_ignore = Contract.frame_ignore + tuple("CGraph::" + n for n in ("GEngine", "GDynamicEngine", "GStaticEngine", "GTopoEngine"))
    def setup(self, c): c.ex.st.ghost["setup"] = z3.IntVal(0)
    def ensures(self, c): return [("the result is that of the set-up", Implies(c.ex.st.ghost["setup"] < 0, c.ret.code < 0))]  if not getattr(c, "call", False) else []
    def effect(self, c):
        if "setup" in c.ex.st.ghost: c.ex.st.ghost["setup"] = z3.IntVal(-996) if c.threw else c.ret.code; c.ex.note_write(("g", "setup"))


class LifeC(Contract):
    init = True; check_null = True; may_throw = True
    frame_ignore = Contract.frame_ignore + ("CGraph::GEngine",)
    def seqval(self, ex, st=None): raise NotImplementedError
    def setup(self, c):
        ex = c.ex; ex.ghost_field("calls", INT); ex.ghost_field("okc", BOOL)
        ex.st.ghost["kind"] = z3.IntVal(ex.p.enums["CGraph::CFunctionType::" + ("INIT" if self.init else "DESTROY")]); ex.st.ghost["err"] = z3.IntVal(0); ex.st.ghost["setup"] = z3.IntVal(0)
        for n in ("calls", "okc"): ex.havoc_key("ghost", n, ex.ghost_ty[n])
        ex.assume(ForAll([a_], ex.rd("ghost.calls", a_) == 0)); ex.assume(ForAll([a_], Not(ex.rd("ghost.okc", a_))))
    def forest(self, c, mem):
        """siblings are not nested in one another, nor in themselves, nor is the container nested in them"""
        return [("siblings are not nested in one another", ForAll([a_, b_], Implies(And(mem(a_), mem(b_)), Not(nested(a_, b_))), patterns=[z3.MultiPattern(mem(a_), mem(b_)), nested(a_, b_)] if False else [nested(a_, b_)])),
                ("the group is not nested in its children", ForAll([a_], Implies(mem(a_), And(Not(nested(c.this, a_)), a_ != c.this)), patterns=[nested(c.this, a_)]))]
    def flags(self, c, e):
        """what is_init_ of a direct element must be afterwards"""
        ex = c.ex; ok = ex.rd("ghost.okc", e); was = ex.rd(INI, e, c.old_st)
        return ex.rd(INI, e) == (Or(was, ok) if self.init else And(was, Not(ok)))


class ManagerPhase(LifeC):
    def mem(self, c, st=None): return c.ex.rd(ME, c.this, st)
    def requires(self, c):
        if getattr(c, "call", False): return []
        m = self.mem(c); out = [("elements exist", ForAll([a_], Implies(m.m[a_], a_ > 0), patterns=[m.m[a_]]))] + self.forest(c, lambda x: m.m[x])[:1]
        # the state between phases: a failing nested initialisation leaves the flag as it was
        out.append(("a phase starts with no element initialised" if self.init else "a phase starts with every element initialised", ForAll([a_], Implies(m.m[a_], Not(c(INI, a_)) if self.init else c(INI, a_)), patterns=[m.m[a_]])))
        if not self.init: out.append(("the elements are kept in level order while initialised (init establishes it, levels are frozen: C12)", self.sorted(c.ex, m)))
        return out
    def sorted(self, ex, v):
        h = ex.st.copy() if False else None
        return ForAll([i_, j_], Implies(And(v.lo <= i_, i_ < j_, j_ < v.hi), rel(ex, v.d[i_], v.d[j_])), patterns=[z3.MultiPattern(v.d[i_], v.d[j_])])
    def allowed(self, ex, e):
        c = self.c; m = self.mem(c); old = self.mem(c, c.old_st); d = ex.rd("ghost.calls", a_)
        return [("only registered elements", old.m[e]), ("each element once", ex.rd("ghost.calls", e) == 0), ("nothing after the first error", ex.st.ghost["err"] >= 0),
                ("every element of a smaller level comes first", ForAll([a_], Implies(And(old.m[a_], ex.rd(LVL, a_) < ex.rd(LVL, e)), d == 1), patterns=[old.m[a_]]))]
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; old = self.mem(c, c.old_st); now = self.mem(c); d = ex.rd("ghost.calls", a_); err = ex.st.ghost["err"]
        out = [("an element's error is the result", Implies(err < 0, c.ret.code == err)),
               ("success means every element was called", Implies(c.ret.code >= 0, And(err >= 0, ForAll([a_], Implies(old.m[a_], d == 1), patterns=[old.m[a_]])))),
               ("exactly the elements whose callback succeeded change their flag", ForAll([a_], Implies(old.m[a_], self.flags(c, a_)), patterns=[old.m[a_]])),
               ("no registered element is lost", ForAll([a_], now.m[a_] == old.m[a_], patterns=[now.m[a_]]))]
        if self.init: out.append(("on success the elements are kept in level order", Implies(c.ret.code >= 0, self.sorted(ex, now))))
        return out
    def on_throw(self, c):
        """a crash is passed on as an exception"""
        ex = c.ex; old = self.mem(c, c.old_st)
        return [("only a crashed element makes it throw", Or(ex.st.ghost["err"] == -996, ex.st.ghost["setup"] == -996)), ("exactly the elements whose callback succeeded change their flag", ForAll([a_], Implies(old.m[a_], self.flags(c, a_)), patterns=[old.m[a_]]))]
    def covers(self, c): return [] if c.threw else [("several elements", And(c.ret.code >= 0, self.mem(c).hi >= 2)), ("stopped", c.ex.st.ghost["err"] < 0)]
    def loop_invs(self, L):
        ex = L.ex; c = self.c
        if L.rng is None: return []
        C = lambda: ex.rd("ghost.calls", a_)
        def vis(L): s = L.seq; return And(s.m[a_], s.pos[a_] < L.k)
        def done(L): s = L.seq; return ForAll([a_], C() == If(vis(L), 1, 0), patterns=[C()])
        def done2(L): s = L.seq; return ForAll([a_], Implies(s.m[a_], C() == If(vis(L), 1, 0)), patterns=[s.m[a_]])
        def flag(L): s = L.seq; return ForAll([a_], Implies(s.m[a_], self.flags(c, a_)), patterns=[s.m[a_]])
        def okc(L): return ForAll([a_], Implies(ex.rd("ghost.okc", a_), C() == 1), patterns=[ex.rd("ghost.okc", a_)])
        def none(L): return ForAll([a_], And(C() == 0, Not(ex.rd("ghost.okc", a_))), patterns=[C()])
        def err(L): return ex.st.ghost["err"] >= 0
        def nn(L): s = L.seq; return ForAll([i_], Implies(And(s.lo <= i_, i_ < L.k), s.d[i_] != 0), patterns=[s.d[i_]])
        return [("visited elements were called once", done2), ("only visited elements were called", done), ("nothing called yet", none), ("flags follow the results", flag), ("results belong to calls", okc), ("no error so far", err), ("not null", nn)]


class MInit(ManagerPhase):
    fn = EM + "init"
    modifies = ((ME, lambda c: [c.this]), (EN, lambda c: [c.this]), INI, "ghost.calls", "ghost.okc", RB, DP, LD, "GElement.shape_", "GElement.done_")
class MDestroy(ManagerPhase):
    fn = EM + "destroy"; init = False
    modifies = ((EN, lambda c: [c.this]), INI, "ghost.calls", "ghost.okc")
class Sorter(Contract):
    fn = "CGraph::GElementSorter::operator()"; modifies = ()
    def ensures(self, c): return [("orders by level, equal levels by identity", c.ret == rel(c.ex, c.a(0), c.a(1)))]
    def covers(self, c): return [("equal levels", And(c.ret, c.o(LVL, c.a(0)) == c.o(LVL, c.a(1))))]
class MAdd(Contract):
    fn = EM + "add"; modifies = ((ME, lambda c: [c.this]),)
    def ensures(self, c):
        m0, m1 = c.o(ME), c(ME); e = c.a(0)
        return [("a null element is refused", Implies(e == 0, And(c.ret.code < 0, ForAll([a_], m1.m[a_] == m0.m[a_], patterns=[m1.m[a_]])))),
                ("the element is registered, nothing else changes", Implies(e != 0, And(c.ret.code == 0, ForAll([a_], m1.m[a_] == Or(m0.m[a_], a_ == e), patterns=[m1.m[a_]]))))]


class GroupPhase(LifeC):
    """cluster, condition, some, mutable: every child, in order, errors accumulate"""
    def kids(self, c, st=None): return c.ex.rd(KF, c.this, st)
    def requires(self, c):
        if getattr(c, "call", False): return []
        k = self.kids(c); inn = lambda x: Exists([i_], And(k.lo <= i_, i_ < k.hi, k.d[i_] == x))
        return [("children are distinct", ForAll([i_, j_], Implies(And(k.lo <= i_, i_ < j_, j_ < k.hi), k.d[i_] != k.d[j_]), patterns=[z3.MultiPattern(k.d[i_], k.d[j_])])),
                ("children exist", ForAll([i_], Implies(And(k.lo <= i_, i_ < k.hi), k.d[i_] > 0), patterns=[k.d[i_]])),
                ("siblings are not nested in one another", ForAll([i_, j_], Implies(And(k.lo <= i_, i_ < k.hi, k.lo <= j_, j_ < k.hi), Not(nested(k.d[i_], k.d[j_]))), patterns=[z3.MultiPattern(k.d[i_], k.d[j_])])),
                ("the group is not nested in its children", ForAll([i_], Implies(And(k.lo <= i_, i_ < k.hi), And(Not(nested(c.this, k.d[i_])), k.d[i_] != c.this)), patterns=[k.d[i_]])),
                ("a phase starts with no child initialised" if self.init else "a phase starts with every child initialised", ForAll([i_], Implies(And(k.lo <= i_, i_ < k.hi), Not(c(INI, k.d[i_])) if self.init else c(INI, k.d[i_])), patterns=[k.d[i_]]))]
    def allowed(self, ex, e): return [("each child once", ex.rd("ghost.calls", e) == 0)]
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; k = self.kids(c, c.old_st); k1 = self.kids(c); err = ex.st.ghost["err"]
        rng = And(k.lo <= i_, i_ < k.hi)
        return [("every child is called once", ForAll([i_], Implies(rng, ex.rd("ghost.calls", k.d[i_]) == 1), patterns=[k.d[i_]])),
                ("the first error is the result", And(Implies(err < 0, c.ret.code == err), Implies(err >= 0, c.ret.code >= 0))),
                ("exactly the children whose callback succeeded change their flag", ForAll([i_], Implies(rng, self.flags(c, k.d[i_])), patterns=[k.d[i_]])),
                ("the group's own flag changes exactly on success", ex.rd(INI, c.this) == If(c.ret.code >= 0, z3.BoolVal(self.init), c.o(INI)))]
    def on_throw(self, c):
        ex = c.ex; k = self.kids(c, c.old_st)
        return [("only a crashed child makes it throw", ex.st.ghost["err"] == -996), ("the group does not change its own flag", ex.rd(INI, c.this) == c.o(INI)),
                ("exactly the children whose callback succeeded change their flag", ForAll([i_], Implies(And(k.lo <= i_, i_ < k.hi), self.flags(c, k.d[i_])), patterns=[k.d[i_]]))]
    def covers(self, c): return [] if c.threw else [("several children", And(c.ret.code >= 0, self.kids(c).hi >= 2)), ("an error", c.ret.code < 0)]
    def loop_invs(self, L):
        ex = L.ex; c = self.c
        if L.rng is None: return []
        C = lambda x: ex.rd("ghost.calls", x)
        R = lambda s: And(s.lo <= i_, i_ < s.hi)
        def done(L): s = L.seq; return ForAll([i_], Implies(R(s), C(s.d[i_]) == If(i_ < L.k, 1, 0)), patterns=[s.d[i_]])
        def flag(L): s = L.seq; return ForAll([i_], Implies(R(s), self.flags(c, s.d[i_])), patterns=[s.d[i_]])
        def okc(L): s = L.seq; return ForAll([i_], Implies(And(R(s), i_ >= L.k), Not(ex.rd("ghost.okc", s.d[i_]))), patterns=[s.d[i_]])
        out = [("visited children were called once", done), ("flags follow the results", flag), ("no result yet for the rest", okc), ("own flag", lambda L: ex.rd(INI, c.this) == c.o(INI))]
        for k, t in L.locals(lambda t, n: t.k == "status"):
            out.append(("local status = first error", lambda L, k=k: And(Implies(ex.st.ghost["err"] < 0, L.value(k).code == ex.st.ghost["err"]), Implies(ex.st.ghost["err"] >= 0, L.value(k).code >= 0))))
        return out
class GInit(GroupPhase): fn = "CGraph::GGroup::init"; modifies = (INI, "ghost.calls", "ghost.okc")
class GDestroy(GroupPhase): fn = "CGraph::GGroup::destroy"; init = False; modifies = (INI, "ghost.calls", "ghost.okc")


class MCall(Contract):
    """the manager's phase as seen by its region (proved above): flags of the manager's elements and of everything nested in them"""
    trusted = True
    def apply(self, ex, f, this, vals, objty):
        ex.prove("the region's own manager", this == ex.rd("GRegion.manager_", ex.spec.c.this))
        n = ex.st.ghost["ncalls"]; ex.prove("the manager's phase runs once", n == 0); ex.st.ghost["ncalls"] = z3.IntVal(1)
        r = ex.fresh_value(STATUS, "mgr"); h0 = ex.st.copy(); cls, nn, t = ex.find_field(INI); ex.havoc_key(cls, nn, t)
        ex.assume(ex.rd(INI, ex.spec.c.this) == ex.rd(INI, ex.spec.c.this, h0))
        ex.st.ghost["mgr"] = r.code
        return r
class Region(Contract):
    check_null = True; modifies = (INI,); may_throw = True
    def on_throw(self, c): return [("only a crash makes it throw", c.ex.st.ghost["mgr"] == -996), ("the region's flag is unchanged", c(INI) == c.o(INI))]
    def setup(self, c): c.ex.st.ghost["ncalls"] = z3.IntVal(0); c.ex.st.ghost["mgr"] = z3.IntVal(0); c.ex.assume(c("GRegion.manager_") > 0)
    def ensures(self, c):
        return [("the manager's result is the result", And(c.ex.st.ghost["ncalls"] == 1, Implies(c.ex.st.ghost["mgr"] < 0, c.ret.code == c.ex.st.ghost["mgr"]), Implies(c.ex.st.ghost["mgr"] >= 0, c.ret.code >= 0))),
                ("the region counts as initialised exactly on success", c(INI) == If(c.ret.code >= 0, z3.BoolVal(self.init), c.o(INI)))]
class RInit(Region): fn = "CGraph::GRegion::init"; init = True; registry = [MCall(fn=EM + "init")]
class RDestroy(Region): fn = "CGraph::GRegion::destroy"; init = False; registry = [MCall(fn=EM + "destroy")]

CONTRACTS = [Phase(), EngineSetup(), InitEngine(), MInit(), MDestroy(), Sorter(inline_only=True), MAdd(), GInit(), GDestroy(), RInit(inline_only=True), RDestroy(inline_only=True)]
VERIFY = [c for c in CONTRACTS if not c.trusted]
DRIVERS = ["c11"]
DRIVER_SECONDS = 8
NOTE = "GElementManager::init / destroy / add, the level comparator, GGroup::init / destroy and GRegion::init / destroy are proved for every element set, level assignment and result; assumed: the std::set guarantee (iteration follows the proved comparator once built with frozen levels), element trees are forests, engine set-up touches no initialisation flag."

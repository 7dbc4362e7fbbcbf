"""C10: dependency edges (GElement::addDependGElements, removeDepend, operator>, addElementInfo)."""
from .base import *

MODS = (RB, (DP, lambda c: [c.this]), (LD, lambda c: [c.this]))


class Edge(Contract):
    check_null = True
    nofree = False
    def inv(self, c, st=None): return EDGES(c.ex, st) + [("pending-predecessor count equals the number of predecessors", pending(c.ex, st))]
    def requires(self, c): return self.inv(c) + self.pre(c)
    def pre(self, c): return []
    def ensures(self, c): return self.inv(c) + self.post(c)
    def post(self, c): return []


class AddDepends(Edge):
    fn = "CGraph::GElement::addDependGElements"
    modifies = MODS
    def post(self, c):
        E = c.a(0); d0, d1 = c.o(DP), c(DP)
        ok = c.ret.code >= 0
        return [("an accepted request adds exactly the requested predecessors (except itself)", Implies(ok, ForAll([a_], d1.m[a_] == Or(d0.m[a_], And(E.m[a_], a_ != c.this)), patterns=[d1.m[a_]]))),
                ("a request naming a foreign or null element is refused", Implies(ok, ForAll([a_], Implies(E.m[a_], And(a_ != 0, c(BL, a_) == c(BL))), patterns=[E.m[a_]]))),
                ("a refused request adds nothing but requested predecessors", ForAll([a_], Implies(d1.m[a_], Or(d0.m[a_], E.m[a_])), patterns=[d1.m[a_]])),
                ("no predecessor is lost", ForAll([a_], Implies(d0.m[a_], d1.m[a_]), patterns=[d0.m[a_]]))]
    def covers(self, c): return [("accepted", c.ret.code == 0), ("refused", c.ret.code < 0)]
    def loop_invs(self, L):
        ex = L.ex; this = ex.frame().this
        out = [(n, lambda L, n=n: dict(EDGES(L.ex))[n]) for n, _ in EDGES(ex)]
        if L.rng is None: return out
        def members(L):
            s = L.seq; d1 = ex.rd(DP, this); d0 = ex.rd(DP, this, L.entry)
            return ForAll([a_], d1.m[a_] == Or(d0.m[a_], And(s.m[a_], s.pos[a_] < L.k, a_ != this)), patterns=[d1.m[a_]])
        out.append(("predecessors = old ones plus the visited ones", members))
        def same(L):
            s = L.seq
            return ForAll([a_], Implies(And(s.m[a_], s.pos[a_] < L.k), And(a_ != 0, ex.rd(BL, a_) == ex.rd(BL, this))), patterns=[s.m[a_]])
        out.append(("visited elements have the same owner", same))
        def pend(L):
            ld = ex.rd(LD, a_); d = ex.rd(DP, a_)
            return ForAll([a_], Implies(a_ != this, ld == d.hi), patterns=[ld])
        out.append(("pending counts of the others", pend))
        return out


class RemoveDepend(Edge):
    fn = "CGraph::GElement::removeDepend"
    modifies = MODS
    def post(self, c):
        e = c.a(0); d0, d1 = c.o(DP), c(DP); ok = c.ret.code >= 0
        return [("an accepted removal removes exactly that predecessor", Implies(ok, And(d0.m[e], ForAll([a_], d1.m[a_] == And(d0.m[a_], a_ != e), patterns=[d1.m[a_]])))),
                ("a refused removal changes nothing", Implies(Not(ok), ForAll([a_], d1.m[a_] == d0.m[a_], patterns=[d1.m[a_]])))]
    def covers(self, c): return [("accepted", c.ret.code == 0), ("refused", c.ret.code < 0)]


class Arrow(Edge):
    """operator>: returns normally only when the edge was added"""
    fn = "CGraph::GElement::operator>"
    may_throw = True
    modifies = (RB, (DP, lambda c: [c.a(0)]), (LD, lambda c: [c.a(0)]), "GElement.visible_")
    def post(self, c):
        e = c.a(0); d0, d1 = c.o(DP, e), c(DP, e)
        return [("the target depends on the receiver", ForAll([a_], d1.m[a_] == Or(d0.m[a_], And(a_ == c.this, a_ != e)), patterns=[d1.m[a_]]))]
    def on_throw(self, c): return self.inv(c)


class AddElementInfo(Edge):
    fn = "CGraph::GElement::addElementInfo"
    may_throw = True
    modifies = MODS + (("GElement.loop_", lambda c: [c.this]), ("CDescInfo.name_", lambda c: [c.this]))
    def on_throw(self, c): return self.inv(c)


class Refresh(Contract):
    """per-run reset: the pending count is restored to the number of predecessors"""
    fn = "CGraph::GElement::refresh"
    modifies = ((LD, lambda c: [c.this]), ("GElement.done_", lambda c: [c.this]))
    def ensures(self, c): return [("pending count restored", c(LD) == c(DP).hi), ("not done", Not(c("GElement.done_")))]


CONTRACTS = [AddDepends(), RemoveDepend(), Arrow(), AddElementInfo(), Refresh()]
VERIFY = CONTRACTS
DRIVERS = ["c10"]
DRIVER_SECONDS = 10
NOTE = "Every function that adds or removes dependency edges is proved to preserve mirroring, irreflexivity, common owner and the pending count for any graph; trusted: set semantics of USmallVector (proved in C27) and std::set."

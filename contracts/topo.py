"""Analysis of the dependency graph at set-up: getTopo, isDag, calcShape, mark, analysisDagType, static waves.

Ghost state: consumed(e) = predecessors whose edge into e was walked; fin(e) = the outgoing edges of e are being or were walked;
rank(e) = position in that order.  A graph is acyclic iff it has a rank with every predecessor ranked lower; an unordered rest in which
every element has a predecessor of the same rest contains a cycle (finite descent)."""
from .engine import *

E_ = z3.Int("qx")


def elements_of(L_or_c): pass


class Ana(Contract):
    raw = ("useq",); modifies = (LD, "ghost.consumed", "ghost.fin", "ghost.rank"); loop_ms = 500; timeout = 300; argi = 0
    check_null = True
    def E(self, ex): return self.c.args[self.argi]
    def requires(self, c):
        if not getattr(c, "call", False): return []
        return self.graph(c.ex, c.args[self.argi])
    def graph(self, ex, E, st=None):
        return EDGES(ex, st) + [("the edges of the elements stay among them", And(ForAll([s_, p_], Implies(And(E.m[s_], ex.rd(DP, s_, st).m[p_]), E.m[p_]), patterns=[z3.MultiPattern(E.m[s_], ex.rd(DP, s_, st).m[p_])]),
                                                                     ForAll([s_, p_], Implies(And(E.m[p_], ex.rd(RB, p_, st).m[s_]), E.m[s_]), patterns=[z3.MultiPattern(E.m[p_], ex.rd(RB, p_, st).m[s_])]))),
                            ("no null element", Not(E.m[0]))]
    def setup(self, c):
        ex = c.ex; g = ex.st.ghost
        ghosts(ex); ex.ghost_field("fin", BOOL); ex.ghost_field("rank", INT)
        g["me"] = z3.IntVal(0); g["perm"] = z3.Const("perm0", AI); g["cnt"] = z3.IntVal(0)
        for n, f in self.given(c): ex.assume(f)
    def given(self, c):
        ex = c.ex; E = self.E(ex)
        return self.graph(ex, E) + [
                            ("nothing walked yet", And(ForAll([s_], Not(ex.rd("ghost.fin", s_)), patterns=[ex.rd("ghost.fin", s_)]), ForAll([s_, p_], Not(ex.rd("ghost.consumed", s_).m[p_]), patterns=[ex.rd("ghost.consumed", s_).m[p_]]),
                                                       ForAll([s_], ex.rd("ghost.consumed", s_).hi == 0, patterns=[ex.rd("ghost.consumed", s_).hi]))),
                            ("no edge is being walked", ForAll([s_], Not(z3.Const("perm0", AI)[s_]), patterns=[z3.Const("perm0", AI)[s_]])),
                            ("finite sets", And(*CARD(ex)))]
    def walk(self, ex, e):
        """the outgoing edges of e are about to be walked"""
        g = ex.st.ghost
        ex.prove("the edges of an element are walked once", Not(ex.rd("ghost.fin", e)))
        ex.prove("all edges of the previous element were walked", ForAll([s_], Not(g["perm"][s_])))
        ex.prove("an element is ordered only after all its predecessors", ForAll([p_], Implies(ex.rd(DP, e).m[p_], ex.rd("ghost.fin", p_))))
        ex.wr("ghost.fin", e, z3.BoolVal(True)); ex.wr("ghost.rank", e, g["cnt"])
        g["cnt"] = z3.simplify(g["cnt"] + 1); g["me"] = e
        p = ex.fresh("perm", AI); su = ex.rd(RB, e); ex.assume(ForAll([s_], p[s_] == su.m[s_], patterns=[p[s_], su.m[s_]])); g["perm"] = p
        for k in ("cnt", "me", "perm"): ex.note_write(("g", k))
    def on_loop_entry(self, ex, node, rng):
        if rng is None: return
        lv = rng[1]
        if isinstance(lv, LField) and lv.name == "run_before_": self.walk(ex, lv.ref)
    def after_atomic(self, ex, lv, op, old, new):
        if getattr(lv, "name", "") == "left_depend_" and op in ("--", "fetch_sub"):
            g = ex.st.ghost; s = lv.ref; me = g["me"]
            ex.prove("only walked edges are counted", And(g["perm"][s], ex.rd(DP, s).m[me])); ex.prove("one edge per decrement", new == old - 1)
            co = ex.rd("ghost.consumed", s); ex.prove("an edge is counted once", Not(co.m[me]))
            n = ex.fresh("co.m", AI); ex.assume(n == z3.Store(co.m, me, z3.BoolVal(True)))
            ex.wr("ghost.consumed", s, CV(Ty("pqueue", [EP]), {".m": n, ".hi": co.hi + 1}))
            for f in CARD(ex): ex.assume(f)
            settok(ex, s, z3.BoolVal(False), "perm")
    def base_invs(self, L):
        ex = L.ex
        def co(): return ex.rd("ghost.consumed", s_)
        def fin(x): return ex.rd("ghost.fin", x)
        def edges(L):
            g = ex.st.ghost; d = ex.rd(DP, s_).m; c = co().m
            return ForAll([s_, p_], c[p_] == And(d[p_], fin(p_), Not(And(p_ == g["me"], g["perm"][s_]))), patterns=[c[p_]])
        def ranks(L):
            d = ex.rd(DP, s_).m; return ForAll([s_, p_], Implies(And(d[p_], fin(s_)), And(fin(p_), ex.rd("ghost.rank", p_) < ex.rd("ghost.rank", s_))), patterns=[z3.MultiPattern(d[p_], fin(s_))])
        def below(L): return ForAll([s_], Implies(fin(s_), ex.rd("ghost.rank", s_) < ex.st.ghost["cnt"]), patterns=[fin(s_)])
        def count(L):
            E = self.E(ex); ld = ex.rd(LD, s_); return ForAll([s_], Implies(E.m[s_], ld == ex.rd(DP, s_).hi - co().hi), patterns=[ld])
        def noperm(L): return ForAll([s_], Not(ex.st.ghost["perm"][s_]), patterns=[ex.st.ghost["perm"][s_]])
        def inE(L): return ForAll([s_], Implies(fin(s_), self.E(ex).m[s_]), patterns=[fin(s_)])
        out = [("walked edges", edges), ("order respects the edges", ranks), ("ranks below the counter", below), ("pending counts", count), ("no edge is being walked", noperm), ("ordered elements are elements", inE), ("finite sets", lambda L: And(*CARD(ex)))]
        g = ex.st.ghost
        if L.rng is not None and isinstance(L.rng[1], LField) and L.rng[1].name == "run_before_":
            def left(L): s = L.seq; return ForAll([s_], ex.st.ghost["perm"][s_] == And(s.m[s_], s.pos[s_] >= L.k), patterns=[ex.st.ghost["perm"][s_], s.m[s_]])
            out += [("edges still to walk", left), ("the walked element", lambda L, me=L.rng[1].ref: And(ex.st.ghost["me"] == me, fin(me)))]
        return out
    def seqs(self, L): return [(k, t) for k, t in L.locals(lambda t, n: t.k == "useq")]
    def loop_invs(self, L):
        ex = L.ex; out = self.base_invs(L)
        def fin(x): return ex.rd("ghost.fin", x)
        q = self.seqs(L)
        E = self.E(ex)
        def full(x): return ex.rd("ghost.consumed", x).hi == ex.rd(DP, x).hi
        for k, t in q:
            def v(L, k=k): return L.value(k)
            out.append(("the sequence holds exactly the ordered elements", lambda L, v=v: ForAll([s_], v(L).m[s_] == fin(s_), patterns=[v(L).m[s_], fin(s_)])))
            out.append(("the sequence holds exactly the free elements", lambda L, v=v: ForAll([s_], v(L).m[s_] == And(E.m[s_], full(s_), Not(fin(s_))), patterns=[v(L).m[s_], fin(s_)])))
            out.append(("the sequence holds only elements", lambda L, v=v: ForAll([s_], Implies(v(L).m[s_], E.m[s_]), patterns=[v(L).m[s_]])))
            out.append(("the sequence holds positions of the order", lambda L, v=v: ForAll([s_, p_], Implies(And(v(L).m[s_], ex.rd(DP, s_).m[p_]), And(v(L).m[p_], v(L).pos[p_] < v(L).pos[s_])), patterns=[z3.MultiPattern(v(L).m[s_], ex.rd(DP, s_).m[p_])])))
            out.append(("the sequence is empty", lambda L, v=v: v(L).hi == v(L).lo))
            if L.rng is not None and L.rng[1].ty.k == "set":
                out.append(("visited elements without predecessors", lambda L, v=v: ForAll([s_], v(L).m[s_] == And(L.seq.m[s_], L.seq.pos[s_] < L.k, ex.rd(DP, s_).hi == 0), patterns=[v(L).m[s_], L.seq.m[s_]])))
        if L.rng is not None and L.rng[1].ty.k == "set":
            ld = lambda: ex.rd(LD, s_)
            out.append(("visited elements count all predecessors", lambda L: ForAll([s_], Implies(And(L.seq.m[s_], L.seq.pos[s_] < L.k), ld() == ex.rd(DP, s_).hi), patterns=[L.seq.m[s_]])))
        return out


class GetTopo(Ana):
    fn = "CGraph::GEngine::getTopo"
    def effect(self, c): c.ex.st.ghost["topo"] = c.ret
    def ensures(self, c):
        ex = c.ex; E = self.E(ex) if not getattr(c, "call", False) else c.args[0]; R = c.ret; ld = ex.rd(LD, s_); miss = ex.fresh("miss", z3.ArraySort(I, I))
        same = [Implies(And(ForAll([s_], Implies(R.m[s_], E.m[s_])), R.hi - R.lo == E.hi - E.lo), ForAll([s_], Implies(E.m[s_], R.m[s_]), patterns=[E.m[s_]])),
                Implies(ForAll([s_], R.m[s_] == E.m[s_]), R.hi - R.lo == E.hi - E.lo)] + [ForAll([s_], Implies(ex.rd("ghost.consumed", s_).hi < ex.rd(DP, s_).hi, And(ex.rd(DP, s_).m[miss[s_]], Not(ex.rd("ghost.consumed", s_).m[miss[s_]]))), patterns=[E.m[s_]])]
        if not getattr(c, "call", False):
            for f in same: ex.assume(f)           # finite-set lemmas
        else: ex.assume(And(*same[:2]))
        if getattr(c, "call", False):
            w, ms = ex.fresh("w", I), ex.fresh("miss", z3.ArraySort(I, I)); ex.st.ghost["w"] = w; ex.st.ghost["miss"] = ms
            left_out = ("left out", ForAll([s_], Implies(And(E.m[s_], Not(R.m[s_])), And(ex.rd(DP, s_).m[ms[s_]], E.m[ms[s_]], Not(R.m[ms[s_]]))), patterns=[E.m[s_]]))
            complete = ("complete", And(Implies(R.hi - R.lo == E.hi - E.lo, ForAll([s_], Implies(E.m[s_], R.m[s_]), patterns=[E.m[s_]])), Implies(R.hi - R.lo != E.hi - E.lo, And(E.m[w], Not(R.m[w])))))
        else:
            left_out = ("what is left out has a predecessor that is left out", ForAll([s_], Implies(And(E.m[s_], Not(R.m[s_])), z3.Exists([p_], And(ex.rd(DP, s_).m[p_], E.m[p_], Not(R.m[p_])))), patterns=[E.m[s_]]))
            complete = ("a complete order is reported exactly when every element is in it", (R.hi - R.lo == E.hi - E.lo) == ForAll([s_], Implies(E.m[s_], R.m[s_]), patterns=[E.m[s_]]))
        return [("the result holds only elements, each once", ForAll([s_], Implies(R.m[s_], E.m[s_]))),
                ("predecessors come first", ForAll([s_, p_], Implies(And(R.m[s_], ex.rd(DP, s_).m[p_]), And(R.m[p_], R.pos[p_] < R.pos[s_])), patterns=[z3.MultiPattern(R.m[s_], ex.rd(DP, s_).m[p_])])),
                left_out, complete,
                ("the order is a rank", ForAll([s_, p_], Implies(And(R.m[s_], ex.rd(DP, s_).m[p_]), ex.rd("ghost.rank", p_) < ex.rd("ghost.rank", s_)), patterns=[z3.MultiPattern(R.m[s_], ex.rd(DP, s_).m[p_])])),
                ("pending counts are restored", ForAll([s_], Implies(E.m[s_], ld == ex.rd(DP, s_).hi), patterns=[ld]))]


def acyclic(ex, E, st=None):
    d = ex.rd(DP, s_, st)
    return ForAll([s_, p_], Implies(And(E.m[s_], d.m[p_]), ex.rd("ghost.rank", p_, st) < ex.rd("ghost.rank", s_, st)), patterns=[z3.MultiPattern(E.m[s_], d.m[p_])])
def stuck(ex, E, U, w, ms):
    """a non-empty set of elements, each with a predecessor in the set: a cycle"""
    return And(U[w], ForAll([s_], Implies(U[s_], And(E.m[s_], ex.rd(DP, s_).m[ms[s_]], U[ms[s_]])), patterns=[U[s_]]))


class IsDag(Ana):
    fn = "CGraph::GEngine::isDag"
    def ensures(self, c):
        ex = c.ex; E = self.E(ex) if not getattr(c, "call", False) else c.args[0]
        U = ex.fresh("U", AI)
        if getattr(c, "call", False): ex.st.ghost["w"], ex.st.ghost["miss"] = ex.fresh("w", I), ex.fresh("miss", z3.ArraySort(I, I))
        ex.st.ghost["U"] = U; w, ms = ex.st.ghost["w"], ex.st.ghost["miss"]
        out = [("an accepted graph is acyclic", Implies(c.ret, acyclic(ex, E))), ("pending counts are restored", ForAll([s_], Implies(E.m[s_], ex.rd(LD, s_) == ex.rd(DP, s_).hi), patterns=[ex.rd(LD, s_)]))]
        if getattr(c, "call", False): out.append(("stuck", Implies(Not(c.ret), stuck(ex, E, U, w, ms))))
        else:
            R = ex.st.ghost["topo"]; ex.assume(ForAll([s_], U[s_] == And(E.m[s_], Not(R.m[s_])), patterns=[U[s_]]))
            out.append(("a refused graph has a cycle", Implies(Not(c.ret), stuck(ex, E, U, w, ms))))
        return out


LS, SHF, BI = "GEngine.linked_size_", "GElement.shape_", "GElement.binding_index_"
k_ = z3.Int("qk")
def shape_of(ex, n): return z3.IntVal(ex.p.enums["CGraph::internal::GElementShape::" + n])
def islink(ex, e, st=None):
    su = ex.rd(RB, e, st); s = su.d[0]
    return And(su.hi == 1, ex.rd(DP, s, st).hi == 1, ex.rd(BI, e, st) == ex.rd(BI, s, st))
def count(ex, name, E, pred):
    """prefix counts of a predicate over the element sequence, defined by recursion"""
    n = z3.Const("cnt:" + name, z3.ArraySort(I, I))
    ex.assume(n[0] == 0)
    ex.assume(ForAll([k_], Implies(And(k_ >= 0, k_ < E.hi), n[k_ + 1] == n[k_] + If(pred(E.d[k_]), 1, 0)), patterns=[E.d[k_]]))
    return n
def counting(ex, n, E, pred, w):
    """lemmas on finite counting (by induction on the prefix length), assumed"""
    h = E.hi
    return And(n[h] >= 0, n[h] <= h, Implies(n[h] == h, ForAll([s_], Implies(E.m[s_], pred(s_)), patterns=[E.m[s_]])),
               Implies(ForAll([s_], Implies(E.m[s_], pred(s_))), n[h] == h),
               Implies(n[h] == h - 1, And(E.m[w], Not(pred(w)), ForAll([s_], Implies(And(E.m[s_], s_ != w), pred(s_)), patterns=[E.m[s_]]))))


class Quiet(Ana):
    """set-up functions that do not touch the pending counts"""
    modifies = (); loop_ms = 300
    def given(self, c): return self.graph(c.ex, self.E(c.ex)) + [("sizes", And(self.E(c.ex).lo == 0, self.E(c.ex).hi >= 0, self.E(c.ex).hi < 2**63))]
    def walk(self, ex, e): pass
    def eng(self, c): return c.this


class CalcShape(Quiet):
    fn = "CGraph::GEngine::calcShape"; modifies = (SHF, (LS, lambda c: [c.this]))
    def facts(self, ex, e, st=None):
        sh = ex.rd(SHF, e, st); su = ex.rd(RB, e, st); S = lambda n: shape_of(ex, n)
        return [("linkable elements have one successor, which has one predecessor and the same binding", (sh == S("LINKABLE")) == islink(ex, e, st)),
                ("successors of a root element have one predecessor", ForAll([s_], Implies(And(sh == S("ROOT"), su.m[s_]), ex.rd(DP, s_, st).hi == 1), patterns=[su.m[s_]])),
                ("exactly the elements without successors are tails", (sh == S("TAIL")) == (su.hi == 0)),
                ("the shape is one of four", Or(*[sh == S(n) for n in SHAPE]))]
    def n(self, ex): return count(ex, "link", self.E(ex), lambda e: islink(ex, e, self.c.old_st))
    def ensures(self, c):
        ex = c.ex; E = c.args[0]; n = z3.Const("cnt:link", z3.ArraySort(I, I)) if not getattr(c, "call", False) else count(ex, "link", E, lambda e: islink(ex, e))
        return [(nm, ForAll([e_], Implies(E.m[e_], f), patterns=[E.m[e_]])) for nm, f in self.facts(ex, e_)] + [("the linkable elements are counted", c(LS) == n[E.hi]),
                ("shapes of other elements are unchanged", ForAll([s_], Implies(Not(E.m[s_]), c(SHF, s_) == c.o(SHF, s_)), patterns=[c(SHF, s_)]))]
    def prologue(self, c): self.n(c.ex)
    def loop_invs(self, L):
        ex = L.ex
        if L.rng is None or L.rng[1].ty.k != "set": return []
        out = [(nm, lambda L, i=i: ForAll([e_], Implies(And(L.seq.m[e_], L.seq.pos[e_] < L.k), self.facts(ex, e_)[i][1]), patterns=[L.seq.m[e_]])) for i, (nm, _) in enumerate(self.facts(ex, e_))]
        n = z3.Const("cnt:link", z3.ArraySort(I, I))
        return out + [("linkable elements so far", lambda L: ex.rd(LS, self.c.this) == n[L.k]), ("prefix counts", lambda L: And(n[L.k] <= L.k, n[L.k] >= 0))]


TAF, FRF, TEF = "GDynamicEngine.total_element_arr_", "GDynamicEngine.front_element_arr_", "GDynamicEngine.total_end_size_"
def marked(ex, E, en, st=None):
    T, F = ex.rd(TAF, en, st), ex.rd(FRF, en, st); n = z3.Const("cnt:tail", z3.ArraySort(I, I))
    return [("the engine holds every element, in order", And(T.lo == 0, T.hi == E.hi, ForAll([s_], T.m[s_] == E.m[s_], patterns=[T.m[s_], E.m[s_]]), ForAll([k_], Implies(And(k_ >= 0, k_ < E.hi), T.d[k_] == E.d[k_]), patterns=[T.d[k_]]))),
            ("the front elements are exactly those without predecessors", And(F.lo == 0, ForAll([s_], F.m[s_] == And(E.m[s_], ex.rd(DP, s_, st).hi == 0), patterns=[F.m[s_], E.m[s_]]))),
            ("the elements without successors are counted", ex.rd(TEF, en, st) == n[E.hi])]


class Mark(Quiet):
    fn = "CGraph::GDynamicEngine::mark"; modifies = tuple((f, lambda c: [c.this]) for f in (TAF, FRF, TEF))
    def cnt(self, ex, E): return count(ex, "tail", E, lambda e: ex.rd(RB, e).hi == 0)
    def prologue(self, c): self.cnt(c.ex, c.args[0])
    def ensures(self, c):
        if getattr(c, "call", False): self.cnt(c.ex, c.args[0])
        return marked(c.ex, c.args[0], c.this)
    def loop_invs(self, L):
        ex = L.ex; t = self.c.this
        if L.rng is None or L.rng[1].ty.k != "set": return []
        T = lambda: ex.rd(TAF, t)
        F = lambda: ex.rd(FRF, t)
        vis = lambda L, e: And(L.seq.m[e], L.seq.pos[e] < L.k)
        n = z3.Const("cnt:tail", z3.ArraySort(I, I))
        return [("all visited elements are held", lambda L: And(T().lo == 0, T().hi == L.k, ForAll([s_], T().m[s_] == vis(L, s_), patterns=[T().m[s_], L.seq.m[s_]]), ForAll([k_], Implies(And(k_ >= 0, k_ < L.k), T().d[k_] == L.seq.d[k_]), patterns=[T().d[k_]]))),
                ("visited front elements are held", lambda L: And(F().lo == 0, ForAll([s_], F().m[s_] == And(vis(L, s_), ex.rd(DP, s_).hi == 0), patterns=[F().m[s_], L.seq.m[s_]]))),
                ("visited tails are counted", lambda L: ex.rd(TEF, t) == n[L.k]), ("prefix counts", lambda L: And(n[L.k] <= L.k, n[L.k] >= 0))]


DT, MX = "GDynamicEngine.dag_type_", "GDynamicEngine.parallel_element_matrix_"
def dag_type(ex, n): return z3.IntVal(ex.p.enums["CGraph::internal::GEngineDagType::" + n])
def serial_fact(ex, E, F, w, st=None):
    return Or(E.hi == 0, And(F.hi == 1, ForAll([s_], Implies(And(E.m[s_], s_ != w), islink(ex, s_, st)), patterns=[E.m[s_]])))
def parallel_fact(ex, E, st=None):
    return ForAll([s_], Implies(E.m[s_], And(ex.rd(DP, s_, st).hi == 0, ex.rd(RB, s_, st).hi == 0)), patterns=[E.m[s_]])
def rows_fact(ex, T, M, st=None): return And(rows(ex, T, M, st), *rowwf(M))


class Analysis(Quiet):
    fn = "CGraph::GDynamicEngine::analysisDagType"; argi = None; may_throw = True
    modifies = ((DT, lambda c: [c.this]), (MX, lambda c: [c.this]), "ghost.row")
    def E(self, ex): return ex.rd(TAF, self.c.this, self.c.old_st)
    def requires(self, c):
        if not getattr(c, "call", False): return []
        E = c.ex.rd(TAF, c.this); return self.graph(c.ex, E)
    def given(self, c):
        ex = c.ex; ex.ghost_field("row", INT)
        E = ex.rd(TAF, c.this)
        count(ex, "tail", E, lambda e: ex.rd(RB, e).hi == 0); count(ex, "link", E, lambda e: islink(ex, e))
        front = count(ex, "front", E, lambda e: ex.rd(DP, e).hi == 0)
        w = z3.Const("serial.end", I); F = ex.rd(FRF, c.this)
        n = lambda x: z3.Const("cnt:" + x, z3.ArraySort(I, I))
        return Quiet.graph(self, ex, E) + marked(ex, E, c.this) + [("linkable elements counted", ex.rd(LS, c.this) == n("link")[E.hi]), ("sizes", And(E.lo == 0, E.hi >= 0, E.hi < 2**63)),
                ("counting lemmas", And(counting(ex, n("link"), E, lambda e: islink(ex, e), w), counting(ex, n("tail"), E, lambda e: ex.rd(RB, e).hi == 0, w_tail), counting(ex, front, E, lambda e: ex.rd(DP, e).hi == 0, w_front), F.hi == front[E.hi]))]
    def ensures(self, c):
        ex = c.ex; T = c(TAF); F = c(FRF); w = z3.Const("serial.end", I); D = c(DT); D_ = lambda n: dag_type(ex, n)
        return [("a graph treated as a chain is one", Implies(D == D_("ALL_SERIAL"), serial_fact(ex, T, F, w))), ("a graph treated as parallel has no edges", Implies(D == D_("ALL_PARALLEL"), And(c(TEF) == T.hi, parallel_fact(ex, T)))),
                ("the parallel rows hold every element exactly once", Implies(D == D_("ALL_PARALLEL"), rows(ex, T, c(MX)))), ("the rows are not empty", Implies(D == D_("ALL_PARALLEL"), And(*rowwf(c(MX))))), ("the kind is one of three", Or(*[D == D_(n) for n in ("COMMON", "ALL_SERIAL", "ALL_PARALLEL")]))]
w_tail, w_front = z3.Const("w.tail", I), z3.Const("w.front", I)


class Matrix(Quiet):
    fn = "CGraph::GDynamicEngine::analysisParallelMatrix"; argi = None; may_throw = True; loop_ms = 1500
    modifies = ((MX, lambda c: [c.this]), "ghost.row")
    def E(self, ex): return ex.rd(TAF, self.c.this, self.c.old_st)
    def requires(self, c):
        ex = c.ex; T = c(TAF)
        return [("every element is a tail", And(T.lo == 0, c(TEF) == T.hi))]
    def given(self, c): c.ex.ghost_field("row", INT); return Quiet.given(self, c)
    def on_push(self, ex, lv, v, x):
        if getattr(lv, "name", "") != "parallel_element_matrix_" or not isinstance(x, CV): return
        n = ex.fresh("row", z3.ArraySort(I, I)); ex.rd("ghost.row", z3.IntVal(0)); o = ex.st.heap[("ghost", "row", "")]
        ex.prove("an element is put into one row only", ForAll([s_], Implies(x.m[s_], Not(ex.st.ghost["inrow"][s_]))))
        ex.assume(ForAll([s_], n[s_] == If(x.m[s_], v.hi, o[s_]), patterns=[n[s_]])); ex.st.heap[("ghost", "row", "")] = n; ex.note_write(("h", "ghost", "row", ""))
        m = ex.fresh("inrow", AI); ex.assume(ForAll([s_], m[s_] == Or(ex.st.ghost["inrow"][s_], x.m[s_]), patterns=[m[s_]])); ex.st.ghost["inrow"] = m; ex.note_write(("g", "inrow"))
    def setup(self, c):
        Quiet.setup(self, c); c.ex.st.ghost["inrow"] = NOBODY
    def ensures(self, c): return [("the parallel rows hold every element exactly once", rows(c.ex, c(TAF), c(MX))), *[("the rows are not empty", f) for f in rowwf(c(MX))]]
    def on_throw(self, c): return []
    def loop_invs(self, L):
        ex = L.ex; t = self.c.this; T = ex.rd(TAF, t); M = lambda: ex.rd(MX, t); r_ = z3.Int("qr2"); ms = lambda r: M().c[".d.m"][r]; row = lambda e: ex.rd("ghost.row", e); inrow = lambda: ex.st.ghost["inrow"]
        out = [*[("the rows are not empty", lambda L, i=i: rowwf(M())[i]) for i in range(3)], ("rows hold what was put into them", lambda L: And(M().lo == 0, ForAll([s_], Implies(inrow()[s_], And(row(s_) >= 0, row(s_) < M().hi, ms(row(s_))[s_])), patterns=[inrow()[s_]]),
                                                      ForAll([s_, r_], Implies(And(r_ >= 0, r_ < M().hi, ms(r_)[s_]), And(inrow()[s_], row(s_) == r_)), patterns=[ms(r_)[s_]])))]
        for k, ty in L.locals(lambda t, n: t.k == "int"):
            out.append(("exactly the elements before the index are in rows", lambda L, k=k: And(L.value(k) >= 0, ForAll([s_], inrow()[s_] == And(T.m[s_], T.pos[s_] < L.value(k)), patterns=[inrow()[s_], T.m[s_]]))))
        return out


def cycle_or(c, ok, E):
    """the two outcomes of a set-up: accepted means acyclic; refused means there is a cycle"""
    ex = c.ex; g = ex.st.ghost
    return [("an accepted graph is acyclic", Implies(ok, acyclic(ex, E))), ("a refused graph has a cycle", Implies(Not(ok), stuck(ex, E, g["U"], g["w"], g["miss"])))]


class DynSetup(Quiet):
    """everything GDynamicEngine::run relies on (the assumptions of engine.Run, RunAll.kind, ParallelRun.kind, SerialRun.kind)"""
    fn = "CGraph::GDynamicEngine::setup"; may_throw = True; loop_ms = 500
    modifies = (LD, "ghost.consumed", "ghost.fin", "ghost.rank", "ghost.row", SHF) + tuple((f, lambda c: [c.this]) for f in (TAF, FRF, TEF, LS, DT, MX))
    def given(self, c):
        ex = c.ex; ex.ghost_field("row", INT)
        return Ana.given(self, c) + [("sizes", And(self.E(ex).lo == 0, self.E(ex).hi >= 0, self.E(ex).hi < 2**63))]
    def ensures(self, c):
        ex = c.ex; E = c.args[0]; T, F = c(TAF), c(FRF); ok = c.ret.code >= 0; D = c(DT); D_ = lambda n: dag_type(ex, n); w = z3.Const("serial.end", I)
        if getattr(c, "call", False): ex.st.ghost["U"], ex.st.ghost["w"], ex.st.ghost["miss"] = ex.fresh("U", AI), ex.fresh("w", I), ex.fresh("miss", z3.ArraySort(I, I))
        g = ex.st.ghost; g["engine"] = c.this
        m = marked(ex, E, c.this)
        ser = Or(T.hi == 0, And(F.hi == 1, ForAll([s_], Implies(And(T.m[s_], s_ != w), linked(ex, s_)), patterns=[T.m[s_]])))
        out = [m[0], m[1], ("the elements without predecessors are held", And(T.lo == 0, F.lo == 0, ForAll([s_], F.m[s_] == And(T.m[s_], ex.rd(DP, s_).hi == 0), patterns=[F.m[s_]])))]
        out += shape_facts(ex) + [("every dependency goes up in rank", acyclic(ex, T)), ("pending counts at rest", ForAll([s_], Implies(T.m[s_], ex.rd(LD, s_) == ex.rd(DP, s_).hi), patterns=[ex.rd(LD, s_)])),
                ("a graph treated as a chain is one", Implies(D == D_("ALL_SERIAL"), ser)), ("a graph treated as parallel has no edges", Implies(D == D_("ALL_PARALLEL"), And(c(TEF) == T.hi, parallel_fact(ex, T)))),
                ("the parallel rows hold every element exactly once", Implies(D == D_("ALL_PARALLEL"), And(rows(ex, T, c(MX)), *rowwf(c(MX))))), ("the kind is one of three", Or(*[D == D_(n) for n in ("COMMON", "ALL_SERIAL", "ALL_PARALLEL")]))]
        return [(n, Implies(ok, f)) for n, f in out] + cycle_or(c, ok, E)
    def loop_invs(self, L): return []


class TopoSetup(Quiet):
    fn = "CGraph::GTopoEngine::setup"; modifies = (LD, "ghost.consumed", "ghost.fin", "ghost.rank", ("GTopoEngine.topo_elements_", lambda c: [c.this]))
    def given(self, c): return Ana.given(self, c) + [("sizes", And(self.E(c.ex).lo == 0, self.E(c.ex).hi >= 0, self.E(c.ex).hi < 2**63))]
    def ensures(self, c):
        ex = c.ex; E = c.args[0]; R = c("GTopoEngine.topo_elements_"); ok = c.ret.code >= 0; g = ex.st.ghost
        if getattr(c, "call", False): g["U"], g["w"], g["miss"] = ex.fresh("U", AI), ex.fresh("w", I), ex.fresh("miss", z3.ArraySort(I, I))
        elif "U" not in g:
            g["U"] = ex.fresh("U", AI); ex.assume(ForAll([s_], g["U"][s_] == And(E.m[s_], Not(R.m[s_])), patterns=[g["U"][s_]]))
        return [("the order holds every element exactly once", Implies(ok, ForAll([s_], R.m[s_] == E.m[s_], patterns=[R.m[s_], E.m[s_]]))),
                ("predecessors come first", Implies(ok, ForAll([s_, p_], Implies(And(R.m[s_], ex.rd(DP, s_).m[p_]), And(R.m[p_], R.pos[p_] < R.pos[s_])), patterns=[z3.MultiPattern(R.m[s_], ex.rd(DP, s_).m[p_])])))] + cycle_or(c, ok, E)
    def loop_invs(self, L): return []

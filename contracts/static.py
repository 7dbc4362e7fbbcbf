"""The static engine (waves) and the topological engine's run.

Set-up ghost state: as in topo.py, plus row(e) = the wave e was put into, placed = the elements counted so far.
Run ghost state per element: started(e), okdone(e) = finished without error *and that was observed by the caller* (joined);
flying = the elements handed to the pool whose result was not collected yet; futof/elemof = which element a future belongs to;
codes / infos = the statuses elements reported in this run; failed = some element reported an error."""
from .topo import *

SM = "GStaticEngine.element_mat_"
r2 = z3.Int("qr2")
IA = z3.ArraySort(I, I)


class PlainRefresh(Contract):
    """proved in C10: the pending count becomes the number of predecessors"""
    fn = "CGraph::GElement::refresh"; virtual_any = True; trusted = True
    def apply(self, ex, f, this, vals, objty):
        ex.prove("the element is not null", this != 0)
        ex.wr(LD, this, ex.rd(DP, this).hi); ex.wr("GElement.done_", this, z3.BoolVal(False)); return None


def mrow(M, r, n): return M.c[".d." + n][r]
def before(ex, T, M, st=None):
    """every predecessor of an element is in an earlier wave"""
    row = lambda e: ex.rd("ghost.row", e, st)
    return ForAll([s_, p_], Implies(And(T[s_], ex.rd(DP, s_, st).m[p_]), And(T[p_], row(p_) < row(s_))), patterns=[z3.MultiPattern(T[s_], ex.rd(DP, s_, st).m[p_])])


class StaticSetup(Quiet):
    fn = "CGraph::GStaticEngine::setup"; loop_ms = 600
    def shared(self, cls, name): return name != "element_mat_"
    timeout = 600; modifies = (LD, "GElement.done_", "ghost.consumed", "ghost.fin", "ghost.rank", "ghost.row", (SM, lambda c: [c.this]))
    walk = Ana.walk; on_push_seen = False
    def given(self, c):
        ex = c.ex; ex.ghost_field("row", INT); ex.st.ghost["inrow"] = NOBODY; ex.st.ghost["placed"] = NOBODY; ex.st.ghost["nplaced"] = z3.IntVal(0)
        return Ana.given(self, c) + [("sizes", And(self.E(ex).lo == 0, self.E(ex).hi >= 0, self.E(ex).hi < 2**63))]
    on_push_rows = Matrix.on_push
    def on_push(self, ex, lv, v, x):
        g = ex.st.ghost
        if getattr(lv, "name", "") == "element_mat_" and isinstance(x, CV):
            n = ex.fresh("row", IA); ex.rd("ghost.row", z3.IntVal(0)); o = ex.st.heap[("ghost", "row", "")]
            ex.prove("an element is put into one wave only", ForAll([s_], Implies(x.m[s_], Not(g["inrow"][s_]))))
            ex.assume(ForAll([s_], n[s_] == If(x.m[s_], v.hi, o[s_]), patterns=[n[s_]])); ex.st.heap[("ghost", "row", "")] = n; ex.note_write(("h", "ghost", "row", ""))
            m = ex.fresh("inrow", AI); ex.assume(ForAll([s_], m[s_] == Or(g["inrow"][s_], x.m[s_]), patterns=[m[s_]])); g["inrow"] = m; ex.note_write(("g", "inrow"))
        elif isinstance(x, z3.ExprRef) and v.ty.k == "useq":
            E = self.E(ex); ex.prove("an element becomes free once", Not(g["placed"][x])); ex.prove("only elements become free", E.m[x])
            ex.assume(And(g["nplaced"] >= 0, g["nplaced"] < E.hi))      # finite-set lemma: the counted elements and x are elements
            m = ex.fresh("placed", AI); ex.assume(m == z3.Store(g["placed"], x, z3.BoolVal(True)))
            g["nplaced"] = z3.simplify(g["nplaced"] + 1); g["placed"] = m; ex.note_write(("g", "placed")); ex.note_write(("g", "nplaced"))
    def ensures(self, c):
        ex = c.ex; E = c.args[0]; M = c(SM); ok = c.ret.code >= 0; g = ex.st.ghost
        if getattr(c, "call", False): g["U"], g["w"], g["miss"] = ex.fresh("U", AI), ex.fresh("w", I), ex.fresh("miss", IA)
        else:
            U, w, ms = ex.fresh("U", AI), ex.fresh("w", I), ex.fresh("miss", IA); g["U"], g["w"], g["miss"] = U, w, ms; pl = g["placed"]; co = lambda: ex.rd("ghost.consumed", s_)
            ex.assume(ForAll([s_], U[s_] == And(E.m[s_], Not(pl[s_])), patterns=[U[s_]]))
            # finite-set lemmas: a subset as large as the set is the set; a smaller one misses an element
            ex.assume(Implies(And(ForAll([s_], Implies(pl[s_], E.m[s_])), g["nplaced"] == E.hi), ForAll([s_], Implies(E.m[s_], pl[s_]), patterns=[E.m[s_]])))
            ex.assume(Implies(g["nplaced"] != E.hi, Or(And(E.m[w], Not(pl[w])), And(pl[w], Not(E.m[w])))))
            ex.assume(ForAll([s_], Implies(co().hi < ex.rd(DP, s_).hi, And(ex.rd(DP, s_).m[ms[s_]], Not(co().m[ms[s_]]))), patterns=[E.m[s_]]))
        T = E
        return [("the waves hold every element exactly once", Implies(ok, rows(ex, T, M))), ("the waves are not empty", Implies(ok, And(*rowwf(M)))),
                ("every predecessor of an element is in an earlier wave", Implies(ok, before(ex, E.m, M)))] + cycle_or(c, ok, E)
    def loop_invs(self, L):
        ex = L.ex; E = self.E(ex); M = lambda: ex.rd(SM, self.c.this); G = lambda: ex.st.ghost
        fin = lambda x: ex.rd("ghost.fin", x)
        row = lambda e: ex.rd("ghost.row", e)
        full = lambda x: ex.rd("ghost.consumed", x).hi == ex.rd(DP, x).hi
        inr = lambda x: G()["inrow"][x]
        pl = lambda x: G()["placed"][x]
        q = self.seqs(L); ms = lambda r: M().c[".d.m"][r]
        kind = "while" if L.rng is None else {"set": "all", "useq": "wave", "uvec": "edges"}.get(L.rng[1].ty.k, "?")
        for k, t in L.locals(lambda t, n: t.k == "int"): yield ("the counter counts the placed elements", lambda L, k=k: L.value(k) == G()["nplaced"])
        if kind == "all":
            yield "visited elements count all predecessors", lambda L: ForAll([s_], Implies(And(L.seq.m[s_], L.seq.pos[s_] < L.k), ex.rd(LD, s_) == ex.rd(DP, s_).hi), patterns=[L.seq.m[s_]])
            for k, t in q:
                yield "lists start at 0", lambda L, k=k: L.value(k).lo == 0
                yield "visited elements without predecessors", lambda L, k=k: ForAll([s_], L.value(k).m[s_] == And(L.seq.m[s_], L.seq.pos[s_] < L.k, ex.rd(DP, s_).hi == 0), patterns=[L.value(k).m[s_], L.seq.m[s_]])
                yield "visited elements without predecessors are counted", lambda L, k=k: ForAll([s_], pl(s_) == And(L.seq.m[s_], L.seq.pos[s_] < L.k, ex.rd(DP, s_).hi == 0), patterns=[pl(s_), L.seq.m[s_]])
            return
        for x in self.base_invs(L): yield x
        def rowinv(L): return And(M().lo == 0, ForAll([s_], Implies(inr(s_), And(row(s_) >= 0, row(s_) < M().hi, ms(row(s_))[s_])), patterns=[inr(s_)]),
                                  ForAll([s_, r2], Implies(And(r2 >= 0, r2 < M().hi, ms(r2)[s_]), And(inr(s_), row(s_) == r2)), patterns=[ms(r2)[s_]]))
        yield "a counted element has all edges walked", lambda L: ForAll([s_], pl(s_) == And(E.m[s_], full(s_)), patterns=[pl(s_), E.m[s_]])
        if kind == "while":
            yield "the waves hold what was put into them", rowinv
            for i in range(3): yield "the waves are well formed", lambda L, i=i: rowwf(M())[i]
            yield "the waves hold exactly the ordered elements", lambda L: ForAll([s_], fin(s_) == inr(s_), patterns=[fin(s_), inr(s_)])
            yield "predecessors are in earlier waves", lambda L: ForAll([s_, p_], Implies(And(inr(s_), ex.rd(DP, s_).m[p_]), And(inr(p_), row(p_) < row(s_))), patterns=[z3.MultiPattern(inr(s_), ex.rd(DP, s_).m[p_])])
            for k, t in q:
                yield "lists start at 0", lambda L, k=k: L.value(k).lo == 0
                yield "the next wave holds exactly the free elements", lambda L, k=k: ForAll([s_], L.value(k).m[s_] == And(pl(s_), Not(inr(s_))), patterns=[L.value(k).m[s_], pl(s_)])
            return
        yield "the waves hold exactly the counted elements of this and earlier rounds", lambda L: ForAll([s_], Implies(fin(s_), inr(s_)), patterns=[fin(s_)])
        for k, t in q:
            yield "lists start at 0", lambda L, k=k: L.value(k).lo == 0
            yield "the next wave holds exactly the elements that became free", lambda L, k=k: ForAll([s_], L.value(k).m[s_] == And(pl(s_), Not(inr(s_))), patterns=[L.value(k).m[s_], pl(s_)])
            if kind == "wave": yield "visited elements of the wave are ordered", lambda L, k=k: ForAll([s_], Implies(inr(s_), fin(s_) == Or(Not(L.seq.m[s_]), L.seq.pos[s_] < L.k)), patterns=[inr(s_), fin(s_)])


# ---------------------------------------------------------------- run
FT = Ty("future", [STATUS], "future")
def runghosts(ex):
    for n in ("started", "okdone"): ex.ghost_field(n, BOOL)
    ex.ghost_field("row", INT); ex.ghost_field("futof", INT)


class WaveRun(Contract):
    raw = ("useq",); check_null = True; timeout = 500; loop_ms = 800
    modifies = ("ghost.started", "ghost.okdone", "ghost.futof")
    def shared(self, cls, name): return True
    def members(self, ex): return self.T.m
    def elements(self, c): raise NotImplementedError
    def setup(self, c):
        ex = c.ex; g = ex.st.ghost; runghosts(ex); self.T = self.elements(c)
        for n in ("started", "okdone"):
            ex.havoc_key("ghost", n, ex.ghost_ty[n]); ex.assume(ForAll([s_], Not(ex.rd("ghost." + n, s_)), patterns=[ex.rd("ghost." + n, s_)]))
        g["flying"] = NOBODY; g["codes"] = z3.K(I, z3.BoolVal(False)); g["elemof"] = z3.Const("elemof0", IA); g["nfut"] = z3.IntVal(0); g["task"] = False; g["failed"] = z3.BoolVal(False)
        for n, f in EDGES(ex) + self.given(c): ex.assume(f)
    def given(self, c): return []
    def start(self, ex, e):
        """an element is executed now, or handed to the pool: all its predecessors have finished"""
        ex.prove("the element is not null", e != 0)
        ex.prove("only elements of the graph are executed", self.T.m[e])
        ex.prove("each element is executed once", Not(ex.rd("ghost.started", e)))
        d, ok = ex.rd(DP, e), ex.rd("ghost.okdone", p_)
        ex.prove("all predecessors have finished successfully before the start", ForAll([p_], Implies(d.m[p_], ok), patterns=[d.m[p_]]))
        ex.wr("ghost.started", e, z3.BoolVal(True))
    def finish(self, ex, e, r):
        g = ex.st.ghost
        ex.wr("ghost.okdone", e, r.code >= 0)
        m = ex.fresh("codes", AI); ex.assume(m == z3.Store(g["codes"], r.code, z3.BoolVal(True))); g["codes"] = m; ex.note_write(("g", "codes"))
        g["failed"] = Or(g["failed"], r.code < 0); ex.note_write(("g", "failed"))
    def on_future(self, ex, lv, v, name):
        if name != "get" or not (v.ty.a and v.ty.a[0].k == "status"): return NotImplemented
        g = ex.st.ghost
        ex.prove("a result is collected once", v.c[".valid"]); e = g["elemof"][v.c[".id"]]
        ex.prove("the result of a submitted element", g["flying"][e])
        r = ex.fresh_value(STATUS, "ran"); self.finish(ex, e, r)
        n = ex.fresh("flying", AI); ex.assume(n == z3.Store(g["flying"], e, z3.BoolVal(False))); g["flying"] = n; ex.note_write(("g", "flying"))
        lv.set(ex, v.upd(valid=z3.BoolVal(False)))
        return r
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; g = ex.st.ghost; T = self.T; ok = ex.rd("ghost.okdone", s_)
        return [("the run returns only when nothing is running", ForAll([s_], Not(g["flying"][s_]), patterns=[g["flying"][s_]])),
                ("an error-free run has executed every element", Implies(c.ret.code >= 0, ForAll([s_], Implies(T.m[s_], ok), patterns=[T.m[s_]]))),
                ("an element's error fails the run", Implies(g["failed"], c.ret.code < 0)),
                ("a failed run reports an error that an element reported", Implies(c.ret.code < 0, And(g["failed"], g["codes"][c.ret.code])))]
    def common_invs(self, L):
        ex = L.ex; G = lambda: ex.st.ghost
        st = lambda x: ex.rd("ghost.started", x)
        ok = lambda x: ex.rd("ghost.okdone", x)
        yield "only started elements finish", lambda L: ForAll([s_], Implies(ok(s_), st(s_)), patterns=[ok(s_)])
        yield "only elements are started", lambda L: ForAll([s_], Implies(st(s_), self.T.m[s_]), patterns=[st(s_)])
        yield "nothing is running", lambda L: ForAll([s_], Not(G()["flying"][s_]), patterns=[G()["flying"][s_]])
        yield "no element failed", lambda L: Not(G()["failed"])
        for k, t in L.locals(lambda t, n: t.k == "status"):
            yield "local status = first error", lambda L, k=k: And(G()["failed"] == (L.value(k).code < 0), Implies(L.value(k).code < 0, G()["codes"][L.value(k).code]))
            yield "no error so far.", lambda L, k=k: L.value(k).code >= 0


class RunsElement(Contract):
    """the element's own execution (C06)"""
    fn = "CGraph::GElement::fatProcessor"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        sp = ex.spec; g = ex.st.ghost
        if not isinstance(sp, WaveRun): raise Unsupported("fatProcessor outside an engine")
        ex.prove("executed as a run", (vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]) == run_kind(ex))
        if g["task"] is not False:
            ex.prove("the task executes its own element", this == g["task"]); ex.prove("a task executes its element once", z3.BoolVal(g["taskn"] == 0)); g["taskn"] = 1
            r = ex.fresh_value(STATUS, "ran"); g["taskr"] = r; return r
        sp.start(ex, this); r = ex.fresh_value(STATUS, "ran"); sp.finish(ex, this, r); return r


class Commit(Contract):
    """thread pool (C22): the task is executed exactly once, on some thread; the future yields its result"""
    fn = "CGraph::UThreadPool::commit"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        g = ex.st.ghost; sp = ex.spec
        if not isinstance(sp, WaveRun): raise Unsupported("commit outside an engine")
        clo = vals[0]
        if isinstance(clo, LV): clo = clo.get(ex)
        clo = ex.unfn(clo)
        if not isinstance(clo, Closure): raise Unsupported("task of unknown form")
        e = next((v.get(ex) if isinstance(v, LV) else v for v in clo.copies.values()), None)
        ex.prove("the task captures its element by value", z3.BoolVal(e is not None and all(isinstance(v, (LTmp, LObj)) for v in clo.copies.values())))
        sp.start(ex, e)
        if ex.choose(2) == 0:
            g["task"] = e; g["taskn"] = 0; g["taskr"] = None
            r = ex.call_value(clo, [])
            if isinstance(r, LV): r = r.get(ex)
            ex.prove("the task executes its element", z3.BoolVal(g["taskn"] == 1 and isinstance(r, CV)))
            if isinstance(r, CV) and g["taskr"] is not None: ex.prove("the task reports the element's status", And(r.code == g["taskr"].code, r.info == g["taskr"].info))
            raise PathEnd("task")
        n = ex.fresh("flying", AI); ex.assume(n == z3.Store(g["flying"], e, z3.BoolVal(True))); g["flying"] = n; ex.note_write(("g", "flying"))
        i = g["nfut"]; g["nfut"] = z3.simplify(i + 1); ex.note_write(("g", "nfut"))
        m = ex.fresh("elemof", IA); ex.assume(m == z3.Store(g["elemof"], i, e)); g["elemof"] = m; ex.note_write(("g", "elemof"))
        ex.wr("ghost.futof", e, i)
        return CV(FT, {".valid": z3.BoolVal(True), ".id": i})


class StaticRun(WaveRun):
    fn = "CGraph::GStaticEngine::run"; argi = None
    def elements(self, c): return c.ex.fresh_value(Ty("set", [EP]), "T")
    def given(self, c):
        ex = c.ex; M = ex.rd(SM, c.this); T = self.T
        return [("the waves hold every element exactly once", rows(ex, T, M)), ("the waves are not empty", And(*rowwf(M))), ("every predecessor of an element is in an earlier wave", before(ex, T.m, M)), ("no null element", ForAll([s_], Implies(T.m[s_], s_ != 0), patterns=[T.m[s_]])), ("the engine has a thread pool", c("GEngine.thread_pool_") != 0)]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; T = self.T; G = lambda: ex.st.ghost; row = lambda e: ex.rd("ghost.row", e)
        for x in self.common_invs(L): yield x
        st = lambda x: ex.rd("ghost.started", x)
        ok = lambda x: ex.rd("ghost.okdone", x)
        fl = lambda x: G()["flying"][x]
        if L.rng is None: return
        yield "futures are numbered", lambda L: G()["nfut"] >= 0
        F = L.locals(lambda t, n: t.k == "vec" and t.a[0].k == "future"); Q = L.locals(lambda t, n: t.k == "useq")
        k = lambda: self.wave(ex)
        kind = "waves" if not F else {"useq": "wave", "vec": "futures"}.get(L.rng[1].ty.k, "?")
        if kind == "waves":
            self.wavekey = L.rng[0]
            yield "earlier waves are finished", lambda L: ForAll([s_], Implies(And(T.m[s_], row(s_) < L.k), ok(s_)), patterns=[row(s_)])
            yield "later waves are not started", lambda L: ForAll([s_], Implies(And(T.m[s_], row(s_) >= L.k), Not(st(s_))), patterns=[row(s_)])
            return
        yield "earlier waves are finished", lambda L: ForAll([s_], Implies(And(T.m[s_], row(s_) < k()), ok(s_)), patterns=[row(s_)])
        yield "later waves are not started", lambda L: ForAll([s_], Implies(And(T.m[s_], row(s_) > k()), Not(st(s_))), patterns=[row(s_)])
        for fk, t in F:
            def futs(L, fk=fk):
                v = L.value(fk); fu = lambda e: ex.rd("ghost.futof", e)
                j = z3.Int("qj"); idv = v.c[".d.id"]; val = v.c[".d.valid"]
                lo = L.k if L.rng[1].ty.k == "vec" else v.lo
                return And(v.lo == 0, ForAll([j], Implies(And(j >= lo, j < v.hi), And(val[j], fl(G()["elemof"][idv[j]]))), patterns=[idv[j]]))
            yield "every future in the list belongs to a running element", futs
            def back(L, fk=fk):
                v = L.value(fk); j = z3.Int("qj"); lo = L.k if L.rng[1].ty.k == "vec" else v.lo; x = G()["where"]
                return ForAll([s_], Implies(fl(s_), And(x[s_] >= lo, x[s_] < v.hi, G()["elemof"][v.c[".d.id"][x[s_]]] == s_)), patterns=[fl(s_)])
            yield "every running element has a future in the list", back
            def inj(L, fk=fk):
                v = L.value(fk); j = z3.Int("qj"); x = G()["where"]
                return And(ForAll([j], Implies(And(j >= v.lo, j < v.hi), And(x[G()["elemof"][v.c[".d.id"][j]]] == j, v.c[".d.id"][j] < G()["nfut"], v.c[".d.id"][j] >= 0)), patterns=[v.c[".d.id"][j]]))
            yield "one future per element", inj
        yield "running elements are started and belong to this wave", lambda L: ForAll([s_], Implies(fl(s_), And(st(s_), T.m[s_], row(s_) == k(), Not(ok(s_)))), patterns=[fl(s_)])
        yield "started elements are running or finished, unless one failed", lambda L: ForAll([s_], Implies(st(s_), Or(G()["failed"], fl(s_), ok(s_))), patterns=[st(s_)])
        yield "all elements of the wave are started", lambda L: ForAll([s_], Implies(And(T.m[s_], row(s_) == k()), st(s_)), patterns=[row(s_)])
        if kind == "wave":
            for qk, t in Q:
                yield "visited elements are started or set aside", lambda L, qk=qk: ForAll([s_], Implies(And(T.m[s_], row(s_) == k()), And(st(s_) == And(L.seq.pos[s_] < L.k, Not(L.value(qk).m[s_])), L.seq.m[s_])), patterns=[row(s_)])
                yield "set aside elements belong to the wave", lambda L, qk=qk: And(L.value(qk).lo == 0, ForAll([s_], Implies(L.value(qk).m[s_], And(L.seq.m[s_], L.seq.pos[s_] < L.k, T.m[s_], row(s_) == k())), patterns=[L.value(qk).m[s_]]))
                yield "set aside elements are started in order", lambda L, qk=qk: ForAll([s_], Implies(And(T.m[s_], row(s_) == k()), st(s_) == Or(Not(L.seq.m[s_]), L.seq.pos[s_] < L.k)), patterns=[row(s_)])
    def wave(self, ex): return ex.st.vars[self.wavekey]
    def on_push(self, ex, lv, v, x):
        if isinstance(x, CV) and x.ty.k == "future":
            g = ex.st.ghost; e = g["elemof"][x.c[".id"]]
            n = ex.fresh("where", IA); ex.assume(n == z3.Store(g["where"], e, v.hi)); g["where"] = n; ex.note_write(("g", "where"))
    def setup(self, c): WaveRun.setup(self, c); c.ex.st.ghost["where"] = z3.Const("where0", IA)


class TopoRun(WaveRun):
    """one after another in the calling thread, in the order of the set-up"""
    fn = "CGraph::GTopoEngine::run"
    def elements(self, c): return c("GTopoEngine.topo_elements_")
    def given(self, c):
        ex = c.ex; R = self.T
        return [("predecessors come first (set-up)", ForAll([s_, p_], Implies(And(R.m[s_], ex.rd(DP, s_).m[p_]), And(R.m[p_], R.pos[p_] < R.pos[s_])), patterns=[z3.MultiPattern(R.m[s_], ex.rd(DP, s_).m[p_])])), ("no null element", Not(R.m[0]))]
    def loop_invs(self, L):
        ex = L.ex
        for x in self.common_invs(L): yield x
        if L.rng is None: return
        yield "exactly the elements before the current one are finished", lambda L: ForAll([s_], Implies(L.seq.m[s_], And(ex.rd("ghost.started", s_) == (L.seq.pos[s_] < L.k), ex.rd("ghost.okdone", s_) == (L.seq.pos[s_] < L.k))), patterns=[L.seq.m[s_]])

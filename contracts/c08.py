"""C08: which children a group executes, in which order, and what it returns.

Ghost state: cur = next child to be considered, pend = it matched and must be executed now, nrun = executions, last = index executed last,
first = the first error a child reported (0 = none), codes = the errors reported, nsub / ngot = tasks submitted / collected, got[i] = result i collected.
Children are considered by position, so a child listed twice counts twice."""
from .life import *
from . import static as _st

KIDS = "GElement.children_"
AI = z3.ArraySort(I, B)
EP = None


class Group(Contract):
    raw = ("vec",); check_null = True; check_bounds = True; may_throw = True; modifies = (); order = "all"; par = False
    VARS = ("cur", "pend", "nrun", "last", "first", "nsub", "ngot", "asked")
    def setup(self, c):
        gh = c.ex.st.ghost
        for n in self.VARS: gh[n] = z3.IntVal(0)
        gh["last"] = z3.IntVal(-1); gh["task"] = None; gh["got"] = z3.Const("got0", AI); gh["codes"] = z3.Const("codes0", AI); c.ex.assume(ForAll([i_], And(Not(gh["got"][i_]), Not(gh["codes"][i_])), patterns=[gh["got"][i_], gh["codes"][i_]])); gh["kindex"] = z3.IntVal(0)
        K = self.kids(c.ex); c.ex.assume(And(K.lo == 0, K.hi >= 0, K.hi < 2**31))
    def kids(self, ex): return ex.rd(KIDS, self.c.this)
    def requires(self, c):
        if getattr(c, "call", False): return []
        K = c(KIDS); return [("no null child (addElement refuses them)", ForAll([i_], Implies(And(i_ >= 0, i_ < K.hi), K.d[i_] != 0), patterns=[K.d[i_]]))]
    # ---- events
    def start(self, ex, e):
        K = self.kids(ex); u = g(ex, "cur")
        ex.prove("only the next selected child is executed", And(u < K.hi, e == K.d[u], *([g(ex, "pend") == 1] if self.order == "match" else [])))
        if not self.par: ex.prove("no child runs after an error", g(ex, "first") == 0)
        gset(ex, "nrun", g(ex, "nrun") + 1); gset(ex, "last", u); gset(ex, "cur", u + 1); gset(ex, "pend", 0)
    def mark(self, ex, n, i):
        m = ex.fresh(n, AI); ex.assume(m == z3.Store(ex.st.ghost[n], i, z3.BoolVal(True))); ex.st.ghost[n] = m; ex.note_write(("g", n))
    def finish(self, ex, r):
        self.mark(ex, "codes", r.code)
        gset(ex, "first", If(And(g(ex, "first") == 0, r.code < 0), r.code, g(ex, "first")))
    def match(self, ex, e, r):
        K = self.kids(ex); u = g(ex, "cur")
        ex.prove("the next child is asked, a matching one is executed first", And(self.order == "match", g(ex, "pend") == 0, u < K.hi, e == K.d[u]))
        gset(ex, "pend", If(r, 1, 0)); gset(ex, "cur", If(r, u, u + 1))
    def on_future(self, ex, lv, v, name):
        if name != "get": return NotImplemented
        G = lambda n: g(ex, n); i = v.c[".id"]
        ex.prove("a result is collected once", And(v.c[".valid"], Not(ex.st.ghost["got"][i]), i >= 0, i < G("nsub")))
        self.mark(ex, "got", i); gset(ex, "ngot", G("ngot") + 1)
        r = ex.fresh_value(STATUS, "ran"); self.finish(ex, r); lv.set(ex, v.upd(valid=z3.BoolVal(False))); return r
    # ---- result
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; G = lambda n: g(ex, n); K = c.o(KIDS)
        out = [("an error of a child is an error of the group", Implies(G("first") < 0, c.ret.code < 0)), ("a reported error is one a child reported", Implies(c.ret.code < 0, ex.st.ghost["codes"][c.ret.code])), ("success when no child failed", Implies(G("first") == 0, c.ret.code >= 0)),
               ("every child was considered unless one failed", Implies(G("first") == 0, And(G("cur") == K.hi, G("pend") == 0)))]
        if not self.par: out.append(("the first error is returned", Implies(G("first") < 0, c.ret.code == G("first"))))
        else: out += [("every child was considered", And(G("cur") == K.hi, G("pend") == 0)), ("all started children have finished", And(ForAll([i_], Implies(And(i_ >= 0, i_ < G("nsub")), ex.st.ghost["got"][i_])), G("nsub") == G("nrun")))]
        return out
    def on_throw(self, c): return [("only a crash of a child escapes, as the group's first error", And(g(c.ex, "first") == -996, z3.BoolVal(not self.par)))]
    def covers(self, c): return [] if c.threw else [("several children", g(c.ex, "nrun") == 2), ("error", g(c.ex, "first") < 0), ("none", g(c.ex, "nrun") == 0)]
    def loop_invs(self, L):
        ex = L.ex; G = lambda n: g(ex, n); K = lambda: self.kids(ex)
        yield "no error so far", lambda L: G("first") == 0
        yield "nothing pending", lambda L: G("pend") == 0
        yield "considered so far", lambda L: And(0 <= G("cur"), G("cur") <= K().hi)
        if L.rng is not None: yield "considered = visited", lambda L: G("cur") == L.k
        yield "submissions counted", lambda L: And(G("nsub") >= 0, G("nsub") <= G("cur"), G("nsub") == G("nrun"))
        yield "nothing collected yet", lambda L: And(G("ngot") == 0, ForAll([i_], Not(ex.st.ghost["got"][i_]), patterns=[ex.st.ghost["got"][i_]]))
        yield "all considered", lambda L: G("cur") == K().hi
        for k, t in L.locals(lambda t, n: t.k == "int"): yield "index = considered", lambda L, k=k: L.value(k) == G("cur")
        for k, t in L.locals(lambda t, n: t.k == "status"):
            yield "local status = first error", lambda L, k=k: And((L.value(k).code < 0) == (G("first") < 0), Implies(L.value(k).code < 0, And(L.value(k).code == G("first"), ex.st.ghost["codes"][G("first")])))
            yield "local status ok", lambda L, k=k: L.value(k).code >= 0
        yield "the first error was reported", lambda L: Implies(G("first") < 0, ex.st.ghost["codes"][G("first")])
        yield "sign of the first error", lambda L: G("first") <= 0
        for k, t in L.locals(lambda t, n: t.k == "vec" and t.a[0].k == "future"):
            def futs(L, k=k):
                v = L.value(k); j = z3.Int("qj"); done = L.k if (L.rng is not None and L.rng[1].ty.k == "vec" and L.rng[1].ty.a[0].k == "future") else z3.IntVal(0)
                return And(v.lo == 0, v.hi == G("nsub"), ForAll([j], Implies(And(j >= done, j < v.hi), And(v.c[".d.valid"][j], v.c[".d.id"][j] == j)), patterns=[v.c[".d.id"][j]]))
            yield "one pending result per submission", futs
            def got(L, k=k): return ForAll([i_], ex.st.ghost["got"][i_] == And(i_ >= 0, i_ < L.k), patterns=[ex.st.ghost["got"][i_]])
            if L.rng is not None: yield "collected so far", got


class Child(Contract):
    """executing a child (C06): any status; does not change the group's list of children"""
    fn = GE + "fatProcessor"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        sp = ex.spec
        if not isinstance(sp, Group): raise Unsupported("fatProcessor outside a group")
        ex.prove("executed as a run", (vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]) == kind(ex, "RUN"))
        t = ex.st.ghost["task"]
        if t is not None:
            ex.prove("the task executes its own child", this == t[0]); ex.prove("a task executes its child once", z3.BoolVal(t[1] == 0)); r = ex.fresh_value(STATUS, "ran"); ex.st.ghost["task"] = (t[0], 1, r); return r
        ex.prove("a parallel group submits its children", z3.BoolVal(not sp.par))
        sp.start(ex, this); r = ex.fresh_value(STATUS, "ran"); sp.finish(ex, r); return r
class Match(Contract):
    """user callback: any answer (a throwing isMatch is excluded, see DESIGN)"""
    fn = GE + "isMatch"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        r = ex.fresh("match", B); ex.spec.match(ex, this, r); return r
class Submit(Contract):
    """thread pool (C22): the task is executed exactly once; the future yields its result"""
    fn = "CGraph::UThreadPool::commit"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        sp = ex.spec; gh = ex.st.ghost
        if not isinstance(sp, Group): raise Unsupported("commit outside a group")
        clo = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        clo = ex.unfn(clo)
        if not isinstance(clo, Closure): raise Unsupported("task of unknown form")
        e = next((v.get(ex) if isinstance(v, LV) else v for v in clo.copies.values()), None)
        ex.prove("the task captures its child by value", z3.BoolVal(e is not None and all(isinstance(v, (LTmp, LObj)) for v in clo.copies.values())))
        if e is None: raise Unsupported("task without captured child")
        sp.start(ex, e)
        if ex.choose(2) == 0:
            gh["task"] = (e, 0, None); r = ex.call_value(clo, [])
            if isinstance(r, LV): r = r.get(ex)
            t = gh["task"]; ex.prove("the task executes its child", z3.BoolVal(t[1] == 1 and isinstance(r, CV)))
            if isinstance(r, CV) and t[2] is not None: ex.prove("the task reports the child's status", And(r.code == t[2].code, r.info == t[2].info))
            raise PathEnd("task")
        i = gh["nsub"]; gset(ex, "nsub", i + 1)
        return CV(_st.FT, {".valid": z3.BoolVal(True), ".id": i})


class Cluster(Group):
    """every child, one after another, up to the first error"""
    fn = "CGraph::GCluster::run"
class MultiSerial(Group):
    """every matching child, one after another, up to the first error; a child is asked when its turn comes"""
    fn = "CGraph::GMultiCondition<0>::run"; order = "match"; label = "GMultiCondition<SERIAL>::run"
class MultiParallel(Group):
    """every matching child, in parallel; waits for all of them"""
    fn = "CGraph::GMultiCondition<1>::run"; order = "match"; par = True; label = "GMultiCondition<PARALLEL>::run"
    def requires(self, c): return Group.requires(self, c) + [("the group has a pool (checkSuitable)", c("GElement.thread_pool_") != 0)]


class Condition(Group):
    """exactly the chosen child: the index, the last one for -1, none when out of range"""
    fn = "CGraph::GCondition::run"
    def setup(self, c): Group.setup(self, c); c.ex.st.ghost["index"] = z3.IntVal(0)
    def start(self, ex, e):
        K = self.kids(ex); i = g(ex, "index"); n = K.hi
        w = If(i == -1, n - 1, i)
        ex.prove("the chosen child is executed once", And(g(ex, "asked") == 1, g(ex, "nrun") == 0, i >= -1, i < n, n > 0, e == K.d[w]))
        gset(ex, "nrun", g(ex, "nrun") + 1)
    def match(self, ex, e, r): ex.prove("a condition does not ask its children", z3.BoolVal(False))
    def ensures(self, c):
        ex = c.ex; G = lambda n: g(ex, n); K = c.o(KIDS); i = G("index"); hit = And(i >= -1, i < K.hi, K.hi > 0)
        if getattr(c, "call", False): return []
        return [("asked once", G("asked") == 1), ("the chosen child is executed, none when out of range", G("nrun") == If(hit, 1, 0)), ("the result is the child's error", Implies(G("first") < 0, c.ret.code == G("first"))), ("success otherwise", Implies(G("first") == 0, c.ret.code >= 0))]
    def covers(self, c): return [] if c.threw else [("last", g(c.ex, "index") == -1), ("none", g(c.ex, "nrun") == 0), ("by index", And(g(c.ex, "nrun") == 1, g(c.ex, "index") == 1)), ("error", g(c.ex, "first") < 0)]
    def loop_invs(self, L): return []
class Choose(Contract):
    fn = "CGraph::GCondition::choose"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        r = ex.fresh("index", I); ex.assume(And(r >= -2**31, r < 2**31)); gset(ex, "asked", g(ex, "asked") + 1); gset(ex, "index", r); return r


class AddElement(Contract):
    """a child is appended behind the others and belongs to the group"""
    fn = "CGraph::GGroup::addElement"; modifies = ((KIDS, lambda c: [c.this]), (BL, lambda c: [c.a(0)])); raw = ("vec",); may_throw = True
    def setup(self, c): K = c(KIDS); c.ex.assume(And(K.lo == 0, K.hi >= 0, K.hi < 2**31))
    def ensures(self, c):
        e = c.a(0); K, O = c(KIDS), c.o(KIDS)
        return [("null is refused and nothing is added", Implies(e == 0, And(c.ret.code < 0, K.hi == O.hi))),
                ("appended behind the others", Implies(e != 0, And(K.lo == 0, K.hi == O.hi + 1, K.d[O.hi] == e, ForAll([i_], Implies(And(i_ >= 0, i_ < O.hi), K.d[i_] == O.d[i_]))))),
                ("belongs to the group", Implies(e != 0, c.ex.rd(BL, e) == c.this))]
    def on_throw(self, c): return []
    def covers(self, c): return [] if c.threw else [("added", c.a(0) != 0), ("refused", c.a(0) == 0)]
class Managers(Contract):
    fn = GE + "addManagers"; trusted = True; virtual_any = True
class AddEx(Contract):
    """kind-specific part (a region records the child in its manager: C11, a some-group may set a timeout or throw: C09)"""
    fn = "CGraph::GGroup::addElementEx"; trusted = True; virtual_any = True; may_throw = True


RUNS = [Cluster(), MultiSerial(), MultiParallel(), Condition()]
REG = [Child(), Match(), Submit(), Choose()]
_ad = AddElement(); _ad.registry = [Managers(), AddEx()]
for _c in RUNS: _c.registry = REG
CONTRACTS = RUNS + [_ad]
VERIFY = CONTRACTS
DRIVERS = ["c08"]
DRIVER_SECONDS = 20
NOTE = ("Proved for every number of children, every pattern of matches, indices and child results: cluster, condition, serial and parallel multi-condition (each started child is the next selected one, in insertion order, nothing after an error, all parallel results collected, the first error returned), and addElement (append, owner). "
        "Regions are C01-C04, some-groups C09. Assumed: children's executions return a status (C06), the pool runs each task once (C22), isMatch does not throw. The replay driver is bounded.")

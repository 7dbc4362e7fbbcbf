"""C16: the pipeline manager's two lists.

Monitor of mutex_: no pipeline is in a list twice, none is in both, none is null. Every operation is one critical section whose effect on
the two lists is stated exactly; both lists are only touched while the lock is held."""
from .base import *
from cgv.types import *
from cgv.interp import *

PM = "CGraph::GPipelineManager::"
FR, US = "GPipelineManager.free_list_", "GPipelineManager.used_list_"
INIT = "GPipelineManager.is_init_"
RAW = ("useq", "uniqlist")
x_ = z3.Int("qx")


def okstate(ex, r):
    f, u = ex.rd(FR, r), ex.rd(US, r)
    return [("no pipeline is both free and in use", ForAll([x_], Not(And(f.m[x_], u.m[x_])), patterns=[f.m[x_], u.m[x_]])), ("no null pipeline is held", And(Not(f.m[0]), Not(u.m[0])))]
def same(a, b): return ForAll([x_], a.m[x_] == b.m[x_], patterns=[a.m[x_], b.m[x_]])
def plus(a, b, x): return ForAll([x_], b.m[x_] == Or(a.m[x_], x_ == x), patterns=[a.m[x_], b.m[x_]])
def minus(a, b, x): return ForAll([x_], b.m[x_] == And(a.m[x_], x_ != x), patterns=[a.m[x_], b.m[x_]])


class PM_(Contract):
    raw = RAW; modifies = ((FR, lambda c: [c.this]), (US, lambda c: [c.this])); locked = True
    def setup(self, c): c.ex.st.ghost["sec"] = z3.IntVal(0); c.ex.st.ghost["pre"] = None; c.ex.st.ghost["post"] = None
    def acquire(self, ex, m, k):
        if m.name != "mutex_" or not m.cls.endswith("GPipelineManager"): return
        this = self.c.this; gh = ex.st.ghost
        ex.prove("each operation is one critical section", And(gh["sec"] == 0, m.ref == this))
        for f in (FR, US): cls, n, t = ex.find_field(f); ex.havoc_at(cls, n, this, t)
        for n, f in okstate(ex, this): ex.assume(f)
        gh["sec"] = gh["sec"] + 1; gh["pre"] = (ex.rd(FR, this), ex.rd(US, this))
    def release(self, ex, m, k):
        if m.name != "mutex_" or ex.st.ghost["pre"] is None: return
        for n, f in okstate(ex, self.c.this): ex.prove("monitor invariant: " + n, f)
        ex.st.ghost["post"] = (ex.rd(FR, self.c.this), ex.rd(US, self.c.this))
    def inside(self, ex): return z3.BoolVal(any(True for k in ex.st.held))
    def on_read(self, ex, cls, name, ref):
        if name in ("free_list_", "used_list_") and self.locked and cls.endswith("GPipelineManager"): ex.prove("the lists are only touched while the lock is held", self.inside(ex))
    on_write = on_read
    def sec(self, c):
        gh = c.ex.st.ghost; return gh["sec"] == 1, gh["pre"], gh["post"]


class Fetch(PM_):
    fn = PM + "fetch"
    def ensures(self, c):
        if getattr(c, "call", False): return []
        one, pre, post = self.sec(c)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        r = c.ret; (f, u), (f2, u2) = pre, post
        return [("one critical section", one), ("nothing is fetched exactly when none is free", (r == 0) == (f.hi == f.lo)), ("fetching nothing changes nothing", Implies(r == 0, And(same(f, f2), same(u, u2)))),
                ("a fetched pipeline was free and is in use now", Implies(r != 0, And(f.m[r], minus(f, f2, r), plus(u, u2, r))))]
    def covers(self, c): return [("fetched", c.ret != 0), ("none", c.ret == 0)]
class Release(PM_):
    fn = PM + "release"
    def ensures(self, c):
        if getattr(c, "call", False): return []
        one, pre, post = self.sec(c); p = c.a(0)
        if pre is None or post is None: return [("null is refused, anything else is decided under the lock", And(p == 0, c.ret.code < 0))]
        (f, u), (f2, u2) = pre, post
        return [("one critical section", one), ("releasing succeeds exactly for a used pipeline", (c.ret.code >= 0) == u.m[p]), ("a released pipeline is free again and no longer in use", Implies(u.m[p], And(minus(u, u2, p), plus(f, f2, p)))),
                ("a refused release changes nothing", Implies(Not(u.m[p]), And(same(f, f2), same(u, u2))))]
    def covers(self, c): return [("released", c.ret.code >= 0), ("refused", c.ret.code < 0)]
class Add(PM_):
    fn = PM + "add"
    def ensures(self, c):
        one, pre, post = self.sec(c); p = c.a(0)
        if getattr(c, "call", False): return []
        if pre is None or post is None: return [("refused without touching anything only when null or initialised", And(Or(p == 0, c(INIT)), c.ret.code < 0))]
        (f, u), (f2, u2) = pre, post
        return [("refused while initialised", Not(c.o(INIT))), ("a new pipeline becomes free", Implies(And(Not(f.m[p]), Not(u.m[p])), And(c.ret.code >= 0, plus(f, f2, p), same(u, u2)))),
                ("a pipeline that is already there is not duplicated", Implies(Or(f.m[p], u.m[p]), And(c.ret.code < 0, same(f, f2), same(u, u2))))]
    def covers(self, c): return [("added", c.ret.code >= 0)]
class Remove(PM_):
    fn = PM + "remove"
    def ensures(self, c):
        one, pre, post = self.sec(c); p = c.a(0)
        if pre is None or post is None: return [("refused without touching anything only when null or initialised", And(Or(p == 0, c(INIT)), c.ret.code < 0))]
        (f, u), (f2, u2) = pre, post
        return [("refused while initialised", Not(c.o(INIT))), ("only that pipeline is removed, and only if it is free", And(minus(f, f2, p), same(u, u2), c.ret.code >= 0))]
class Clear(PM_):
    fn = PM + "clear"
    def ensures(self, c):
        one, pre, post = self.sec(c)
        if pre is None or post is None: return [("refused only while initialised", And(c(INIT), c.ret.code < 0))]
        (f, u), (f2, u2) = pre, post
        return [("nothing is left", And(f2.hi == f2.lo, u2.hi == u2.lo, c.ret.code >= 0))]


class Find(PM_):
    """not thread-safe by documentation; exact membership"""
    fn = PM + "find"; locked = False; inline_only = True; modifies = ()
    def ensures(self, c): return [("exactly the pipelines that are free or in use", c.ret == Or(c.o(FR).m[c.a(0)], c.o(US).m[c.a(0)]))]
class Size(PM_):
    fn = PM + "getSize"; locked = False; modifies = ()
    def setup(self, c): PM_.setup(self, c); c.ex.assume(And(c(FR).hi - c(FR).lo < 2**31, c(US).hi - c(US).lo < 2**31))
    def ensures(self, c): return [("all pipelines are counted", c.ret == c.o(FR).hi - c.o(FR).lo + c.o(US).hi - c.o(US).lo)]


class Run(PM_):
    """fetches one pipeline, runs it and gives it back, whatever the run does"""
    fn = PM + "run"; may_throw = True; modifies = PM_.modifies + ("GElement.cur_state_",); locked = True
    def setup(self, c): PM_.setup(self, c); c.ex.st.ghost.update(mine=z3.IntVal(0), nf=z3.IntVal(0), nr=z3.IntVal(0), acc=z3.IntVal(0))
    def ensures(self, c):
        gh = c.ex.st.ghost
        return [("an uninitialised manager runs nothing", Implies(Not(c.o(INIT)), And(c.ret.code < 0, gh["nr"] == 0, gh["nf"] == 0))), ("the fetched pipeline is given back", gh["mine"] == 0),
                ("success means one run", Implies(c.ret.code >= 0, gh["nr"] == 1)), ("the run's error is the result", Implies(gh["acc"] < 0, c.ret.code == gh["acc"])), ("without a free pipeline an error", Implies(gh["nr"] == 0, c.ret.code < 0)), ("a successful run is reported as such", Implies(And(gh["nr"] == 1, gh["acc"] >= 0), c.ret.code >= 0))]
    def on_throw(self, c): return [("a run that throws gives its pipeline back", c.ex.st.ghost["mine"] == 0)]
    def covers(self, c): return [] if c.threw else [("ran", c.ret.code >= 0), ("nothing free", And(c.ex.st.ghost["nf"] == 1, c.ex.st.ghost["nr"] == 0))]
class CFetch(Contract):
    fn = PM + "fetch"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost; ex.prove("one pipeline is fetched", And(gh["nf"] == 0, this == ex.spec.c.this)); r = ex.fresh("fetched", I); ex.assume(r >= 0); gh["nf"] = z3.IntVal(1); gh["mine"] = r; return r
class CRelease(Contract):
    fn = PM + "release"; trusted = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost; v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        ex.prove("the pipeline it fetched is given back once", And(gh["mine"] != 0, v == gh["mine"], this == ex.spec.c.this)); gh["mine"] = z3.IntVal(0); r = ex.fresh_value(STATUS, "rel"); ex.assume(r.code == 0); return r
class PRun(Contract):
    fn = "CGraph::GPipeline::run"; trusted = True; virtual_any = True; may_throw = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost; ex.prove("the fetched pipeline is run, once, while it is held", And(this == gh["mine"], this != 0, gh["nr"] == 0)); gh["nr"] = z3.IntVal(1)
        if ex.choose(2) == 1: raise CxxThrow(*Contract.thrown(self, ex))
        r = ex.fresh_value(STATUS, "run"); gh["acc"] = r.code; return r


OPS = [Fetch(), Release(), Add(), Remove(), Clear(), Find(), Size()]
for _c in OPS: _c.registry = []
_r = Run(); _r.registry = [CFetch(), CRelease(), PRun()]
CONTRACTS = OPS + [_r]
VERIFY = CONTRACTS
DRIVERS = ["c16"]
DRIVER_SECONDS = 15
NOTE = ("Lock invariant (no pipeline twice, none both free and in use) and exact effect of every critical section are proved for fetch, release, add, remove and clear under arbitrary interference between critical sections; run gives its pipeline back on every path including exceptions. "
        "Not covered: find / getSize are documented as not thread-safe and are proved sequentially; init and destroy of the manager only iterate (they require that nothing is in use). The replay driver explores thread schedules and is bounded.")

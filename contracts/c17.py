"""C17: the parameter store: exact effect of every operation on the key -> parameter map, one critical section each, and the phases of a run."""
from .base import *
from cgv.types import *
from cgv.interp import *
from . import c15

PM = "CGraph::GParamManager::"
MP = "GParamManager.params_map_"
KEY, BT = "GParam.key_", "GParam.backtrace_enable_"
k_, l_ = z3.Const("qk", Str), z3.Const("ql", Str)
typeid = z3.Function("typeid", I, I)


def val(m, k): return m.c[".v"][k]
def inv(ex, r):
    m = ex.rd(MP, r)
    return [("no null parameter is stored", ForAll([k_], Implies(m.m[k_], val(m, k_) > 0), patterns=[val(m, k_)])), ("a parameter is stored under one key", ForAll([k_, l_], Implies(And(m.m[k_], m.m[l_], k_ != l_), val(m, k_) != val(m, l_)), patterns=[z3.MultiPattern(val(m, k_), val(m, l_))])),
            ("stored parameters are alive", ForAll([k_], Implies(m.m[k_], ex.alive(val(m, k_))), patterns=[val(m, k_)]))]
def same(a, b): return ForAll([k_], And(a.m[k_] == b.m[k_], Implies(a.m[k_], val(a, k_) == val(b, k_))), patterns=[b.m[k_], val(b, k_)])
def but(a, b, k): return ForAll([k_], Implies(k_ != k, And(a.m[k_] == b.m[k_], Implies(a.m[k_], val(a, k_) == val(b, k_)))), patterns=[b.m[k_], val(b, k_)])


class Op(Contract):
    modifies = ((MP, lambda c: [c.this]), ); check_null = True; locked = True; deletes = None; frame_ignore = ("ghost",)
    def setup(self, c):
        ex = c.ex; ex.st.ghost["sec"] = z3.IntVal(0); ex.st.ghost["pre"] = None; ex.st.ghost["post"] = None
        ex.ghost_field("dels", INT); ex.havoc_key("ghost", "dels", INT); ex.assume(ForAll([a_], ex.rd("ghost.dels", a_) == 0))
    def requires(self, c): return inv(c.ex, c.this)
    def acquire(self, ex, m, k):
        if m.name != "mutex_" or not m.cls.endswith("GParamManager"): return
        gh = ex.st.ghost; ex.prove("each operation is one critical section on its own manager", And(gh["sec"] == 0, m.ref == self.c.this))
        cls, n, t = ex.find_field(MP); ex.havoc_at(cls, n, self.c.this, t)
        for n, f in inv(ex, self.c.this): ex.assume(f)
        gh["sec"] = gh["sec"] + 1; gh["pre"] = ex.rd(MP, self.c.this)
    def release(self, ex, m, k):
        if m.name != "mutex_" or ex.st.ghost["pre"] is None: return
        if not getattr(ex, "unwinding", False):
            for n, f in inv(ex, self.c.this): ex.prove("map invariant: " + n, f)
        ex.st.ghost["post"] = ex.rd(MP, self.c.this)
    def on_read(self, ex, cls, name, ref):
        if name == "params_map_" and self.locked: ex.prove("the map is only touched while the lock is held", z3.BoolVal(bool(ex.st.held)))
    on_write = on_read
    def on_delete(self, ex, ref, t):
        pre = ex.st.ghost["pre"]
        ex.prove("only the removed parameter is destroyed, once", And(ex.rd("ghost.dels", ref) == 0, *([self.may_delete(pre, ref)] if pre is not None else [z3.BoolVal(False)])))
        ex.wr("ghost.dels", ref, ex.rd("ghost.dels", ref) + 1)
    def may_delete(self, pre, ref): return z3.BoolVal(False)
    def sec(self, c):
        gh = c.ex.st.ghost; pre, post = gh["pre"], gh["post"]
        return (gh["sec"] == 1, pre, post)


class Create(Op):
    fn = PM + "create"; modifies = Op.modifies + (KEY, BT, "GParam.backtrace_", "GParam.backtrace_lock_")
    frame_ignore = ("ghost",)
    def T(self, c):
        return c.ex.typeid_of(c.ex.T.parse(c.f.targs[0]).n)
    def loop_invs(self, L):
        ex = L.ex; c = self.c; out = []
        for k, t in L.locals(lambda t, n: t.k == "ptr"):
            out.append(("allocated object is new and of the requested type", lambda L, k=k: Implies(L.value(k) != 0, And(L.value(k) > 0, ex.alive(L.value(k)), Not(ex.alive(L.value(k), c.old_st)), typeid(L.value(k)) == self.T(c)))))
        p = ex.st.ghost["pre"]
        out.append(("stored parameters stay alive", lambda L: ForAll([k_], Implies(p.m[k_], ex.alive(val(p, k_))), patterns=[val(p, k_)])))
        return out
    def ensures(self, c):
        if getattr(c, "call", False): return []
        one, pre, post = self.sec(c); ex = c.ex
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        k = c.a(0); v = val(post, k); T = self.T(c)
        return [("one critical section", one), ("no other key is affected", but(pre, post, k)), ("an existing key keeps its parameter", Implies(pre.m[k], And(post.m[k], val(pre, k) == v))),
                ("an existing key is accepted for its own type only", Implies(pre.m[k], (c.ret.code >= 0) == (typeid(val(pre, k)) == T))),
                ("a new key holds a new parameter of the requested type and key", Implies(Not(pre.m[k]), And(c.ret.code >= 0, post.m[k], v > 0, Not(ex.alive(v, c.old_st)), typeid(v) == T, ex.rd(KEY, v) == k)))]
    def covers(self, c): return [("created", Not(c.ex.st.ghost["pre"].m[c.a(0)])), ("same type", And(c.ex.st.ghost["pre"].m[c.a(0)], c.ret.code >= 0)), ("other type", c.ret.code < 0)] if c.ex.st.ghost["pre"] is not None else []



class Get(Op):
    """by documentation not concurrent with changes; decides by exact type"""
    fn = PM + "get"; locked = False; modifies = ()
    def ensures(self, c):
        if getattr(c, "call", False): return []
        m = c.o(MP); k = c.a(0); T = c.ex.typeid_of(c.ex.T.parse(c.f.targs[0]).n)
        return [("the parameter of that key exactly when it has that type", c.ret == If(And(m.m[k], typeid(val(m, k)) == T), val(m, k), 0))]
    def covers(self, c): return [("found", c.ret != 0), ("wrong type", And(c.ret == 0, c.o(MP).m[c.a(0)])), ("unknown key", Not(c.o(MP).m[c.a(0)]))]
class Get4py(Op):
    fn = PM + "__get_4py"; locked = False; modifies = ()
    def ensures(self, c): m = c.o(MP); k = c.a(0); return [("the parameter of that key", c.ret == If(m.m[k], val(m, k), 0))]
class Has4py(Op):
    fn = PM + "__has_4py"
    def ensures(self, c):
        one, pre, post = self.sec(c)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        return [("one critical section", one), ("exactly the stored keys", c.ret == pre.m[c.a(0)]), ("nothing changes", same(pre, post))]
class Keys(Op):
    fn = PM + "getKeys"
    def ensures(self, c):
        one, pre, post = self.sec(c)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        r = c.ret
        return [("one critical section", one), ("nothing changes", same(pre, post)), ("as many keys as parameters", r.hi - r.lo == pre.hi - pre.lo), ("every reported key is stored", ForAll([i_], Implies(And(r.lo <= i_, i_ < r.hi), pre.m[r.d[i_]]), patterns=[r.d[i_]])),
                ("every stored key is reported", ForAll([i_], Implies(And(0 <= i_, i_ < pre.hi - pre.lo), r.d[r.lo + i_] == pre.d[pre.lo + i_]), patterns=[pre.d[pre.lo + i_]]))]
    def loop_invs(self, L):
        if L.rng is None: return []
        out = []
        for k, t in L.locals(lambda t, n: t.k == "vec"):
            out.append(("one key per visited entry, in order", lambda L, k=k: And(L.value(k).lo == 0, L.value(k).hi == L.k - L.seq.lo, ForAll([i_], Implies(And(L.seq.lo <= i_, i_ < L.k), L.value(k).d[i_ - L.seq.lo] == L.seq.d[i_]), patterns=[L.seq.d[i_]]))))
        return out
class Remove(Op):
    fn = PM + "removeByKey"
    def may_delete(self, pre, ref): k = self.c.a(0); return And(pre.m[k], ref == val(pre, k))
    def ensures(self, c):
        one, pre, post = self.sec(c); k = c.a(0)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        return [("one critical section", one), ("removing succeeds exactly for a stored key", (c.ret.code >= 0) == pre.m[k]), ("the key is gone", Not(post.m[k])), ("no other key is affected", but(pre, post, k)), ("an unknown key changes nothing", Implies(Not(pre.m[k]), same(pre, post))),
                ("the removed parameter is destroyed", Implies(pre.m[k], c.ex.rd("ghost.dels", val(pre, k)) == 1))]
    def covers(self, c): return [("removed", c.ret.code >= 0), ("unknown", c.ret.code < 0)]
class Remove4py(Remove): fn = PM + "__remove_4py"
class Create4py(Op):
    """the first parameter stored under a key wins"""
    fn = PM + "__create_4py"
    def requires(self, c):
        p = c.a(0); m = c(MP); return [("the caller hands over a live parameter of its own", And(p > 0, c.ex.alive(p)))] + inv(c.ex, c.this)
    def acquire(self, ex, m, k):
        Op.acquire(self, ex, m, k)
        if ex.st.ghost["pre"] is not None:
            pre = ex.st.ghost["pre"]; p = self.c.a(0); ex.assume(And(ex.alive(p), ForAll([k_], Implies(pre.m[k_], val(pre, k_) != p), patterns=[val(pre, k_)])))
    def ensures(self, c):
        one, pre, post = self.sec(c); k = c.a(1)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        return [("one critical section", one), ("an existing key keeps its parameter", Implies(pre.m[k], same(pre, post))), ("a new key holds that parameter", Implies(Not(pre.m[k]), And(post.m[k], val(post, k) == c.a(0)))), ("no other key is affected", but(pre, post, k)), ("always accepted", c.ret.code >= 0)]
class Clear(Op):
    fn = PM + "clear"
    def may_delete(self, pre, ref): return Exists([i_], And(pre.lo <= i_, i_ < pre.hi, val(pre, pre.d[i_]) == ref))
    def ensures(self, c):
        one, pre, post = self.sec(c)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        return [("one critical section", one), ("nothing is left", And(post.hi == post.lo, c.ret.code >= 0)), ("every parameter is destroyed", ForAll([i_], Implies(And(pre.lo <= i_, i_ < pre.hi), c.ex.rd("ghost.dels", val(pre, pre.d[i_])) == 1), patterns=[pre.d[i_]]))]
    def loop_invs(self, L):
        if L.rng is None: return []
        ex = L.ex
        pre = ex.st.ghost["pre"]; now = lambda: ex.rd(MP, self.c.this)
        return [("exactly the visited parameters are destroyed", lambda L: ForAll([i_], Implies(And(pre.lo <= i_, i_ < pre.hi), ex.rd("ghost.dels", val(pre, pre.d[i_])) == If(i_ < L.k, 1, 0)), patterns=[pre.d[i_]])),
                ("the entries still to come are as before", lambda L: ForAll([i_], Implies(And(L.k <= i_, i_ < pre.hi), val(now(), pre.d[i_]) == val(pre, pre.d[i_])), patterns=[pre.d[i_]]))]


OPS = [Create(), Get(), Get4py(), Has4py(), Keys(), Remove(), Remove4py(), Create4py(), Clear()]
for _c in OPS: _c.registry = []
EACH = [e for e in c15.EACH if e.fn in (PM + "setup", PM + "resetWithStatus")]
RUN = [e for e in c15.V if e.fn == c15.GP + "run"]
CONTRACTS = OPS + EACH + RUN
VERIFY = CONTRACTS
DRIVERS = ["c17"]
DRIVER_SECONDS = 12
NOTE = ("Each operation of the store (create and get as two instances of the real member templates, whose bodies depend on the type only through typeid and new) is proved to have its exact effect on the map in one critical section, for every interleaving of other critical sections; destroyed parameters are exactly the removed ones. "
        "setup / resetWithStatus call every parameter once and GPipeline::run orders them around the elements. Assumed: type_info::name() is one string per type, allocation succeeds, retrieval is not concurrent with creation or removal (the code takes no lock there). The replay driver is bounded.")

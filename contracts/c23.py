"""C23: the number of pool threads.  Lock invariant of the list of secondary threads (st_mutex_): primary + secondary <= max."""
from .queues import *
from .c22 import TP, TM, TS, TB, STORE, Submit, Wake, Sec as SecCall
from . import c22

SC, PT, CF = "UThreadPool.secondary_threads_", "UThreadPool.primary_threads_", "UThreadPoolConfig."
DONE, BINIT, IDX, TGT, BCFG, PTS = "UThreadBase.done_", "UThreadBase.is_init_", "UThreadPrimary.index_", "UThreadPrimary.steal_targets_", "UThreadBase.config_", "UThreadPrimary.pool_threads_"
cnt = z3.Function("kept.before", I, I)
NAMES = ("default_thread_size_", "secondary_thread_size_", "max_thread_size_")


def conf(ex, pool): return ex.subobj("CGraph::UThreadPool", "config_", pool)
def cf(ex, pool, n, st=None): return ex.rd(CF + n + "_thread_size_", conf(ex, pool), st)
def consistent(ex, k, st=None):
    d, s, m = (ex.rd(CF + n, k, st) for n in NAMES)
    return And(d >= 0, s >= 0, d + s <= m, Not(And(ex.rd(CF + "monitor_enable_", k, st), ex.rd(CF + "monitor_span_", k, st) <= 0)))
def room(ex, pool): return cf(ex, pool, "max") - cf(ex, pool, "default")
def at(v, i): return v.d[v.lo + i]


# ---- configuration ----------------------------------------------------------------------------------------------------
class Check(Contract):
    fn = "CGraph::UThreadPoolConfig::check"; modifies = ()
    def ensures(self, c): return [("an error exactly for an inconsistent configuration", (c.ret.code < 0) == Not(consistent(c.ex, c.this))), ("a plain error or success", Or(c.ret.code == 0, c.ret.code == -1))]
    def covers(self, c): return [("consistent", c.ret.code == 0), ("inconsistent", c.ret.code < 0)]
class SetConfig(Contract):
    fn = TP + "setConfig"; nparams = 1; modifies = Any; check_null = False
    def requires(self, c): return [("a configuration", c.a(0) > 0), ("of its own", c.a(0) != conf(c.ex, c.this))]
    def ensures(self, c):
        ex = c.ex; k = conf(ex, c.this); st0 = c.old_st; ok = And(Not(c.o("UThreadPool.is_init_")), consistent(ex, c.a(0), st0)); o = [("refused exactly when running or inconsistent", (c.ret.code >= 0) == ok)]
        for n in NAMES + ("max_task_steal_range_", "monitor_enable_", "monitor_span_"):
            o.append(("the configuration in force is the given one, or unchanged: " + n, c(CF + n, k) == If(ok, c.o(CF + n, c.a(0)), c.o(CF + n, k))))
        return o + [("a consistent configuration is in force", Implies(consistent(ex, k, st0), consistent(ex, k))), ("no thread is touched", And(c(PT).hi == c.o(PT).hi, c(SC).hi == c.o(SC).hi))]
    def covers(self, c): return [("accepted", c.ret.code >= 0), ("refused", c.ret.code < 0)]


# ---- secondary threads --------------------------------------------------------------------------------------------------
class Locked(Contract):
    """functions that use the list of secondary threads: only under its lock, whose invariant they keep"""
    check_null = False; modifies = Any; raw = RAW; strict = True
    def requires(self, c): return [("a consistent configuration", consistent(c.ex, conf(c.ex, c.this)))]
    def setup(self, c): gh = c.ex.st.ghost; gh["pre"] = gh["post"] = None; gh["nsec"] = z3.IntVal(0); gh["quiet"] = False; self.more(c)
    def more(self, c): pass
    def mine(self, m): return m.name == "st_mutex_" and z3.is_expr(m.ref) and m.ref.eq(self.c.this)
    def held(self, ex): return any(k[1] == "st_mutex_" and k[2] == self.c.this.sexpr() for k in ex.st.held)
    def lst(self, ex): cls, n, t = ex.find_field(SC); return ex.hread(cls, n, self.c.this, t)
    def inv(self, ex, v):
        return [("never more threads than the maximum", And(v.lo <= v.hi, v.hi - v.lo <= room(ex, self.c.this))), ("secondary threads exist", ForAll([i_], Implies(And(v.lo <= i_, i_ < v.hi), And(v.d[i_] > 0, ex.alive(v.d[i_]))), patterns=[v.d[i_]])),
                ("each once", ForAll([i_, j_], Implies(And(v.lo <= i_, i_ < j_, j_ < v.hi), v.d[i_] != v.d[j_]), patterns=[z3.MultiPattern(v.d[i_], v.d[j_])]))]
    def acquire(self, ex, m, k):
        if not self.mine(m): return
        gh = ex.st.ghost; cls, n, t = ex.find_field(SC); gh["quiet"] = True; ex.havoc_at(cls, n, self.c.this, t); v = self.lst(ex)
        for nm, f in self.inv(ex, v): ex.assume(f)
        gh["pre"] = v; gh["post"] = None; gh["quiet"] = False; gset(ex, "nsec", gh["nsec"] + 1); self.entered(ex, v)
    def entered(self, ex, v): pass
    def release(self, ex, m, k):
        if not self.mine(m): return
        gh = ex.st.ghost; gh["quiet"] = True; v = self.lst(ex); gh["quiet"] = False
        for nm, f in self.inv(ex, v): ex.prove(nm, f)
        gh["post"] = v
    def on_read(self, ex, cls, name, ref):
        if name == "secondary_threads_" and not ex.st.ghost["quiet"] and self.strict: ex.prove("the secondary threads are only looked at under their lock", z3.BoolVal(self.held(ex)))
    def on_write(self, ex, cls, name, ref):
        if name == "secondary_threads_" and not ex.st.ghost["quiet"]: ex.prove("the list of secondary threads is only changed under its lock", z3.BoolVal(self.held(ex)))
    def frame(self, L):
        ex = L.ex
        o = [("the configuration stays", lambda L: And(*[ForAll([r_], ex.rd(CF + n, r_) == ex.rd(CF + n, r_, L.entry), patterns=[ex.rd(CF + n, r_)]) for n in NAMES]))]
        return o
    def its(self, ex): return [k for k, v in ex.st.vars.items() if isinstance(v, IterVal) and isinstance(v.lv, LField) and v.lv.name == "secondary_threads_"]
    def q(self, ex):
        gh = ex.st.ghost; was = gh["quiet"]; gh["quiet"] = True; v = self.lst(ex); gh["quiet"] = was; return v


class SecInit(Contract):
    """one secondary thread (verified below)"""
    fn = TS + "init"; nparams = 0; check_null = False; modifies = ((BINIT, lambda c: [c.this]), ("UThreadSecondary.cur_ttl_", lambda c: [c.this]), ("UThreadBase.thread_", lambda c: [c.this]))
    def requires(self, c): return [("configured", And(c(BCFG) > 0, Not(c(BINIT))))]
    def setup(self, c): c.ex.st.ghost["nthr"] = z3.IntVal(0)
    def on_thread(self, ex, args): gset(ex, "nthr", ex.st.ghost["nthr"] + 1)
    def effect(self, c):
        if "nthr" in c.ex.st.ghost: gset(c.ex, "nthr", c.ex.st.ghost["nthr"] + 1)
    def ensures(self, c):
        o = [("succeeds", c.ret.code == 0), ("is started", c(BINIT))]
        return o if getattr(c, "call", False) else o + [("exactly one thread is started", c.ex.st.ghost["nthr"] == 1)]
class Sched(Contract): trusted = True; modifies = (); nparams = None
SCHED = [Sched(fn=TB + "setSchedParam"), Sched(fn=TB + "setAffinity")]


class Create(Locked):
    fn = TP + "createSecondaryThread"; nparams = 1
    def more(self, c): c.ex.st.ghost["nthr"] = z3.IntVal(0)
    def n(self, ex):
        P = ex.st.ghost["pre"]; left = room(ex, self.c.this) - size(P); k = If(self.c.a(0) < left, self.c.a(0), left); return If(k > 0, k, 0)
    def ensures(self, c):
        ex = c.ex; a, b = ex.st.ghost["pre"], ex.st.ghost["post"]
        if getattr(c, "call", False): return [("succeeds", c.ret.code == 0)]
        if a is None or b is None: return [("one critical section", z3.BoolVal(False))]
        n = self.n(ex)
        return [("succeeds", c.ret.code == 0), ("one critical section", ex.st.ghost["nsec"] == 1), ("as many threads are added as were asked for and there is room", size(b) == size(a) + n), ("the others stay", keep(a, b, size(a))),
                ("every thread added is new", ForAll([i_], Implies(And(b.lo + size(a) <= i_, i_ < b.hi), Not(ex.alive(b.d[i_], c.old_st))), patterns=[b.d[i_]])), ("and is started once", And(ex.st.ghost["nthr"] == n, ForAll([i_], Implies(And(b.lo + size(a) <= i_, i_ < b.hi), c(BINIT, b.d[i_])), patterns=[b.d[i_]])))]
    def covers(self, c): P = c.ex.st.ghost["pre"]; return [] if P is None else [("none", self.n(c.ex) == 0), ("some", self.n(c.ex) > 1), ("not all", And(self.n(c.ex) > 0, self.n(c.ex) < c.a(0)))]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; q = lambda: self.q(ex); P = lambda: ex.st.ghost["pre"]; G = lambda n: ex.st.ghost[n]; o = []
        if P() is None: return []
        for k, t in L.locals(lambda t, n: t.k == "int"):
            o += [("one per turn", lambda L, k=k: And(size(q()) == size(P()) + L.value(k), G("nthr") == L.value(k), L.value(k) >= 0)), ("within the number asked for", lambda L, k=k: L.value(k) <= self.n(ex))]
        o += [("the others stay", lambda L: And(keep(P(), q(), size(P())), q().lo == P().lo)), ("no error", lambda L: And(*[L.value(k).code == 0 for k, t in L.locals(lambda t, n: t.k == "status")]))]
        new = lambda v, i: And(v.lo + size(P()) <= i, i < v.hi)
        o += [("the threads added are new and started", lambda L: ForAll([i_], Implies(new(q(), i_), And(q().d[i_] > 0, ex.alive(q().d[i_]), Not(ex.alive(q().d[i_], c.old_st)), ex.rd(BINIT, q().d[i_]))), patterns=[q().d[i_]])),
              ("each once", lambda L: ForAll([i_, j_], Implies(And(new(q(), i_), new(q(), j_), i_ < j_), q().d[i_] != q().d[j_]), patterns=[z3.MultiPattern(q().d[i_], q().d[j_])]))]
        return o + self.frame(L)


class Release(Locked):
    fn = TP + "releaseSecondaryThread"; nparams = 1
    def entered(self, ex, v):
        # cnt(k): how many of the first k threads are still wanted (definition)
        ex.assume(cnt(0) == 0); ex.assume(ForAll([i_], Implies(And(v.lo <= i_, i_ < v.hi), cnt(i_ - v.lo + 1) == cnt(i_ - v.lo) + If(ex.rd(DONE, v.d[i_]), 1, 0)), patterns=[v.d[i_]]))
        ex.st.ghost["done0"] = ex.st.copy()
    def was(self, ex, x): return ex.rd(DONE, x, ex.st.ghost["done0"])
    def cleaned(self, ex, v, k):
        """of the first k threads those still wanted are kept, in order"""
        P = ex.st.ghost["pre"]
        return [("as many as are still wanted", cnt(k)), ("in order", ForAll([i_], Implies(And(P.lo <= i_, i_ < P.lo + k, self.was(ex, P.d[i_])), And(cnt(i_ - P.lo) >= 0, cnt(i_ - P.lo) < cnt(k), v.d[v.lo + cnt(i_ - P.lo)] == P.d[i_])), patterns=[P.d[i_]]))]
    def ensures(self, c):
        ex = c.ex; a, b = ex.st.ghost["pre"], ex.st.ghost["post"]
        if a is None or b is None: return [("one critical section", z3.BoolVal(False))]
        n = cnt(size(a)); ok = c.a(0) <= n; m = If(c.a(0) > 0, c.a(0), 0)
        return [("one critical section", ex.st.ghost["nsec"] == 1), ("asking for more threads than there are is refused", (c.ret.code < 0) == Not(ok)), ("the threads told to finish before are gone, the others stay", And(size(b) == n, self.cleaned(ex, b, size(a))[1][1])),
                ("exactly the requested number of threads is told to finish", Implies(ok, ForAll([i_], Implies(And(b.lo <= i_, i_ < b.hi), c(DONE, b.d[i_]) == (i_ - b.lo >= m)), patterns=[b.d[i_]]))),
                ("a refused request tells none to finish", Implies(Not(ok), ForAll([i_], Implies(And(b.lo <= i_, i_ < b.hi), c(DONE, b.d[i_])), patterns=[b.d[i_]])))]
    def covers(self, c): return [("released", And(c.ret.code >= 0, c.a(0) > 0)), ("refused", c.ret.code < 0)]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; gh = ex.st.ghost; P = lambda: ex.st.ghost["pre"]; q = lambda: self.q(ex); o = []
        for k in self.its(ex):
            pos = lambda k=k: ex.st.vars[k].pos
            kk = lambda: P().hi - P().lo - (q().hi - pos())
            o += [("in the list", lambda L: And(q().lo <= pos(), pos() <= q().hi, q().lo == P().lo)),
                  ("looked at so far", lambda L: And(kk() >= 0, pos() - q().lo == cnt(kk()))), ("the rest is untouched", lambda L: ForAll([i_], Implies(And(pos() <= i_, i_ < q().hi), q().d[i_] == P().d[i_ + (P().hi - q().hi)]), patterns=[q().d[i_]])),
                  ("the rest is untouched'", lambda L: ForAll([i_], Implies(And(P().lo + kk() <= i_, i_ < P().hi), q().d[i_ - (P().hi - q().hi)] == P().d[i_]), patterns=[P().d[i_]])),
                  ("kept so far", lambda L: self.cleaned(ex, q(), kk())[1][1]), ("all kept are wanted", lambda L: ForAll([i_], Implies(And(q().lo <= i_, i_ < pos()), self.was(ex, q().d[i_])), patterns=[q().d[i_]])),
                  ("nothing is told to finish while cleaning", lambda L: ForAll([r_], ex.rd(DONE, r_) == ex.rd(DONE, r_, L.entry), patterns=[ex.rd(DONE, r_)])),
                  ("not more than before", lambda L: cnt(kk()) <= kk()), ("threads stay in the list once", lambda L: And(*[f for _, f in self.inv(ex, q())]))]
            o += [("marked so far", lambda L: ForAll([i_], Implies(And(q().lo <= i_, i_ < q().hi), ex.rd(DONE, q().d[i_]) == (i_ >= pos())), patterns=[q().d[i_]]))]
        for k, t in L.locals(lambda t, n: t.k == "int"):
            for j in self.its(ex): o.append(("requests left", lambda L, k=k, j=j: And(L.value(k) == c.a(0) - (ex.st.vars[j].pos - q().lo), Or(L.value(k) >= 0, ex.st.vars[j].pos == q().lo))))
        return o + self.frame(L)


class MonCreate(Contract):
    """createSecondaryThread as the monitor thread sees it (verified above)"""
    fn = TP + "createSecondaryThread"; nparams = 1; trusted = True; modifies = (SC,)
    def requires(self, c): return Locked.requires(self, c) + [("the lock is free", z3.BoolVal(not any(k[1] == "st_mutex_" for k in c.ex.st.held)))]
class Monitor(Locked):
    fn = TP + "monitor"; nparams = 0; strict = True
    def ensures(self, c): return []
    def loop_invs(self, L):
        ex = L.ex; o = self.frame(L)
        if not self.held(ex): return o
        for n in range(3): o.append(("the list in the critical section: %d" % n, lambda L, n=n: self.inv(ex, self.q(ex))[n][1]))
        return o + [("the list only shrinks", lambda L: And(self.q(ex).lo == ex.st.ghost["pre"].lo, self.q(ex).hi <= ex.st.ghost["pre"].hi))]
class WakeAll(Locked):
    fn = TP + "wakeupAllThread"; nparams = 0
    def ensures(self, c): return []
    def requires(self, c): v = c(PT); return Locked.requires(self, c) + [("the primary threads exist", ForAll([i_], Implies(And(v.lo <= i_, i_ < v.hi), v.d[i_] > 0), patterns=[v.d[i_]]))]
    def loop_invs(self, L): return self.frame(L)


# ---- primary threads ----------------------------------------------------------------------------------------------------
def targets(ex, t, st=None):
    """steal targets of thread t: existing threads other than t"""
    v = ex.rd(TGT, t, st); k = ex.rd(BCFG, t, st); d = ex.rd(CF + "default_thread_size_", k, st); r = ex.rd(CF + "max_task_steal_range_", k, st); n = If(r < d - 1, r, d - 1)
    return [("as many steal targets as configured", And(v.lo == 0, v.hi == If(n > 0, n, 0))), ("steal targets denote other existing threads", ForAll([i_], Implies(And(v.lo <= i_, i_ < v.hi), And(v.d[i_] >= 0, v.d[i_] < d, v.d[i_] != ex.rd(IDX, t, st))), patterns=[v.d[i_]]))]
class Range(Contract):
    fn = "CGraph::UThreadPoolConfig::calcStealRange"; nparams = 0; modifies = ()
    def ensures(self, c): d, r = c(CF + "default_thread_size_"), c(CF + "max_task_steal_range_"); return [("the configured range, below the number of threads", c.ret == If(r < d - 1, r, d - 1))]
class Targets(Contract):
    fn = TM + "buildStealTargets"; nparams = 0; check_null = False; mod_facts = True; modifies = ((TGT, lambda c: [c.this]),)
    def requires(self, c): return [("an index of its own", And(c(BCFG) > 0, c(IDX) >= 0, c(IDX) < c(CF + "default_thread_size_", c(BCFG))))]
    def ensures(self, c): return targets(c.ex, c.this)
    def loop_invs(self, L):
        ex = L.ex; th = self.c.this; o = []
        for k, t in L.locals(lambda t, n: t.k == "int"):
            v = lambda: ex.rd(TGT, th)
            o += [("so far", lambda L, k=k: And(v().lo == 0, v().hi == L.value(k), L.value(k) >= 0)), ("within range", lambda L, k=k: Or(L.value(k) == 0, And(L.value(k) <= ex.rd(CF + "max_task_steal_range_", ex.rd(BCFG, th)), L.value(k) <= ex.rd(CF + "default_thread_size_", ex.rd(BCFG, th)) - 1)))]
        return o + [("existing threads", lambda L: targets(ex, th)[1][1]), ("others' targets stay", lambda L: And(*[ForAll([r_], Implies(r_ != th, ex.rd(TGT, r_).c[p] == ex.rd(TGT, r_, L.entry).c[p]), patterns=[ex.rd(TGT, r_).c[p]]) for p in ex.rd(TGT, th).c]))]
class PrimInit(SecInit):
    fn = TM + "init"; modifies = ((BINIT, lambda c: [c.this]), (TGT, lambda c: [c.this]), ("UThreadBase.thread_", lambda c: [c.this]))
    def requires(self, c): return SecInit.requires(self, c) + Targets.requires(self, c)
    def ensures(self, c): return SecInit.ensures(self, c) + targets(c.ex, c.this)
class CreateCall(Contract):
    fn = TP + "createSecondaryThread"; nparams = 1; trusted = True; modifies = (SC,)
    def effect(self, c): c.ex.st.ghost["asked"] = c.a(0); gset(c.ex, "nask", c.ex.st.ghost["nask"] + 1)
    def ensures(self, c): return [("-", c.ret.code == 0)]
class PoolInit(Contract):
    timeout = 400
    fn = TP + "init"; nparams = 0; modifies = Any; check_null = False; check_bounds = True; raw = RAW
    def requires(self, c): v = c(PT); return [("a consistent configuration", consistent(c.ex, conf(c.ex, c.this))), ("no primary threads before", Implies(Not(c("UThreadPool.is_init_")), And(v.lo == 0, v.hi == 0)))]
    def setup(self, c): gh = c.ex.st.ghost; gh["nthr"] = z3.IntVal(0); gh["asked"] = z3.IntVal(-7); gh["nask"] = z3.IntVal(0); gh["nmon"] = z3.IntVal(0)
    def on_thread(self, ex, args): gset(ex, "nmon", ex.st.ghost["nmon"] + 1)
    def mineth(self, ex, v, n, started, k):
        """the first n primary threads; the first k of them are started"""
        th = self.c.this; x = v.d[i_]; al = ex.alive
        o = And(x > 0, al(x), Not(al(x, self.c.old_st)), ex.rd(IDX, x) == i_, ex.rd(BCFG, x) == conf(ex, th), ex.rd(BINIT, x) == (i_ < k))
        return [("thread i has index i and is set up", ForAll([i_], Implies(And(0 <= i_, i_ < n), o), patterns=[x])), ("each once", ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < n), v.d[i_] != v.d[j_]), patterns=[z3.MultiPattern(v.d[i_], v.d[j_])]))]
    def tgts(self, ex, v, k): return ForAll([j_], Implies(And(0 <= j_, j_ < k), And(*[f for _, f in targets(ex, v.d[j_])])), patterns=[v.d[j_]])
    def ensures(self, c):
        ex = c.ex; v = c(PT); d = cf(ex, c.this, "default"); was = c.o("UThreadPool.is_init_"); gh = ex.st.ghost
        return [("succeeds", And(c.ret.code == 0, c("UThreadPool.is_init_"))), ("a running pool stays as it is", Implies(was, And(gh["nthr"] == 0, gh["nask"] == 0, v.hi == c.o(PT).hi))),
                ("exactly the configured number of primary threads", Implies(Not(was), And(v.lo == 0, v.hi == d, gh["nthr"] == d)))] + \
               [(nm, Implies(Not(was), f)) for nm, f in self.mineth(ex, v, d, True, d)] + [("steal targets denote other existing threads", Implies(Not(was), self.tgts(ex, v, d))), ("the configured number of secondary threads is asked for", Implies(Not(was), And(gh["nask"] == 1, gh["asked"] == cf(ex, c.this, "secondary")))), ("the configuration stays", And(*[cf(ex, c.this, n) == cf(ex, c.this, n, c.old_st) for n in ("default", "secondary", "max")]))]
    def covers(self, c): was = c.o("UThreadPool.is_init_"); return [("initialised", Not(was)), ("again", was)]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; th = c.this; v = lambda: ex.rd(PT, th); d = lambda: cf(ex, th, "default"); G = lambda n: ex.st.ghost[n]; o = [("configuration stays", lambda L: And(*[ForAll([r_], ex.rd(CF + n, r_) == ex.rd(CF + n, r_, L.entry), patterns=[ex.rd(CF + n, r_)]) for n in NAMES + ("max_task_steal_range_",)]))]
        al = ex.alive
        alloc = L.locals(lambda t, n: t.k == "ptr")
        for k, t in alloc:
            o += [("the thread allocated is new", lambda L, k=k: Implies(L.value(k) != 0, And(L.value(k) > 0, al(L.value(k)), Not(al(L.value(k), L.entry)), Not(ex.rd(BINIT, L.value(k))))))]
        if alloc:
            cols = [(lambda st, n=n: (lambda r: ex.rd(n, r, st))) for n in (IDX, BINIT, BCFG)] + [(lambda st, p=p: (lambda r: ex.rd(TGT, r, st).c[p])) for p in ex.rd(TGT, th).c]
            for g in cols: o.append(("existing threads stay as they are", lambda L, g=g: ForAll([r_], Implies(al(r_, L.entry), g(None)(r_) == g(L.entry)(r_)), patterns=[g(None)(r_)])))
            o.append(("nothing dies", lambda L: ForAll([r_], Implies(al(r_, L.entry), al(r_)))))
        else:
          for k, t in L.locals(lambda t, n: t.k == "int" and t.n == "int"):
            o += [("created so far", lambda L, k=k: And(v().lo == 0, v().hi == L.value(k), G("nthr") == 0)), ("all created", lambda L: And(v().lo == 0, v().hi == d())), ("started so far", lambda L, k=k: G("nthr") == L.value(k)), ("index", lambda L, k=k: And(0 <= L.value(k), L.value(k) <= d())), ("targets so far", lambda L, k=k: self.tgts(ex, v(), L.value(k)))]
            o += [("each thread once", lambda L: self.mineth(ex, v(), v().hi, False, z3.IntVal(0))[1][1]), ("set up so far", lambda L: self.mineth(ex, v(), v().hi, False, z3.IntVal(0))[0][1]), ("set up and started so far", lambda L, k=k: self.mineth(ex, v(), v().hi, True, L.value(k))[0][1])]
        o += [("no error", lambda L: And(*[L.value(k).code == 0 for k, t in L.locals(lambda t, n: t.k == "status")])), ("nothing asked", lambda L: G("nask") == 0)]
        return o


# ---- dispatch -----------------------------------------------------------------------------------------------------------
class Dispatch(Contract):
    fn = TP + "dispatch"; nparams = 1; check_null = False; check_bounds = True; modifies = (("UThreadPool.cur_index_", lambda c: [c.this]),)
    def requires(self, c):
        v = c(PT); return [("a running pool: one primary thread per configured thread", And(v.lo == 0, v.hi == cf(c.ex, c.this, "default"), ForAll([i_], Implies(And(0 <= i_, i_ < v.hi), v.d[i_] > 0), patterns=[v.d[i_]]))), ("with at least one thread allowed", cf(c.ex, c.this, "max") >= 1)]
    def ensures(self, c):
        g = c.ex.p.globals; D, TA = -1, -102
        return [("an index chosen by the caller is kept", Implies(c.a(0) != D, c.ret == c.a(0))), ("otherwise an index below the maximum, or the pool's own queue", Implies(c.a(0) == D, Or(And(0 <= c.ret, c.ret < cf(c.ex, c.this, "max")), c.ret == TA)))]
    def covers(self, c): return [("local", And(c.a(0) == -1, c.ret >= 0)), ("pool", And(c.a(0) == -1, c.ret == -102)), ("chosen", c.a(0) == 3)]
class SubIdx(Submit):
    """submission only ever uses existing threads (index obligations)"""
    def ensures(self, c): return []
class StoreAny(Contract):
    trusted = True
    def apply(self, ex, f, this, vals, objty): ex.prove("stored in an existing queue", this != 0); return z3.BoolVal(True) if f.name == "tryPush" else None
STOREANY = [StoreAny(fn=s.fn, nparams=s.nparams) for s in STORE]
SUB = [SubIdx(fn=TP + n, nparams=k, which=w, label="UThreadPool::%s#%d" % (n, w)) for n, k, m in (("execute", 2, 5), ("executeWithTid", 4, 1)) for w in range(m)]
for _c in SUB: _c.registry = STOREANY + [Wake()]

CFG = [Check(), SetConfig()]
SEC = [SecInit(label="UThreadSecondary::init"), Create(), Release(), Monitor(), WakeAll()]
PRIM = [Range(), Targets(), PrimInit(), PoolInit()]
DISP = [Dispatch()]
SEC[0].registry = SCHED; SEC[1].registry = [SecInit()]; SEC[2].registry = []; SEC[3].registry = [MonCreate()]; SEC[4].registry = []
PRIM[1].registry = [Range()]; PRIM[2].registry = SCHED + [Targets()]; PRIM[3].registry = [PrimInit(), CreateCall()]
CONTRACTS = CFG + SEC + PRIM + DISP + SUB
VERIFY = CONTRACTS
DRIVERS = ["c23"]
DRIVER_SECONDS = 20
NOTE = ("Proved for every configuration, list content and request: setConfig accepts exactly consistent configurations; init creates exactly the configured number of primary threads, each with its own index and steal targets among the other "
        "existing threads, starts each once and asks for the configured secondary threads; createSecondaryThread and releaseSecondaryThread are one critical section of the list's lock each, keep primary + secondary <= maximum, add exactly the threads "
        "there is room for, remove exactly those told to finish and refuse to release more than there are; the monitor and the wake-up walk the list only under that lock; dispatch and all submission functions only index existing threads. "
        "Assumed: std::thread creation and allocation succeed; a pool of no threads at all (serial pipelines) takes no tasks; destroy is not called concurrently with other calls on the pool.")
ASSUMPTIONS = ["std::thread creation and memory allocation succeed", "UThreadPool::destroy is not called concurrently with other calls on the same pool", "a pool configured without any thread (max_thread_size_ 0, serial pipelines) is given no task",
               "the lock invariant (primary + secondary <= maximum) holds initially: the list of a new pool is empty and the configuration consistent (setConfig)", "the sum in UThreadPoolConfig::check() does not overflow"]

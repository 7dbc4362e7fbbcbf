"""Shared contracts of the graph engines: start permissions (tokens), consumed dependency edges, rely conditions.

Ghost state of one run, per element e:
  consumed(e)  the predecessors whose edge into e has been consumed;   okdone(e)  e's execution ended without error
  started(e)   e has been started;                                     restored(e)  e's pending count was reset after use
Ghost state of the executing thread: tok (elements it may start), perm (successors of `me` whose edge it may still consume).
A token for e is created only by the step that consumes the last edge into e (or, for an element without predecessors, once
at the start of the run); started(e) is set only by spending a token.  Hence: at most one start per run, after all
predecessors.  Tokens may be dropped only when an error is recorded; hence at least one start otherwise.

Waking the caller: with P = (finished_end_size_ >= total_end_size_) or (inflight_num_ == 0 and an error is recorded), a step that makes P true
obliges the thread (owe) to notify under the caller's mutex before it ends; mine is this thread's own contribution to inflight_num_,
pend one that is about to be handed to a task, main the calling thread (which is awake).  P never becomes false again."""
from .base import *
from cgv.types import *
from cgv.core import CV
from cgv.interp import *

GD = "CGraph::GDynamicEngine::"
ST, FE, TE, INF = "GDynamicEngine.cur_status_", "GDynamicEngine.finished_end_size_", "GDynamicEngine.total_end_size_", "GDynamicEngine.inflight_num_"
SH, FR, TA = "GElement.shape_", "GDynamicEngine.front_element_arr_", "GDynamicEngine.total_element_arr_"
EP = Ty("ptr", [Ty("cls", n="CGraph::GElement")])
SHAPE = {"NORMAL": 0, "LINKABLE": 1, "ROOT": 2, "TAIL": 3}
AI = z3.ArraySort(I, B)
s_, p_, e_ = z3.Int("qs"), z3.Int("qp"), z3.Int("qe")
NOBODY = z3.K(I, z3.BoolVal(False))


PN = "GDynamicEngine.parallel_run_num_"
def members(ex, st=None): return ex.rd(TA, ex.st.ghost["engine"], st).m


def ghosts(ex):
    for n in ("endset", "pendset"): ex.ghost_field(n, Ty("pqueue", [EP]))
    ex.ghost_field("consumed", Ty("pqueue", [EP])); ex.ghost_field("okdone", BOOL); ex.ghost_field("started", BOOL); ex.ghost_field("restored", BOOL)


def shape_facts(ex, st=None):
    """what calcShape establishes (its postcondition, proved in C01)"""
    sh = ex.rd(SH, e_, st); su = ex.rd(RB, e_, st)
    S = SHAPE; T = members(ex, st)
    def ForAll(vs, f, patterns): return z3.ForAll(vs, Implies(T[e_], f), patterns=patterns)
    return [("shape: linkable elements have one successor, which has one predecessor", ForAll([e_], Implies(sh == S["LINKABLE"], And(su.hi == 1, ex.rd(DP, su.d[0], st).hi == 1)), patterns=[sh])),
            ("shape: successors of a root element have one predecessor", ForAll([e_, s_], Implies(And(sh == S["ROOT"], su.m[s_]), ex.rd(DP, s_, st).hi == 1), patterns=[z3.MultiPattern(sh, su.m[s_])])),
            ("shape: exactly the elements without successors are tails", ForAll([e_], (sh == S["TAIL"]) == (su.hi == 0), patterns=[sh])),
            ("shape is one of four", ForAll([e_], And(sh >= 0, sh <= 3), patterns=[sh]))]


def INV(ex, st=None):
    co = ex.rd("ghost.consumed", s_, st); d = ex.rd(DP, s_, st); ok = ex.rd("ghost.okdone", p_, st); ld = ex.rd(LD, s_, st)
    re = ex.rd("ghost.restored", s_, st); sh = ex.rd(SH, p_, st); started = ex.rd("ghost.started", s_, st); T = members(ex, st); g = ex.st.ghost; en = g["engine"]
    es, pe = ex.rd("ghost.endset", en, st), ex.rd("ghost.pendset", en, st); common = g["common"]
    okp = ex.rd("ghost.restored", p_, st) if common else z3.BoolVal(True)
    edges = [("only edges of finished predecessors are consumed", ForAll([s_, p_], Implies(co.m[p_], And(d.m[p_], ok, okp)), patterns=[co.m[p_]])),
            ("pending count = predecessors not yet consumed", ForAll([s_, p_], Implies(And(T[s_], d.m[p_], sh == SHAPE["NORMAL"], Not(re)), ld == d.hi - co.hi), patterns=[z3.MultiPattern(d.m[p_], ld)])),
            ("a restored pending count is the number of predecessors", ForAll([s_], Implies(re, ld == d.hi), patterns=[re])),
            ("elements are started or restored only after all their edges were consumed", ForAll([s_, p_], Implies(And(Or(started, re), d.m[p_]), co.m[p_]), patterns=[z3.MultiPattern(started, d.m[p_]), z3.MultiPattern(re, d.m[p_])])),
            ]
    return (edges if common else []) + [("only started elements finish", ForAll([s_], Implies(ex.rd("ghost.okdone", s_, st), started), patterns=[ex.rd("ghost.okdone", s_, st)])),
           ] + [f for f, on in [
            (("the finished ends are counted", And(ex.rd(FE, en, st) == es.hi, ForAll([s_], Implies(es.m[s_], And(T[s_], ex.rd("ghost.okdone", s_, st), ex.rd(RB, s_, st).hi == 0, re if common else z3.BoolVal(True))), patterns=[es.m[s_]]))), common),
            (("the finished parallel elements are counted", And(ex.rd(PN, en, st) == pe.hi, ForAll([s_], Implies(pe.m[s_], And(T[s_], Or(ex.rd("ghost.okdone", s_, st), ex.rd(ST, en, st).code < 0))), patterns=[pe.m[s_]]))), not common)] if on and g["counting"]]


def CARD(ex, st=None):
    """finite-set lemma, assumed: a subset of the same size is the whole set"""
    co = ex.rd("ghost.consumed", s_, st); d = ex.rd(DP, s_, st)
    return [ForAll([s_], And(co.hi >= 0, co.hi <= d.hi), patterns=[co.hi]),
            ForAll([s_, p_], Implies(And(co.hi == d.hi, d.m[p_]), co.m[p_]), patterns=[z3.MultiPattern(co.hi, d.m[p_])]),
            ForAll([s_, p_], Implies(And(d.m[p_], Not(co.m[p_])), co.hi < d.hi), patterns=[z3.MultiPattern(d.m[p_], co.m[p_])])]


def ENDS(ex, st=None):
    """finite-set lemmas, assumed: a set of tails as large as the set of all tails is all of them; likewise for the parallel elements"""
    g = ex.st.ghost; en = g["engine"]; es, pe = ex.rd("ghost.endset", en, st), ex.rd("ghost.pendset", en, st); te = ex.rd(TE, en, st); T = members(ex, st)
    return [es.hi >= 0, pe.hi >= 0, Implies(es.hi >= te, ForAll([s_], Implies(And(T[s_], ex.rd(RB, s_, st).hi == 0), es.m[s_]), patterns=[T[s_]])),
            Implies(pe.hi >= ex.rd(TA, en, st).hi, ForAll([s_], Implies(T[s_], pe.m[s_]), patterns=[T[s_]]))]


def P(ex, st=None):
    en = ex.st.ghost["engine"]
    return Or(ex.rd(FE, en, st) >= ex.rd(TE, en, st), And(ex.rd(INF, en, st) == 0, ex.rd(ST, en, st).code < 0))


def quiet(ex, f, *a):
    """read without the interference hooks"""
    g = ex.st.ghost; sv = g.get("inhook"); g["inhook"] = True
    try: return f(ex, *a)
    finally: g["inhook"] = sv


def ready(ex, e, st=None):
    d = ex.rd(DP, e, st); ok = ex.rd("ghost.okdone", p_, st)
    return ForAll([p_], Implies(d.m[p_], ok), patterns=[d.m[p_]])


def allconsumed(ex, e, st=None):
    d = ex.rd(DP, e, st); co = ex.rd("ghost.consumed", e, st)
    return ForAll([p_], Implies(d.m[p_], co.m[p_]), patterns=[d.m[p_]])


def settok(ex, e, v, name="tok"):
    n = ex.fresh(name, AI); g = ex.st.ghost
    ex.assume(n == z3.Store(g[name], e, v)); g[name] = n; ex.note_write(("g", name))


SHARED = ("ghost.consumed", "ghost.okdone", "ghost.started", "ghost.restored", "ghost.endset", "ghost.pendset", LD, "GElement.done_", ST, FE, INF, PN)


class Eng(Contract):
    """a function of the dynamic engine, executed while other threads execute other elements"""
    modifies = SHARED
    concurrent = True
    timeout = 450; raw = ("useq",)
    counting = True          # the counter of finished ends belongs to this run
    common = True            # run of an ordinary graph (tasks counted in inflight_num_)
    main = None              # executed by the calling thread? (None: either)
    me = None
    def eng(self, ex): return self.c.this if self.c is not None else ex.st.ghost["engine"]
    c = None; loop_ms = 1000
    def shared(self, cls, name): return any(f.split(".")[-1] == name for f in SHARED) and self.concurrent
    # -- interference
    def env(self, ex):
        g = ex.st.ghost
        if not g.get("conc", True): return
        old = ex.st.copy()
        keep = self.held(ex)
        for f in SHARED:
            if (f == ST and keep) or (f in (LD, "ghost.consumed", "ghost.restored", "ghost.endset", FE, INF) and not g["common"]): continue
            cls, n, t = self.fld(ex, f); ex.havoc_key(cls, n, t)
        self.rely(ex, old)
    def held(self, ex): return any(k[1] == "status_lock_" for k in ex.st.held)
    def rely(self, ex, old):
        for nm, f in INV(ex): ex.assume(f)
        for f in CARD(ex) + ENDS(ex): ex.assume(f)
        for nm, f in self.step(ex, old): ex.assume(f)
        g = ex.st.ghost; en = g["engine"]
        ex.assume(And(ex.rd(INF, en) >= g["mine"] + g["pend"], ex.rd(INF, en) < 2**63, ex.rd(PN, en) >= 0))
        g["stv"] = ex.rd(ST, en)
    def step(self, ex, old=None):
        """what no step of another thread undoes"""
        g = ex.st.ghost; tok, perm, me, en = g["tok"], g["perm"], g["me"], g["engine"]
        co0, co1 = ex.rd("ghost.consumed", s_, old), ex.rd("ghost.consumed", s_)
        def r(f, x, st=None): return ex.rd("ghost." + f, x, st)
        es0, es1, pe0, pe1 = (ex.rd("ghost." + n, en, st) for n in ("endset", "pendset") for st in (old, None))
        out = [("no other thread counts the elements this thread may start", ForAll([s_], Implies(tok[s_], pe1.m[s_] == pe0.m[s_]), patterns=[pe1.m[s_]])), ("the end of this thread's element is counted by this thread only", And(es1.m[me] == es0.m[me], pe1.m[me] == pe0.m[me])),
               ("counted ends stay counted", And(es1.hi >= es0.hi, pe1.hi >= pe0.hi)),
               ("nothing moves while no task is in flight", Implies(And(g["main"], ex.rd(INF, en, old) == 0), And(ex.rd(INF, en) == 0, ex.rd(ST, en).code == ex.rd(ST, en, old).code, ex.rd(FE, en) == ex.rd(FE, en, old)))) if g["common"] else ("-", z3.BoolVal(True)),
               ("consumed edges stay consumed", ForAll([s_, p_], Implies(co0.m[p_], co1.m[p_]), patterns=[co1.m[p_]])),
               ("finished elements stay finished", ForAll([s_], Implies(r("okdone", s_, old), r("okdone", s_)), patterns=[r("okdone", s_)])),
               ("started elements stay started", ForAll([s_], Implies(r("started", s_, old), r("started", s_)), patterns=[r("started", s_)])),
               ("no other thread consumes this thread's edges", ForAll([s_], Implies(perm[s_], co1.m[me] == co0.m[me]), patterns=[co1.m[me]])),
               ("no other thread starts the elements this thread may start", ForAll([s_], Implies(tok[s_], And(r("started", s_) == r("started", s_, old), r("restored", s_) == r("restored", s_, old))), patterns=[r("started", s_)])),
               ("the element being executed by this thread is touched by no other", And(r("started", me) == r("started", me, old), r("restored", me) == r("restored", me, old), r("okdone", me) == r("okdone", me, old))),
               ("a recorded error stays recorded", Implies(ex.rd(ST, en, old).code < 0, And(ex.rd(ST, en).code == ex.rd(ST, en, old).code, ex.rd(ST, en).info == ex.rd(ST, en, old).info)))]
        if not g["common"]: out = [x for x in out if x[0] not in ("-", "consumed edges stay consumed", "no other thread consumes this thread's edges", "the end of this thread's element is counted by this thread only", "the element being executed by this thread is touched by no other")] if self.main else [x for x in out if x[0] != "-"]
        return out
    def step_(self, ex, old): return self.step(ex, old)
    # -- hooks
    def on_read(self, ex, cls, name, ref):
        if name == "cur_status_" and not ex.st.ghost.get("inhook"): quiet(ex, self.env)
    def on_write(self, ex, cls, name, ref):
        g = ex.st.ghost
        if name != "cur_status_" or "engine" not in g: return
        new = quiet(ex, lambda ex: ex.rd(ST, g["engine"])); old = g["stv"]; g["stv"] = new
        if g.get("preparing"): return
        if g.get("conc"):
            ex.prove("the shared status is written under its lock", z3.BoolVal(self.held(ex)))
            if g["common"]: ex.prove("only a counted task or the caller records an error", Or(g["main"], g["mine"] == 1, new.code >= 0))
        f = g.get("failed")
        ex.prove("the first recorded error is kept", Implies(old.code < 0, And(new.code == old.code, new.info == old.info)))
        ex.prove("a recorded error is one that an element reported", Implies(And(new.code < 0, old.code >= 0), And(f.code == new.code, f.info == new.info) if f is not None else z3.BoolVal(False)))
    def on_notify(self, ex, cv, n):
        g = ex.st.ghost
        if not g.get("conc"): return
        ex.prove("the caller is woken under its mutex", z3.BoolVal(any(k[1] == "mtx_" for k in ex.st.held)))
        g["owe"] = z3.BoolVal(False); ex.note_write(("g", "owe"))
    def gset(self, ex, k, v): ex.st.ghost[k] = v; ex.note_write(("g", k))
    def before_atomic(self, ex, lv, op):
        if getattr(lv, "name", "") in ("left_depend_", "finished_end_size_", "parallel_run_num_", "inflight_num_"):
            if op != "store": self.env(ex)
            if not ex.st.ghost["common"] and lv.name in ("left_depend_", "finished_end_size_", "inflight_num_") and op != "load": ex.prove("a run without dependencies does not touch %s" % lv.name, z3.BoolVal(False))
            if lv.name != "left_depend_": ex.assume(lv.get(ex) < 2**63)     # a count of elements of the pipeline does not wrap around
    def after_atomic(self, ex, lv, op, old, new):
        g = ex.st.ghost
        nm = getattr(lv, "name", "")
        if nm == "left_depend_" and op in ("--", "fetch_sub"):
            s = lv.ref; me = g["me"]
            ex.prove("only the edges of the finished element are consumed", And(g["perm"][s], ex.rd(DP, s).m[me], ex.rd("ghost.okdone", me)))
            ex.prove("one edge per decrement", new == old - 1)
            self.consume(ex, s, me)
            co, d = ex.rd("ghost.consumed", s), ex.rd(DP, s)
            # the step that consumed the last edge creates the permission to start s
            settok(ex, s, Or(g["tok"][s], co.hi == d.hi))
        elif nm == "left_depend_" and op == "store": pass
        elif nm in ("finished_end_size_", "parallel_run_num_"):
            gh = "ghost.endset" if nm[0] == "f" else "ghost.pendset"; en = g["engine"]; me = g["me"]
            if op == "load": return
            if op == "store":
                ex.prove("the counter is reset by the caller before the run only", And(g["main"], new == 0, z3.BoolVal(not g["counting"]))); g["counting"] = True
                ex.wr(gh, en, CV(Ty("pqueue", [EP]), {".m": NOBODY, ".hi": z3.IntVal(0)})); return
            ex.prove("one end per increment", new == old + 1)
            ex.prove("the end of an executed element is counted once", g["endp"])
            if nm[0] == "f": ex.prove("only elements without successors count as ends", And(ex.rd(RB, me).hi == 0, ex.rd("ghost.okdone", me), ex.rd("ghost.restored", me)))
            es = ex.rd(gh, en); n = ex.fresh("es.m", AI); ex.assume(n == z3.Store(es.m, me, z3.BoolVal(True)))
            ex.wr(gh, en, CV(Ty("pqueue", [EP]), {".m": n, ".hi": es.hi + 1})); self.gset(ex, "endp", z3.BoolVal(False))
            for f in ENDS(ex): ex.assume(f)
            te = ex.rd(TE, en); self.gset(ex, "owe", Or(g["owe"], And(old < te, new >= te)))
        elif nm == "inflight_num_" and op != "load":
            up = op in ("fetch_add", "++"); en = g["engine"]
            ex.prove("the in-flight count changes by one", new == (old + 1 if up else old - 1))
            if up:
                ex.prove("a task is counted by the caller or by a counted task", Or(g["main"], g["mine"] == 1))
                ex.prove("each count belongs to one task", g["pend"] == 0); self.gset(ex, "pend", z3.IntVal(1))
            else:
                ex.prove("a task leaves once", g["mine"] == 1); self.gset(ex, "mine", z3.IntVal(0))
                err = quiet(ex, lambda ex: ex.rd(ST, en)).code < 0
                self.gset(ex, "owe", Or(g["owe"], And(new == 0, err)))
    def consume(self, ex, s, me):
        g = ex.st.ghost
        co = ex.rd("ghost.consumed", s)
        n = ex.fresh("co.m", AI)
        ex.prove("an edge is consumed once", Not(co.m[me]))
        ex.assume(n == z3.Store(co.m, me, z3.BoolVal(True)))
        ex.wr("ghost.consumed", s, CV(Ty("pqueue", [EP]), {".m": n, ".hi": co.hi + 1}))
        for f in CARD(ex): ex.assume(f)
        settok(ex, s, z3.BoolVal(False), "perm")
    def direct(self, ex, s):
        """at a start of s right after its only predecessor: consume that edge and take the permission"""
        g = ex.st.ghost; me = g["me"]
        if ex.branch(And(g["perm"][s], Not(g["tok"][s]))):
            ex.prove("start without the counter: the element has no other predecessor", And(ex.rd(DP, s).m[me], ex.rd(DP, s).hi == 1, ex.rd("ghost.okdone", me)))
            self.consume(ex, s, me)
            co, d = ex.rd("ghost.consumed", s), ex.rd(DP, s)
            settok(ex, s, co.hi == d.hi)
    def spend(self, ex, e):
        settok(ex, e, z3.BoolVal(False))
    # -- verification entry
    def setup(self, c):
        ex = c.ex; ghosts(ex); g = ex.st.ghost
        g["engine"] = c.this; g["conc"] = self.concurrent; g["common"] = self.common; g["inhook"] = False
        g["counting"] = self.counting; g["owe"] = z3.BoolVal(False); g["pend"] = z3.IntVal(0); g["endp"] = z3.BoolVal(self.me == 0); g["failed"] = None
        g["main"] = z3.Bool("main0") if self.main is None else z3.BoolVal(self.main); g["mine"] = z3.Int("mine0") if self.main is None else z3.IntVal(0)
        if self.main is None: ex.assume(And(g["mine"] >= 0, g["mine"] <= 1, Or(g["main"], g["mine"] == 1)))
        T = ex.rd(TA, c.this); ex.assume(ForAll([s_, p_], Implies(And(T.m[s_], ex.rd(RB, s_).m[p_]), T.m[p_]), patterns=[z3.MultiPattern(T.m[s_], ex.rd(RB, s_).m[p_])]))
        ex.assume(ForAll([s_, p_], Implies(And(T.m[s_], ex.rd(DP, s_).m[p_]), T.m[p_]), patterns=[z3.MultiPattern(T.m[s_], ex.rd(DP, s_).m[p_])])); ex.assume(Not(T.m[0]))
        g["stv"] = quiet(ex, lambda ex: ex.rd(ST, c.this))
        g["me"] = c.args[0] if self.me == 0 else z3.Int("nobody")
        if self.me is None: ex.assume(z3.Int("nobody") == 0)
        g["tok"], g["perm"] = z3.Const("tok0", AI), z3.Const("perm0", AI)
        ex.assume(self.tok0(c, g["tok"])); ex.assume(self.perm0(c, g["perm"]))
        for n, f in EDGES(ex) + shape_facts(ex) + quiet(ex, INV) + quiet(ex, self.start, c): ex.assume(f)
        for f in CARD(ex) + ENDS(ex): ex.assume(f)
        ex.assume(And(ex.rd(INF, c.this) >= g["mine"], ex.rd(INF, c.this) < 2**63))
    def start(self, ex, c): return []
    def tok0(self, c, t): return ForAll([s_], Not(t[s_]), patterns=[t[s_]])
    def perm0(self, c, t): return ForAll([s_], Not(t[s_]), patterns=[t[s_]])
    def err(self, ex, st=None): return quiet(ex, lambda ex: ex.rd(ST, ex.st.ghost["engine"], st).code < 0)
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; g = ex.st.ghost
        return [("a start permission is dropped only when an error is recorded", ForAll([s_], Implies(g["tok"][s_], self.err(ex)))),
                ("a dependency edge is dropped only when an error is recorded", ForAll([s_], Implies(g["perm"][s_], self.err(ex)))),
                ("an end that makes the run complete is announced to the caller", Not(g["owe"])), ("no task is counted without being submitted", g["pend"] == 0),
                ("the task itself is still counted" if self.main is None else "the caller is not counted", g["mine"] == (z3.Int("mine0") if self.main is None else 0))] + quiet(ex, INV) + self.post(c)
    def post(self, c): return []
    def loop_invs(self, L):
        ex = L.ex
        out = [(n, lambda L, n=n: dict(quiet(L.ex, INV))[n]) for n, _ in quiet(ex, INV)]
        if "tok" in L.entry.ghost:
            entry = L.entry
            names = [n for n, _ in quiet(ex, self.step_, entry)]
            def st(L, i):
                # the permissions that matter are those still held
                return quiet(L.ex, self.step_, entry)[i][1]
            out += [(n, lambda L, i=i: st(L, i)) for i, n in enumerate(names)]
            out.append(("finite-set lemma", lambda L: And(*(CARD(L.ex) + ENDS(L.ex)))))
            out.append(("nothing is owed", lambda L: And(Not(L.ex.st.ghost["owe"]), L.ex.st.ghost["pend"] == 0, L.ex.st.ghost["mine"] == entry.ghost["mine"])))
            out.append(("own tasks are counted", lambda L: And(L.ex.rd(INF, L.ex.st.ghost["engine"]) >= L.ex.st.ghost["mine"], L.ex.rd(INF, L.ex.st.ghost["engine"]) < 2**63)))
        return out


class FatProcessor(Eng):
    """the element's own execution (C06): spends the start permission"""
    fn = "CGraph::GElement::fatProcessor"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        g = ex.st.ghost; sp = ex.spec
        if "tok" not in g: raise Unsupported("fatProcessor outside an engine")
        ex.prove("the element is not null", this != 0)
        ex.prove("executed as a run", (vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]) == run_kind(ex))
        if getattr(sp, "serial", False): sp.direct(ex, this)
        ex.prove("the element may be started: permission held, used once", And(g["tok"][this], Not(ex.rd("ghost.started", this))))
        ex.prove("all predecessors have finished successfully before the start", ready(ex, this))
        ex.prove("no error of a predecessor is ignored: its edge was consumed", allconsumed(ex, this))
        sp.spend(ex, this); ex.wr("ghost.started", this, z3.BoolVal(True))
        g["me"] = this; g["perm"] = NOBODY; ex.note_write(("g", "perm"))
        sp.env(ex)
        r = ex.fresh_value(STATUS, "ran")
        ex.wr("ghost.okdone", this, r.code >= 0)
        su = ex.rd(RB, this)
        p = ex.fresh("perm", AI)
        ex.assume(ForAll([s_], p[s_] == And(su.m[s_], r.code >= 0), patterns=[p[s_], su.m[s_]]))
        # nobody but this execution may consume the edges that leave this element
        co = ex.rd("ghost.consumed", s_)
        ex.assume(ForAll([s_], Not(co.m[this]), patterns=[co.m[this]]))
        g["perm"] = p; ex.note_write(("g", "perm")); ex.note_write(("g", "me")); en = g["engine"]
        ex.assume(And(Not(ex.rd("ghost.endset", en).m[this]), Not(ex.rd("ghost.pendset", en).m[this])))
        sp.gset(ex, "endp", z3.BoolVal(True) if not sp.common else r.code >= 0)
        g["failed"] = r
        return r


def run_kind(ex): return z3.IntVal(ex.p.enums["CGraph::CFunctionType::RUN"])


class Refresh(Eng):
    fn = "CGraph::GElement::refresh"; virtual_any = True; trusted = True
    """proved in C10: restores the pending count to the number of predecessors"""
    def apply(self, ex, f, this, vals, objty):
        g = ex.st.ghost
        if g.get("conc"):
            ex.prove("the pending count is reset only by the execution that owns the element", Or(g["tok"][this], And(g["me"] == this, Not(ex.rd("ghost.okdone", this))), And(g["me"] == this, ForAll([s_], Implies(ex.rd(RB, this).m[s_], g["perm"][s_])))))
            ex.prove("the pending count is reset only after its edges were consumed", allconsumed(ex, this))
        ex.wr(LD, this, ex.rd(DP, this).hi); ex.wr("GElement.done_", this, z3.BoolVal(False)); ex.wr("ghost.restored", this, z3.BoolVal(True))
        return None


class Execute(Contract):
    """thread pool (C22): an accepted task is executed exactly once, later, on some thread"""
    fn = "CGraph::UThreadPool::execute"; trusted = True; modifies = SHARED
    def apply(self, ex, f, this, vals, objty):
        g = ex.st.ghost; sp = ex.spec
        clo = vals[0]
        if isinstance(clo, LV): clo = clo.get(ex)
        clo = ex.unfn(clo)
        if not isinstance(clo, Closure): raise Unsupported("task of unknown form")
        e = next((v.get(ex) if isinstance(v, LV) else v for v in clo.copies.values()), None)
        if sp.common: ex.prove("the task is counted before it is submitted", g["pend"] == 1); 
        ex.prove("the task captures its element by value", z3.BoolVal(e is not None and all(isinstance(v, (LTmp, LObj)) for v in clo.copies.values())))
        if ex.choose(2) == 0:
            # the task itself, at any later time, on another thread, owning the permission for its element
            t = ex.fresh("tok", AI); ex.assume(ForAll([s_], t[s_] == And(g["tok"][e], s_ == e), patterns=[t[s_]]))
            g["tok"], g["perm"], g["me"], g["endp"], g["owe"], g["main"], g["mine"], g["pend"], g["failed"] = t, NOBODY, z3.IntVal(0), z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False), z3.IntVal(1 if sp.common else 0), z3.IntVal(0), None
            ex.st.held = {}
            sp.env(ex)
            ex.call_value(clo, [])
            for nm, x in sp.task_end(ex): ex.prove("task: " + nm, x)
            raise PathEnd("task")
        ex.prove("a submitted element may be started", g["tok"][e])
        sp.spend(ex, e); sp.gset(ex, "pend", z3.IntVal(0))
        sp.env(ex)
        return None
class ExecuteTid(Execute):
    fn = "CGraph::UThreadPool::executeWithTid"


def task_end(self, ex):
    g = ex.st.ghost
    return [("a start permission is dropped only when an error is recorded", ForAll([s_], Implies(g["tok"][s_], self.err(ex)))),
            ("an end that makes the run complete is announced to the caller", Not(g["owe"])), ("a finished task is no longer counted", And(g["mine"] == 0, g["pend"] == 0))]
Eng.task_end = task_end


class Process(Eng):
    fn = GD + "process"
    def requires(self, c):
        if getattr(c, "call", False):
            self_ = c.ex.spec; self_.direct(c.ex, c.args[0])
        g = c.ex.st.ghost; e = c.args[0]
        return [("the element belongs to the engine", And(e != 0, members(c.ex)[e])), ("nothing is owed to the waiting caller", And(Not(g["owe"]), g["pend"] == 0)), ("the executing thread is counted", Or(g["main"], g["mine"] == 1)), ("the caller may start the element", g["tok"][e]), ("all its edges were consumed", allconsumed(c.ex, e)), ("it was not started before", Not(c.ex.rd("ghost.started", e)))]
    def tok0(self, c, t): return ForAll([s_], t[s_] == (s_ == c.args[0]), patterns=[t[s_]])
    def apply(self, ex, f, this, vals, objty):
        old = ex.st.copy(); args = [v.get(ex) if isinstance(v, LV) and not isinstance(v, LObj) else (v.ref if isinstance(v, LObj) else v) for v in vals]
        c = Ctx(ex, f, this, args, old); c.call = True
        for nm, x in self.requires(c): ex.prove("precondition of %s: %s" % (self.name(), nm), x)
        ex.prove("the counter was reset before the first element starts", z3.BoolVal(ex.st.ghost["counting"]))
        ex.spec.spend(ex, args[0]); ex.spec.env(ex)
        return None


class InnerExec(Process):
    fn = GD + "innerExec"
    def ensures(self, c):
        out = Process.ensures(self, c)
        if getattr(c, "call", False): return out
        ex = c.ex; r = ex.st.ghost.get("failed")
        if r is not None:
            out.append(("an element's error is recorded", Implies(r.code < 0, self.err(ex))))
            out.append(("the pending count was restored for the next run", Implies(r.code >= 0, ex.rd("ghost.restored", c.args[0]))))
        else: out.append(("the element is executed", z3.BoolVal(False)))
        return out


class AfterRun(Eng):
    fn = GD + "afterElementRun"; me = 0
    def requires(self, c):
        ex = c.ex; e = c.args[0]; g = ex.st.ghost
        out = [("the element finished without error", And(e != 0, members(ex)[e], ex.rd("ghost.okdone", e))), ("nothing is owed to the waiting caller", And(Not(g["owe"]), g["pend"] == 0)), ("the executing thread is counted", Or(g["main"], g["mine"] == 1)), ("its end is not counted yet", g["endp"])]
        if getattr(c, "call", False):
            out += [("the element's own outgoing edges are still to be consumed", And(g["me"] == e, ForAll([s_], Implies(ex.rd(RB, e).m[s_], g["perm"][s_])))), ("its pending count was restored", ex.rd("ghost.restored", e))]
        else:
            co = ex.rd("ghost.consumed", s_)
            out += [("own edges unconsumed", ForAll([s_], Implies(ex.rd(RB, e).m[s_], Not(co.m[e])), patterns=[co.m[e]])), ("restored", ex.rd("ghost.restored", e)), ("its end is not counted yet.", Not(quiet(ex, lambda ex: ex.rd("ghost.endset", c.this).m[e])))]
        return out
    def perm0(self, c, t):
        su = c.ex.rd(RB, c.args[0]); return ForAll([s_], t[s_] == su.m[s_], patterns=[t[s_], su.m[s_]])
    def apply(self, ex, f, this, vals, objty):
        old = ex.st.copy(); args = [v.get(ex) if isinstance(v, LV) and not isinstance(v, LObj) else (v.ref if isinstance(v, LObj) else v) for v in vals]
        c = Ctx(ex, f, this, args, old); c.call = True
        for nm, x in self.requires(c): ex.prove("precondition of %s: %s" % (self.name(), nm), x)
        ex.st.ghost["perm"] = NOBODY; ex.st.ghost["endp"] = z3.BoolVal(False); ex.spec.env(ex)
        return None
    def post(self, c):
        ex = c.ex; g = ex.st.ghost; e = c.args[0]
        return [("an element without successors counts as one end", Implies(Not(self.err(ex)), Not(g["endp"]) == (ex.rd(RB, e).hi == 0)))]
    def loop_invs(self, L):
        ex = L.ex; out = Eng.loop_invs(self, L); g = ex.st.ghost; e = self.c.args[0]
        if L.rng is None: return out
        res = L.locals(lambda t, n: t.k == "ptr")
        def visited(L):
            s = L.seq; pm = ex.st.ghost["perm"]
            return ForAll([s_], Implies(And(s.m[s_], s.pos[s_] >= L.k), pm[s_]), patterns=[pm[s_]])
        out.append(("edges of successors still to visit are held", visited))
        def spent(L):
            s = L.seq; pm = ex.st.ghost["perm"]
            return Or(self.err(ex), ForAll([s_], Implies(And(s.m[s_], s.pos[s_] < L.k), Not(pm[s_])), patterns=[pm[s_]]))
        out.append(("edges of visited successors are consumed", spent))
        def owned(L):
            pm = ex.st.ghost["perm"]; s = L.seq
            return ForAll([s_], Implies(pm[s_], s.m[s_]), patterns=[pm[s_]])
        out.append(("held edges lead to successors", owned))
        out.append(("own edges held are unconsumed", lambda L: ForAll([s_], Implies(ex.st.ghost["perm"][s_], Not(ex.rd("ghost.consumed", s_).m[e])), patterns=[ex.st.ghost["perm"][s_]])))
        out.append(("the finished element stays finished", lambda L: ex.rd("ghost.okdone", e)))
        def unsp(L): return ForAll([s_], Implies(ex.st.ghost["tok"][s_], And(s_ != 0, Not(ex.rd("ghost.started", s_)), Not(ex.rd("ghost.restored", s_)))), patterns=[ex.st.ghost["tok"][s_]])
        out.append(("elements with a held permission are not started", unsp))
        out.append(("elements with a held permission have all edges consumed", lambda L: ForAll([s_, p_], Implies(And(ex.st.ghost["tok"][s_], ex.rd(DP, s_).m[p_]), ex.rd("ghost.consumed", s_).m[p_]), patterns=[z3.MultiPattern(ex.st.ghost["tok"][s_], ex.rd(DP, s_).m[p_])])))
        def visitedtok(L):
            s = L.seq
            return ForAll([s_], Implies(ex.st.ghost["tok"][s_], And(s.m[s_], s.pos[s_] < L.k)), patterns=[ex.st.ghost["tok"][s_]])
        out.append(("permissions were obtained from visited successors", visitedtok))
        out.append(("no permission held", lambda L: ForAll([s_], Not(ex.st.ghost["tok"][s_]), patterns=[ex.st.ghost["tok"][s_]])))
        out.append(("no end counted", lambda L: ex.st.ghost["endp"]))
        for k, t in res:
            def only(L, k=k):
                v = L.value(k); return Or(self.err(ex), ForAll([s_], ex.st.ghost["tok"][s_] == And(v != 0, s_ == v), patterns=[ex.st.ghost["tok"][s_]]))
            def only2(L, k=k):
                v = L.value(k); return Implies(v != 0, ex.st.ghost["tok"][v])
            out.append(("the reserved successor is the only one not yet started", only)); out.append(("the reserved successor may be started", only2))
        return out


w_rank = z3.Const("w.rank", I)
def acyclic_facts(ex):
    """every edge goes up in rank (isDag); finite-set lemma, assumed: a non-empty set of elements has one of highest rank"""
    T = members(ex); ex.ghost_field("rank", INT); rk = lambda e: ex.rd("ghost.rank", e); d = ex.rd(DP, s_).m
    return [("every dependency goes up in rank", ForAll([s_, p_], Implies(And(T[s_], d[p_]), rk(p_) < rk(s_)), patterns=[z3.MultiPattern(T[s_], d[p_])]))]
def highest(ex, pred, w):
    T = members(ex); rk = lambda e: ex.rd("ghost.rank", e); x = ex.rd(RB, w)
    return And(ForAll([s_], Implies(And(T[s_], pred(s_)), And(T[w], pred(w), rk(s_) <= rk(w))), patterns=[T[s_]]), Implies(x.hi > 0, x.m[x.d[0]]))
def alldone(ex): return ForAll([s_], Implies(members(ex)[s_], ex.rd("ghost.okdone", s_)), patterns=[members(ex)[s_]])
def counts(ex, st=None):
    """pending counts at rest"""
    return ForAll([s_], Implies(members(ex, st)[s_], ex.rd(LD, s_, st) == ex.rd(DP, s_, st).hi), patterns=[ex.rd(LD, s_, st)])


class RunAll(Eng):
    """the calling thread executes one run; nothing was started, consumed or finished in this run yet"""
    main = True; counting = False
    def fresh_run(self, ex):
        """the ghost state of a new run"""
        r = lambda n: ex.rd("ghost." + n, s_)
        return [("a new run", And(*[ForAll([s_], Not(r(n)), patterns=[r(n)]) for n in ("started", "okdone", "restored")], ForAll([s_, p_], Not(r("consumed").m[p_]), patterns=[r("consumed").m[p_]]),
                                  ForAll([s_], r("consumed").hi == 0, patterns=[r("consumed").hi]))),
                ("no error is recorded", ex.rd(ST, ex.st.ghost["engine"]).code >= 0), ("pending counts at rest", counts(ex))]
    def start(self, ex, c): return self.fresh_run(ex) + acyclic_facts(ex) + self.kind(ex, c)
    def kind(self, ex, c):
        F, T = ex.rd(FR, c.this), ex.rd(TA, c.this)
        return [("front elements", And(T.lo == 0, F.lo == 0, ForAll([s_], F.m[s_] == And(T.m[s_], ex.rd(DP, s_).hi == 0), patterns=[F.m[s_]])))]
    def tok0(self, c, t):
        F = c.ex.rd(FR, c.this); return ForAll([s_], t[s_] == F.m[s_], patterns=[t[s_], F.m[s_]])
    def apply(self, ex, f, this, vals, objty):
        """at the call in run(): the run is a new one, its outcome is the postcondition"""
        old = ex.st.copy(); c = Ctx(ex, f, this, [], old); c.call = True; ex.st.ghost["common"] = self.common
        for nm, x in self.kind(ex, c): ex.prove("precondition of %s: %s" % (self.name(), nm), x)
        for nm, x in [("no error is recorded", ex.rd(ST, this).code >= 0), ("pending counts at rest", counts(ex))]: ex.prove("precondition of %s: %s" % (self.name(), nm), x)
        for f_ in SHARED:
            cls, n, t = self.fld(ex, f_); ex.havoc_key(cls, n, t)
        for nm, x in self.outcome(ex): ex.assume(x)
        return None
    def outcome(self, ex, proving=False): return []
    def P(self, ex): return P(ex)
    def post(self, c): return self.outcome(c.ex, True)


NOEDGE = ("no edge is held", lambda L: ForAll([s_], Not(L.ex.st.ghost["perm"][s_]), patterns=[L.ex.st.ghost["perm"][s_]]))
class CommonRun(RunAll):
    loop_ms = 3000
    fn = GD + "commonRunAll"
    def loop_invs(self, L):
        ex = L.ex; out = Eng.loop_invs(self, L) + [NOEDGE]; g = ex.st.ghost; en = self.c.this
        if L.rng is None: return out + [("no start permission is held", lambda L: Or(self.err(ex), ForAll([s_], Not(ex.st.ghost["tok"][s_]), patterns=[ex.st.ghost["tok"][s_]])))]
        def left(L): t = ex.st.ghost["tok"]; s = L.seq; return ForAll([s_], Implies(And(s.m[s_], s.pos[s_] >= L.k), And(t[s_], Not(ex.rd("ghost.started", s_)), Not(ex.rd("ghost.restored", s_)))), patterns=[t[s_]])
        def spent(L): t = ex.st.ghost["tok"]; s = L.seq; return ForAll([s_], Implies(t[s_], Or(self.err(ex), And(s.m[s_], s.pos[s_] >= L.k))), patterns=[t[s_]])
        def unstarted(L): t = ex.st.ghost["tok"]; return ForAll([s_], Implies(t[s_], And(Not(ex.rd("ghost.started", s_)), Not(ex.rd("ghost.restored", s_)))), patterns=[t[s_]])
        return out + [("front elements still to start", left), ("visited front elements are started", spent), ("held permissions are unused", unstarted)]
    def on_wait(self, ex, cv, m, pred):
        """the caller may sleep only on exactly the condition that is announced"""
        ex.prove("the caller waits under the mutex that protects the announcement", m.name == "mtx_")
        if ex.choose(2) == 0:
            self.env(ex); ex.assume(quiet(ex, self.P))
            ex.prove("the caller stops waiting once the run is complete or failed with nothing in flight", ex.boolv(ex.call_value(pred, [])))
            raise PathEnd("wait ends")
    def outcome(self, ex, proving=False):
        ex.assume(quiet(ex, highest, lambda e: Not(ex.rd("ghost.okdone", e)), w_rank))
        done = quiet(ex, alldone)
        if proving:                     # proved for an arbitrary element
            x = ex.fresh("x", I); su = ex.rd(RB, x); ex.assume(Implies(su.hi > 0, su.m[su.d[0]])); rest = Implies(members(ex)[x], quiet(ex, lambda ex: ex.rd(LD, x) == ex.rd(DP, x).hi))
        else: rest = quiet(ex, counts)
        return quiet(ex, lambda ex: [("the run returns only when it is complete, or failed with nothing in flight", P(ex)),
                ("a complete run has executed every element", Implies(ex.rd(FE, ex.st.ghost["engine"]) >= ex.rd(TE, ex.st.ghost["engine"]), done)),
                ("an error-free run has executed every element", Or(self.err(ex), done)),
                ("an error-free run leaves the pending counts at rest", Or(self.err(ex), rest))])


class ParallelOne(Eng):
    """one element of a graph without edges: executed unless an error is recorded, always counted"""
    fn = GD + "parallelRunOne"; common = False; main = False
    def requires(self, c):
        ex = c.ex; e = c.args[0]; g = ex.st.ghost
        return [("the element belongs to the engine", And(e != 0, members(ex)[e])), ("the caller may start the element", g["tok"][e]), ("it has no predecessors", Not(z3.Exists([p_], ex.rd(DP, e).m[p_])) if getattr(c, "call", False) else ForAll([p_], Not(ex.rd(DP, e).m[p_]), patterns=[ex.rd(DP, e).m[p_]])),
                ("it has no successors", Not(z3.Exists([p_], ex.rd(RB, e).m[p_])) if getattr(c, "call", False) else ForAll([p_], Not(ex.rd(RB, e).m[p_]), patterns=[ex.rd(RB, e).m[p_]])), ("it was not started before", Not(ex.rd("ghost.started", e))), ("its end was not counted", Not(quiet(ex, lambda ex: ex.rd("ghost.pendset", c.this).m[e])))]
    def tok0(self, c, t): return ForAll([s_], t[s_] == (s_ == c.args[0]), patterns=[t[s_]])
    def setup(self, c): Eng.setup(self, c); c.ex.st.ghost["endp"] = z3.BoolVal(True); c.ex.st.ghost["me"] = c.args[0]
    def apply(self, ex, f, this, vals, objty):
        old = ex.st.copy(); args = [v.get(ex) if isinstance(v, LV) and not isinstance(v, LObj) else (v.ref if isinstance(v, LObj) else v) for v in vals]
        c = Ctx(ex, f, this, args, old); c.call = True
        for nm, x in self.requires(c): ex.prove("precondition of %s: %s" % (self.name(), nm), x)
        ex.spec.spend(ex, args[0]); ex.st.ghost["endp"] = z3.BoolVal(False); ex.spec.env(ex)
        return None
    def post(self, c):
        ex = c.ex; g = ex.st.ghost; r = g["failed"]
        return [("the element is counted", Not(g["endp"])), ("an element's error is recorded", Implies(r.code < 0, self.err(ex)) if r is not None else self.err(ex))]


class ParallelRun(RunAll):
    fn = GD + "parallelRunAll"; common = False; loop_ms = 3000
    def kind(self, ex, c):
        return RunAll.kind(self, ex, c) + [("every element is a tail", ex.rd(TE, c.this) == ex.rd(TA, c.this).hi), ("no element has an edge", ForAll([s_], Implies(members(ex)[s_], And(ex.rd(DP, s_).hi == 0, ex.rd(RB, s_).hi == 0)), patterns=[members(ex)[s_]])),
                                           ("the rows hold every element exactly once", rows(ex, ex.rd(TA, c.this), ex.rd(MX, c.this))), ("the rows are not empty", And(*rowwf(ex.rd(MX, c.this))))]
    def tok0(self, c, t):
        T = members(c.ex); return ForAll([s_], t[s_] == T[s_], patterns=[t[s_], T[s_]])
    on_wait = CommonRun.on_wait
    def P(self, ex): en = ex.st.ghost["engine"]; return ex.rd(PN, en) >= ex.rd(TE, en)
    def loop_invs(self, L):
        ex = L.ex; out = Eng.loop_invs(self, L) + [NOEDGE]; tk = lambda: ex.st.ghost["tok"]; T = members(ex); row = lambda e: ex.rd("ghost.row", e)
        out.append(("held permissions are unused", lambda L: ForAll([s_], Implies(tk()[s_], And(T[s_], Not(ex.rd("ghost.started", s_)), Not(ex.rd("ghost.restored", s_)), Not(quiet(ex, lambda ex: ex.rd("ghost.pendset", ex.st.ghost["engine"]).m[s_])))), patterns=[tk()[s_]])))
        out.append(("no start permission is held", lambda L: ForAll([s_], Not(tk()[s_]), patterns=[tk()[s_]])))
        for k, t in L.locals(lambda t, n: t.k == "int"):
            if L.rng is None: out.append(("elements of later rows are still to start", lambda L, k=k: ForAll([s_], tk()[s_] == And(T[s_], row(s_) >= L.value(k)), patterns=[tk()[s_]])))
            else: out.append(("elements of this row and later rows are still to start", lambda L, k=k: ForAll([s_], tk()[s_] == And(T[s_], Or(row(s_) > L.value(k), And(row(s_) == L.value(k), L.seq.pos[s_] >= L.k))), patterns=[tk()[s_]])))
        return out
    def outcome(self, ex, proving=False):
        return quiet(ex, lambda ex: [("the run returns only when every element is counted", self.P(ex)),
                ("an error-free run has executed every element", Or(self.err(ex), alldone(ex))),
                ("an error-free run leaves the pending counts at rest", Or(self.err(ex), counts(ex)))])
MX = "GDynamicEngine.parallel_element_matrix_"
def rowwf(M):
    """each row is a non-empty sequence without repetition"""
    r_, x_ = z3.Int("qr2"), z3.Int("qx2"); c = lambda n, r: M.c[".d." + n][r]; ok = And(r_ >= 0, r_ < M.hi)
    return [ForAll([r_], Implies(ok, And(c("lo", r_) == 0, c("hi", r_) >= 1)), patterns=[c("hi", r_)]),
               ForAll([r_, x_], Implies(And(ok, x_ >= 0, x_ < c("hi", r_)), And(c("m", r_)[c("d", r_)[x_]], c("pos", r_)[c("d", r_)[x_]] == x_)), patterns=[c("d", r_)[x_]]),
               ForAll([r_, x_], Implies(And(ok, c("m", r_)[x_]), And(c("pos", r_)[x_] >= 0, c("pos", r_)[x_] < c("hi", r_), c("d", r_)[c("pos", r_)[x_]] == x_)), patterns=[c("m", r_)[x_]])]
def rows(ex, T, M, st=None):
    r_ = z3.Int("qr2"); ex.ghost_field("row", INT)
    ms = lambda r: M.c[".d.m"][r]
    return And(M.lo == 0, ForAll([s_], Implies(T.m[s_], And(ex.rd("ghost.row", s_, st) >= 0, ex.rd("ghost.row", s_, st) < M.hi, ms(ex.rd("ghost.row", s_, st))[s_])), patterns=[T.m[s_]]),
               ForAll([s_, r_], Implies(And(r_ >= 0, r_ < M.hi, ms(r_)[s_]), And(T.m[s_], ex.rd("ghost.row", s_, st) == r_)), patterns=[ms(r_)[s_]]))
class Wakeup(Contract):
    fn = "CGraph::UThreadPool::wakeupAllThread"; trusted = True; modifies = ()


BI = "GElement.binding_index_"
def linked(ex, e):
    """the element has one successor, which has one predecessor"""
    su = ex.rd(RB, e); return And(su.hi == 1, ex.rd(DP, su.d[0]).hi == 1)
w_end = z3.Const("serial.end", I)


class SerialRun(RunAll):
    """a chain, executed by the calling thread alone"""
    fn = GD + "serialRunAll"; concurrent = False; serial = True; counting = True; common = False
    def kind(self, ex, c):
        T = members(ex); F = ex.rd(FR, c.this)
        return RunAll.kind(self, ex, c) + [("the graph is a chain", Or(ex.rd(TA, c.this).hi == 0, And(F.hi == 1, ForAll([s_], Implies(And(T[s_], s_ != w_end), linked(ex, s_)), patterns=[T[s_]]))))]
    def start(self, ex, c):
        # the chain ends at an element without successors: the element of highest rank has none
        return RunAll.start(self, ex, c) + [("highest", highest(ex, lambda e: z3.BoolVal(True), w_end2))]
    def setup(self, c):
        RunAll.setup(self, c); ex = c.ex; T = ex.rd(TA, c.this); x = T.d[0]
        ex.assume(Implies(T.hi > 0, T.m[x]))     # well-formedness, first element
        f = Implies(T.hi > 0, And(T.m[w_end], ex.rd(RB, w_end).hi == 0))
        ex.prove("the last element of a chain has no successors", f); ex.assume(f)
    def loop_invs(self, L):
        ex = L.ex; g = ex.st.ghost
        E = [("only started elements finish", lambda L: ForAll([s_], Implies(ex.rd("ghost.okdone", s_), ex.rd("ghost.started", s_)), patterns=[ex.rd("ghost.okdone", s_)])),
             ("finite-set lemma", lambda L: And(*CARD(L.ex))),
             ("elements that were not started consumed no edge", lambda L: ForAll([s_, p_], Implies(Not(ex.rd("ghost.started", s_)), Not(ex.rd("ghost.consumed", s_).m[p_])), patterns=[ex.rd("ghost.consumed", s_).m[p_]])),
             ("elements are started only after all their edges were consumed", lambda L: ForAll([s_, p_], Implies(And(ex.rd("ghost.started", s_), ex.rd(DP, s_).m[p_]), ex.rd("ghost.consumed", s_).m[p_]), patterns=[z3.MultiPattern(ex.rd("ghost.started", s_), ex.rd(DP, s_).m[p_])])),
             ("edges are consumed from finished predecessors", lambda L: ForAll([s_, p_], Implies(ex.rd("ghost.consumed", s_).m[p_], And(ex.rd(DP, s_).m[p_], ex.rd("ghost.okdone", p_))), patterns=[ex.rd("ghost.consumed", s_).m[p_]])),
             ("no error yet", lambda L: ex.rd(ST, self.c.this).code >= 0), ("pending counts at rest", lambda L: counts(ex)),
             ("elements that were not started consumed nothing", lambda L: ForAll([s_], Implies(Not(ex.rd("ghost.started", s_)), ex.rd("ghost.consumed", s_).hi == 0), patterns=[ex.rd("ghost.consumed", s_).hi]))]
        def st(L): return L.ex.st.ghost
        for k, t in L.locals(lambda t, n: t.k == "ptr"):
            def nx(L, k=k): v = L.value(k); return v
            E.append(("the next element was not started", lambda L, nx=nx: Implies(nx(L) != 0, And(members(ex)[nx(L)], Not(ex.rd("ghost.started", nx(L)))))))
            E.append(("the next element is due", lambda L, nx=nx: Implies(nx(L) != 0, Or(And(st(L)["tok"][nx(L)], ex.rd(DP, nx(L)).hi == 0), And(Not(st(L)["tok"][nx(L)]), st(L)["perm"][nx(L)], ex.rd(DP, nx(L)).hi == 1, ex.rd(DP, nx(L)).m[st(L)["me"]], ex.rd("ghost.okdone", st(L)["me"]))))))
            E.append(("only the next element is due", lambda L, k=k: ForAll([s_], Implies(Or(st(L)["tok"][s_], st(L)["perm"][s_]), And(s_ == L.value(k), s_ != 0)), patterns=[st(L)["tok"][s_], st(L)["perm"][s_]])))
            E.append(("an empty graph", lambda L, k=k: (L.value(k) == 0) == (ex.rd(TA, self.c.this).hi == 0)))
        return E
    def outcome(self, ex, proving=False):
        if proving: ex.assume(quiet(ex, highest, lambda e: Not(ex.rd("ghost.okdone", e)), w_rank))
        return quiet(ex, lambda ex: [("an error-free run has executed every element", Or(self.err(ex), alldone(ex))), ("an error-free run leaves the pending counts at rest", Or(self.err(ex), counts(ex)))])
w_end2 = z3.Const("highest.end", I)


class Prepare(Eng):
    """a new run starts without error and with the pending counts at rest"""
    fn = GD + "prepareRun"; concurrent = False; main = True; modifies = (LD, "GElement.done_", ST, "ghost.restored")
    def idle(self, ex): return [("an engine without error is at rest", Or(ex.rd(ST, ex.st.ghost["engine"]).code != 0, counts(ex)))]
    def setup(self, c): Eng.setup(self, c); c.ex.st.ghost["preparing"] = True
    def start(self, ex, c): return self.idle(ex)
    def apply(self, ex, f, this, vals, objty):
        for nm, x in self.idle(ex): ex.prove("precondition of %s: %s" % (self.name(), nm), x)
        for f_ in self.modifies:
            cls, n, t = self.fld(ex, f_); ex.havoc_key(cls, n, t)
        c = Ctx(ex, f, this, [], ex.st.copy()); c.call = True
        for nm, x in self.ensures(c): ex.assume(x)
        ex.st.ghost["stv"] = quiet(ex, lambda ex: ex.rd(ST, this))
        return None
    def ensures(self, c): return quiet(c.ex, lambda ex: [("no error of an earlier run is left", ex.rd(ST, c.this).code == 0), ("pending counts at rest", counts(ex))])
    def loop_invs(self, L):
        ex = L.ex
        if L.rng is None: return []
        return [("visited elements are at rest", lambda L: ForAll([s_], Implies(And(L.seq.m[s_], L.seq.pos[s_] < L.k), ex.rd(LD, s_) == ex.rd(DP, s_).hi), patterns=[ex.rd(LD, s_)])), ]


class Run(Eng):
    """one run of the dynamic engine"""
    fn = GD + "run"; main = True; concurrent = False; counting = False
    def start(self, ex, c):
        D = ex.rd(DTY, c.this); D_ = lambda n: z3.IntVal(ex.p.enums["CGraph::internal::GEngineDagType::" + n]); self.c = c
        return Prepare.idle(self, ex) + acyclic_facts(ex) + [("set-up facts", And(*[x for n, x in RunAll.kind(self, ex, c)])),
                ("a graph treated as parallel has no edges", Implies(D == D_("ALL_PARALLEL"), And(*[x for n, x in ParallelRun.kind(self, ex, c)]))), ("a graph treated as a chain is one", Implies(D == D_("ALL_SERIAL"), And(*[x for n, x in SerialRun.kind(self, ex, c)]))),
                ("the kind is one of three", Or(*[D == D_(n) for n in ("COMMON", "ALL_SERIAL", "ALL_PARALLEL")]))]
    def loop_invs(self, L): return []
    def ensures(self, c):
        return quiet(c.ex, lambda ex: [("the status of the run is reported", And(c.ret.code == ex.rd(ST, c.this).code, c.ret.info == ex.rd(ST, c.this).info)), ("an error-free run has executed every element", Or(c.ret.code < 0, alldone(ex))),
                ("after an error-free run the engine is at rest", Or(c.ret.code < 0, counts(ex)))])
DTY = "GDynamicEngine.dag_type_"


def engine_contracts():
    return [FatProcessor(), Refresh(), Execute(), ExecuteTid(), Wakeup(), Process(), InnerExec(), AfterRun(), CommonRun(), ParallelOne(), ParallelRun(), SerialRun(), Prepare(), Run()]

"""C21: publish / subscribe: exact effect of every operation on the topics' connection sets and the table of connections."""
from .base import *
from cgv.types import *
from cgv.interp import *
from .c20 import MG, MV, MM, MOp, MsgNew, MsgCap, topic, typeid, mcap, mconn, New, GCap, Cap, QCap, SR, RB, QSend, val as sval
from .life import gset, g

PS, CM, CUR = MM + ".pub_sub_message_map_", MM + ".conn_message_map_", MM + ".cur_conn_id_"
k_, l_ = z3.Const("qk", Str), z3.Const("ql", Str)
p_, n_ = z3.Int("qp"), z3.Int("qn")
own = z3.Function("own.topic", I, Str)     # the topic a stored message belongs to (well defined by the invariant)


def hasif(e, seen=None):
    seen = seen if seen is not None else set()
    if e.get_id() in seen: return False
    seen.add(e.get_id())
    return z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(hasif(x, seen) for x in e.children()))
def FA(vs, body, patterns): return z3.ForAll(vs, body, patterns=[p for p in patterns if not hasif(p)])


class W:
    """both tables in one state"""
    def __init__(self, ex, r, st=None):
        self.P, self.C, self.cur = ex.rd(PS, r, st), ex.rd(CM, r, st), ex.rd(CUR, r, st)
    def has(self, k, p): return And(self.P.m[k], self.P.c[".v.m"][k][p])
    def pos(self, k, p): return self.P.c[".v.pos"][k][p]
    def conn(self, n): return self.C.c[".v"][n]
    def same(self, o): return And(*[self.P.c[x] == o.P.c[x] for x in self.P.c], *[self.C.c[x] == o.C.c[x] for x in self.C.c], self.cur == o.cur)


def inv(ex, r):
    w = W(ex, r); h = w.P.c[".v.m"][k_][p_]
    return [("a bound connection is alive and can be found by its id", FA([k_, p_], Implies(w.has(k_, p_), And(p_ > 0, ex.alive(p_), w.C.m[mconn(p_)], w.conn(mconn(p_)) == p_)), patterns=[h])),
            ("the table of connections holds bound connections under their own ids", FA([n_], Implies(w.C.m[n_], And(mconn(w.conn(n_)) == n_, n_ <= w.cur, w.has(own(w.conn(n_)), w.conn(n_)))), patterns=[w.conn(n_)])),
            ("a connection is bound to one topic", FA([k_, p_], Implies(w.has(k_, p_), own(p_) == k_), patterns=[h])),
            ("a known topic has a connection", FA([k_], Implies(w.P.m[k_], w.P.c[".v.hi"][k_] > 0), patterns=[w.P.m[k_]])), ("ids are counted", w.cur >= 0)]


class POp(MOp):
    mapf = PS; mtx = "pub_sub_mutex_"
    def fields(self): return (PS, CM, CUR)
    def inv(self, ex): return inv(ex, self.c.this)
    def snap(self, ex): return W(ex, self.c.this)
    def setup(self, c):
        MOp.setup(self, c); ex = c.ex; ex.ghost_field("sends", INT); ex.havoc_key("ghost", "sends", INT); ex.assume(ForAll([a_], ex.rd("ghost.sends", a_) == 0))
    def world(self, ex):
        MOp.world(self, ex); ex.assume(ex.rd(CUR, self.c.this) < 2**31 - 1)
    def key(self, c): return topic(c, 0, "PUB_SUB_PREFIX")
    def unset(self): return [("one critical section", z3.BoolVal(False))]
    def others(self, a, b, k): return FA([k_, p_], Implies(k_ != k, b.has(k_, p_) == a.has(k_, p_)), patterns=[a.P.c[".v.m"][k_][p_], b.P.c[".v.m"][k_][p_]])


class Bind(POp):
    fn = MM + "::bindTopic"; nparams = 2
    def loop_invs(self, L):
        ex = L.ex; c = self.c; out = []; p = ex.st.ghost["pre"]
        for k, t in L.locals(lambda t, n: t.k == "ptr"):
            out.append(("allocated connection is new and as requested", lambda L, k=k: Implies(L.value(k) != 0, And(L.value(k) > 0, ex.alive(L.value(k)), Not(ex.alive(L.value(k), c.old_st)), typeid(L.value(k)) == ex.typeid_of(MV), mcap(L.value(k)) == c.a(1), mconn(L.value(k)) == p.cur + 1))))
        return out
    def release(self, ex, m, k):
        # the new connection belongs to this topic from now on (own is only constrained for stored connections)
        if self.mine(m) and ex.st.ghost["pre"] is not None:
            pre = ex.st.ghost["pre"]; now = W(ex, self.c.this); x = now.conn(pre.cur + 1); ex.assume(Implies(And(x > 0, Not(ex.alive(x, self.c.old_st))), own(x) == self.key(self.c)))
        POp.release(self, ex, m, k)
    def ensures(self, c):
        one, a, b = self.sec(c); k = self.key(c)
        if a is None or b is None: return self.unset()
        x = b.conn(c.ret)
        return [("one critical section", one), ("a new id", And(Not(a.C.m[c.ret]), c.ret > a.cur, b.cur >= c.ret)), ("the connection is new, of the given type and capacity", And(x > 0, Not(c.ex.alive(x, c.old_st)), typeid(x) == c.ex.typeid_of(MV), mcap(x) == c.a(1), mconn(x) == c.ret)),
                ("the topic gains exactly this connection", And(b.P.m[k], FA([p_], b.has(k, p_) == Or(a.has(k, p_), p_ == x), patterns=[b.P.c[".v.m"][k][p_]]))), ("no other topic is affected", self.others(a, b, k)),
                ("no other connection is affected", FA([n_], Implies(n_ != c.ret, And(b.C.m[n_] == a.C.m[n_], Implies(a.C.m[n_], b.conn(n_) == a.conn(n_)))), patterns=[b.C.m[n_]])), ("the connection can be found by its id", b.C.m[c.ret])]
    def covers(self, c): a = c.ex.st.ghost["pre"]; k = self.key(c); return [] if a is None else [("first", Not(a.P.m[k])), ("another", a.P.m[k])]


class Detach(POp):
    fn = MM + "::detachConnId"; nparams = 2
    def bound(self, c, a): n = c.a(1); return And(a.C.m[n], a.has(self.key(c), a.conn(n)))
    def may_delete(self, pre, ref): return And(self.bound(self.c, pre), ref == pre.conn(self.c.a(1)))
    def loop_invs(self, L):
        if L.rng is None: return []
        ex = L.ex; c = self.c; a = ex.st.ghost["pre"]; k = self.key(c); P = a.P; d = P.c[".v.d"][k]
        return [("nothing is changed before the connection is found", lambda L: W(ex, c.this).same(a)), ("the connections visited are others", lambda L: FA([i_], Implies(And(0 <= i_, i_ < L.k), mconn(d[i_]) != c.a(1)), patterns=[d[i_]])),
                ("nothing is released before the connection is found", lambda L: ForAll([a_], ex.rd("ghost.dels", a_) == 0))]
    def ensures(self, c):
        one, a, b = self.sec(c); k = self.key(c); n = c.a(1)
        if a is None or b is None: return self.unset()
        x = a.conn(n); ok = self.bound(c, a)
        return [("one critical section", one), ("succeeds exactly for a connection bound to the topic", (c.ret.code >= 0) == ok), ("a refused request changes nothing", Implies(Not(ok), b.same(a))),
                ("the topic loses exactly this connection", Implies(ok, FA([p_], b.has(k, p_) == And(a.has(k, p_), p_ != x), patterns=[b.P.c[".v.m"][k][p_]]))), ("no other topic is affected", self.others(a, b, k)),
                ("exactly this id is gone", Implies(ok, FA([n_], And(b.C.m[n_] == And(a.C.m[n_], n_ != n), Implies(b.C.m[n_], b.conn(n_) == a.conn(n_))), patterns=[b.C.m[n_]]))), ("the connection is released", Implies(ok, c.ex.rd("ghost.dels", x) == 1)), ("ids are never handed out again", b.cur >= a.cur)]
    def covers(self, c): return [("detached", c.ret.code >= 0), ("refused", c.ret.code < 0)]


class Pub(POp):
    fn = MM + "::pubTopicValue"; nparams = 3
    def loop_invs(self, L):
        if L.rng is None: return []
        ex = L.ex; a = ex.st.ghost["pre"]; k = self.key(self.c)
        return [("exactly the connections visited got the message", lambda L: FA([p_], ex.rd("ghost.sends", p_) == If(And(a.has(k, p_), a.pos(k, p_) < L.k), 1, 0), patterns=[ex.rd("ghost.sends", p_)]))]
    def ensures(self, c):
        one, a, b = self.sec(c); k = self.key(c); ex = c.ex
        if a is None or b is None: return self.unset()
        return [("one critical section that changes nothing", And(one, b.same(a))), ("publishing is accepted exactly for a topic somebody is bound to", (c.ret.code >= 0) == a.P.m[k]),
                ("every connection bound to the topic gets the message once, and nothing else does", ForAll([p_], ex.rd("ghost.sends", p_) == If(a.has(k, p_), 1, 0)))]
    def covers(self, c): return [("published", c.ret.code >= 0), ("refused", c.ret.code < 0)]
class PSend(Contract):
    trusted = True
    def apply(self, ex, f, this, vals, objty):
        v = [x.get(ex) if isinstance(x, LV) else x for x in vals]; sp = ex.spec
        if not isinstance(sp, POp): raise Unsupported("a topic is used elsewhere")
        ex.prove("no lock of the manager is held while a connection may block", z3.BoolVal(not ex.st.held))
        if sp.fn.endswith("pubTopicValue"): ex.prove("the given value and policy are published", And(v[0] == sp.c.a(1), v[1] == sp.c.a(2)))
        else: ex.prove("nothing is published here", z3.BoolVal(False))
        ex.wr("ghost.sends", this, ex.rd("ghost.sends", this) + 1)
class PRecv(Contract):
    trusted = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost
        if "call" not in gh: raise Unsupported("a topic is used elsewhere")
        ex.prove("no lock of the manager is held while a connection may block", z3.BoolVal(not ex.st.held))
        gh["n"] = gh["n"] + 1; v = [x.get(ex) if isinstance(x, LV) else x for x in vals]; gh["call"] = (this, v[0], v[1])
        r = ex.fresh_value(STATUS, "recv"); x = ex.fresh("msg", I); vals[0].set(ex, x); gh["r"] = r; gh["v"] = x; return r
class Conn(Contract):
    trusted = True
    def apply(self, ex, f, this, vals, objty): ex.prove("a released connection is never touched", ex.alive(this)); return mconn(this)


class Sub(POp):
    fn = MM + "::subTopicValue"; nparams = 3
    def ensures(self, c):
        one, a, b = self.sec(c); gh = c.ex.st.ghost; n = c.a(0)
        if a is None or b is None: return self.unset()
        o = [("one critical section that changes nothing", And(one, b.same(a))), ("an unknown or released id is refused, nothing is received", Implies(Not(a.C.m[n]), And(c.ret.code < 0, gh["n"] == 0))), ("a known connection is used exactly once", Implies(a.C.m[n], gh["n"] == 1))]
        call = gh["call"]
        if call is not None: o += [("the connection of that id, with the given limit", And(a.C.m[n], call[0] == a.conn(n), call[1] == c.a(1), call[2] == c.a(2))), ("reports what the connection reported", And(c.ret.code == gh["r"].code, c.arg_now(1) == gh["v"]))]
        else: o.append(("the value is untouched", c.arg_now(1) == c.a(1)))
        return o
    def covers(self, c): a = c.ex.st.ghost["pre"]; return [] if a is None else [("known", a.C.m[c.a(0)]), ("unknown", Not(a.C.m[c.a(0)]))]


class Drop(POp):
    fn = MM + "::dropTopic"; nparams = 1
    def may_delete(self, pre, ref): return pre.has(self.key(self.c), ref)
    def loop_invs(self, L):
        if L.rng is None: return []
        ex = L.ex; c = self.c; a = ex.st.ghost["pre"]; k = self.key(c); seen = lambda p, L: And(a.has(k, p), a.pos(k, p) < L.k)
        return [("exactly the connections visited are released", lambda L: FA([p_], ex.rd("ghost.dels", p_) == If(seen(p_, L), 1, 0), patterns=[ex.rd("ghost.dels", p_)])),
                ("the others stay alive", lambda L: FA([k_, p_], Implies(And(a.has(k_, p_), Not(seen(p_, L))), ex.alive(p_)), patterns=[a.P.c[".v.m"][k_][p_]])),
                ("the topics are unchanged so far", lambda L: And(*[W(ex, c.this).P.c[x] == a.P.c[x] for x in a.P.c], W(ex, c.this).cur == a.cur)),
                ("exactly the ids visited are gone", lambda L: (lambda b: FA([n_], And(b.C.m[n_] == And(a.C.m[n_], Not(seen(a.conn(n_), L))), Implies(b.C.m[n_], b.conn(n_) == a.conn(n_))), patterns=[b.C.m[n_]]))(W(ex, c.this)))]
    def ensures(self, c):
        one, a, b = self.sec(c); k = self.key(c); ex = c.ex
        if a is None or b is None: return self.unset()
        return [("one critical section", one), ("succeeds exactly for a known topic", (c.ret.code >= 0) == a.P.m[k]), ("the topic is gone", Not(b.P.m[k])), ("no other topic is affected", self.others(a, b, k)),
                ("exactly its connections' ids are gone", FA([n_], And(b.C.m[n_] == And(a.C.m[n_], Not(a.has(k, a.conn(n_)))), Implies(b.C.m[n_], b.conn(n_) == a.conn(n_))), patterns=[b.C.m[n_]])), ("exactly its connections are released", ForAll([p_], ex.rd("ghost.dels", p_) == If(a.has(k, p_), 1, 0))), ("ids are never handed out again", b.cur >= a.cur)]
    def covers(self, c): return [("dropped", c.ret.code >= 0), ("refused", c.ret.code < 0)]


class ClearAll(POp):
    """empties both kinds of topics; each part is one critical section of its own lock"""
    fn = MM + "::clear"; nparams = 0
    def setup(self, c): POp.setup(self, c); gh = c.ex.st.ghost; gh["sr"] = gh["srpost"] = None; gh["srok"] = gh["psok"] = z3.BoolVal(False); gh["last"] = None
    def part(self, m): return "sr" if m.name == "send_recv_mutex_" else "ps" if m.name == self.mtx else None
    def acquire(self, ex, m, k):
        gh = ex.st.ghost; pt = self.part(m); ex.prove("only the manager's own locks are taken, one at a time", z3.BoolVal(pt is not None and len(ex.st.held) <= 1))
        if pt is None: return
        ex.havoc_key("ghost", "dels", INT); ex.assume(ForAll([a_], ex.rd("ghost.dels", a_) == 0)); gh["last"] = pt     # a message is stored in one of the two tables only
        if pt == "ps": gh["pre"] = None; POp.acquire(self, ex, m, k); return
        ex.prove("each part is cleared once", z3.BoolVal(gh["sr"] is None)); cls, n, t = ex.find_field(SR); ex.havoc_at(cls, n, self.c.this, t)
        from .c20 import minv
        for n, f in minv(ex, self.c.this): ex.assume(f)
        gh["sr"] = ex.rd(SR, self.c.this)
    def release(self, ex, m, k):
        gh = ex.st.ghost; pt = self.part(m); d = lambda r: ex.rd("ghost.dels", r)
        if pt == "ps" and gh["pre"] is not None:
            a = gh["pre"]; gh["psok"] = And(ForAll([k_, p_], Implies(a.has(k_, p_), d(p_) == 1)), W(ex, self.c.this).P.hi == 0, W(ex, self.c.this).C.hi == 0)
            POp.release(self, ex, m, k)
        if pt == "sr" and gh["sr"] is not None:
            a = gh["sr"]; gh["srok"] = And(ForAll([k_], Implies(a.m[k_], d(sval(a, k_)) == 1)), ex.rd(SR, self.c.this).hi == 0)
    def fields(self): return (PS, CM, CUR)
    def on_delete(self, ex, ref, t):
        gh = ex.st.ghost; x = z3.Const("qk", Str)
        ok = gh["pre"].has(own(ref), ref) if gh["last"] == "ps" else Exists([i_], And(gh["sr"].lo <= i_, i_ < gh["sr"].hi, sval(gh["sr"], gh["sr"].d[i_]) == ref)) if gh["last"] == "sr" else z3.BoolVal(False)
        ex.prove("only a stored topic is released, once", And(ex.rd("ghost.dels", ref) == 0, ok)); ex.wr("ghost.dels", ref, ex.rd("ghost.dels", ref) + 1)
    def loop_invs(self, L):
        if L.rng is None: return []
        ex = L.ex; c = self.c; gh = ex.st.ghost; d = lambda r: ex.rd("ghost.dels", r)
        if gh["last"] == "sr":
            a = gh["sr"]; now = lambda: ex.rd(SR, c.this)
            return [("exactly the topics visited are released", lambda L: ForAll([i_], Implies(And(a.lo <= i_, i_ < a.hi), d(sval(a, a.d[i_])) == If(i_ < L.k, 1, 0)), patterns=[a.d[i_]])),
                    ("the entries still to come are as before", lambda L: ForAll([i_], Implies(And(L.k <= i_, i_ < a.hi), sval(now(), a.d[i_]) == sval(a, a.d[i_])), patterns=[a.d[i_]])),
                    ("the others stay alive", lambda L: ForAll([i_], Implies(And(L.k <= i_, i_ < a.hi), ex.alive(sval(a, a.d[i_]))), patterns=[a.d[i_]]))]
        if gh["last"] != "ps" or gh["pre"] is None: return []
        a = gh["pre"]; o = [("the tables are unchanged so far", lambda L: W(ex, c.this).same(a))]
        h = a.P.c[".v.m"][k_][p_]
        if L.seq.d.sort().range() == Str: done = lambda k, p, L: a.P.pos[k] < L.k
        else:
            o += [("the connections of this topic visited are released, the others as before", lambda L: ForAll([p_], d(p_) == If(And(L.seq.m[p_], L.seq.pos[p_] < L.k), 1, ex.rd("ghost.dels", p_, L.entry)), patterns=[d(p_)])),
                  ("the others stay alive", lambda L: ForAll([p_], Implies(And(ex.alive(p_, L.entry), Not(And(L.seq.m[p_], L.seq.pos[p_] < L.k))), ex.alive(p_)), patterns=[ex.alive(p_, L.entry)]))]
            return o
        o += [("exactly the connections visited are released", lambda L: FA([k_, p_], Implies(a.has(k_, p_), d(p_) == If(done(k_, p_, L), 1, 0)), patterns=[h])),
              ("the others stay alive", lambda L: FA([k_, p_], Implies(And(a.has(k_, p_), Not(done(k_, p_, L))), ex.alive(p_)), patterns=[h]))]
        return o
    def ensures(self, c):
        gh = c.ex.st.ghost
        return [("every topic is released once and none is left", gh["srok"]), ("every connection is released once and no topic or id is left", gh["psok"]), ("success", c.ret.code >= 0)]


class GetConn(Contract):
    fn = MG + "::getConnId"; nparams = 0; modifies = ()
    def ensures(self, c): return [("the id given at construction", c.ret == c(MG + ".conn_id_"))]


OPS = [Bind(), Detach(), Pub(), Sub(), Drop(), ClearAll()]
REG = [PSend(fn=MG + "::send"), PSend(fn=MV + "::send"), PRecv(fn=MG + "::recv"), PRecv(fn=MV + "::recv"), MsgNew(fn=MV + "::GMessage"), MsgCap(fn=MG + "::getCapacity"), MsgCap(fn=MV + "::getCapacity"), Conn(fn=MG + "::getConnId"), Conn(fn=MV + "::getConnId")]
for _c in OPS: _c.registry = REG
NW, GC = New(), GetConn()
NW.registry = [QSend(fn=RB + "::push"), Cap(), QCap()]; GC.registry = []
CONTRACTS = OPS + [NW, GC]
VERIFY = CONTRACTS
DRIVERS = ["c21"]
DRIVER_SECONDS = 12
NOTE = ("Proved for every table of topics and connections and every interleaving of critical sections: bindTopic, detachConnId, dropTopic, clear, pubTopicValue and subTopicValue (as instances of the real templates) have their exact effect on the connection sets and the id table in one critical section, under the invariant that every id in the table names a live connection bound to exactly one topic and a known topic has at least one connection; "
        "a publication is sent once to each connection bound at the lookup and to nothing else, with the lock released; only removed connections are destroyed, once; a released or unknown id is refused. What a connection does with a message is C20. "
        "Assumed: a connection is not detached, dropped or cleared while another thread is publishing to it or receiving from it (the code keeps no reference count), a message type is used for its own topic, fewer than 2^31 connections; clear() starts counting ids anew. The driver explores schedules and is bounded.")

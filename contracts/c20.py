"""C20: bounded topics.  The ring buffer's content is the sequence item(0..count) read from head_ on; every operation is one critical section
that appends / removes exactly what it reports."""
from .base import *
from cgv.types import *
from cgv.interp import *
from .life import gset, g

RB = "CGraph::UAtomicRingBufferQueue<CGraph::GMessageParam, 64>"
RV = "CGraph::UAtomicRingBufferQueue<CGraph::VMsg, 64>"
SH = "UAtomicRingBufferQueue<%s, 64>.%s"
WAIT, REPLACE, DROP = 1, 2, 3


class Snap:
    """the ring buffer's fields in one state"""
    def __init__(self, q, ex, st=None):
        cl = q.cl.replace("CGraph::", "", 1); th = q.c.this; rd = lambda n: ex.rd(q.cl + "." + n, th, st)
        self.head, self.tail, self.cap, self.ring = rd("head_"), rd("tail_"), rd("capacity_"), rd("ring_buffer_queue_")
    def count(self): return If(self.tail >= self.head, self.tail - self.head, self.tail - self.head + self.cap)
    def at(self, i): p = self.head + i; return self.ring.d[self.ring.lo + If(p >= self.cap, p - self.cap, p)]
    def wf(self): return And(self.cap >= 1, self.cap < 2**31, self.head >= 0, self.head < self.cap, self.tail >= 0, self.tail < self.cap, self.ring.hi - self.ring.lo == self.cap, self.ring.lo == 0)
    def full(self): return self.count() == self.cap - 1


class Ring(Contract):
    cl = RB; mod_facts = True; check_null = False; check_bounds = True; cvs = None
    FIELDS = ("head_", "tail_", "ring_buffer_queue_")
    modifies = property(lambda self: tuple((self.cl + "." + n, lambda c: [c.this]) for n in self.FIELDS))
    def requires(self, c): s = Snap(self, c.ex); return [("the buffer is well-formed", s.wf())]
    def setup(self, c): gh = c.ex.st.ghost; gh["sec"] = z3.IntVal(0); gh["pre"] = gh["post"] = None; gh["wait"] = False; gh["told"] = {}; gh["out"] = None
    def mine(self, m): return m.name == "mutex_" and z3.is_expr(m.ref) and m.ref.eq(self.c.this)
    def held(self, ex): return any(k[1] == "mutex_" and k[2] == self.c.this.sexpr() for k in ex.st.held)
    def world(self, ex):
        """any content, the capacity never changes"""
        gh = ex.st.ghost; gh["inhook"] = True
        for n in self.FIELDS: cls, nm, t = ex.find_field(self.cl + "." + n); ex.havoc_at(cls, nm, self.c.this, t)
        gh["inhook"] = False; s = Snap(self, ex); ex.assume(s.wf()); return s
    def acquire(self, ex, m, k):
        ex.prove("only the buffer's own mutex is taken", z3.BoolVal(self.mine(m))); gh = ex.st.ghost
        if not gh["wait"]: ex.prove("each operation is one critical section", gh["sec"] == 0); gset(ex, "sec", gh["sec"] + 1)
        gh["wait"] = False; gh["pre"] = self.world(ex); gh["post"] = None
    def release(self, ex, m, k):
        gh = ex.st.ghost; post = Snap(self, ex); pre = gh["pre"]; ex.prove("the buffer stays well-formed", post.wf())
        if gh["wait"]: ex.prove("nothing is changed before the wait", And(pre.head == post.head, pre.tail == post.tail, pre.ring.c[".d"] == post.ring.c[".d"] if ".d" in pre.ring.c else z3.BoolVal(True))); return
        gh["post"] = post
    def on_wait(self, ex, cv, m, pred): ex.st.ghost["wait"] = True; ex.st.ghost["waited"] = getattr(cv, "name", None)
    def on_notify(self, ex, cv, n): d = dict(ex.st.ghost["told"]); d[cv.name] = True; ex.st.ghost["told"] = d
    def isf(self, cls, name): return name in self.FIELDS and "UAtomicRingBufferQueue" in cls
    def on_read(self, ex, cls, name, ref):
        if self.isf(cls, name) and not self.held(ex) and not ex.st.ghost.get("inhook"): self.world(ex)
    def on_write(self, ex, cls, name, ref):
        if self.isf(cls, name) and not ex.st.ghost.get("inhook"): ex.prove("the buffer is only changed while its lock is held", z3.BoolVal(self.held(ex)))
    def same(self, a, b): n = a.count(); return And(b.count() == n, ForAll([i_], Implies(And(0 <= i_, i_ < n), b.at(i_) == a.at(i_))))


class Push(Ring):
    fn = RB + "::push"; nparams = 2
    def requires(self, c): return Ring.requires(self, c) + [("a policy", And(c.a(1) >= WAIT, c.a(1) <= DROP)), ("a bound of at least one", Snap(self, c.ex).cap >= 2)]
    def ensures(self, c):
        gh = c.ex.st.ghost; a, b = gh["pre"], gh["post"]
        if a is None or b is None: return [("the message is handled in the critical section", z3.BoolVal(False))]
        n, m = a.count(), b.count(); full = a.full(); x = c.a(0); drop = And(full, c.a(1) == DROP); repl = And(full, c.a(1) == REPLACE); app = Not(Or(drop, repl)); rng = lambda k: And(0 <= i_, i_ < k)
        return [("one critical section", gh["sec"] == 1), ("the bound is kept", And(b.cap == a.cap, m <= b.cap - 1)),
                ("a message that fits is appended behind all others", Implies(app, And(m == n + 1, b.at(n) == x, ForAll([i_], Implies(rng(n), b.at(i_) == a.at(i_)))))),
                ("a sender with the waiting policy stores its message only when there is room", Implies(c.a(1) == WAIT, Not(full))),
                ("a full topic with the replacing policy loses exactly the oldest message", Implies(repl, And(m == n, b.at(n - 1) == x, ForAll([i_], Implies(rng(n - 1), b.at(i_) == a.at(i_ + 1)))))),
                ("a full topic with the dropping policy is unchanged", Implies(drop, And(m == n, ForAll([i_], Implies(rng(n), b.at(i_) == a.at(i_)))))),
                ("a waiting receiver is told", Or(drop, z3.BoolVal("pop_cv_" in gh["told"])))]
    def covers(self, c): a = c.ex.st.ghost["pre"]; return [] if a is None else [("full %d" % k, And(a.full(), c.a(1) == k)) for k in (REPLACE, DROP)] + [("room", Not(a.full()))]


class Pop(Ring):
    fn = RV + "::waitPopWithTimeout"; nparams = 2; cl = RV
    def ensures(self, c):
        gh = c.ex.st.ghost; a, b = gh["pre"], gh["post"]; ok = c.ret.code >= 0; x = c.arg_now(0)
        if a is None or b is None: return [("the receiver looks into the topic", z3.BoolVal(False))]
        n, m = a.count(), b.count()
        return [("one critical section", gh["sec"] == 1), ("an error only if no message was available in time", Implies(Not(ok), And(n == 0, z3.BoolVal(gh.get("waited") == "pop_cv_"), m == 0, x == c.a(0)))),
                ("the oldest message is handed out and removed", Implies(ok, And(n >= 1, m == n - 1, x == a.at(0), ForAll([i_], Implies(And(0 <= i_, i_ < m), b.at(i_) == a.at(i_ + 1)))))),
                ("a waiting sender is told", Implies(ok, z3.BoolVal("push_cv_" in gh["told"])))]
    def covers(self, c): return [("received", c.ret.code >= 0), ("timeout", c.ret.code < 0)]



class Ctor(Ring):
    fn = RB + "::UAtomicRingBufferQueue"; nparams = 0; modifies = Any
    def requires(self, c): return []
    def on_read(self, ex, cls, name, ref): pass
    def on_write(self, ex, cls, name, ref): pass
    def ensures(self, c): s = Snap(self, c.ex); return [("starts empty and well-formed", And(s.wf(), s.head == s.tail))]
class SetCap(Ctor):
    fn = RB + "::setCapacity"; nparams = 1; returns_this = True
    def requires(self, c): s = Snap(self, c.ex); return [("not used yet", And(s.head == 0, s.tail == 0)), ("a bound", And(c.a(0) >= 0, c.a(0) < 2**31 - 1))]
    def ensures(self, c): s = Snap(self, c.ex); return [("starts empty and well-formed", And(s.wf(), s.head == s.tail)), ("holds up to the given number of messages", s.cap - 1 == c.a(0))]
class GetCap(Ctor):
    fn = RB + "::getCapacity"; nparams = 0; modifies = ()
    def requires(self, c): s = Snap(self, c.ex); return [("-", s.wf())]
    def ensures(self, c): s = Snap(self, c.ex); return [("the number of messages it can hold", c.ret == s.cap - 1)]
RING = [Push(), Pop(), Ctor(), SetCap(), GetCap()]
for _c in RING: _c.registry = []

MG, MV, MM = "CGraph::GMessage<CGraph::GMessageParam, 64, 0>", "CGraph::GMessage<CGraph::VMsg, 64, 0>", "CGraph::GMessageManager<CGraph::GMessageParam, 0>"
class QSend(Contract):
    """the queue's push / receive, as the message sees it"""
    trusted = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost
        if "n" not in gh: raise Unsupported("a queue is used elsewhere")
        gset(ex, "n", gh["n"] + 1); gh["at"] = this; gh["lv"] = vals[0]; gh["x"] = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]; gh["p"] = vals[1].get(ex) if isinstance(vals[1], LV) else vals[1]
        if f.name == "push" or f.name == "send": return None
        r = ex.fresh_value(STATUS, "recv"); v = ex.fresh("msg", I); ex.assume(Implies(r.code < 0, v == gh["x"])); vals[0].set(ex, v); gh["r"] = r; gh["v"] = v; return r
class Wrap(Contract):
    modifies = Any; check_null = False
    def setup(self, c): gh = c.ex.st.ghost; gh["n"] = z3.IntVal(0); gh["at"] = None
    def ensures(self, c):
        gh = c.ex.st.ghost; ex = c.ex
        if gh["at"] is None: return [("uses its queue", z3.BoolVal(False))]
        o = [("uses its own queue once", And(gh["n"] == 1, gh["at"] == ex.subobj(self.fn.rsplit("::", 1)[0], "queue_", c.this))), ("with the given message and policy", And(gh["x"] == c.a(0), gh["p"] == c.a(1)))]
        if self.fn.endswith("recv"): o.append(("returns what the queue returned", And(c.ret.code == gh["r"].code, c.arg_now(0) == gh["v"])))
        return o
class New(Contract):
    modifies = Any; check_null = False; nparams = 2; fn = MV + "::GMessage"
    def setup(self, c): c.ex.st.ghost["cap"] = None
    def ensures(self, c):
        k = c.ex.st.ghost["cap"]
        return [("bounded as asked for", z3.BoolVal(False) if k is None else And(k[0] == c.ex.subobj(MV, "queue_", c.this), k[1] == c.a(0))), ("knows its connection", c(MV + ".conn_id_") == c.a(1))]
class Cap(Contract):
    fn = RV + "::setCapacity"; trusted = True; nparams = 1
    def apply(self, ex, f, this, vals, objty): ex.st.ghost["cap"] = (this, vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]); return this
class GCap(Contract):
    modifies = Any; check_null = False; fn = MG + "::getCapacity"; nparams = 0
    def ensures(self, c): return [("the capacity of its queue", c.ret == z3.Function("qcap", I, I)(c.ex.subobj(MG, "queue_", c.this)))]
class QCap(Contract):
    fn = RB + "::getCapacity"; trusted = True; nparams = 0
    def apply(self, ex, f, this, vals, objty): return z3.Function("qcap", I, I)(this)
MSG = [Wrap(fn=MG + "::send", nparams=2), Wrap(fn=MV + "::recv", nparams=2), New(), GCap()]
for _c in MSG: _c.registry = [QSend(fn=RB + "::push"), QSend(fn=RV + "::push"), QSend(fn=RV + "::waitPopWithTimeout"), QSend(fn=RB + "::waitPopWithTimeout"), Cap(), QCap()]


# ---------------------------------------------------------------------------------------------------- the manager
k_, l_ = z3.Const("qk", Str), z3.Const("ql", Str)
typeid = z3.Function("typeid", I, I); mcap = z3.Function("mcap", I, I); mconn = z3.Function("mconn", I, I)
SR = MM + ".send_recv_message_map_"


def val(m, k): return m.c[".v"][k]
def same(a, b): return ForAll([k_], And(a.m[k_] == b.m[k_], Implies(a.m[k_], val(a, k_) == val(b, k_))), patterns=[b.m[k_], val(b, k_)])
def but(a, b, k): return ForAll([k_], Implies(k_ != k, And(a.m[k_] == b.m[k_], Implies(a.m[k_], val(a, k_) == val(b, k_)))), patterns=[b.m[k_], val(b, k_)])
def minv(ex, r):
    m = ex.rd(SR, r)
    return [("no null topic is stored", ForAll([k_], Implies(m.m[k_], val(m, k_) > 0), patterns=[val(m, k_)])), ("a topic is stored under one name", ForAll([k_, l_], Implies(And(m.m[k_], m.m[l_], k_ != l_), val(m, k_) != val(m, l_)), patterns=[z3.MultiPattern(val(m, k_), val(m, l_))])),
            ("stored topics are alive", ForAll([k_], Implies(m.m[k_], ex.alive(val(m, k_))), patterns=[val(m, k_)]))]


class MOp(Contract):
    """one operation of the message manager: one critical section on the topic map"""
    modifies = Any; check_null = False; mapf = SR; mtx = "send_recv_mutex_"; frame_ignore = ("ghost",)
    def inv(self, ex): return minv(ex, self.c.this)
    def setup(self, c):
        ex = c.ex; gh = ex.st.ghost; gh["sec"] = z3.IntVal(0); gh["pre"] = gh["post"] = None; gh["n"] = z3.IntVal(0); gh["call"] = None; gh["inhook"] = False
        ex.ghost_field("dels", INT); ex.havoc_key("ghost", "dels", INT); ex.assume(ForAll([a_], ex.rd("ghost.dels", a_) == 0))
    def fields(self): return (self.mapf,)
    def mine(self, m): return m.name == self.mtx and z3.is_expr(m.ref) and m.ref.eq(self.c.this)
    def snap(self, ex): return ex.rd(self.mapf, self.c.this)
    def world(self, ex):
        for f in self.fields(): cls, n, t = ex.find_field(f); ex.havoc_at(cls, n, self.c.this, t)
        for n, f in self.inv(ex): ex.assume(f)
    def acquire(self, ex, m, k):
        if not self.mine(m): return
        gh = ex.st.ghost; ex.prove("each operation is one critical section", gh["sec"] == 0)
        self.world(ex); gh["sec"] = gh["sec"] + 1; gh["pre"] = self.snap(ex)
    def release(self, ex, m, k):
        if not self.mine(m) or ex.st.ghost["pre"] is None: return
        if not getattr(ex, "unwinding", False):
            for n, f in self.inv(ex): ex.prove("invariant: " + n, f)
        ex.st.ghost["post"] = self.snap(ex)
    def held(self, ex): return any(k[1] == self.mtx and k[2] == self.c.this.sexpr() for k in ex.st.held)
    def on_read(self, ex, cls, name, ref):
        if any(f.endswith("." + name) for f in self.fields()) and "GMessageManager" in cls: ex.prove("the topics are only touched while their lock is held", z3.BoolVal(self.held(ex)))
    on_write = on_read
    def on_delete(self, ex, ref, t):
        pre = ex.st.ghost["pre"]
        ex.prove("only a removed topic is released, once", And(ex.rd("ghost.dels", ref) == 0, *([self.may_delete(pre, ref)] if pre is not None else [z3.BoolVal(False)])))
        ex.wr("ghost.dels", ref, ex.rd("ghost.dels", ref) + 1)
    def may_delete(self, pre, ref): return z3.BoolVal(False)
    def sec(self, c): gh = c.ex.st.ghost; return gh["sec"] == 1, gh["pre"], gh["post"]


class MsgCall(Contract):
    """send / receive on a topic, as the manager sees it (both may block)"""
    trusted = True
    def apply(self, ex, f, this, vals, objty):
        gh = ex.st.ghost
        if "call" not in gh: raise Unsupported("a topic is used elsewhere")
        ex.prove("no lock of the manager is held while a topic may block", z3.BoolVal(not ex.st.held))
        gh["n"] = gh["n"] + 1; v = [x.get(ex) if isinstance(x, LV) else x for x in vals]; gh["call"] = (this, v[0], v[1])
        if f.name == "send": return None
        r = ex.fresh_value(STATUS, "recv"); x = ex.fresh("msg", I); vals[0].set(ex, x); gh["r"] = r; gh["v"] = x; return r
class MsgNew(Contract):
    trusted = True; ctor = True
    def apply(self, ex, f, this, vals, objty):
        v = [x.get(ex) if isinstance(x, LV) else x for x in vals]
        r = ex.alloc(MV); ex.assume(And(typeid(r) == ex.typeid_of(MV), mcap(r) == v[0], mconn(r) == v[1])); return r
class MsgCap(Contract):
    trusted = True
    def apply(self, ex, f, this, vals, objty): return mcap(this)


class Transfer(MOp):
    def ensures(self, c):
        one, pre, post = self.sec(c); gh = c.ex.st.ghost; k = topic(c, 0)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        call = gh["call"]; rcv = self.fn.endswith("recvTopicValue")
        o = [("one critical section that changes nothing", And(one, same(pre, post))), ("an unknown topic is refused, nothing is transferred", Implies(Not(pre.m[k]), And(c.ret.code < 0, gh["n"] == 0))),
             ("a known topic is used exactly once", Implies(pre.m[k], gh["n"] == 1))]
        if call is not None: o += [("the topic of that name, the given value and policy", And(pre.m[k], call[0] == val(pre, k), call[1] == c.a(1), call[2] == c.a(2))), ("reports what the topic reported", And(c.ret.code == gh["r"].code, c.arg_now(1) == gh["v"]) if rcv else c.ret.code == 0)]
        elif rcv: o.append(("the value is untouched", c.arg_now(1) == c.a(1)))
        return o
    def covers(self, c): pre = c.ex.st.ghost["pre"]; k = topic(c, 0); return [] if pre is None else [("known", pre.m[k]), ("unknown", Not(pre.m[k]))]
def topic(c, n, prefix="SEND_RECV_PREFIX"):
    ex = c.ex
    if not any(g.get("name") == prefix and g.inner for g in ex.p.globals.values()): raise Unsupported("no constant " + prefix)
    v = ex.models.global_var(prefix, {}); v = v.get(ex) if isinstance(v, LV) else v
    return ex.models.str_concat(v, c.a(n)) if z3.is_expr(v) and v.sort() == Str else ex.fresh("key", Str)


class CreateTopic(MOp):
    fn = MM + "::createTopic"; nparams = 2
    def T(self, c): return c.ex.typeid_of(MV)
    def loop_invs(self, L):
        ex = L.ex; c = self.c; out = []; p = ex.st.ghost["pre"]
        for k, t in L.locals(lambda t, n: t.k == "ptr"):
            out.append(("allocated topic is new and as requested", lambda L, k=k: Implies(L.value(k) != 0, And(L.value(k) > 0, ex.alive(L.value(k)), Not(ex.alive(L.value(k), c.old_st)), typeid(L.value(k)) == self.T(c), mcap(L.value(k)) == c.a(1)))))
        if p is not None: out.append(("stored topics stay alive", lambda L: ForAll([k_], Implies(p.m[k_], ex.alive(val(p, k_))), patterns=[val(p, k_)])))
        return out
    def ensures(self, c):
        one, pre, post = self.sec(c); k = topic(c, 0)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        v = val(post, k); T = self.T(c)
        return [("one critical section", one), ("no other topic is affected", but(pre, post, k)), ("an existing topic is kept", Implies(pre.m[k], And(post.m[k], val(pre, k) == v))),
                ("an existing topic is accepted for its own type and capacity only", Implies(pre.m[k], (c.ret.code >= 0) == And(typeid(val(pre, k)) == T, mcap(val(pre, k)) == c.a(1)))),
                ("a new name gets a new topic of the given type and capacity", Implies(Not(pre.m[k]), And(c.ret.code >= 0, post.m[k], v > 0, Not(c.ex.alive(v, c.old_st)), typeid(v) == T, mcap(v) == c.a(1))))]
    def covers(self, c): pre = c.ex.st.ghost["pre"]; k = topic(c, 0); return [] if pre is None else [("created", Not(pre.m[k])), ("again", And(pre.m[k], c.ret.code >= 0)), ("refused", c.ret.code < 0)]
class RemoveTopic(MOp):
    fn = MM + "::removeTopic"; nparams = 1
    def may_delete(self, pre, ref): k = topic(self.c, 0); return And(pre.m[k], ref == val(pre, k))
    def ensures(self, c):
        one, pre, post = self.sec(c); k = topic(c, 0)
        if pre is None or post is None: return [("one critical section", z3.BoolVal(False))]
        return [("one critical section", one), ("removing succeeds exactly for a known topic", (c.ret.code >= 0) == pre.m[k]), ("the topic is gone", Not(post.m[k])), ("no other topic is affected", but(pre, post, k)), ("the removed topic is released", Implies(pre.m[k], c.ex.rd("ghost.dels", val(pre, k)) == 1))]
    def covers(self, c): return [("removed", c.ret.code >= 0), ("unknown", c.ret.code < 0)]


MGR = [CreateTopic(), RemoveTopic(), Transfer(fn=MM + "::sendTopicValue", nparams=3), Transfer(fn=MM + "::recvTopicValue", nparams=3)]
MREG = [MsgCall(fn=MG + "::send"), MsgCall(fn=MV + "::send"), MsgCall(fn=MG + "::recv"), MsgCall(fn=MV + "::recv"), MsgNew(fn=MV + "::GMessage"), MsgCap(fn=MG + "::getCapacity"), MsgCap(fn=MV + "::getCapacity")]
for _c in MGR: _c.registry = MREG
CONTRACTS = RING + MSG + MGR
VERIFY = CONTRACTS
DRIVERS = ["c20"]
DRIVER_SECONDS = 12
NOTE = ("Proved for every buffer content, capacity >= 1 and interleaving: push and waitPopWithTimeout of the ring buffer are each one critical section on the abstract sequence of waiting messages (append behind all others; hand out and remove the oldest; replace the oldest; drop the new one; wait), an error only when nothing is waiting after the wait; "
        "capacity bookkeeping; GMessage::send / recv / constructor use their own queue once; GMessageManager::createTopic / removeTopic / sendTopicValue / recvTopicValue (as instances of the real templates) have their exact effect on the topic map in one critical section, and call the topic of that name once, without holding the lock. "
        "Assumed: a message type is used for its own topic (the code casts without a check), a topic is not removed while another thread is sending to or receiving from it, a notified waiter is scheduled. The driver explores schedules with virtual time and is bounded.")

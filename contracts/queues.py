"""Contracts of the thread pool's queues, shared by C22, C23 and C24.  A task is an opaque token (its copy, move and call are proved on
the real UTask separately): moving it moves the token, the heap cell a queue keeps it in is identified with it.

Every operation is one critical section of the queue's own mutex (pre / post = the container when the lock was taken / released);
outside the lock the container is arbitrary at every read, and is never written."""
from .base import *
from cgv.types import *
from cgv.interp import *
from .life import gset, g

RAW = ("token:CGraph::UTask", "token:UTask")
WS, AQ, PQ = "CGraph::UWorkStealingQueue<CGraph::UTask>::", "CGraph::UAtomicQueue<CGraph::UTask>::", "CGraph::UAtomicPriorityQueue<CGraph::UTask>::"
x_ = z3.Int("qx")


def keep(a, b, n, oa=0, ob=0):
    """the n elements of b from ob on are those of a from oa on"""
    lo = b.lo + ob; return ForAll([i_], Implies(And(lo <= i_, i_ < lo + n), b.d[i_] == a.d[i_ - lo + a.lo + oa]), patterns=[b.d[i_]])
def size(v): return v.hi - v.lo
def same(a, b): return And(size(a) == size(b), keep(a, b, size(a)))
def appended(a, b, x): return And(size(b) == size(a) + 1, b.d[b.hi - 1] == x, keep(a, b, size(a)))
def popped_front(a, b): return And(size(b) == size(a) - 1, keep(a, b, size(b), 1))
def popped_back(a, b): return And(size(b) == size(a) - 1, keep(a, b, size(b)))


class Q(Contract):
    raw = RAW; check_null = False; field = None; entry_held = False
    def cont(self, ex): cls, n, t = ex.find_field(self.field); return ex.hread(cls, n, self.c.this, t)
    def setup(self, c):
        gh = c.ex.st.ghost; gh["sec"] = z3.IntVal(0); gh["nnot"] = z3.IntVal(0); gh["pre"] = gh["post"] = None; gh["wait"] = False
    def mine(self, m): return m.name == "mutex_" and z3.is_expr(m.ref) and m.ref.eq(self.c.this)
    def held(self, ex): return any(k[1] == "mutex_" and k[2] == self.c.this.sexpr() for k in ex.st.held)
    def acquire(self, ex, m, k):
        ex.prove("only the queue's own mutex is taken", z3.BoolVal(self.mine(m)))
        gh = ex.st.ghost; cls, n, t = ex.find_field(self.field)
        if not gh["wait"]: ex.prove("each operation is one critical section", gh["sec"] == 0); gset(ex, "sec", gh["sec"] + 1)
        gh["wait"] = False; ex.havoc_at(cls, n, self.c.this, t); gh["pre"] = self.cont(ex); gh["post"] = None; self.wf(ex, gh["pre"])
    def wf(self, ex, v):
        """queue invariant: no stored task is null"""
        if v.ty.k == "pqueue": ex.assume(And(v.hi >= 0, Not(v.m[0]), ForAll([x_], Implies(v.m[x_], v.hi >= 1), patterns=[v.m[x_]])))
        else: ex.assume(And(v.lo <= v.hi, ForAll([i_], Implies(And(v.lo <= i_, i_ < v.hi), v.d[i_] > 0), patterns=[v.d[i_]])))
    def release(self, ex, m, k):
        gh = ex.st.ghost; post = self.cont(ex)
        if post.ty.k != "pqueue": ex.prove("no stored task is null", ForAll([i_], Implies(And(post.lo <= i_, i_ < post.hi), post.d[i_] > 0)))
        if gh["wait"]: ex.prove("nothing is changed before the wait", same(gh["pre"], post)); return
        gh["post"] = post
    def on_wait(self, ex, cv, m, pred): ex.st.ghost["wait"] = True
    def on_notify(self, ex, cv, n): gset(ex, "nnot", ex.st.ghost["nnot"] + 1)
    def is_field(self, ex, cls, name): return name == self.field.split(".")[1]
    def on_read(self, ex, cls, name, ref):
        if self.is_field(ex, cls, name) and not self.held(ex) and not ex.st.ghost.get("inhook"):
            ex.st.ghost["inhook"] = True; c, n, t = ex.find_field(self.field); ex.havoc_at(c, n, self.c.this, t); self.wf(ex, self.cont(ex)); ex.st.ghost["inhook"] = False
    def on_write(self, ex, cls, name, ref):
        if self.is_field(ex, cls, name) and not ex.st.ghost.get("inhook"): ex.prove("the container is only changed while its lock is held", z3.BoolVal(self.held(ex)))
    def on_token(self, ex, t, vals): raise Unsupported("a queue makes a task of its own")
    modifies = property(lambda self: ((self.field, lambda c: [c.this]),))
    def requires(self, c): return [("a real task", c.a(0) > 0)] if self.pushes else []
    pushes = False
    def eff(self, c, pre, post): return []
    def untouched(self, c): return []
    def nosec(self, c): return z3.BoolVal(False)      # may return without having entered the critical section
    def ensures(self, c):
        if getattr(c, "call", False): return []
        gh = c.ex.st.ghost
        if gh["pre"] is None or gh["post"] is None: return [("takes effect in one critical section, or reports that it did nothing", And(gh["sec"] == 0, self.nosec(c)))] + self.untouched(c)
        return [("one critical section", gh["sec"] == 1)] + self.eff(c, gh["pre"], gh["post"])
    def loop_invs(self, L):
        ex = L.ex; gh = ex.st.ghost; out = [("not yet entered", lambda L: ex.st.ghost["sec"] == 0), ("entered", lambda L: ex.st.ghost["sec"] == 1), ("nobody notified", lambda L: ex.st.ghost["nnot"] == 0)]
        return out + self.frame_inv(L) + self.more_invs(L)
    def more_invs(self, L): return []
    def frame_inv(self, L):
        ex = L.ex; th = self.c.this
        def f(L):
            u, v = ex.rd(self.field, r_, L.entry), ex.rd(self.field, r_)
            return And(*[ForAll([r_], Implies(r_ != th, u.c[p] == v.c[p]), patterns=[v.c[p]]) for p in u.c])
        return [("other queues are not touched", f)]


class Push(Q):
    pushes = True
    def __init__(self, **kw): Contract.__init__(self, **kw)
    def nosec(self, c): return Not(c.ret) if self.fn.endswith("tryPush") else z3.BoolVal(False)
    def eff(self, c, pre, post):
        o = [("exactly this task is stored, behind all others", appended(pre, post, c.a(0)))]
        if self.fn.endswith("tryPush"): o.append(("reports success", c.ret))
        if self.cond: o.append(("a waiting thread is notified", c.ex.st.ghost["nnot"] >= 1))
        return o
    cond = False
class PushAll(Q):
    def requires(self, c): return []
    def wf(self, ex, v): ex.assume(v.lo <= v.hi)
    def release(self, ex, m, k): ex.st.ghost["post"] = self.cont(ex)
    def eff(self, c, pre, post): v = c.a(0); return [("as many tasks are stored as were given", size(post) == size(pre) + size(v)), ("behind all others", keep(pre, post, size(pre))), ("exactly these tasks, in order", keep(v, post, size(v), 0, size(pre)))]
    def more_invs(self, L):
        if L.rng is None: return []
        ex = L.ex; gh = ex.st.ghost; q = lambda: self.cont(ex); P = lambda: ex.st.ghost["pre"]; v = self.c.args[0]
        return [("so far", lambda L: And(size(q()) == size(P()) + (L.k - L.seq.lo), keep(P(), q(), size(P())))), ("so far, in order", lambda L: keep(v, q(), L.k - L.seq.lo, 0, size(P()))), ("bounds", lambda L: q().lo == P().lo)]
class Pop1(Q):
    """single removal from one end"""
    back = False
    def nosec(self, c): return Not(c.ret)
    def untouched(self, c): return [("the output is untouched", c.arg_now(0) == c.a(0))]
    def eff(self, c, pre, post):
        x = pre.d[pre.hi - 1] if self.back else pre.d[pre.lo]
        return [("succeeds exactly when there is a task", c.ret == (size(pre) > 0)), ("the task handed out is the one removed", Implies(c.ret, And(c.arg_now(0) == x, popped_back(pre, post) if self.back else popped_front(pre, post)))),
                ("a failure changes nothing", Implies(Not(c.ret), And(same(pre, post), c.arg_now(0) == c.a(0))))]
    def covers(self, c): return [("taken", c.ret), ("nothing", Not(c.ret))]
class WaitPop(Pop1):
    def eff(self, c, pre, post): return [("the task handed out is the first one", And(size(pre) > 0, c.arg_now(0) == pre.d[pre.lo], popped_front(pre, post)))]
    def nosec(self, c): return z3.BoolVal(False)
    def covers(self, c): return []
class PopPtr(Q):
    def eff(self, c, pre, post):
        o = [("the task handed out is the one removed", Implies(c.ret != 0, And(size(pre) > 0, c.ret == pre.d[pre.lo], popped_front(pre, post)))), ("nothing handed out, nothing removed", Implies(c.ret == 0, same(pre, post)))]
        if self.now: o.append(("succeeds exactly when there is a task", (c.ret != 0) == (size(pre) > 0)))
        return o
    now = True
    def covers(self, c): return [("taken", c.ret != 0), ("nothing", c.ret == 0)]
class PopN(Q):
    """batch removal"""
    back = False
    def nosec(self, c): return Not(c.ret)
    def untouched(self, c): return [("the output is untouched", same(c.a(0), c.arg_now(0)))]
    def moved(self, pre, q): return pre.hi - q.hi if self.back else q.lo - pre.lo
    def rel(self, c, pre, q, v):
        k = self.moved(pre, q); v0 = c.args[0]
        src = (lambda i: pre.d[pre.hi - 1 - i]) if self.back else (lambda i: pre.d[pre.lo + i])
        return [("removed from one end only", And(0 <= k, k <= size(pre), q.lo == pre.lo if self.back else q.hi == pre.hi, keep(pre, q, size(q), 0 if self.back else k))),
                ("every removed task is handed out, once, in order", And(size(v) == size(v0) + k, keep(v0, v, size(v0)), ForAll([i_], Implies(And(v.lo + size(v0) <= i_, i_ < v.lo + size(v0) + k), v.d[i_] == src(i_ - v.lo - size(v0))), patterns=[v.d[i_]])))]
    def eff(self, c, pre, post):
        k = self.moved(pre, post)
        return self.rel(c, pre, post, c.arg_now(0)) + [("reports whether it took any", c.ret == (k > 0)), ("not more than asked for", Implies(c.a(1) >= 0, k <= c.a(1))), ("takes one if there is one", Implies(And(size(pre) > 0, c.a(1) > 0), k > 0))]
    def covers(self, c): return [("taken", c.ret), ("nothing", Not(c.ret))]
    def more_invs(self, L):
        ex = L.ex; P = lambda: ex.st.ghost["pre"]; out = []
        if P() is None: return []
        q = lambda: self.cont(ex); v = lambda: self.c.arglvs[0].get(ex)
        for n in range(2): out.append(("so far %d" % n, lambda L, n=n: self.rel(self.c, P(), q(), v())[n][1]))
        for k, t in L.locals(lambda t, n: t.k == "bool"): out.append(("taken so far", lambda L, k=k: L.value(k) == (self.moved(P(), q()) > 0)))
        for k, t in L.locals(lambda t, n: t.k == "int"):
            out.append(("limit", lambda L, k=k: L.value(k) == self.c.args[1] - self.moved(P(), q()))); out.append(("counted", lambda L, k=k: L.value(k) == self.moved(P(), q())))
            out.append(("limit left", lambda L, k=k: Implies(self.c.args[1] >= 0, L.value(k) >= 0)))
        return out
class Peek(Q):
    modifies = ()
    def ensures(self, c): return [] if getattr(c, "call", False) else [("changes nothing", z3.BoolVal(True))]
class Empty(Q):
    def eff(self, c, pre, post): return [("tells whether it is empty", c.ret == (size(pre) == 0)), ("changes nothing", same(pre, post))]
class Ready(Q):
    """reset(): only the flag changes, and every waiter is told"""
    modifies = ("UAtomicQueue.ready_flag_", ("UAtomicQueue.queue_", lambda c: [c.this]))
    def eff(self, c, pre, post): return [("the tasks stay", same(pre, post)), ("not ready any more", Not(c("UAtomicQueue.ready_flag_"))), ("waiting threads are told", c.ex.st.ghost["nnot"] >= 1)]
class PLock(Q):
    """push(task, enable, lockable): the first of a run of pushes takes the lock, the last one gives it back"""
    may_hold = True; pushes = True
    def key(self): return ("CGraph::UQueueObject", "mutex_", self.c.this.sexpr())
    def prologue(self, c):
        ex = c.ex; en, lk = c.a(1), c.a(2)
        if ex.branch(Not(And(en, lk))): 
            ex.st.held[self.key()] = 1; gh = ex.st.ghost; gset(ex, "sec", 1); cls, n, t = ex.find_field(self.field); gh["inhook"] = True; ex.havoc_at(cls, n, c.this, t); gh["pre"] = self.cont(ex); self.wf(ex, gh["pre"]); gh["inhook"] = False
    def ensures(self, c):
        if getattr(c, "call", False): return []
        ex = c.ex; gh = ex.st.ghost; h = self.held(ex)
        if gh["pre"] is None: return [("takes effect under the lock", z3.BoolVal(False))]
        return [("the lock is given back exactly by the last push", z3.BoolVal(h) == Not(And(c.a(1), Not(c.a(2))))), ("one critical section", gh["sec"] == 1),
                ("exactly this task is stored, behind all others", appended(gh["pre"], self.cont(ex) if h else gh["post"], c.a(0)))]
Contract.prologue = Contract.prologue


class P_(Q):
    """priority queue"""
    field = "UAtomicPriorityQueue.priority_queue_"
    def prio(self, x, st=None): return self.c.ex.rd("UTask.priority_", x, st)
    def of(self, x): return z3.Function("wraps", I, I)(x)
    def on_token_op(self, ex, op, x, y):
        """the comparison of two tasks is the real one"""
        f = next((f for f in ex.p.byqn.get("CGraph::UTask::operator" + op, ()) if f.body is not None), None)
        if f is None: raise Unsupported("operator%s of UTask" % op)
        return ex.inline(f, x, [LObj(y, Ty("cls", n="CGraph::UTask"))])
class PPush(P_):
    fn = PQ + "push"; nparams = 2; pushes = True
    def on_token(self, ex, t, vals):
        """UTask(task, priority): a new task that runs the given one and has this priority (constructor and call proved below)"""
        ex.prove("the stored task runs the given task, with the given priority", And(vals[0] == self.c.args[0], ex.num(vals[1]) == self.c.args[1]))
        r = ex.fresh("newtask", I); ex.assume(And(r > 0, self.of(r) == vals[0], self.prio(r) == ex.num(vals[1]))); ex.st.ghost["new"] = r; return r
    def acquire(self, ex, m, k):
        Q.acquire(self, ex, m, k)
        if "new" in ex.st.ghost: ex.assume(Not(ex.st.ghost["pre"].m[ex.st.ghost["new"]]))      # a new object is in no queue
    def eff(self, c, pre, post):
        n = c.ex.st.ghost.get("new")
        if n is None: return [("a task with the priority is stored", z3.BoolVal(False))]
        return [("exactly one task is stored: the given one, with the given priority", And(post.hi == pre.hi + 1, ForAll([x_], post.m[x_] == Or(pre.m[x_], x_ == n), patterns=[post.m[x_]])))]
class PPop1(P_):
    fn = PQ + "tryPop"; nparams = 1
    def nosec(self, c): return Not(c.ret)
    def untouched(self, c): return [("the output is untouched", c.arg_now(0) == c.a(0))]
    def eff(self, c, pre, post):
        x = c.arg_now(0)
        return [("succeeds exactly when there is a task", c.ret == (pre.hi > 0)), ("the task handed out is the one removed", Implies(c.ret, And(pre.m[x], post.hi == pre.hi - 1, ForAll([x_], post.m[x_] == And(pre.m[x_], x_ != x), patterns=[post.m[x_]])))),
                ("no waiting task has a higher priority than the one handed out", Implies(c.ret, ForAll([x_], Implies(pre.m[x_], self.prio(x_) <= self.prio(x)), patterns=[pre.m[x_]]))),
                ("a failure changes nothing", Implies(Not(c.ret), And(post.hi == pre.hi, ForAll([x_], post.m[x_] == pre.m[x_], patterns=[post.m[x_]]), x == c.a(0))))]
    def covers(self, c): return [("taken", c.ret), ("nothing", Not(c.ret))]
class PPopN(P_):
    fn = PQ + "tryPop"; nparams = 2
    def nosec(self, c): return Not(c.ret)
    def untouched(self, c): return [("the output is untouched", same(c.a(0), c.arg_now(0)))]
    def rel(self, c, pre, q, v):
        k = pre.hi - q.hi; v0 = c.args[0]; at = lambda i: v.d[i]; pos = c.ex.st.ghost["pos"]; lo = v.lo + size(v0); inn = lambda i: And(lo <= i, i < lo + k)
        return [("amounts", And(k >= 0, size(v) == size(v0) + k, keep(v0, v, size(v0)))),
                ("handed out tasks were stored and are removed", ForAll([i_], Implies(inn(i_), And(pre.m[at(i_)], Not(q.m[at(i_)]), pos[at(i_)] == i_)), patterns=[at(i_)])),
                ("all others stay", ForAll([x_], And(Implies(q.m[x_], pre.m[x_]), Implies(And(pre.m[x_], Not(q.m[x_])), And(inn(pos[x_]), at(pos[x_]) == x_))), patterns=[q.m[x_]])),
                ("highest priorities first", And(ForAll([i_, x_], Implies(And(inn(i_), q.m[x_]), self.prio(x_) <= self.prio(at(i_))), patterns=[z3.MultiPattern(at(i_), q.m[x_])]), ForAll([i_, j_], Implies(And(lo <= i_, i_ < j_, j_ < lo + k), self.prio(at(j_)) <= self.prio(at(i_))), patterns=[z3.MultiPattern(at(i_), at(j_))])))]
    def setup(self, c): P_.setup(self, c); c.ex.st.ghost["pos"] = c.ex.fresh("pos", z3.ArraySort(I, I))
    def on_push(self, ex, lv, v, x):
        """ghost: position at which a task was handed out"""
        p = ex.st.ghost["pos"]; n = ex.fresh("pos", p.sort()); x = ex.coerce(x if not isinstance(x, LV) else x.get(ex), Ty("opaque")); ex.assume(n == z3.Store(p, x, v.hi)); gset(ex, "pos", n)
    def eff(self, c, pre, post):
        k = pre.hi - post.hi
        return self.rel(c, pre, post, c.arg_now(0)) + [("reports whether it took any", c.ret == (k > 0)), ("not more than asked for", Implies(c.a(1) >= 0, k <= c.a(1))), ("takes one if there is one", Implies(And(pre.hi > 0, c.a(1) > 0), k > 0))]
    def covers(self, c): return [("taken", c.ret), ("nothing", Not(c.ret))]
    def more_invs(self, L):
        ex = L.ex; P = lambda: ex.st.ghost["pre"]; out = []
        if P() is None: return []
        q = lambda: self.cont(ex); v = lambda: self.c.arglvs[0].get(ex)
        for n in range(4): out.append(("so far %d" % n, lambda L, n=n: self.rel(self.c, P(), q(), v())[n][1]))
        for k, t in L.locals(lambda t, n: t.k == "bool"): out.append(("taken so far", lambda L, k=k: L.value(k) == (P().hi - q().hi > 0)))
        out.append(("not negative", lambda L: And(q().hi >= 0, ForAll([x_], Implies(q().m[x_], q().hi >= 1), patterns=[q().m[x_]]))))
        for k, t in L.locals(lambda t, n: t.k == "int"): out.append(("limit", lambda L, k=k: L.value(k) == self.c.args[1] - (P().hi - q().hi))); out.append(("limit left", lambda L, k=k: Implies(self.c.args[1] >= 0, L.value(k) >= 0)))
        return out
class PEmpty(P_):
    fn = PQ + "empty"
    def eff(self, c, pre, post): return [("tells whether it is empty", c.ret == (pre.hi <= 0))]


def mk(cls, fn, nparams=None, field=None, **kw): return cls(fn=fn, nparams=nparams, **({"field": field} if field else {}), **kw)
WF, AF = "UWorkStealingQueue.deque_", "UAtomicQueue.queue_"
WSQ = [mk(Push, WS + "push", 1, WF), mk(Push, WS + "tryPush", 1, WF), mk(PLock, WS + "push", 3, WF), mk(PushAll, "CGraph::UWorkStealingQueue<std::basic_string<char>>::push", 1, WF),
       mk(Pop1, WS + "tryPop", 1, WF), mk(PopN, WS + "tryPop", 2, WF), mk(Pop1, WS + "trySteal", 1, WF, back=True), mk(PopN, WS + "trySteal", 2, WF, back=True)]
ATQ = [mk(Push, AQ + "push", 1, AF, cond=True), mk(Pop1, AQ + "tryPop", 1, AF), mk(PopN, AQ + "tryPop", 2, AF), mk(WaitPop, AQ + "waitPop", 1, AF), mk(PopPtr, AQ + "popWithTimeout", 1, AF, now=False), mk(PopPtr, AQ + "tryPop", 0, AF), mk(Empty, AQ + "empty", 0, AF), mk(Ready, AQ + "reset", 0, AF)]
PRQ = [PPush(), PPop1(), PPopN(), PEmpty()]
for _c in WSQ + ATQ + PRQ: _c.registry = []

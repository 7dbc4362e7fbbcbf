"""C33: timers.  Ghost clock `clk` (milliseconds): every reading, wait and call only moves it forward; a timed wait that ends by its limit moves it by at least the duration.
`due`: the earliest time of the next call of the task; `seen`: the stop flag as last read by the timer's thread."""
from .base import *
from cgv.types import *
from cgv.interp import *
from .life import gset, g

UT, GD, GM = "CGraph::UTimer::", "CGraph::GDaemon::", "CGraph::GDaemonManager::"
STOP, LEFT, ORIG, FUT = "UTimer.is_stop_", "UTimer.left_interval_", "UTimer.origin_interval_", "UTimer.future_"
NS = ("nasync", "nwait", "nnot", "clk", "due", "begin", "ntask", "nmod")


class Timer(Contract):
    check_null = False; modifies = Any
    def timer(self, c): return c.this
    def setup(self, c):
        gh = c.ex.st.ghost
        for n in NS: gh[n] = z3.IntVal(0)
        gh["clk"] = z3.Int("clk0"); gh["seen"] = z3.BoolVal(False); gh["chk"] = gh["chkat"] = z3.BoolVal(False); gh["thread"] = False; gh["futid"] = z3.IntVal(-1); self.t = self.timer(c)
    def held(self, ex): return any(k[1] == "mutex_" and k[2] == self.t.sexpr() for k in ex.st.held)
    def tick(self, ex, least=None):
        v = ex.fresh("clk", I); ex.assume(v >= g(ex, "clk"))
        if least is not None: ex.assume(least(v))
        gset(ex, "clk", v); return v
    # ---- the stop flag: the timer's thread may find it changed at any time; otherwise one thread at a time starts and stops a timer
    def before_atomic(self, ex, lv, op):
        if getattr(lv, "name", "") != "is_stop_": return
        if ex.st.ghost["thread"]:
            cls, n, t = ex.find_field(STOP); ex.havoc_at(cls, n, lv.ref, t); ex.st.ghost["seen"] = ex.rd(STOP, lv.ref); ex.note_write(("g", "seen"))
            if op != "load": ex.prove("the timer's thread never changes the stop flag", z3.BoolVal(False))
            ex.st.ghost["chk"] = z3.BoolVal(self.held(ex)); ex.note_write(("g", "chk"))
        elif op != "load" and not ex.st.ghost.get("starting"): pass
    def after_atomic(self, ex, lv, op, old, new):
        if getattr(lv, "name", "") == "is_stop_" and not ex.st.ghost["thread"] and op in ("exchange", "store") and z3.is_expr(new):
            if not self.starts: ex.prove("the stop flag is raised under the lock of the waiting thread", Or(old, Not(new), z3.BoolVal(self.held(ex))))
    starts = False
    def acquire(self, ex, m, k):
        if m.name == "mutex_": ex.st.ghost["chk"] = z3.BoolVal(False); ex.note_write(("g", "chk"))
    def release(self, ex, m, k):
        if m.name == "mutex_": ex.st.ghost["chkat"] = ex.st.ghost["chk"]; ex.note_write(("g", "chkat"))
    def on_timed_wait(self, ex, lv, m, name, d, r, haspred):
        if not ex.st.ghost["thread"] or name != "wait_for": raise Unsupported("timed wait here")
        ex.prove("the stop flag is looked at under the lock before waiting", Or(z3.BoolVal(haspred), ex.st.ghost["chkat"]))
        out = Not(r) if haspred else r == 1; c0 = g(ex, "clk"); self.tick(ex, lambda v: Implies(out, v >= c0 + d))
    def on_now(self, ex, v): ex.assume(And(v >= g(ex, "clk"), v < 2**60)); gset(ex, "clk", v)
    def on_notify(self, ex, cv, n): gset(ex, "nnot", g(ex, "nnot") + 1); ex.prove("waking follows raising the flag", ex.rd(STOP, self.t))
    def on_future(self, ex, lv, v, name):
        if name != "wait": raise Unsupported("future::" + name)
        ex.prove("stopping waits for the timer's own thread", And(v.c[".id"] == ex.rd(FUT, self.t).c[".id"], ex.rd(STOP, self.t))); ex.prove("woken before waiting for it", g(ex, "nnot") >= 1)
        ex.prove("no lock is held while waiting for the thread", z3.BoolVal(not ex.st.held)); gset(ex, "nwait", g(ex, "nwait") + 1); return None


class Stop(Timer):
    fn = UT + "stop"; nparams = 0; check_null = True
    def requires(self, c): return [("a started timer has a thread", Or(c(STOP, self.timer(c)), c(FUT, self.timer(c)).c[".valid"]))]
    def ensures(self, c):
        t = self.timer(c); was = c.o(STOP, t); G = lambda n: g(c.ex, n)
        return [("stopping a stopped timer does nothing", Implies(was, And(G("nwait") == 0, G("nasync") == 0))), ("stopping a running timer waits until its thread has ended", Implies(Not(was), G("nwait") == 1)), ("it is stopped", c(STOP, t)),
                ("nothing else changes", And(c(LEFT, t) == c.o(LEFT, t), c(ORIG, t) == c.o(ORIG, t)))]
    def covers(self, c): was = c.o(STOP, self.timer(c)); return [("running", Not(was)), ("stopped", was)]
class Dtor(Stop): fn = UT + "~UTimer"
class DDestroy(Stop):
    fn = GD + "destroy"; nparams = 0
    def timer(self, c): return c.ex.subobj("CGraph::GDaemon", "timer_", c.this)
    def ensures(self, c): return Stop.ensures(self, c) + [("succeeds", c.ret.code == 0)]


class Task(Contract):
    """the user's task: takes any time, does not throw"""
    fn = GD + "daemonTask"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        if "clk" not in ex.st.ghost: raise Unsupported("daemonTask elsewhere")
        sp = ex.spec; v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]
        ex.prove("only the timer's thread calls the task", z3.BoolVal(ex.st.ghost["thread"])); ex.prove("the daemon's own task with its own parameter", And(this == sp.c.this, v == ex.rd("GDaemonObject.param_", this)))
        ex.prove("not before the interval has passed", g(ex, "clk") >= g(ex, "due")); ex.prove("not once the stop flag was seen", Not(ex.st.ghost["seen"]))
        gset(ex, "begin", g(ex, "clk")); gset(ex, "ntask", g(ex, "ntask") + 1); sp.tick(ex); return None
class Modify(Contract):
    """the user's interval for the next wait, if positive"""
    fn = GD + "modify"; trusted = True; virtual_any = True
    def apply(self, ex, f, this, vals, objty):
        if "clk" not in ex.st.ghost: raise Unsupported("modify elsewhere")
        sp = ex.spec; v = vals[0].get(ex) if isinstance(vals[0], LV) else vals[0]; ex.prove("asked once after every call", And(this == sp.c.this, v == ex.rd("GDaemonObject.param_", this), g(ex, "nmod") + 1 == g(ex, "ntask"), z3.BoolVal(ex.st.ghost["thread"])))
        r = ex.fresh("modified", I); ex.assume(And(r > -2**62, r < 2**62)); now = sp.tick(ex); gset(ex, "nmod", g(ex, "nmod") + 1); gset(ex, "due", If(r > 0, now + r, g(ex, "begin") + sp.interval(ex))); return r


class DInit(Timer):
    """GDaemon::init with UTimer::start (inlined) and the body of the timer's thread"""
    fn = GD + "init"; nparams = 0; starts = True
    def timer(self, c): return c.ex.subobj("CGraph::GDaemon", "timer_", c.this)
    def interval(self, ex): return self.c.o("GDaemonObject.interval_", self.c.this)
    def requires(self, c): v = c("GDaemonObject.interval_"); return [("interval", And(v > -2**60, v < 2**60))]
    def on_async(self, ex, n, vals):
        t = self.t; clo = vals[1].get(ex) if isinstance(vals[1], LV) else vals[1]; pol = ex.num(vals[0].get(ex) if isinstance(vals[0], LV) else vals[0])
        ex.prove("a thread of its own, started at once", pol == 1); gset(ex, "nasync", g(ex, "nasync") + 1); ex.prove("the timer is marked as running before its thread starts", Not(ex.rd(STOP, t)))
        if ex.choose(2) == 1:
            ex.st.ghost["thread"] = True; gset(ex, "due", g(ex, "clk") + self.interval(ex)); self.tick(ex)
            for k in list(ex.st.held): ex.prove("no lock is held when the thread starts", z3.BoolVal(False))
            ex.call_value(clo, [])
            ex.prove("the thread ends only when the timer is stopped", ex.st.ghost["seen"]); ex.prove("every call was followed by its interval", g(ex, "nmod") == g(ex, "ntask")); ex.prove("the lock is free at the end", z3.BoolVal(not ex.st.held))
            raise PathEnd("end of the timer's thread")
        i = ex.fresh("futid", I); ex.st.ghost["futid"] = i; return CV(Ty("future", [VOID], "future"), {".valid": z3.BoolVal(True), ".id": i})
    def loop_invs(self, L):
        ex = L.ex; t = self.t; G = lambda n: g(ex, n)
        return [("waiting for the interval is long enough", lambda L: G("clk") + ex.rd(LEFT, t) >= G("due")), ("interval kept", lambda L: ex.rd(ORIG, t) == self.interval(ex)), ("in step", lambda L: G("nmod") == G("ntask")), ("lock free", lambda L: z3.BoolVal(not ex.st.held))]
    def ensures(self, c):
        t = self.t; was = Not(c.o(STOP, t)); G = lambda n: g(c.ex, n)
        return [("succeeds", c.ret.code == 0), ("starting a running timer changes nothing", Implies(was, And(G("nasync") == 0, c(LEFT, t) == c.o(LEFT, t), c(ORIG, t) == c.o(ORIG, t), c(FUT, t).c[".id"] == c.o(FUT, t).c[".id"], Not(c(STOP, t))))),
                ("otherwise it runs, on one thread that stopping will wait for", Implies(Not(was), And(G("nasync") == 1, Not(c(STOP, t)), c(FUT, t).c[".id"] == c.ex.st.ghost["futid"], c(FUT, t).c[".valid"])))]
    def covers(self, c): was = Not(c.o(STOP, self.t)); return [("started", Not(was)), ("running already", was)]


# ---- all daemons of a pipeline
class Step(Contract):
    trusted = True; which = 0; modifies = (("ghost.steps", lambda c: [c.this]),)
    def effect(self, c):
        ex = c.ex
        if not isinstance(ex.spec, All) or ex.spec.which != self.which: raise Unsupported("daemon lifecycle elsewhere")
        ex.wr("ghost.steps", c.this, ex.rd("ghost.steps", c.this, c.old_st) + 1)
    def ensures(self, c): return [("-", c.ret.code == 0)]
class All(Contract):
    """every daemon of the pipeline is started / stopped exactly once"""
    which = 0; modifies = Any; check_null = True
    def setup(self, c): ex = c.ex; ex.ghost_field("steps", INT); ex.havoc_key("ghost", "steps", INT); ex.assume(ForAll([a_], ex.rd("ghost.steps", a_) == 0, patterns=[ex.rd("ghost.steps", a_)]))
    def requires(self, c): v = c("GDaemonManager.daemons_"); return [("daemons exist", ForAll([a_], Implies(v.m[a_], a_ > 0), patterns=[v.m[a_]]))]
    def v(self): return self.c.o("GDaemonManager.daemons_")
    def loop_invs(self, L):
        ex = L.ex; v = self.v(); return [("exactly those visited", lambda L: ForAll([a_], ex.rd("ghost.steps", a_) == If(And(v.m[a_], v.c[".pos"][a_] < L.k), 1, 0), patterns=[ex.rd("ghost.steps", a_)])), ("no error", lambda L: And(*[L.value(k).code == 0 for k, t in L.locals(lambda t, n: t.k == "status")]))]
    def ensures(self, c): v = self.v(); return [("succeeds", c.ret.code == 0), ("every daemon exactly once, nothing else", ForAll([a_], c.ex.rd("ghost.steps", a_) == If(v.m[a_], 1, 0)))]
ALL = [All(fn=GM + n, nparams=0, which=w, label="GDaemonManager::" + n) for w, n in enumerate(("init", "destroy"))]
for w, n in enumerate(("init", "destroy")): ALL[w].registry = [Step(fn=GD + n, nparams=0, which=w)]
TIM = [Stop(), Dtor(), DDestroy(), DInit()]
for t in TIM[:3]: t.registry = []
TIM[3].registry = [Task(), Modify()]
CONTRACTS = TIM + ALL
VERIFY = CONTRACTS
DRIVERS = ["c33"]
DRIVER_SECONDS = 30
NOTE = ("Proved for every interval, task duration, modified interval and scheduling delay: the body of the timer's thread calls the task only after a wait of at least the configured (or modified) interval since the clock reading taken before the previous call, "
        "never once the stop flag was seen, asks for the modification exactly once per call and ends only when stopped; stop raises the flag under the lock of the waiting thread, wakes it and waits for exactly the thread the last start created; starting a running timer "
        "and stopping a stopped one change nothing; init and destroy of the daemon manager start and stop every daemon exactly once. Assumed: one thread at a time starts and stops a given timer, not from within its own task; the task does not throw; std::future::wait of a "
        "std::async thread returns when its function has returned; a timed wait that ends by its limit lasted at least that long.")
ASSUMPTIONS = ["one thread at a time starts and stops a given timer, and not from within its task", "the task and modify do not throw", "std::condition_variable::wait_for that ends by its limit lasted at least the given time on the steady clock"]

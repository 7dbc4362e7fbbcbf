"""Contracts, the verification driver and call-by-contract."""
import time, traceback, z3
from .types import *
from .core import *
from .interp import Interp

NULL = z3.IntVal(0)
Any = object()


class Hooks:
    """interference / ghost hooks; a contract or a module overrides what it needs"""
    check_null = False
    check_bounds = False
    def on_read(self, ex, cls, name, ref): pass
    def on_write(self, ex, cls, name, ref): pass
    def on_delete(self, ex, ref, t): pass
    def on_unknown_call(self, ex, v, vals, lv): return NotImplemented
    def transparent(self, ty): return False
    def acquire(self, ex, m, k):
        mon = self.monitor(ex, m)
        if mon is not None: mon.acquire(ex, m, k)
    def release(self, ex, m, k):
        mon = self.monitor(ex, m)
        if mon is not None: mon.release(ex, m, k)
    def monitor(self, ex, m):
        for mon in self.monitors:
            if mon.matches(ex, m): return mon
        return None
    monitors = ()
    def on_notify(self, ex, cv, n): pass
    def on_wait(self, ex, cv, m, pred): pass
    def before_atomic(self, ex, lv, op): pass
    def after_atomic(self, ex, lv, op, old, new): pass
    def on_loop_entry(self, ex, node, rng): pass
    def on_push(self, ex, lv, v, x): pass
    def on_loop_head(self, ex, L): pass
    def on_loop_back(self, ex, L): pass
    loop_ms = 250                                # solver effort per loop candidate
    def loop_invs(self, L): return []
    def shared(self, cls, name): return False    # changed by other threads at any time: no frame candidates


class Monitor:
    """lock invariant: protected fields are arbitrary (subject to inv) at acquisition, inv is an obligation at release"""
    def __init__(self, mutex, fields, inv, heap_wide=()):
        self.mutex = mutex; self.fields = fields; self.inv = inv; self.wide = heap_wide
    def matches(self, ex, m):
        c, f = self.mutex.rsplit(".", 1)
        return m.name == f and m.cls.split("::")[-1].split("<")[0] == c.split("::")[-1]
    def acquire(self, ex, m, k):
        for f in self.fields:
            c, n, t = ex.find_field(f) if not f.startswith("ghost.") else ("ghost", f[6:], ex.ghost_ty[f[6:]])
            ex.havoc_at(c, n, m.ref, t)
        for f in self.wide:
            c, n, t = ex.find_field(f) if not f.startswith("ghost.") else ("ghost", f[6:], ex.ghost_ty[f[6:]])
            ex.havoc_key(c, n, t)
        for nm, f in self.inv(ex, m.ref): ex.assume(f)
        ex.st.acq[k] = ex.st.copy()
    def release(self, ex, m, k):
        for nm, f in self.inv(ex, m.ref): ex.prove("monitor invariant: " + nm, f)
        pre = ex.st.acq.get(k)
        ex.st.events.append(("crit", k, pre, ex.st.copy()))


class Ctx:
    """what pre/postconditions talk about"""
    def __init__(self, ex, f, this, args, old, st=None):
        self.ex = ex; self.f = f; self.this = this; self.args = args; self.old_st = old; self.st = st; self.ret = None; self.threw = None
    def __call__(self, field, ref=None, st=None): return self.ex.rd(field, self.this if ref is None else ref, st or self.st)
    def o(self, field, ref=None): return self.ex.rd(field, self.this if ref is None else ref, self.old_st)
    def a(self, i):
        """value of argument i at entry"""
        return self.args[i]
    def arg_now(self, i):
        """final value of a by-reference argument"""
        v = self.arglvs[i]
        return v.get(self.ex) if isinstance(v, LV) else v
    def g(self, name, st=None): return (st or self.ex.st).ghost[name]
    @property
    def events(self): return self.ex.st.events


def valof(ex, v):
    if isinstance(v, LObj): return v.ref
    if isinstance(v, LV) and not isinstance(v, LMutex):
        try: return v.get(ex)
        except Exception: return None
    return v


class Contract(Hooks):
    fn = None; nparams = None; virtual_any = False
    trusted = False          # assumed, not verified (user callbacks, dependencies)
    modifies = ()            # fields (any object) or (field, c -> list of refs)
    ghosts = ()              # ghost scalars it may change
    pure = False
    may_throw = False
    allocates = False
    returns_this = False
    nonnull_this = True
    timeout = None
    inline_only = False      # verified on its own, but inlined (not abstracted) at call sites
    desc = ""
    def __init__(self, **kw):
        for k, v in kw.items(): setattr(self, k, v)
    def name(self): return self.label or (self.fn.replace("CGraph::", "") + ("/%d" % self.nparams if self.nparams is not None else ""))
    label = None
    def find(self, p):
        f = p.fn(self.fn, self.nparams)
        return f
    def matches(self, f):
        if "<>" in self.fn:
            pre, post = self.fn.split("<>", 1)
            return f.qn.startswith(pre + "<") and f.qn.endswith(">" + post) and (self.nparams is None or len(f.params) == self.nparams)
        return f.qn == self.fn and (self.nparams is None or len(f.params) == self.nparams)
    # overridables
    def setup(self, c): pass
    def requires(self, c): return []
    def ensures(self, c): return []
    def on_throw(self, c): return []
    def effect(self, c): pass        # ghost effects at call sites
    def covers(self, c): return []   # facts that must be possible at exit (non-vacuity)
    def bind_this(self, ex): return None
    # call by contract
    def apply(self, ex, f, this, vals, objty):
        old = ex.st.copy()
        args = [valof(ex, v) for v in vals]
        c = Ctx(ex, f, this, args, old); c.arglvs = vals; c.call = True
        for nm, g in self.requires(c): ex.prove("precondition of %s: %s" % (self.name(), nm), g)
        self.havoc_mods(ex, c, vals)
        if self.may_throw and ex.choose(2) == 1:
            c.threw = True
            for nm, g in self.on_throw(c): ex.assume(g)
            self.effect(c)
            raise CxxThrow(*self.thrown(ex))
        rt = ex.T.parse(ex.ret_type(f.node))
        if self.returns_this: c.ret = this; r = this if rt.k == "ptr" else LObj(this, rt.a[0] if rt.k == "ref" else rt)
        elif rt.k == "void": r = None
        elif rt.k == "ref" and rt.a[0].k == "cls":
            v = ex.fresh("ret." + f.name, I); ex.assume(v > 0); c.ret = v; r = LObj(v, rt.a[0])
        elif rt.k == "ref":
            v = ex.fresh_value(rt.a[0], "ret." + f.name); c.ret = v; r = LTmp(v, rt.a[0])
        elif rt.k == "cls": v = ex.fresh("ret." + f.name, I); ex.assume(v > 0); c.ret = v; r = v
        else: r = c.ret = ex.fresh_value(rt, "ret." + f.name)
        for nm, g in self.ensures(c): ex.assume(g)
        self.effect(c)
        return r
    def thrown(self, ex): return Ty("cls", n="CGraph::internal::CEXCEPTION"), ex.fresh("exc", I)
    def havoc_mods(self, ex, c, vals):
        for m in self.modifies:
            if isinstance(m, str):
                cls, n, t = self.fld(ex, m); ex.havoc_key(cls, n, t)
            else:
                cls, n, t = self.fld(ex, m[0])
                for r in m[1](c): ex.havoc_at(cls, n, r, t)
        for g in self.ghosts:
            if g in ex.st.ghost: ex.st.ghost[g] = ex.fresh("g." + str(g), ex.st.ghost[g].sort()); ex.note_write(("g", g))
        for i, p in enumerate(getattr(self, "out_args", ())):
            lv = vals[p]
            if isinstance(lv, LV): lv.set(ex, ex.fresh_value(lv.ty, "out"))
    def fld(self, ex, m):
        if m.startswith("ghost."): return "ghost", m[6:], ex.ghost_ty[m[6:]]
        return ex.find_field(m)


class Registry:
    def __init__(self, contracts): self.list = list(contracts); self.hide = set()
    def lookup(self, ex, f, this, virt, objty):
        for s in self.list:
            if s.inline_only: continue
            if s.matches(f): return s
        if virt:      # an override: the contract of the overridden declaration applies
            for s in self.list:
                if s.virtual_any and s.fn.split("::")[-1] == f.name and (s.nparams is None or s.nparams == len(f.params)) \
                   and f.cls is not None and ex.p.derives(f.cls.qn, s.fn.rsplit("::", 1)[0]): return s
        return None


class Result:
    def __init__(self, c): self.c = c; self.obls = []; self.status = "?"; self.msg = ""; self.time = 0; self.ex = None; self.loc = ""; self.paths = 0
    @property
    def ok(self): return self.status == "proved"


def verify(prog, contract, registry, budget=60, solver=None, verbose=False):
    """-> Result with status proved | failed | unsupported | missing | vacuous"""
    R = Result(contract); t0 = time.time()
    f = contract.find(prog)
    if f is None or (f.body is None and not f.defaulted):
        R.status = "missing"; R.msg = "function %s not found in the current tree" % contract.fn; return R
    R.loc = f.loc
    ex = Interp(prog, registry, solver or Solver(), contract.raw)
    ex.spec = contract; ex.deadline = t0 + budget
    if f.cls is not None: ex.inst = f.cls.qn
    R.ex = ex
    try:
        st0 = ex.st
        this = None
        if f.cls is not None and not f.static:
            this = z3.Int("this")
            if f.node.kind == "CXXConstructorDecl": this = z3.Int("this")
            ex.assume(this > 0)
            al = z3.Const("alive0", z3.ArraySort(I, B)); ex.assume(al[this])
        vals, args = [], []
        for i, p in enumerate(f.params):
            t = ex.T.of(p); nm = p.get("name") or "arg%d" % i
            if t.k == "ref":
                et = t.a[0]
                if et.k == "cls":
                    r = z3.Int(nm); ex.assume(r > 0); ex.assume(z3.Const("alive0", z3.ArraySort(I, B))[r]); v = LObj(r, et)
                elif et.k in ("mutex", "cv"): v = LMutex("arg", nm, z3.Int(nm), et)
                else:
                    v = LVar("args", i, et); ex.st.vars[("args", i)] = ex.fresh_value(et, nm)
                    ex.st.ghost["vinfo"] = dict(ex.st.ghost.get("vinfo", {}))
            elif t.k == "lock": raise Unsupported("lock parameter by value")
            elif t.k == "cls":
                v = z3.Int(nm); ex.assume(v > 0)
            else: v = ex.fresh_value(t, nm)
            vals.append(v); args.append(valof(ex, v))
        c = Ctx(ex, f, this, args, None); c.arglvs = vals; c.call = False
        contract.c = c
        ex.st.ghost.setdefault("alive", z3.Const("alive0", z3.ArraySort(I, B)))
        contract.setup(c)
        for nm, g in contract.requires(c): ex.assume(g)
        s = z3.Solver(); s.set("timeout", 3000); s.add(*(ex.st.pc + ex.init_axioms))
        if s.check() == z3.unsat: R.status = "vacuous"; R.msg = "the precondition is contradictory"; return R
        st0 = ex.st.copy()
        done = [0]; live = [0]; covered = set()
        def run(e):
            old = e.st.copy(); c.old_st = old; c.threw = None; c.ret = None
            if contract.prologue is not None: contract.prologue(c)
            old = e.st.copy(); c.old_st = old
            try:
                if f.node.kind == "CXXConstructorDecl":
                    e.run_ctor(f.cls, f, this, vals); ret = this
                else: ret = e.inline(f, this, vals)
            except CxxThrow as t:
                if not contract.may_throw:
                    e.prove("no exception escapes", z3.BoolVal(False)); return
                c.threw = (t.ty, t.v)
                e.nloc = f.node.get("loc")
                for nm, g in contract.on_throw(c): e.prove("exceptional postcondition: " + nm, g)
                frame(e, contract, c, old); done[0] += 1; return
            c.ret = ret.ref if isinstance(ret, LObj) else (ret.get(e) if isinstance(ret, LV) and not isinstance(ret, LMutex) else ret)
            e.nloc = f.node.get("loc")
            if contract.returns_this: e.prove("returns the receiver", c.ret == this)
            for nm, g in contract.ensures(c): e.prove(nm, g)
            for nm, g in contract.covers(c):
                if nm not in covered and e.solver.feasible(e.st.pc, g): covered.add(nm)
            contract.all_covers = getattr(contract, "all_covers", set()) | {nm for nm, _ in contract.covers(c)}
            frame(e, contract, c, old)
            if not live[0]: live[0] += e.solver.valid(e.st.pc + e.init_axioms, z3.BoolVal(False), 600)[0] != "proved"
            if e.st.held and not contract.may_hold: e.prove("all locks released on return", z3.BoolVal(False))
            done[0] += 1
        ex.explore(run, st0)
        R.paths = ex.paths
        R.obls = ex.obls
        bad = [o for o in ex.obls if o.result != "proved"]
        if bad:
            R.status = "failed"; R.msg = "; ".join("%s at %s (%s)" % (o.name, o.where, o.result) for o in bad[:6])
        elif done[0] == 0: R.status = "vacuous"; R.msg = "no path reaches the end of the function"
        elif not live[0] and not contract.only_throws: R.status = "vacuous"; R.msg = "every path to the end of the function is contradictory"
        elif getattr(contract, "all_covers", set()) - covered:
            R.status = "vacuous"; R.msg = "never possible: %s" % sorted(contract.all_covers - covered)
        else: R.status = "proved"
    except Unsupported as e:
        R.status = "unsupported"; R.msg = str(e); R.obls = ex.obls
        if verbose: traceback.print_exc(limit=-3)
    except KeyError as e:
        R.status = "unsupported"; R.msg = "contract refers to something the code no longer has: %s" % e; R.obls = ex.obls
        if verbose: traceback.print_exc(limit=-3)
    except (AttributeError, TypeError, z3.Z3Exception, IndexError, RecursionError, AssertionError) as e:
        R.status = "unsupported"; R.msg = "verifier: %s: %s" % (type(e).__name__, e); R.obls = ex.obls
        if verbose: traceback.print_exc(limit=-3)
    finally:
        R.time = time.time() - t0
    bad = [o for o in ex.obls if o.result != "proved"]
    if R.status == "unsupported" and bad: R.msg += "  (also failed: %s)" % "; ".join(o.name for o in bad[:4])
    return R


Contract.prologue = None
Contract.raw = ()
Contract.may_hold = False
Contract.only_throws = False


def frame(e, contract, c, old):
    """frame condition: every heap component not listed in modifies is unchanged (for objects that existed before)"""
    if contract.modifies is Any: return
    allowed = {}
    for m in contract.modifies:
        if isinstance(m, str):
            cls, n, t = contract.fld(e, m); allowed[(cls, n)] = None
        else:
            cls, n, t = contract.fld(e, m[0])
            if allowed.get((cls, n), []) is not None: allowed.setdefault((cls, n), []).append(m[1])
    r = z3.Int("r!frame")
    al = old.ghost.get("alive", z3.Const("alive0", z3.ArraySort(I, B)))
    changed = {}
    for key, h in e.st.heap.items():
        h0 = old.heap.get(key)
        if h0 is None: h0 = e.initheap.get(key)
        if h0 is None or h is h0 or h.eq(h0): continue
        if key[0] in contract.frame_ignore: continue
        changed.setdefault((key[0], key[1]), []).append((h0, h))
    for (cls, n), l in changed.items():
        if (cls, n) in allowed and allowed[(cls, n)] is None: continue
        refs = [x for fn in allowed.get((cls, n), []) for x in fn(c)]
        g = []
        for h0, h in l:
            cond = [r != x for x in refs]
            if e.st.ghost.get("alive") is not None: cond.append(al[r])
            g.append(z3.ForAll([r], z3.Implies(z3.And(*cond), h[r] == h0[r]) if cond else h[r] == h0[r]))
        e.prove("frame: %s.%s is not changed elsewhere" % (cls.replace("CGraph::", ""), n), z3.And(*g))


Contract.frame_ignore = ("deref", "array", "CGraph::internal::CEXCEPTION")


def implies(a, b): return z3.Implies(a, b)
And, Or, Not, If, ForAll, Exists, Implies, Int, IntVal, BoolVal, Const = z3.And, z3.Or, z3.Not, z3.If, z3.ForAll, z3.Exists, z3.Implies, z3.Int, z3.IntVal, z3.BoolVal, z3.Const

"""Symbolic executor over clang's AST: generates and discharges the proof obligations of the contracts.

Path-wise verification-condition generation: every path of a function under contract is executed symbolically from an
arbitrary state satisfying the precondition; calls to functions under contract are replaced by that contract, calls to
other repo functions and lambdas are interpreted from their bodies, library calls by the trusted models in models.py;
loops are cut by inductive invariants (a candidate pool filtered to its largest inductive subset, Houdini style)."""
import os, re, sys, time, z3
from .types import *

sys.setrecursionlimit(100000)
z3.set_param("smt.random_seed", 1)
_forall = z3.ForAll
def _ForAll(vs, body, *a, **kw):
    try: return _forall(vs, body, *a, **kw)
    except z3.Z3Exception:      # a pattern z3 does not accept: let it choose
        kw.pop("patterns", None); return _forall(vs, body, *a, **kw)
z3.ForAll = _ForAll


class Unsupported(Exception): pass
class PathEnd(Exception): pass
class CxxReturn(Exception):
    def __init__(self, v): self.v = v
class CxxBreak(Exception): pass
class CxxContinue(Exception): pass
class CxxThrow(Exception):
    def __init__(self, ty, v): self.ty = ty; self.v = v


class CV:
    """composite value: components by path"""
    __slots__ = ("ty", "c")
    def __init__(self, ty, c): self.ty = ty; self.c = c
    def upd(self, **kw):
        c = dict(self.c); c.update({"." + k: v for k, v in kw.items()}); return CV(self.ty, c)
    def __repr__(self): return "CV(%r)" % (self.ty,)
    @property
    def lo(self): return self.c[".lo"]
    @property
    def hi(self): return self.c[".hi"]
    @property
    def d(self): return self.c[".d"]
    @property
    def m(self): return self.c[".m"]
    @property
    def pos(self): return self.c[".pos"]
    @property
    def code(self): return self.c[".code"]
    @property
    def info(self): return self.c[".info"]
    def len(self): return z3.simplify(self.c[".hi"] - self.c[".lo"])
    def at(self, i): return self.elem(self.c[".lo"] + i)
    def elem(self, idx):
        ety = self.ty.a[0]
        sh = shape(ety)
        if len(sh) == 1 and sh[0][0] == "": return z3.Select(self.c[".d"], idx)
        return CV(ety, {p: z3.Select(self.c[".d" + p], idx) for p, _ in sh})
    def has(self, x): return z3.Select(self.c[".m"], x)
    def val(self, k):
        vt = self.ty.a[1]; sh = shape(vt)
        if len(sh) == 1 and sh[0][0] == "": return z3.Select(self.c[".v"], k)
        return CV(vt, {p: z3.Select(self.c[".v" + p], k) for p, _ in sh})


class Closure:
    def __init__(self, node, fid, copies, this, clsname): self.node = node; self.fid = fid; self.copies = copies; self.this = this; self.cls = clsname
class FnRef:
    def __init__(self, decl): self.decl = decl
class IterVal:
    def __init__(self, lv, pos, rev=False): self.lv = lv; self.pos = pos; self.rev = rev
class PtrTo:
    def __init__(self, lv): self.lv = lv
class LockVal:
    def __init__(self, mlv, owned): self.m = mlv; self.owned = owned
class Bind:
    """std::bind / member function pointers and other opaque callables with python meaning"""
    def __init__(self, fn): self.fn = fn


# ------------------------------------------------------------------ lvalues
class LV:
    ty = None
class LVar(LV):
    def __init__(self, fid, vid, ty): self.fid = fid; self.vid = vid; self.ty = ty
    def get(self, ex):
        try: return ex.st.vars[(self.fid, self.vid)]
        except KeyError: raise Unsupported("read of unknown variable")
    def set(self, ex, v): ex.vset((self.fid, self.vid), v)
class LField(LV):
    def __init__(self, cls, name, ref, ty): self.cls = cls; self.name = name; self.ref = ref; self.ty = ty
    def get(self, ex): return ex.hread(self.cls, self.name, self.ref, self.ty)
    def set(self, ex, v): ex.hwrite(self.cls, self.name, self.ref, self.ty, v)
class LElem(LV):
    """element of a sequence at absolute index"""
    def __init__(self, base, idx, ty): self.base = base; self.idx = idx; self.ty = ty
    def get(self, ex): return self.base.get(ex).elem(self.idx)
    def set(self, ex, v):
        b = self.base.get(ex); c = dict(b.c)
        for p, _ in shape(self.ty):
            c[".d" + p] = z3.Store(c[".d" + p], self.idx, v if p == "" else v.c[p])
        self.base.set(ex, CV(b.ty, c))
class LMapVal(LV):
    def __init__(self, base, key, ty): self.base = base; self.key = key; self.ty = ty
    def get(self, ex):
        v = self.base.get(ex).val(self.key)
        if self.ty.k in UNIQ:      # a container stored in a map: well-formed like any other container
            w = ex.fresh_value(self.ty, "mapval")
            for p, _ in shape(self.ty): ex.assume(w.c[p] == v.c[p])
            return w
        return v
    def set(self, ex, v):
        b = self.base.get(ex); c = dict(b.c)
        for p, _ in shape(self.ty):
            c[".v" + p] = z3.Store(c[".v" + p], self.key, v if p == "" else v.c[p])
        self.base.set(ex, CV(b.ty, c))
class LComp(LV):
    def __init__(self, base, pre, ty): self.base = base; self.pre = pre; self.ty = ty
    def get(self, ex):
        b = self.base.get(ex); sh = shape(self.ty)
        if sh == [("", sh[0][1])] if sh else False: return b.c[self.pre]
        return CV(self.ty, {p: b.c[self.pre + p] for p, _ in sh})
    def set(self, ex, v):
        b = self.base.get(ex); c = dict(b.c)
        for p, _ in shape(self.ty): c[self.pre + p] = v if p == "" else v.c[p]
        self.base.set(ex, CV(b.ty, c))
class LTmp(LV):
    def __init__(self, v, ty): self.v = v; self.ty = ty
    def get(self, ex): return self.v
    def set(self, ex, v): self.v = v
class LPair(LV):
    """map entry seen through an iterator"""
    def __init__(self, base, key, ty): self.base = base; self.key = key; self.ty = ty
    def get(self, ex):
        kt, vt = self.base.ty.a
        v = self.base.get(ex).val(self.key)
        c = {".first": self.key}
        for p, _ in shape(vt): c[".second" + p] = v if p == "" else v.c[p]
        return CV(Ty("pair", [kt, vt]), c)
class LObj(LV):
    def __init__(self, ref, ty): self.ref = ref; self.ty = ty
    def get(self, ex): return self.ref
    def set(self, ex, v): raise Unsupported("whole-object store to %r" % (self.ty,))
class LMutex(LV):
    def __init__(self, cls, name, ref, ty): self.cls = cls; self.name = name; self.ref = ref; self.ty = ty
    def get(self, ex): return self
    def key(self): return "%s.%s@%s" % (self.cls, self.name, self.ref)


class State:
    __slots__ = ("heap", "vars", "pc", "held", "ghost", "acq", "events", "fnvals", "nfid", "frames")
    def __init__(self):
        self.heap = {}; self.vars = {}; self.pc = []; self.held = {}; self.ghost = {}; self.acq = {}; self.events = []; self.fnvals = {}; self.nfid = 0; self.frames = []
    def copy(self):
        s = State()
        s.heap = dict(self.heap); s.vars = dict(self.vars); s.pc = list(self.pc); s.held = dict(self.held); s.ghost = dict(self.ghost)
        s.acq = dict(self.acq); s.events = list(self.events); s.fnvals = dict(self.fnvals); s.nfid = self.nfid; s.frames = list(self.frames)
        return s


class Frame:
    __slots__ = ("fid", "fn", "this", "clo", "cleanup")
    def __init__(self, fid, fn, this, clo=None): self.fid = fid; self.fn = fn; self.this = this; self.clo = clo; self.cleanup = []


class TraceCtx:
    def __init__(self, cid): self.cid = cid; self.trace = []; self.forced = []; self.pos = 0; self.work = []


class Obligation:
    __slots__ = ("name", "where", "result", "time", "backend", "detail")
    def __init__(self, name, where, result, t, backend, detail=""):
        self.name = name; self.where = where; self.result = result; self.time = t; self.backend = backend; self.detail = detail


def is_quantified(f):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if z3.is_quantifier(x): return True
        i = x.get_id()
        if i in seen: continue
        seen.add(i); st.extend(x.children())
    return False


class Solver:
    """Discharges obligations: z3 in process, cvc5 as second opinion for what z3 leaves open."""
    def __init__(self, timeout_ms=8000, feas_ms=400, seed=0, retries=2):
        self.seed = seed; self.retries = retries; self.timeout = timeout_ms; self.feas = feas_ms; self.time = 0.0; self.n = 0; self._q = {}; self.by = {"z3": 0, "cvc5": 0, "simplify": 0}
    def quant(self, f):
        i = f.get_id()
        if i not in self._q: self._q[i] = (f, is_quantified(f))
        return self._q[i][1]
    def feasible(self, pc, cond):
        t = time.time()
        s = z3.SimpleSolver(); s.set("timeout", self.feas * 6); s.set("rlimit", self.feas * self.RL)
        for f in pc:
            if not self.quant(f): s.add(f)
        s.add(cond)
        r = s.check()
        self.time += time.time() - t
        return r != z3.unsat
    def valid(self, pc, goal, timeout=None, again=False):
        """-> ('proved'|'refuted'|'unknown', model or reason)"""
        g = z3.simplify(goal)
        if z3.is_true(g): self.by["simplify"] += 1; return "proved", None
        t = time.time(); self.n += 1
        try:
            s = z3.SimpleSolver(); s.set("timeout", 2000); s.set("rlimit", 400 * self.RL)
            s.add(*[f for f in pc if not self.quant(f)]); s.add(z3.Not(g))
            if s.check() == z3.unsat: self.by["z3"] += 1; return "proved", None
            fs = list(pc) + [z3.Not(g)]
            r, m, why = self.run(fs, timeout or self.timeout, False)
            if r == z3.unsat: self.by["z3"] += 1; return "proved", None
            if r == z3.sat: return "refuted", m
            if again and timeout:
                r, m, _ = self.run(fs[::-1], timeout, False, 7 + self.seed)
                if r == z3.unsat: self.by["z3"] += 1; return "proved", None
            for k in range(0, self.retries if timeout is None else 0):       # other orders and seeds: quantifier instantiation is order sensitive
                r, m, _ = self.run(fs[k:] + fs[:k] if k % 2 else fs[::-1], self.timeout, False, 7 + 7 * k + self.seed)
                if r == z3.unsat: self.by["z3"] += 1; return "proved", None
            if timeout is None or timeout >= 2000:
                r, m, _ = self.run(fs, 1500, True)
                if r == z3.unsat: self.by["z3"] += 1; return "proved", None
                if r == z3.sat: return "refuted", m
            if timeout is None:
                rr = self.cvc5(fs)
                if rr == "unsat": self.by["cvc5"] += 1; return "proved", None
                why += "; cvc5: " + rr
            return "unknown", why
        finally:
            self.time += time.time() - t
            if os.environ.get("CGV_SLOW") and time.time() - t > 1: print("slow %.1f s (limit %s): %s" % (time.time() - t, timeout, str(g)[:300].replace("\n", " ")), flush=True)
    RL = 4000       # resource units per nominal millisecond: the resource limit decides, the clock is only a backstop
    def run(self, fs, timeout, mbqi, seed=None):
        s = z3.SimpleSolver(); s.set("timeout", timeout * 6); s.set("rlimit", timeout * self.RL)
        s.set("auto_config", False); s.set("smt.mbqi", mbqi)
        if seed is None: seed = self.seed
        if seed: s.set("smt.random_seed", seed)
        s.add(*fs)
        r = s.check()
        return r, (s.model() if r == z3.sat else None), (s.reason_unknown() if r == z3.unknown else "")
    def cvc5(self, fs):
        import cvc5
        try:
            d = z3.Solver(); d.add(*fs); txt = d.sexpr() + "\n(check-sat)\n"
            if os.environ.get("CGV_DUMP"): open("/tmp/q.smt2","w").write(txt)
            txt = "(set-logic ALL)\n" + txt
            tm = cvc5.TermManager()
            sl = cvc5.Solver(tm)
            sl.setOption("tlimit-per", str(self.timeout))
            sl.setOption("produce-models", "false")
            p = cvc5.InputParser(sl)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            out = ""
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                o = c.invoke(sl, sm)
                if o: out += o
            return out.strip() or "?"
        except Exception as e:
            return "error %s" % str(e)[:80]


class Executor:
    def __init__(self, prog, specs, solver=None, raw=()):
        self.p = prog; self.T = Types(prog, raw); self.specs = specs
        self.solver = solver or Solver()
        self.st = State(); self.initheap = {}; self.init_axioms = []
        self.ctx = TraceCtx(0); self.nctx = 0
        self.quiet = 0; self.recorders = []; self.obls = []; self.loopcache = {}; self.discovering = 0; self.dropmemo = {}
        self.uid = 0; self.spec = None; self.curspec = None
        self.inlined = set(); self.used_specs = set(); self.used_models = set(); self.assumed = set()
        self.inst = None; self.nloc = None; self.depth = 0; self.maxdepth = 60; self.strlits = {}
        self.dropped = []; self.loop_obls = []; self.paths = 0; self.reached = set(); self.deadline = None; self.max_paths = 4000
        from . import models
        self.models = models.Models(self)

    # ---------------------------------------------------------------- fresh / state access
    def fresh(self, name, sort):
        self.uid += 1
        return z3.Const("%s!%d" % (name, self.uid), sort)
    def fresh_value(self, ty, name="v"):
        k = ty.k
        if k in ("mutex", "cv", "lock", "void"): return None
        if k == "ref": return LTmp(self.fresh_value(ty.a[0], name), ty.a[0])
        if k == "cls": return self.alloc(ty.n)
        sh = shape(ty)
        if len(sh) == 1 and sh[0][0] == "":
            v = self.fresh(name, sh[0][1]); self.assume_range(v, ty); return v
        v = CV(ty, {p: self.fresh(name + p, s) for p, s in sh})
        self.assume_wf(v)
        return v
    def assume_range(self, v, ty):
        if ty.k == "int" and ty.n in INTS:
            lo, hi = INTS[ty.n]; self.assume(z3.And(v >= lo, v <= hi))
        elif ty.k in ("ptr", "uptr"): self.assume(v >= 0)
    def wf(self, v):
        """type invariants of modelled library containers"""
        out = []
        ty = v.ty
        if ty.k in ("vec", "deque"):
            if ty.k == "vec": out.append(v.lo == 0)
            out.append(v.lo <= v.hi)
        elif ty.k in UNIQ:
            i = z3.Int("i!w"); es = v.d.sort().range(); x = z3.Const("x!w", es)
            out += [v.lo == 0] if ty.k != "useq" else []
            out += [v.lo <= v.hi,
                    z3.ForAll([i], z3.Implies(z3.And(v.lo <= i, i < v.hi), z3.And(v.m[v.d[i]], v.pos[v.d[i]] == i)), patterns=[v.d[i]]),
                    z3.ForAll([x], z3.Implies(v.m[x], z3.And(v.lo <= v.pos[x], v.pos[x] < v.hi, v.d[v.pos[x]] == x)), patterns=[v.m[x]])]
        elif ty.k == "pqueue": out.append(v.hi >= 0)
        elif ty.k == "future": pass
        return out
    def assume_wf(self, v):
        for f in self.wf(v): self.assume(f)
    def assume(self, f):
        if f is True or f is None: return
        if f is False: f = z3.BoolVal(False)
        if z3.is_true(f): return
        self.st.pc.append(f)
    def heap_const(self, key, sort, tag="H"):
        return z3.Const("%s.%s.%s%s" % (tag, key[0].replace("CGraph::", ""), key[1], key[2]), z3.ArraySort(I, sort))
    def hget(self, cls, name, path, sort):
        key = (cls, name, path)
        h = self.st.heap.get(key)
        if h is None:
            h = self.initheap.get(key)
            if h is None:
                h = self.heap_const(key, sort); self.initheap[key] = h
            self.st.heap[key] = h
        return h
    def base_axioms(self, cls, name, ty, tag=None):
        """type invariants for an arbitrary (initial or havoced) heap component family, for every object"""
        r = z3.Int("r!w")
        hs = {p: self.st.heap[(cls, name, p)] for p, _ in shape(ty)}
        if ty.k in UNIQ:
            i = z3.Int("i!w"); es = hs[".d"].sort().range().range(); x = z3.Const("x!w", es)
            lo, hi, d, m, pos = (hs[q][r] for q in (".lo", ".hi", ".d", ".m", ".pos"))
            return ([z3.ForAll([r], lo == 0, patterns=[lo])] if ty.k != "useq" else []) + [z3.ForAll([r], lo <= hi, patterns=[hi]),
                    z3.ForAll([r, i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(m[d[i]], pos[d[i]] == i)), patterns=[d[i]]),
                    z3.ForAll([r, x], z3.Implies(m[x], z3.And(lo <= pos[x], pos[x] < hi, d[pos[x]] == x)), patterns=[m[x]])]
        if ty.k == "lnode":
            x, y = z3.Int("x!w"), z3.Int("y!w"); lo, hi, m, rk = (hs[q][r] for q in (".lo", ".hi", ".m", ".rank"))
            return [z3.ForAll([r], hi >= 0, patterns=[hi]), z3.ForAll([r, x], z3.Implies(m[x], z3.And(x > 0, rk[x] >= lo, hi >= 1)), patterns=[m[x]]),
                    z3.ForAll([r, x, y], z3.Implies(z3.And(m[x], m[y], rk[x] == rk[y]), x == y), patterns=[z3.MultiPattern(m[x], m[y])])]
        if ty.k in ("vec", "deque"):
            lo, hi = hs[".lo"][r], hs[".hi"][r]
            out = [z3.ForAll([r], lo <= hi, patterns=[hi])]
            if ty.k == "vec": out.append(z3.ForAll([r], lo == 0, patterns=[lo]))
            if ty.a[0].k in ("vec",):
                i = z3.Int("i!w"); ilo, ihi = hs[".d.lo"][r][i], hs[".d.hi"][r][i]
                out += [z3.ForAll([r, i], z3.And(ilo == 0, ilo <= ihi), patterns=[ihi])]
            return out
        if ty.k == "int" and ty.n in INTS:
            h = hs[""][r]; lo, hi = INTS[ty.n]
            return [z3.ForAll([r], z3.And(h >= lo, h <= hi), patterns=[h])]
        if ty.k in ("ptr", "uptr"):
            h = hs[""][r]; return [z3.ForAll([r], h >= 0, patterns=[h])]
        return []
    def ensure_base(self, cls, name, ty):
        if ty.k == "cls" or not shape(ty): return
        new = False
        for p, s in shape(ty):
            if (cls, name, p) not in self.initheap: new = True
            self.hget(cls, name, p, s)
        if new:
            sv = self.st.heap; self.st.heap = dict(sv)
            for p, s in shape(ty): self.st.heap[(cls, name, p)] = self.initheap[(cls, name, p)]
            ax = self.base_axioms(cls, name, ty)
            self.st.heap = sv
            self.init_axioms += ax
    def shape_of(self, t): return shape(t)
    def hread(self, cls, name, ref, ty):
        if cls != 'array': self.nullcheck(ref)
        if ty.k == "ref": 
            return self.st.ghost[("refmember", cls, name, str(ref))]
        self.ensure_base(cls, name, ty)
        if self.spec is not None: self.spec.on_read(self, cls, name, ref)
        sh = shape(ty)
        if len(sh) == 1 and sh[0][0] == "":
            v = z3.Select(self.hget(cls, name, "", sh[0][1]), ref)
            if ty.k == "fn" or ty.k == "ptask":
                pass
            return v
        return CV(ty, {p: z3.Select(self.hget(cls, name, p, s), ref) for p, s in sh})
    def hwrite(self, cls, name, ref, ty, v):
        if cls != 'array': self.nullcheck(ref)
        if ty.k in ("mutex", "cv", "lock"): return
        self.ensure_base(cls, name, ty)
        v = self.coerce(v, ty)
        for p, s in shape(ty):
            key = (cls, name, p)
            h = self.hget(cls, name, p, s)
            self.setheap(key, ref, v if p == "" else v.c[p], h)
            self.note_write(("h",) + key)
        if self.spec is not None: self.spec.on_write(self, cls, name, ref)
    def havoc_key(self, cls, name, ty=None):
        ty = ty or self.field_ty(cls, name)
        self.ensure_base(cls, name, ty)
        for p, s in shape(ty):
            self.st.heap[(cls, name, p)] = self.fresh("H.%s.%s%s" % (cls.replace("CGraph::", ""), name, p), z3.ArraySort(I, s))
            self.note_write(("h", cls, name, p))
        for f in self.base_axioms(cls, name, ty): self.assume(f)
    def havoc_at(self, cls, name, ref, ty=None):
        ty = ty or self.field_ty(cls, name)
        v = self.fresh_value(ty, "hv." + name) if ty.k != "cls" else None
        if v is not None:
            self.ensure_base(cls, name, ty)
            for p, s in shape(ty):
                self.setheap((cls, name, p), ref, v if p == "" else v.c[p], self.hget(cls, name, p, s))
                self.note_write(("h", cls, name, p))
    def setheap(self, key, ref, v, h):
        """passive form: every heap version is a constant defined by an array update of the previous one"""
        n = self.fresh("H.%s.%s%s" % (key[0].replace("CGraph::", ""), key[1], key[2]), h.sort())
        self.assume(n == z3.Store(h, ref, v)); self.st.heap[key] = n
    def note_write(self, k):
        for r in self.recorders: r.add(k)
    def vset(self, k, v):
        self.st.vars[k] = v; self.note_write(("v",) + k)
    def coerce(self, v, ty):
        if isinstance(v, LV) and not isinstance(v, LMutex): v = v.get(self)
        if ty.k in ("fn", "ptask", "opaque", "thread") and not z3.is_expr(v):
            return self.fnval(v)
        if ty.k == "ptr" and isinstance(v, (PtrTo, Closure, FnRef, IterVal)): return self.fnval(v)
        if isinstance(v, bool): v = z3.BoolVal(v)
        elif isinstance(v, int): v = z3.IntVal(v)
        if ty.k == "bool" and z3.is_expr(v) and v.sort() == I: return v != 0
        if ty.k in ("int",) and z3.is_expr(v) and v.sort() == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if sort_of(ty) is None and not isinstance(v, CV) and shape(ty):
            raise Unsupported("cannot store %r as %r" % (v, ty))
        if sort_of(ty) is not None and not z3.is_expr(v):
            raise Unsupported("cannot store %r as %r" % (type(v).__name__, ty))
        return v
    def fnval(self, v):
        """python-level callable or pointer -> integer handle stored in the heap"""
        if v is None: return z3.IntVal(0)
        for k, o in self.st.fnvals.items():
            if o is v: return z3.IntVal(k)
        k = 10**9 + len(self.st.fnvals) + 1
        self.st.fnvals[k] = v
        return z3.IntVal(k)
    def unfn(self, v):
        if z3.is_expr(v):
            v = z3.simplify(v)
            if z3.is_int_value(v) and v.as_long() in self.st.fnvals: return self.st.fnvals[v.as_long()]
        return v
    def nullcheck(self, ref):
        if z3.is_expr(ref) and self.spec is not None and self.spec.check_null:
            r = z3.simplify(ref)
            if z3.is_int_value(r) and r.as_long() != 0: return
            key = r.get_id()
            s = self.st.ghost.get("nonnull", frozenset())
            if key in s: return
            self.prove("null-safety", ref != 0)
            self.st.ghost["nonnull"] = s | {key}
    def find_field(self, spec):
        """'GElement.dependence_' -> (class, field, Ty); raises KeyError if the code no longer has it"""
        c, f = spec.rsplit(".", 1)
        for q in (c, "CGraph::" + c, "CGraph::internal::" + c):
            cl = self.p.classes.get(q)
            if cl is None and q.startswith("CGraph::"):
                cand = [x for x in self.p.classes if x.startswith(q + "<") and x.endswith(">")]
                if len(cand) > 1: cand = [x for x in cand if x == self.inst] or cand
                if len(cand) == 1: cl = self.p.classes[cand[0]]
            while cl is not None:
                if f in cl.fields: return cl.qn, f, self.T.of(cl.fields[f])
                cl = next((self.p.classes[b] for b in cl.bases if b in self.p.classes and self._hasfield(b, f)), None)
        raise KeyError("field %s not found" % spec)
    def _hasfield(self, c, f):
        cl = self.p.classes.get(c)
        return cl is not None and (f in cl.fields or any(self._hasfield(b, f) for b in cl.bases))
    def field_ty(self, cls, name):
        if cls == "ghost": return self.ghost_ty[name]
        return self.T.of(self.p.classes[cls].fields[name])
    ghost_ty = {}
    def ghost_field(self, name, ty): self.ghost_ty[name] = ty
    def rd(self, spec, ref, st=None):
        """read a field by name from the current (or a given) state, without interference hooks"""
        sv, self.st = self.st, (st or self.st)
        try:
            if spec.startswith("ghost."): cls, f, ty = "ghost", spec[6:], self.ghost_ty[spec[6:]]
            else: cls, f, ty = self.find_field(spec)
            if ty.k == "cls": return self.subobj(cls, f, ref)
            self.ensure_base(cls, f, ty)
            sh = shape(ty)
            if len(sh) == 1 and sh[0][0] == "": return z3.Select(self.hget(cls, f, "", sh[0][1]), ref)
            return CV(ty, {p: z3.Select(self.hget(cls, f, p, s), ref) for p, s in sh})
        finally: self.st = sv
    def wr(self, spec, ref, v):
        if spec.startswith("ghost."): cls, f, ty = "ghost", spec[6:], self.ghost_ty[spec[6:]]
        else: cls, f, ty = self.find_field(spec)
        self.ensure_base(cls, f, ty)
        v = self.coerce(v, ty)
        for p, s in shape(ty):
            self.setheap((cls, f, p), ref, v if p == "" else v.c[p], self.hget(cls, f, p, s))
            self.note_write(("h", cls, f, p))
    def subobj(self, cls, name, ref):
        nm = "%s.%s" % (cls.replace("CGraph::", ""), name)
        f = z3.Function("sub:" + nm, I, I); g = z3.Function("own:" + nm, I, I)
        t = f(ref)
        key = ("sub", t.get_id())
        if key not in self.st.ghost:
            self.st.ghost[key] = t
            self.assume(g(t) == ref); self.assume(z3.Implies(ref > 0, t > 0))
            if getattr(self.spec, "sub_alive", False): al = z3.Const("alive0", z3.ArraySort(I, B)); self.assume(z3.Implies(ref > 0, al[t] == al[ref]))     # a member exists exactly as long as its object
        return t
    def alloc(self, clsname, name="new"):
        r = self.fresh(name + "." + str(clsname).split("::")[-1].split("<")[0], I)
        self.assume(r > 0)
        al = self.st.ghost.get("alive")
        if al is None: al = z3.Const("alive0", z3.ArraySort(I, B)); 
        self.assume(z3.Not(z3.Select(al, r)))
        self.st.ghost["alive"] = z3.Store(al, r, z3.BoolVal(True))
        self.note_write(("g", "alive"))
        return r
    def alive(self, r, st=None):
        al = (st or self.st).ghost.get("alive")
        if al is None: al = z3.Const("alive0", z3.ArraySort(I, B))
        return z3.Select(al, r)

    # ---------------------------------------------------------------- branching, obligations
    def branch(self, cond):
        if isinstance(cond, bool): return cond
        if isinstance(cond, LV): cond = cond.get(self)
        if cond.sort() == I: cond = cond != 0
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        x = self.ctx
        if x.pos < len(x.forced): d = x.forced[x.pos]
        else:
            pc = self.st.pc + self.init_axioms
            t = self.solver.feasible(pc, c); f = self.solver.feasible(pc, z3.Not(c))
            if not t and not f: raise PathEnd("infeasible")
            if t and f: x.work.append(x.trace + [False]); d = True
            else: d = t
        x.trace = x.trace + [d]; x.pos += 1
        self.assume(c if d else z3.Not(c))
        return d
    def choose(self, n, what=""):
        """nondeterministic choice among n alternatives"""
        x = self.ctx
        if n == 1: return 0
        if x.pos < len(x.forced): d = x.forced[x.pos]
        else:
            for i in range(n - 1, 0, -1): x.work.append(x.trace + [i])
            d = 0
        x.trace = x.trace + [d]; x.pos += 1
        return d
    def prove(self, name, f, kind="assert"):
        if self.quiet:
            self.assume(f); return True
        if self.ctx.pos < len(self.ctx.forced):
            self.assume(f); return True     # already decided on the parent path
        if isinstance(f, bool): f = z3.BoolVal(f)
        t = time.time()
        r, why = self.solver.valid(self.st.pc + self.init_axioms, f)
        detail = ""
        if r == "refuted":
            try: detail = self.describe_model(why)
            except Exception as e: detail = "model unavailable: %s" % e
        elif r == "unknown": detail = str(why)
        self.obls.append(Obligation(name, self.where(), r, time.time() - t, "z3", detail))
        self.assume(f)
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget of the function exhausted")
        return r == "proved"
    def where(self):
        if self.nloc: return "%s:%s" % (str(self.nloc[0]).replace("/repo/", ""), self.nloc[1])
        return "?"
    def describe_model(self, m):
        out = []
        for d in m.decls():
            n = d.name()
            if d.arity() == 0 and "!w" not in n:
                v = m[d]
                s = str(v).replace("\n", " ")
                if len(s) < 120: out.append("%s = %s" % (n, s))
        return "; ".join(sorted(out)[:60])

    def explore(self, run, st0, quiet=False, cap=None):
        """run(ex) over all feasible paths from a copy of st0; yields nothing, run does the work"""
        self.nctx += 1
        saved = (self.ctx, self.st, self.quiet)
        ctx = TraceCtx(self.nctx); ctx.work = [[]]
        if quiet: self.quiet += 1
        n = 0
        uid0 = self.uid
        try:
            while ctx.work:
                forced = ctx.work.pop()
                ctx.forced = forced; ctx.trace = []; ctx.pos = 0
                self.ctx = ctx; self.st = st0.copy()
                self.uid = uid0 if not quiet else self.uid
                n += 1
                if n > (cap or self.max_paths): raise Unsupported("too many paths")
                if self.deadline and time.time() > self.deadline: raise Unsupported("time budget of the function exhausted")
                try: run(self)
                except PathEnd: pass
        finally:
            self.ctx, self.st, self.quiet = saved
        if not quiet: self.paths += n
        return n

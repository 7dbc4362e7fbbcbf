"""Trusted models of the standard library (and of logging): the only functions whose bodies are not interpreted.

Every model is a contract in the usual sense (precondition asserted, effect assumed).  The list of the models a
verification run actually relied on is collected in ex.used_models and reported as assumptions in the evidence."""
import z3
from .types import *
from .core import *

EMPTY = z3.Const("str.empty", Str)


class Models:
    def __init__(self, ex): self.ex = ex
    def use(self, s): self.ex.used_models.add(s)
    # ---------------------------------------------------------------- names
    def global_var(self, name, node):
        ex = self.ex
        if not isinstance(node, dict) or not hasattr(node, "inner") or not node.inner:
            cand = [g for g in ex.p.globals.values() if g.get("name") == name and g.inner]
            if cand: node = cand[0]
            else:
                from .fe import Node
                node = Node(node)
        init = next((c for c in node.inner if not (c.kind or "").endswith("Attr")), None)
        ty = ex.T.of(node)
        q = node.get("type", {}).get("qualType", "")
        if init is not None and ("const" in q or node.get("constexpr")) and ty.k in ("int", "bool", "str", "real", "ptr"):
            v = ex.ev(init)
            if isinstance(v, LV): v = v.get(ex)
            if z3.is_expr(v) and ty.k in ("int", "bool"): v = ex.coerce(v, ty)
            return LTmp(v, ty)
        if init is not None and ty.k == "ptr" and q.replace(" ", "") == "constchar*" and node.get("storageClass") == "static":
            self.use("file-static string constants (const char*) are never reassigned")
            v = ex.ev(init); v = v.get(ex) if isinstance(v, LV) else v
            if z3.is_expr(v) and v.sort() == Str: return LTmp(v, STR)
        if name == "value" and init is None:      # a std type trait
            self.use("std type traits are compile-time constants")
            return LTmp(z3.Bool("trait." + str(node.get("id"))), BOOL)
        if ty.k in ("mutex", "cv"): return LMutex("global", name, z3.IntVal(1), ty)
        if ty.k == "cls": return LObj(z3.Int("global." + name), ty)
        return LGlobal(name, ty)
    def str_concat(self, x, y):
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == Str and y.sort() == Str: return z3.Function("str.cat", Str, Str, Str)(x, y)
        return self.ex.fresh("cat", Str)
    def std_enum(self, name):
        t = {"ready": 0, "timeout": 1, "deferred": 2, "no_timeout": 0}
        if name in t: return t[name]
        if name.startswith("memory_order") or name in ("relaxed", "acquire", "release", "acq_rel", "seq_cst", "consume"): return 5
        if name in ("async",): return 1
        raise Unsupported("enum constant " + name)
    def static_local(self, d, ty, init):
        ex = self.ex
        fr = ex.frame(); key = (fr.fid, d["id"])
        if ty.k in ("mutex", "cv"): ex.st.vars[key] = LMutex("static", d["name"], z3.IntVal(1), ty)
        elif "const" in d.get("type", {}).get("qualType", "") and init is not None and ty.k in ("int", "bool", "str"): ex.vset(key, ex.val(init))
        else: ex.st.vars[key] = LGlobal("static." + d["name"], ty)

    # ---------------------------------------------------------------- sequences
    def seq_push(self, v, x):
        ety = v.ty.a[0]; c = dict(v.c)
        if v.ty.k == "useq": self.ex.prove("an element is put into a sequence only once", z3.Not(v.has(self.ex.coerce(x, ety))))
        if v.ty.k in UNIQ: return self.uniq_append(v, x)
        x = self.ex.coerce(x, ety)
        for p, _ in shape(ety): c[".d" + p] = z3.Store(c[".d" + p], v.hi, x if p == "" else x.c[p])
        c[".hi"] = z3.simplify(v.hi + 1)
        return CV(v.ty, c)
    def uniq_append(self, v, x):
        """append if absent (insertion order kept)"""
        c = dict(v.c); x = self.ex.coerce(x, v.ty.a[0]); has = v.has(x)
        ex = self.ex
        for p in (".d", ".pos", ".m", ".hi"): c[p] = ex.fresh("app" + p, v.c[p].sort())
        ex.assume(c[".d"] == z3.If(has, v.d, z3.Store(v.d, v.hi, x))); ex.assume(c[".pos"] == z3.If(has, v.pos, z3.Store(v.pos, x, v.hi)))
        ex.assume(c[".m"] == z3.Store(v.m, x, z3.BoolVal(True))); ex.assume(c[".hi"] == z3.If(has, v.hi, v.hi + 1))
        return CV(v.ty, c)
    def uniq_insert(self, v, x):
        """insert into an (un)ordered set or map: same members plus x, iteration order unspecified"""
        ex = self.ex; x = ex.coerce(x, v.ty.a[0]); has = v.has(x)
        c = dict(v.c)
        for p in (".m", ".hi"): c[p] = ex.fresh("ins" + p, v.c[p].sort())
        ex.assume(c[".m"] == z3.Store(v.m, x, z3.BoolVal(True))); ex.assume(c[".hi"] == z3.If(has, v.hi, v.hi + 1))
        c[".d"] = ex.fresh("ins.d", v.d.sort()); c[".pos"] = ex.fresh("ins.pos", v.pos.sort())
        r = CV(v.ty, c); ex.assume_wf(r)
        ex.assume(z3.Implies(has, z3.And(c[".d"] == v.d, c[".pos"] == v.pos)))
        self.order(r, v)
        return r
    def uniq_remove(self, v, x, keep_order=True):
        ex = self.ex; x = ex.coerce(x, v.ty.a[0]); has = v.has(x)
        c = dict(v.c)
        for p in (".m", ".hi"): c[p] = ex.fresh("rm" + p, v.c[p].sort())
        ex.assume(c[".m"] == z3.Store(v.m, x, z3.BoolVal(False))); ex.assume(c[".hi"] == z3.If(has, v.hi - 1, v.hi))
        c[".d"] = ex.fresh("rm.d", v.d.sort()); c[".pos"] = ex.fresh("rm.pos", v.pos.sort())
        r = CV(v.ty, c); ex.assume_wf(r)
        i = z3.Int("i!w"); p = v.pos[x]
        if keep_order:
            ex.assume(z3.Implies(has, z3.And(
                z3.ForAll([i], z3.Implies(z3.And(v.lo <= i, i < p), c[".d"][i] == v.d[i]), patterns=[c[".d"][i]]),
                z3.ForAll([i], z3.Implies(z3.And(p <= i, i < v.hi - 1), c[".d"][i] == v.d[i + 1]), patterns=[c[".d"][i]]))))
        ex.assume(z3.Implies(z3.Not(has), z3.And(c[".d"] == v.d, c[".pos"] == v.pos)))
        return r
    def order(self, v, prev=None):
        """sortedness axiom of a std::set with a comparator (inserting into a sorted set, or building a new one): the relation is
        the comparator's contract, supplied by the contract layer and proved on the comparator itself"""
        sp = self.ex.spec
        if v.ty.n and sp is not None and hasattr(sp, "sorted"):
            f = sp.sorted(self.ex, v); self.ex.assume(z3.Implies(sp.sorted(self.ex, prev), f) if prev is not None else f)
    def set_of_range(self, a, b, t):
        """std::set(first, last): exactly the elements of the range"""
        ex = self.ex; v = a.lv.get(ex); r = ex.fresh_value(t, "rset"); x = z3.Const("x!w", r.d.sort().range()); k = z3.Int("k!w")
        if v.ty.k in ("set", "uvec", "useq") and z3.is_true(z3.simplify(z3.And(a.pos == v.lo, b.pos == v.hi))):
            ex.assume(r.m == v.m); ex.assume(r.hi - r.lo == v.hi - v.lo)
        else:
            ex.assume(z3.ForAll([x], z3.Implies(r.m[x], z3.Exists([k], z3.And(a.pos <= k, k < b.pos, v.d[k] == x))), patterns=[r.m[x]]))
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(a.pos <= k, k < b.pos), r.m[v.d[k]]), patterns=[v.d[k]]))
        self.order(r)
        return r
    def empty_of(self, t): return self.ex.default_value(t)
    def as_seq_lv(self, lv):
        if isinstance(lv, LObj): raise Unsupported("sequence view of %r" % lv.ty)
        return lv
    def elem_lv(self, lv, k):
        t = lv.ty
        if t.k == "map": return LPair(lv, lv.get(self.ex).d[k], Ty("pair", [t.a[0], t.a[1]]))
        if t.k in ("set", "uvec", "useq"):
            x = lv.get(self.ex).d[k]
            return LObj(x, t.a[0]) if t.a[0].k == "cls" else LTmp(x, t.a[0])
        if t.a[0].k == "cls": return LObj(lv.get(self.ex).d[k], t.a[0])
        return LElem(lv, k, t.a[0])
    def index_of(self, v, pos, rev): return pos if not rev else v.hi - 1 - (pos - v.lo)
    def iter_deref(self, it):
        v = it.lv.get(self.ex)
        self.ex.prove("iterator in range", z3.And(v.lo <= it.pos, it.pos < v.hi))
        return self.elem_lv(it.lv, self.index_of(v, it.pos, it.rev))
    def iter_binop(self, op, x, y):
        if isinstance(x, IterVal) and isinstance(y, IterVal):
            d = {"==": x.pos == y.pos, "!=": x.pos != y.pos, "<": x.pos < y.pos, "-": x.pos - y.pos}.get(op)
            if d is not None: return d
        if isinstance(x, IterVal) and op in ("+", "-"): return IterVal(x.lv, x.pos + y if op == "+" else x.pos - y, x.rev)
        raise Unsupported("iterator " + op)
    def pair_member(self, lv, name):
        ex = self.ex
        if isinstance(lv, LPair):
            kt, vt = lv.base.ty.a
            if name == "first": return LTmp(lv.key, kt)
            if vt.k == "cls": return LObj(lv.base.get(ex).val(lv.key), vt)
            return LMapVal(lv.base, lv.key, vt)
        i = 0 if name == "first" else 1
        return LComp(lv, "." + name, lv.ty.a[i])
    def all_quant(self, it0, it1, body):
        pass

    # ---------------------------------------------------------------- construction
    def construct(self, t, n, args):
        ex = self.ex
        if t.k == "status":
            if not args: return ex.default_value(t)
            a0 = ex.T.of(args[0])
            if a0.k == "ref": a0 = a0.a[0]
            if a0.k == "status": return ex.val(args[0])
            vals = [ex.val(a) if a.kind != "CXXDefaultArgExpr" or a.inner else None for a in args]
            if a0.k == "str":
                # CStatus(errorInfo, locateInfo): a plain error (code -1), checked against the real constructor by C26
                self.use("CStatus(string, location) has code -1")
                return CV(t, {".code": z3.IntVal(-1), ".info": ex.fresh("info", Str)})
            if a0.k == "int":
                return CV(t, {".code": ex.num(vals[0]), ".info": ex.fresh("info", Str)})
            raise Unsupported("status construction")
        if ex.is_token(t):
            if not args: return z3.IntVal(0)
            vals = [ex.ev(a) for a in args if a.kind != "CXXDefaultArgExpr"]; vals = [v.ref if isinstance(v, LObj) else v.get(ex) if isinstance(v, LV) and not isinstance(v, LMutex) else v for v in vals]
            a0 = ex.T.of(args[0]); a0 = a0.a[0] if a0.k == "ref" else a0
            if len(vals) == 1 and ex.is_token(a0): return vals[0]
            if ex.spec is not None and hasattr(ex.spec, "on_token"): return ex.spec.on_token(ex, t, vals)
            raise Unsupported("construction of %s from %d arguments" % (t.n, len(vals)))
        if t.k == "opaque" and len(args) == 1:
            v = ex.ev(args[0])
            return v.get(ex) if isinstance(v, LV) and not isinstance(v, (LMutex, LObj)) else v
        if t.k == "str":
            if not args: return EMPTY
            if len(args) >= 1:
                v = ex.val(args[0])
                if z3.is_expr(v) and v.sort() == Str: return v
            return ex.fresh("str", Str)
        if t.k in ("vec", "deque", "set", "map", "pqueue", "uvec", "useq"):
            real = [a for a in args if a.kind != "CXXDefaultArgExpr"]
            if not real: return ex.default_value(t)
            a0 = ex.T.of(real[0]); a0 = a0.a[0] if a0.k == "ref" else a0
            inner0 = real[0] if real else None
            while inner0 is not None and inner0.kind in ("ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr", "ParenExpr") and inner0.inner: inner0 = inner0.inner[0]
            if len(real) == 1 and (a0.k in ("vec", "deque", "set", "map", "uvec", "useq") or inner0.kind == "CXXStdInitializerListExpr"):
                lv = ex.ev(real[0]); v = lv.get(ex) if isinstance(lv, LV) else lv
                if isinstance(v, list):
                    r = ex.default_value(t)
                    for x in v: r = self.uniq_insert(r, x) if t.k == "set" else (self.uniq_append(r, x) if t.k == "uvec" else self.seq_push(r, x))
                    return r
                if isinstance(v, CV):
                    if v.ty == t: return v
                    r = ex.default_value(t)
                    if t.k == v.ty.k: return CV(t, v.c)
                    if t.k == "set" and v.ty.k == "vec":
                        lo, hi = z3.simplify(v.lo), z3.simplify(v.hi)
                        if z3.is_int_value(lo) and z3.is_int_value(hi):
                            for i in range(lo.as_long(), hi.as_long()): r = self.uniq_insert(r, v.d[i])
                            return r
                    if t.k == "vec" and v.ty.k == "vec": return CV(t, v.c)
            if t.k == "vec" and len(real) >= 1 and a0.k == "int":
                cnt = ex.num(ex.val(real[0])); v = ex.fresh_value(t, "vecn")
                ex.assume(v.hi == cnt)
                ety = t.a[0]
                dv = ex.val(real[1]) if len(real) > 1 else (ex.default_value(ety) if ety.k != "cls" else None)
                if dv is not None:
                    c = dict(v.c)
                    for p, s in shape(ety):
                        x = dv if p == "" else dv.c[p]
                        c[".d" + p] = z3.K(I, x)
                    v = CV(t, c)
                return v
            if len(real) >= 2:
                a, b = ex.val(real[0]), ex.val(real[1])
                if t.k == "useq" and isinstance(a, PtrTo) and isinstance(b, PtrTo) and isinstance(a.lv, LElem) and isinstance(b.lv, LElem):
                    return self.useq_range(a.lv, b.lv, t)
                if isinstance(a, IterVal) and isinstance(b, IterVal) and t.k == "vec":
                    return self.subseq(a, b, t)
                if isinstance(a, IterVal) and isinstance(b, IterVal) and t.k == "set" and not a.rev: return self.set_of_range(a, b, t)
            raise Unsupported("construct %r from %d args" % (t, len(real)))
        if t.k == "lock":
            m = ex.ev(args[0])
            kinds = [a for a in args[1:] if a.kind != "CXXDefaultArgExpr"]
            l = LockVal(m, False)
            if not kinds: self.lock(m); l.owned = True
            else:
                s = str(ex.p.ty(kinds[0]))
                if "try_to_lock" in s:
                    l.owned = ex.choose(2) == 0
                    if l.owned: self.lock(m)
                elif "defer" in s: pass
                else: l.owned = True
            return l
        if t.k in ("uptr",):
            if not args: return z3.IntVal(0)
            return ex.val(args[0])
        if t.k in ("fn", "ptask"):
            if not args: return z3.IntVal(0)
            v = ex.ev(args[0])
            if isinstance(v, LV) and not isinstance(v, LObj): v = v.get(ex)
            return v.ref if isinstance(v, LObj) else v
        if t.k == "pair":
            if len(args) == 1: return ex.val(args[0])
            c = {}
            for nm, a, ty in (("first", args[0], t.a[0]), ("second", args[1], t.a[1])):
                v = ex.coerce(ex.val(a), ty)
                for p, _ in shape(ty): c["." + nm + p] = v if p == "" else v.c[p]
            return CV(t, c)
        if t.k == "future":
            if not args: return ex.default_value(t)
            return ex.val(args[0])
        if t.k == "int":
            if not args: return z3.IntVal(0)
            return ex.num(ex.val(args[0]))
        if t.k == "bool":
            return ex.boolv(ex.val(args[0])) if args else z3.BoolVal(False)
        if t.k == "mutex" or t.k == "cv": return None
        if t.k == "thread": 
            for a in args: ex.ev(a)
            if ex.spec is not None and args and hasattr(ex.spec, "on_thread"): ex.spec.on_thread(ex, args)
            return ex.fresh("thread", I)
        if t.k == "opaque":
            for a in args: ex.ev(a)
            return ex.fresh("opq", I)
        if t.k == "ptr" and len(args) <= 1: return ex.val(args[0]) if args else z3.IntVal(0)
        if t.k == "lnode" and not args: return ex.default_value(t)
        raise Unsupported("construct %r" % t)
    def useq_range(self, a, b, t):
        """copy of the block [a, b) of a sequence without repetition"""
        ex = self.ex; v = a.base.get(ex); r = ex.fresh_value(t, "row"); i, x = z3.Int("i!w"), z3.Int("x!w")
        ex.prove("range copied lies within the source block", z3.And(v.lo <= a.idx, a.idx <= b.idx, b.idx <= v.hi))
        ex.assume(z3.And(r.lo == 0, r.hi == b.idx - a.idx))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.hi), r.d[i] == v.d[a.idx + i]), patterns=[r.d[i]]))
        ex.assume(z3.ForAll([x], r.m[x] == z3.And(v.m[x], a.idx <= v.pos[x], v.pos[x] < b.idx), patterns=[r.m[x], v.m[x]]))
        return r
    def subseq(self, a, b, t):
        ex = self.ex; v = a.lv.get(ex); r = ex.fresh_value(t, "sub")
        ex.assume(r.hi == b.pos - a.pos)
        i = z3.Int("i!w")
        if v.ty.k == "map": raise Unsupported("range construct from map")
        if a.rev: ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.hi), r.d[i] == v.d[v.hi - 1 - (a.pos + i - v.lo)]), patterns=[r.d[i]]))
        else: ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.hi), r.d[i] == v.d[a.pos + i]), patterns=[r.d[i]]))
        return r

    # ---------------------------------------------------------------- mutexes (monitor semantics)
    def mkey(self, m):
        if not isinstance(m, LMutex): raise Unsupported("lock on %r" % (m,))
        return (m.cls, m.name, z3.simplify(m.ref).sexpr() if z3.is_expr(m.ref) else str(m.ref))
    def lock(self, m):
        ex = self.ex; k = self.mkey(m)
        if isinstance(m.ty, Ty) and m.ty.n and "recursive" in m.ty.n:
            pass
        elif k in ex.st.held:
            ex.prove("no self-deadlock on %s" % m.name, z3.BoolVal(False))
        cnt = ex.st.held.get(k, 0)
        ex.st.held[k] = cnt + 1
        if cnt == 0 and ex.spec is not None: ex.spec.acquire(ex, m, k)
    def unlock(self, m):
        ex = self.ex; k = self.mkey(m)
        cnt = ex.st.held.get(k, 0)
        if cnt == 0:
            ex.prove("unlock of a held mutex", z3.BoolVal(False)); return
        if cnt == 1:
            if ex.spec is not None: ex.spec.release(ex, m, k)
            del ex.st.held[k]
        else: ex.st.held[k] = cnt - 1
    def lock_dtor(self, l):
        if l.owned: self.unlock(l.m); l.owned = False
    def notify(self, cv, n):
        ex = self.ex
        if ex.spec is not None: ex.spec.on_notify(ex, cv, n)
    def cvwait(self, cv, lockv, pred, timed):
        ex = self.ex; m = lockv.m; k = self.mkey(m)
        if k not in ex.st.held: ex.prove("wait with the lock held", z3.BoolVal(False))
        self.use("condition_variable::wait releases and re-acquires the mutex and returns only with the predicate true (or, timed, with its final value)")
        if ex.spec is not None:
            if pred is not None: ex.spec.on_wait(ex, cv, m, pred)
            ex.spec.release(ex, m, k); ex.spec.acquire(ex, m, k)
        if pred is None: return ex.fresh("cvst", I)
        p = ex.boolv(ex.call_value(pred, []))
        if not timed:
            if not ex.branch(p): raise PathEnd("still waiting")
            return None
        return p

    def rawptr(self, n):
        ex = self.ex; v = ex.unfn(ex.val(n))
        if isinstance(v, PtrTo) and isinstance(v.lv, LElem): return v.lv.base, v.lv.idx
        if isinstance(v, IterVal): return v.lv, v.pos
        t = ex.T.of(n)
        if t.k != "ptr" or not z3.is_expr(v): raise Unsupported("range over an unknown block")
        return ex.rawarr(v, t.a[0]), z3.IntVal(0)
    # ---------------------------------------------------------------- free functions
    def call_free(self, name, n, args):
        ex = self.ex
        if name in ("move", "forward") and len(args) == 1:
            v = ex.ev(args[0])
            return v
        if name in ("move", "copy", "copy_backward", "move_backward") and len(args) == 3:
            a, b, c = (self.rawptr(x) for x in args)
            if "backward" in name: c = (c[0], c[1] - (b[1] - a[1]))
            sv = a[0].get(ex); dv = c[0].get(ex); i = z3.Int("i!w"); n = b[1] - a[1]
            if ex.spec is not None and ex.spec.check_bounds:
                ex.prove("range copied lies within the source block", z3.Or(n <= 0, z3.And(a[1] >= 0, b[1] <= sv.hi)))
                ex.prove("range copied fits the destination block", z3.Or(n <= 0, z3.And(c[1] >= 0, c[1] + n <= dv.hi)))
            r = ex.fresh_value(dv.ty, "moved"); ex.assume(z3.And(r.lo == dv.lo, r.hi == dv.hi))
            es = dv.ty.a[0]
            ex.assume(z3.ForAll([i], r.d[i] == z3.If(z3.And(c[1] <= i, i < c[1] + n), sv.d[i - c[1] + a[1]], dv.d[i]), patterns=[r.d[i]]))
            c[0].set(ex, r)
            return PtrTo(LElem(c[0], c[1] + n, es))
        if name == "__builtin_expect": return ex.num(ex.val(args[0]))
        if name in ("min", "max"):
            a, b = ex.num(ex.val(args[0])), ex.num(ex.val(args[1]))
            return LTmp(z3.If(b < a, b, a) if name == "min" else z3.If(a < b, b, a), ex.T.of(n) if ex.T.of(n).k != "ref" else ex.T.of(n).a[0])
        if name in ("any_of", "all_of", "find_if", "none_of"):
            a, b = ex.val(args[0]), ex.val(args[1]); f = ex.val(args[2])
            return self.quantify(name, a, b, f)
        if name == "find":
            a, b = ex.val(args[0]), ex.val(args[1]); x = ex.val(args[2])
            v = a.lv.get(ex)
            if v.ty.k in ("set", "uvec", "useq"): return IterVal(a.lv, z3.If(v.has(x), v.pos[x], b.pos))
            r = ex.fresh("find", I); i = z3.Int("i!w")
            ex.assume(z3.And(a.pos <= r, r <= b.pos, z3.Implies(r < b.pos, v.d[r] == x)))
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i < r), v.d[i] != x), patterns=[v.d[i]]))
            return IterVal(a.lv, r, a.rev)
        if name == "distance":
            a, b = ex.val(args[0]), ex.val(args[1]); return b.pos - a.pos
        if name == "reverse":
            a, b = ex.val(args[0]), ex.val(args[1]); v = a.lv.get(ex)
            r = ex.fresh_value(v.ty, "rev"); i = z3.Int("i!w")
            ex.assume(r.hi == v.hi); ex.assume(r.lo == v.lo)
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(v.lo <= i, i < v.hi), r.d[i] == v.d[v.hi - 1 - (i - v.lo)]), patterns=[r.d[i]]))
            a.lv.set(ex, r); return None
        if name == "to_string": ex.val(args[0]); return ex.fresh("str", Str)
        if name in ("duration_cast", "time_point_cast"): return ex.num(ex.val(args[0]))
        if name == "now":
            v = ex.fresh("now", I); ex.assume(v >= 0)
            if ex.spec is not None and hasattr(ex.spec, "on_now"): ex.spec.on_now(ex, v)
            if ex.spec is not None and hasattr(ex.spec, "on_now"): ex.spec.on_now(ex, v)
            return v
        if name in ("sleep_for", "yield", "get_id"):
            for a in args: ex.ev(a)
            if name == "get_id": return z3.Int("this.thread.id")
            return None
        if name == "async": 
            vals = [ex.ev(a) for a in args]
            if ex.spec is not None and hasattr(ex.spec, "on_async"): return ex.spec.on_async(ex, n, vals)
            raise Unsupported("std::async without contract")
        if name in ("memset", "__builtin_memset"):
            t = args[0]
            while t.kind in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") and t.inner: t = t.inner[0]
            if ex.T.of(t).k == "ptr" and len(ex.shape_of(ex.T.of(t).a[0])) == 1:
                a, i = self.rawptr(t); v = a.get(ex); r = ex.fresh_value(v.ty, "memset"); ex.assume(z3.And(r.lo == v.lo, r.hi == v.hi)); a.set(ex, r)
            return ex.fresh("sys", I)
        if name in ("pthread_setschedparam", "pthread_setaffinity_np"):
            return ex.fresh("sys", I)
        if name in ("swap",):
            a, b = ex.ev(args[0]), ex.ev(args[1]); u, v = a.get(ex), b.get(ex); a.set(ex, v); b.set(ex, u); return None
        if name == "bind" or name == "make_shared" or name == "make_unique": raise Unsupported("std::" + name)
        raise Unsupported("call of library function %s at %s" % (name, ex.where()))
    def quantify(self, name, a, b, f):
        """any_of / all_of over a range with a side-effect free predicate: evaluated once at a generic element"""
        ex = self.ex; v = a.lv.get(ex)
        if not (isinstance(f, (Closure, FnRef, Bind))): raise Unsupported("predicate")
        i = ex.fresh("qi", I)
        res = []
        # evaluate the predicate on the element at index i along every path of the predicate
        base = ex.st
        def run(e):
            e.assume(z3.And(a.pos <= i, i < b.pos))
            n0 = len(e.st.pc); 
            h0 = dict(e.st.heap)
            r = e.boolv(e.call_value(f, [self.elem_lv(a.lv, i)]))
            if any(e.st.heap[k] is not h0.get(k, e.initheap.get(k)) and not e.st.heap[k].eq(h0[k]) for k in e.st.heap if k in h0): raise Unsupported("predicate with side effects")
            res.append((e.st.pc[n0:], r, e.st))
        saved = list(ex.recorders); ex.recorders = []
        try: ex.explore(run, ex.st, quiet=True)
        finally: ex.recorders = saved
        for _, _, s in res:
            for k, h in s.heap.items(): ex.st.heap.setdefault(k, h)
            for k, g in s.ghost.items():
                if isinstance(k, tuple) and k[0] in ("sub", "cell"): pass
        P = z3.simplify(z3.Or([z3.And([*pc, r]) for pc, r, _ in res] or [z3.BoolVal(False)]))
        k = z3.Int("i!q"); Pk = z3.substitute(P, (i, k))
        rng = z3.And(a.pos <= k, k < b.pos)
        pats = self.pattern(v, k)
        out = ex.fresh("q." + name, B)
        w = ex.fresh("qw", I); Pw = z3.substitute(P, (i, w))
        if name == "any_of":
            ex.assume(z3.Implies(out, z3.And(a.pos <= w, w < b.pos, Pw)))
            ex.assume(z3.Implies(z3.Not(out), z3.ForAll([k], z3.Implies(rng, z3.Not(Pk)), patterns=pats)))
        else:
            ex.assume(z3.Implies(z3.Not(out), z3.And(a.pos <= w, w < b.pos, z3.Not(Pw))))
            ex.assume(z3.Implies(out, z3.ForAll([k], z3.Implies(rng, Pk), patterns=pats)))
        ex.st.ghost["quant"] = ex.st.ghost.get("quant", ()) + ((name, out, w, a, P, i),)
        return out
    def pattern(self, v, k):
        d = v.c.get(".d")
        if d is None: d = next(x for p, x in v.c.items() if p.startswith(".d"))
        return [d[k]]
    def repo_model(self, f):
        if f.name in ("CGRAPH_ECHO",): return lambda ex, f, this, vals: None
        if f.qn in ("CGraph::CGRAPH_GET_CURRENT_MS", "CGraph::CGRAPH_GET_CURRENT_STD_SHARED_MS"): return None
        return None

    # ---------------------------------------------------------------- methods
    def call_method(self, lv, name, n, args):
        ex = self.ex; t = lv.ty
        if t is not None and t.k == "ref": t = t.a[0]
        if t is None: raise Unsupported("method %s on untyped" % name)
        m = getattr(self, "m_" + t.k, None)
        if m is None: raise Unsupported("method %s of %r" % (name, t))
        self.use("std::%s::%s" % (t.k if t.k not in ("int", "bool") else "atomic", name))
        r = m(lv, t, name, args, n)
        return r
    def m_status(self, lv, t, name, args, n):
        ex = self.ex; v = lv.get(ex)
        self.use("CStatus methods per their verified contract (C26)")
        if name == "isOK": return v.code == 0
        if name == "isErr": return v.code < 0
        if name == "isNotErr": return v.code >= 0
        if name == "operator bool": return v.code == 0
        if name == "reset":
            lv.set(ex, CV(v.ty, {".code": z3.IntVal(0), ".info": z3.If(v.code != 0, z3.Const("str.empty", Str), v.info)})); return None
        if name == "isCrash": return v.code == self.crash_code()
        if name == "getCode": return v.code
        if name == "getInfo" or name == "getLocate": return LTmp(v.info, STR)
        if name == "setErrorInfo":
            lv.set(ex, CV(v.ty, {".code": z3.IntVal(-1), ".info": ex.fresh("info", Str)})); return None
        if name == "setInfo":
            code = ex.num(ex.val(args[0])); lv.set(ex, CV(v.ty, {".code": code, ".info": ex.fresh("info", Str)})); return None
        raise Unsupported("CStatus::" + name)
    def crash_code(self):
        ex = self.ex
        for k, g in ex.p.globals.items():
            if g.get("name") == "STATUS_CRASH": return ex.num(LTmpget(ex, self.global_var("STATUS_CRASH", g)))
        raise Unsupported("STATUS_CRASH not found")
    def seq_common(self, lv, t, name, args, n):
        ex = self.ex
        v = lv.get(ex)
        if name == "size": return v.len()
        if name == "empty": return v.hi <= v.lo
        if name == "begin" or name == "cbegin": return IterVal(lv, v.lo)
        if name == "end" or name == "cend": return IterVal(lv, v.hi)
        if name == "rbegin": return IterVal(lv, v.lo, True)
        if name == "rend": return IterVal(lv, v.hi, True)
        if name == "clear":
            lv.set(ex, ex.default_value(t)); return None
        if name in ("reserve", "shrink_to_fit"):
            for a in args: ex.ev(a)
            return None
        if name == "swap":
            o = ex.ev(args[0]); ov = o.get(ex); o.set(ex, v); lv.set(ex, ov); return None
        return NotImplemented
    def m_vec(self, lv, t, name, args, n):
        ex = self.ex
        r = self.seq_common(lv, t, name, args, n)
        if r is not NotImplemented: return r
        v = lv.get(ex)
        ety = t.a[0]
        if name in ("push_back", "emplace_back", "push"):
            x = self.elem_value(ety, args)
            v = lv.get(ex)
            if ex.spec is not None: ex.spec.on_push(ex, lv, v, x)
            lv.set(ex, self.seq_push(v, x)); return None
        if name in ("push_front",):
            x = self.ex.coerce(self.elem_value(ety, args), ety); v = lv.get(ex); c = dict(v.c)
            for p, _ in shape(ety): c[".d" + p] = z3.Store(c[".d" + p], v.lo - 1, x if p == "" else x.c[p])
            c[".lo"] = v.lo - 1; lv.set(ex, CV(t, c)); return None
        if name in ("front", "top"):
            ex.prove("%s() of a non-empty container" % name, v.lo < v.hi); return self.elem_lv(lv, v.lo)
        if name == "back":
            ex.prove("back() of a non-empty container", v.lo < v.hi); return self.elem_lv(lv, z3.simplify(v.hi - 1))
        if name == "pop_back":
            ex.prove("pop_back() of a non-empty container", v.lo < v.hi)
            lv.set(ex, v.upd(hi=z3.simplify(v.hi - 1))); return None
        if name in ("pop_front", "pop"):
            ex.prove("pop of a non-empty container", v.lo < v.hi)
            lv.set(ex, v.upd(lo=z3.simplify(v.lo + 1))); return None
        if name in ("at", "operator[]"):
            i = ex.num(ex.val(args[0]))
            ex.prove("index in range", z3.And(i >= 0, i < v.len())); return self.elem_lv(lv, z3.simplify(v.lo + i))
        if name == "data": return PtrTo(LElem(lv, v.lo, ety))
        if name == "resize":
            c = ex.num(ex.val(args[0]))
            nv = ex.fresh_value(t, "rsz"); i = z3.Int("i!w")
            ex.assume(nv.lo == v.lo); ex.assume(nv.hi - nv.lo == c)
            for p, s in shape(ety):
                ex.assume(z3.ForAll([i], z3.Implies(z3.And(v.lo <= i, i < v.hi, i < nv.hi), nv.c[".d" + p][i] == v.c[".d" + p][i]), patterns=[nv.c[".d" + p][i]]))
            if ety.k in ("vec", "int", "ptr", "uptr", "bool"):
                dv = ex.default_value(ety)
                for p, s in shape(ety):
                    if p in (".d",): continue
                    x = dv if p == "" else dv.c[p]
                    ex.assume(z3.ForAll([i], z3.Implies(z3.And(v.hi <= i, i < nv.hi), nv.c[".d" + p][i] == x), patterns=[nv.c[".d" + p][i]]))
            lv.set(ex, nv); return None
        if name == "insert":
            pos = ex.val(args[0])
            if len(args) == 3:
                a, b = ex.val(args[1]), ex.val(args[2])
                cur = lv.get(ex)
                if isinstance(a, IterVal) and z3.is_true(z3.simplify(pos.pos == cur.hi)):
                    src = a.lv.get(ex); nv = ex.fresh_value(t, "insr"); i = z3.Int("i!w")
                    ex.assume(nv.lo == cur.lo); ex.assume(nv.hi == cur.hi + (b.pos - a.pos))
                    ex.assume(z3.ForAll([i], z3.Implies(z3.And(cur.lo <= i, i < cur.hi), nv.d[i] == cur.d[i]), patterns=[nv.d[i]]))
                    ex.assume(z3.ForAll([i], z3.Implies(z3.And(cur.hi <= i, i < nv.hi), nv.d[i] == src.d[a.pos + (i - cur.hi)]), patterns=[nv.d[i]]))
                    lv.set(ex, nv); return None
            raise Unsupported("insert")
        if name == "erase":
            it = ex.val(args[0])
            if len(args) > 1: raise Unsupported("range erase")
            ex.prove("erase of a valid position", z3.And(v.lo <= it.pos, it.pos < v.hi))
            nv = ex.fresh_value(t, "ers"); i = z3.Int("i!w")
            ex.assume(nv.lo == v.lo); ex.assume(nv.hi == v.hi - 1)
            for p, s in shape(ety):
                a, b = nv.c[".d" + p], v.c[".d" + p]
                ex.assume(z3.ForAll([i], z3.Implies(z3.And(v.lo <= i, i < it.pos), a[i] == b[i]), patterns=[a[i]]))
                ex.assume(z3.ForAll([i], z3.Implies(z3.And(it.pos <= i, i < nv.hi), a[i] == b[i + 1]), patterns=[a[i]]))
            lv.set(ex, nv)
            if t.n == "list" and isinstance(lv, LField):
                # iterators to the other elements of a list stay valid: behind the erased one they are one position further to the front
                for k, w in list(ex.st.vars.items()):
                    if isinstance(w, IterVal) and isinstance(w.lv, LField) and w.lv.name == lv.name and w.lv.ref.eq(lv.ref) and not w.rev:
                        ex.st.vars[k] = IterVal(w.lv, z3.simplify(z3.If(w.pos > it.pos, w.pos - 1, w.pos))); ex.note_write(("v",) + tuple(k))
            return IterVal(lv, it.pos)
        if name == "remove":       # std::list::remove(value)
            x = ex.val(args[0]); nv = ex.fresh_value(t, "lrm"); i, j = z3.Int("i!w"), z3.Int("j!w")
            mp = ex.fresh("lrm.map", z3.ArraySort(I, I)); inv = ex.fresh("lrm.inv", z3.ArraySort(I, I))
            ex.assume(nv.lo == v.lo); ex.assume(nv.hi <= v.hi)
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(nv.lo <= i, i < nv.hi), z3.And(nv.d[i] == v.d[mp[i]], nv.d[i] != x, v.lo <= mp[i], mp[i] < v.hi, inv[mp[i]] == i)), patterns=[nv.d[i]]))
            ex.assume(z3.ForAll([j], z3.Implies(z3.And(v.lo <= j, j < v.hi, v.d[j] != x), z3.And(nv.lo <= inv[j], inv[j] < nv.hi, mp[inv[j]] == j)), patterns=[v.d[j]]))
            ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(nv.lo <= i, i < j, j < nv.hi), mp[i] < mp[j]), patterns=[z3.MultiPattern(mp[i], mp[j])]))
            lv.set(ex, nv); return None
        raise Unsupported("vector::" + name)
    m_deque = m_vec
    def m_useq(self, lv, t, name, args, n):
        """vector/queue of element pointers without repetition: adding one twice is an obligation, membership is tracked"""
        ex = self.ex; v = lv.get(ex)
        if name in ("pop_front", "pop", "pop_back"):
            ex.prove("pop of a non-empty container", v.lo < v.hi); back = name == "pop_back"
            x = v.d[v.hi - 1 if back else v.lo]; m = ex.fresh("pop.m", v.m.sort()); ex.assume(m == z3.Store(v.m, x, z3.BoolVal(False)))
            lv.set(ex, v.upd(m=m, **({"hi": z3.simplify(v.hi - 1)} if back else {"lo": z3.simplify(v.lo + 1)}))); return None
        if name in ("front", "back"):
            ex.prove("%s() of a non-empty container" % name, v.lo < v.hi); return LTmp(v.d[v.lo if name == "front" else v.hi - 1], t.a[0])
        if name in ("push_front", "emplace_front"):
            x = ex.coerce(ex.val(args[0]) if not isinstance(ex.val(args[0]), LV) else ex.val(args[0]).get(ex), t.a[0])
            ex.prove("an element is put into a sequence only once", z3.Not(v.has(x))); c = dict(v.c)
            for p in (".d", ".pos", ".m"): c[p] = ex.fresh("pf" + p, v.c[p].sort())
            lo = z3.simplify(v.lo - 1); c[".lo"] = lo
            ex.assume(c[".d"] == z3.Store(v.d, lo, x)); ex.assume(c[".pos"] == z3.Store(v.pos, x, lo)); ex.assume(c[".m"] == z3.Store(v.m, x, z3.BoolVal(True)))
            lv.set(ex, CV(v.ty, c)); return None
        if name == "remove":
            x = ex.val(args[0]); x = x.get(ex) if isinstance(x, LV) else x
            lv.set(ex, self.uniq_remove(v, x)); return None
        if name in ("at", "operator[]"):
            i = ex.num(ex.val(args[0])); ex.prove("index in range", z3.And(i >= 0, i < v.len())); return LTmp(v.d[v.lo + i], t.a[0])
        if name == "data": return PtrTo(LElem(lv, v.lo, t.a[0]))
        if name in ("push_back", "emplace_back", "push", "size", "empty", "begin", "end", "cbegin", "cend", "clear", "reserve", "swap"): return self.m_vec(lv, t, name, args, n)
        raise Unsupported("vector::%s of a sequence without repetition" % name)
    def elem_value(self, ety, args):
        ex = self.ex
        if len(args) == 1:
            v = ex.ev(args[0])
            if isinstance(v, LV) and not isinstance(v, LMutex):
                if ety.k == "uptr" and isinstance(v, LVar): 
                    x = v.get(ex); v.set(ex, z3.IntVal(0)); return x       # moved from
                v = v.get(ex)
            return v
        if not args: return ex.default_value(ety)
        raise Unsupported("emplace with several arguments")
    def m_uvec(self, lv, t, name, args, n):
        """USmallVector / USerialUniqueArray per the contract verified for C27"""
        ex = self.ex; v = lv.get(ex); small = "USmallVector" in t.n
        self.use("%s methods per their verified contract (C27)" % ("USmallVector" if small else "USerialUniqueArray"))
        if name == "size": return v.len()
        if name == "empty": return v.hi <= v.lo
        if name == "begin": return IterVal(lv, v.lo)
        if name == "end": return IterVal(lv, v.hi)
        if name == "clear": lv.set(ex, ex.default_value(t)); return None
        if name in ("push_back", "add", "emplace_back", "insert"):
            x = ex.val(args[0]); had = v.has(x)
            lv.set(ex, self.uniq_append(v, x)); return z3.Not(had)
        if name in ("remove", "erase"):
            x = ex.val(args[0]); had = v.has(x)
            lv.set(ex, self.uniq_remove(v, x)); return had
        if name in ("contains", "has", "hasValue"): return v.has(ex.val(args[0]))
        if name == "back": return LTmp(v.d[v.hi - 1], t.a[0])
        if name == "front": return LTmp(v.d[v.lo], t.a[0])
        if name in ("at", "operator[]"):
            i = ex.num(ex.val(args[0])); ex.prove("index in range", z3.And(0 <= i, i < v.hi)); return LTmp(v.d[i], t.a[0])
        if name in ("asVector", "asSet", "getVector", "toVector"):
            return self.uvec_as(lv, v, t, name)
        raise Unsupported("%s::%s" % (t.n, name))
    def uvec_as(self, lv, v, t, name):
        ex = self.ex
        if "useq" in ex.T.raw and "ector" in name: return CV(Ty("useq", [t.a[0]]), v.c)
        vt = Ty("vec", [t.a[0]]) if "ector" in name else Ty("set", [t.a[0]])
        if vt.k == "vec": return CV(vt, {".lo": v.lo, ".hi": v.hi, ".d": v.d})
        d = ex.fresh("as.d", v.d.sort()); pos = ex.fresh("as.pos", v.pos.sort())
        r = CV(vt, {".lo": v.lo, ".hi": v.hi, ".d": d, ".m": v.m, ".pos": pos}); ex.assume_wf(r); return r
    def m_set(self, lv, t, name, args, n):
        ex = self.ex
        r = self.seq_common(lv, t, name, args, n)
        if r is not NotImplemented: return r
        v = lv.get(ex)
        if name in ("insert", "emplace"):
            x = ex.coerce(ex.val(args[0]), t.a[0]); had = v.has(x)
            nv = self.uniq_insert(v, x); lv.set(ex, nv)
            return Bind(lambda e, a: None) if False else CV(Ty("pair", [Ty("int", n="long"), BOOL]), {".first": nv.pos[x], ".second": z3.Not(had)})
        if name == "find":
            x = ex.coerce(ex.val(args[0]), t.a[0]); return IterVal(lv, z3.If(v.has(x), v.pos[x], v.hi))
        if name == "count":
            x = ex.coerce(ex.val(args[0]), t.a[0]); return z3.If(v.has(x), z3.IntVal(1), z3.IntVal(0))
        if name == "erase":
            a = ex.val(args[0])
            if isinstance(a, IterVal):
                ex.prove("erase of a valid position", z3.And(v.lo <= a.pos, a.pos < v.hi))
                lv.set(ex, self.uniq_remove(v, v.d[a.pos])); return IterVal(lv, a.pos)
            a = ex.coerce(a, t.a[0])
            had = v.has(a); lv.set(ex, self.uniq_remove(v, a)); return z3.If(had, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("set::" + name)
    def m_map(self, lv, t, name, args, n):
        ex = self.ex
        r = self.seq_common(lv, t, name, args, n)
        if r is not NotImplemented: return r
        v = lv.get(ex)
        if name == "find":
            x = ex.coerce(ex.val(args[0]), t.a[0]); return IterVal(lv, z3.If(v.has(x), v.pos[x], v.hi))
        if name == "count":
            x = ex.coerce(ex.val(args[0]), t.a[0]); return z3.If(v.has(x), z3.IntVal(1), z3.IntVal(0))
        if name == "erase":
            a = ex.val(args[0])
            if isinstance(a, IterVal):
                ex.prove("erase of a valid position", z3.And(v.lo <= a.pos, a.pos < v.hi)); k = v.d[a.pos]
            else: k = ex.coerce(a, t.a[0])
            had = v.has(k)
            nv = self.uniq_remove(v, k); lv.set(ex, nv)
            return IterVal(lv, a.pos) if isinstance(a, IterVal) else z3.If(had, z3.IntVal(1), z3.IntVal(0))
        if name in ("insert", "emplace"):
            if len(args) == 1:
                p = ex.val(args[0]); k = p.c[".first"]; vv = {q: p.c[".second" + q] for q, _ in shape(t.a[1])}
            else:
                k = ex.coerce(ex.val(args[0]), t.a[0]); x = ex.coerce(ex.val(args[1]), t.a[1]); vv = {q: (x if q == "" else x.c[q]) for q, _ in shape(t.a[1])}
            v = lv.get(ex)
            if ex.branch(v.has(k)): return CV(Ty("pair", [Ty("int", n="long"), BOOL]), {".first": v.pos[k], ".second": z3.BoolVal(False)})
            nv = self.uniq_insert(v, k); c = dict(nv.c)
            for q, _ in shape(t.a[1]): c[".v" + q] = z3.Store(v.c[".v" + q], k, vv[q])
            nv = CV(t, c); lv.set(ex, nv)
            return CV(Ty("pair", [Ty("int", n="long"), BOOL]), {".first": nv.pos[k], ".second": z3.BoolVal(True)})
        if name == "at":
            k = ex.coerce(ex.val(args[0]), t.a[0]); ex.prove("map::at of a present key", v.has(k)); return LMapVal(lv, k, t.a[1])
        raise Unsupported("map::" + name)
    def map_index(self, lv, k):
        """operator[]: inserts a value-initialised element when absent"""
        ex = self.ex; t = lv.ty; v = lv.get(ex); k = ex.coerce(k, t.a[0]); had = v.has(k)
        if ex.branch(had): return LMapVal(lv, k, t.a[1])
        nv = self.uniq_insert(v, k); c = dict(nv.c); dv = ex.default_value(t.a[1])
        for q, _ in shape(t.a[1]): c[".v" + q] = z3.Store(v.c[".v" + q], k, dv if q == "" else dv.c[q])
        lv.set(ex, CV(t, c)); return LMapVal(lv, k, t.a[1])
    def m_lnode(self, lv, t, name, args, n):
        """std::list with stable node identity"""
        ex = self.ex; v = lv.get(ex); x, y = z3.Int("x!w"), z3.Int("y!w")
        def mk(lo, hi, m, rank):
            c = {".lo": ex.fresh("ls.lo", I), ".hi": ex.fresh("ls.hi", I), ".m": ex.fresh("ls.m", v.m.sort()), ".rank": ex.fresh("ls.rk", v.c[".rank"].sort())}
            ex.assume(z3.And(c[".lo"] == lo, c[".hi"] == hi, c[".m"] == m, c[".rank"] == rank))
            ex.assume(z3.ForAll([x], z3.Implies(c[".m"][x], z3.And(c[".hi"] >= 1)), patterns=[c[".m"][x]]))
            return CV(t, c)
        rk = v.c[".rank"]
        if name == "size": return v.hi
        if name == "empty": return v.hi <= 0
        if name == "clear": lv.set(ex, mk(v.lo, z3.IntVal(0), z3.K(I, z3.BoolVal(False)), rk)); return None
        if name in ("emplace_front", "push_front"):
            if len(args) != 1: raise Unsupported("list::" + name)
            o = ex.ev(args[0]); o = o.ref if isinstance(o, LObj) else o
            ex.assume(z3.And(o > 0, z3.Not(v.m[o])))
            lv.set(ex, mk(v.lo - 1, v.hi + 1, z3.Store(v.m, o, z3.BoolVal(True)), z3.Store(rk, o, v.lo - 1))); return None
        if name in ("front", "begin", "cbegin"):
            b = ex.fresh("front", I); f = z3.And(v.m[b], z3.ForAll([x], z3.Implies(v.m[x], rk[b] <= rk[x]), patterns=[v.m[x]]))
            if name == "front": ex.prove("front() of a non-empty list", v.hi > 0); ex.assume(f); return LObj(b, t.a[0])
            ex.assume(z3.If(v.hi > 0, f, b == 0)); return b
        if name in ("end", "cend"): return z3.IntVal(0)
        if name in ("back", "pop_back"):
            ex.prove("%s() of a non-empty list" % name, v.hi > 0)
            ck = ("lback", str(v.m), str(rk)); b = ex.st.ghost.get(ck)
            if b is None:
                b = ex.fresh("back", I); ex.assume(z3.And(v.m[b], z3.ForAll([x], z3.Implies(v.m[x], rk[b] >= rk[x]), patterns=[v.m[x]]))); ex.st.ghost[ck] = b
            if name == "back": return LObj(b, t.a[0])
            lv.set(ex, mk(v.lo, v.hi - 1, z3.Store(v.m, b, z3.BoolVal(False)), rk)); return None
        if name == "pop_front":
            ex.prove("pop_front() of a non-empty list", v.hi > 0)
            b = ex.fresh("front", I); ex.assume(z3.And(v.m[b], z3.ForAll([x], z3.Implies(v.m[x], rk[b] <= rk[x]), patterns=[v.m[x]])))
            lv.set(ex, mk(v.lo, v.hi - 1, z3.Store(v.m, b, z3.BoolVal(False)), rk)); return None
        if name == "erase":
            b = ex.val(args[0]); ex.prove("erase of a valid list position", v.m[b])
            lv.set(ex, mk(v.lo, v.hi - 1, z3.Store(v.m, b, z3.BoolVal(False)), rk)); return None
        if name == "splice" and len(args) == 3:
            b = ex.val(args[2]); p0 = ex.val(args[0]); ex.prove("splice of a valid list position", v.m[b])
            f = ex.fresh("front", I); ex.assume(z3.If(v.hi > 0, z3.And(v.m[f], z3.ForAll([x], z3.Implies(v.m[x], rk[f] <= rk[x]), patterns=[v.m[x]])), f == 0))
            ex.prove("splice to the front", p0 == f)
            lv.set(ex, mk(v.lo - 1, v.hi, v.m, z3.Store(rk, b, v.lo - 1))); return None
        raise Unsupported("list::" + name)
    def pq_order(self, t):
        """the comparator of a priority queue as a formula over two generic elements; obligation: a strict weak order"""
        ex = self.ex; a, b, c = ex.fresh("pqa", I), ex.fresh("pqb", I), ex.fresh("pqc", I); f = ex.p.find_method(t.n, "operator()"); res = []
        if f is None: raise Unsupported("comparator " + t.n)
        def run(e): n0 = len(e.st.pc); h0 = dict(e.st.heap); r = e.boolv(e.call_fn(f, z3.IntVal(1), None, [LTmp(a, t.a[0]), LTmp(b, t.a[0])])); res.append((e.st.pc[n0:], r))
        saved = list(ex.recorders); ex.recorders = []
        try: ex.explore(run, ex.st, quiet=True)
        finally: ex.recorders = saved
        P0 = z3.Or([z3.And([*pc, r]) for pc, r in res]); P = lambda x, y: z3.substitute(P0, (a, x), (b, y))
        ex.prove("the order of the priority queue is a strict weak order", z3.And(z3.Not(P(a, a)), z3.Implies(z3.And(P(a, b), P(b, c)), P(a, c)), z3.Implies(P(a, b), z3.Or(P(a, c), P(c, b)))))
        return P
    def m_pqueue(self, lv, t, name, args, n):
        ex = self.ex; v = lv.get(ex)
        if name == "empty": return v.hi <= 0
        if name == "size": return v.hi
        if name in ("push", "emplace"):
            x = ex.coerce(self.elem_value(t.a[0], args), t.a[0]); v = lv.get(ex)
            lv.set(ex, CV(t, {".hi": v.hi + 1, ".m": z3.Store(v.m, x, z3.BoolVal(True))})); return None
        if name == "top":
            ex.prove("top() of a non-empty queue", v.hi > 0)
            sp = ex.spec
            x = sp.pq_top(ex, lv, v) if sp is not None and hasattr(sp, "pq_top") else ex.fresh("top", I)
            ex.assume(v.m[x]); ex.st.ghost[("pqtop", str(lv.ref) if hasattr(lv, "ref") else "")] = x
            if t.n:
                P = self.pq_order(t); y = z3.Int("y!w"); ex.assume(z3.ForAll([y], z3.Implies(v.m[y], z3.Not(P(x, y))), patterns=[v.m[y]]))
            return LTmp(x, t.a[0])
        if name == "pop":
            ex.prove("pop() of a non-empty queue", v.hi > 0)
            x = ex.st.ghost.get(("pqtop", str(lv.ref) if hasattr(lv, "ref") else ""))
            if x is None:
                x = ex.fresh("top", I); ex.assume(v.m[x])
            lv.set(ex, CV(t, {".hi": v.hi - 1, ".m": z3.Store(v.m, x, z3.BoolVal(False))})); return None
        raise Unsupported("priority_queue::" + name)
    def m_str(self, lv, t, name, args, n):
        ex = self.ex
        if name == "empty": return lv.get(ex) == EMPTY
        if name == "c_str": return z3.Function("c_str", Str, I)(lv.get(ex))
        if name == "clear": lv.set(ex, EMPTY); return None
        if name in ("size", "length"):
            f = z3.Function("strlen", Str, I)(lv.get(ex)); ex.assume(f >= 0); return f
        raise Unsupported("string::" + name)
    # atomics -------------------------------------------------------------------------
    def atomic(self, lv, op, new):
        """one atomic action: the contract layer may inject interference before and ghost updates with it"""
        ex = self.ex; sp = ex.spec
        if sp is not None: sp.before_atomic(ex, lv, op)
        old = lv.get(ex)
        if new is not None:
            nv = new(old); lv.set(ex, nv)
        else: nv = old
        if sp is not None: sp.after_atomic(ex, lv, op, old, nv)
        return old
    def m_int(self, lv, t, name, args, n):
        ex = self.ex
        if name in ("load", "operator int", "operator unsigned long", "operator long") or name.startswith("operator "):
            return self.atomic(lv, "load", None)
        if name == "count" or name == "time_since_epoch": return lv.get(ex)
        if name == "store":
            v = ex.coerce(ex.val(args[0]), t); self.atomic(lv, "store", lambda o: v); return None
        if name == "fetch_add":
            v = ex.num(ex.val(args[0])); return self.atomic(lv, "fetch_add", lambda o: ex.wrap(o + v, t))
        if name == "fetch_sub":
            v = ex.num(ex.val(args[0])); return self.atomic(lv, "fetch_sub", lambda o: ex.wrap(o - v, t))
        if name == "exchange":
            v = ex.coerce(ex.val(args[0]), t); return self.atomic(lv, "exchange", lambda o: v)
        if name.startswith("compare_exchange"):
            e = ex.ev(args[0]); v = ex.coerce(ex.val(args[1]), t); ev = e.get(ex)
            old = self.atomic(lv, "cas", lambda o: z3.If(o == ev, v, o))
            e.set(ex, old); return old == ev
        if name == "name":
            self.use("type_info::name() points to one string per type")
            return lv.get(self.ex)
        raise Unsupported("atomic::" + name)
    def m_bool(self, lv, t, name, args, n):
        ex = self.ex
        if name in ("load",) or name.startswith("operator "): return self.atomic(lv, "load", None)
        if name == "store":
            v = ex.boolv(ex.val(args[0])); self.atomic(lv, "store", lambda o: v); return None
        if name == "exchange":
            v = ex.boolv(ex.val(args[0])); return self.atomic(lv, "exchange", lambda o: v)
        if name.startswith("compare_exchange"):
            e = ex.ev(args[0]); v = ex.boolv(ex.val(args[1])); ev = e.get(ex)
            old = self.atomic(lv, "cas", lambda o: z3.If(o == ev, v, o))
            e.set(ex, old); return old == ev
        raise Unsupported("atomic<bool>::" + name)
    m_ptr = m_int
    def m_mutex(self, lv, t, name, args, n):
        ex = self.ex
        if name in ("lock", "lock_shared"): self.lock(lv); return None
        if name in ("unlock", "unlock_shared"): self.unlock(lv); return None
        if name == "try_lock":
            if ex.choose(2) == 0: self.lock(lv); return z3.BoolVal(True)
            return z3.BoolVal(False)
        if name == "test_and_set":
            if ex.choose(2) == 0: self.lock(lv); return z3.BoolVal(False)
            return z3.BoolVal(True)
        if name == "clear": self.unlock(lv); return None
        raise Unsupported("mutex::" + name)
    def m_lock(self, lv, t, name, args, n):
        l = lv.get(self.ex) if isinstance(lv, LV) else lv
        if name == "unlock": 
            self.unlock(l.m); l.owned = False; return None
        if name == "lock": self.lock(l.m); l.owned = True; return None
        if name == "owns_lock" or name.startswith("operator"): return z3.BoolVal(l.owned)
        raise Unsupported("lock::" + name)
    def m_cv(self, lv, t, name, args, n):
        ex = self.ex
        if name.startswith("notify"): self.notify(lv, name); return None
        l = ex.val(args[0])
        if isinstance(l, LV): l = l.get(ex)
        if name == "wait":
            return self.cvwait(lv, l, ex.val(args[1]) if len(args) > 1 else None, False)
        if name in ("wait_for", "wait_until"):
            d = ex.num(ex.val(args[1])); r = self.cvwait(lv, l, ex.val(args[2]) if len(args) > 2 else None, True)
            if len(args) <= 2: ex.assume(z3.And(r >= 0, r <= 1))          # std::cv_status
            if ex.spec is not None and hasattr(ex.spec, "on_timed_wait"): ex.spec.on_timed_wait(ex, lv, l.m, name, d, r, len(args) > 2)
            return r
        raise Unsupported("cv::" + name)
    def m_fn(self, lv, t, name, args, n):
        if name == "operator bool": return self.ex.boolv(lv)
        raise Unsupported("function::" + name)
    def m_uptr(self, lv, t, name, args, n):
        ex = self.ex
        if name == "get": return lv.get(ex)
        if name == "operator bool": return lv.get(ex) != 0
        if name == "reset":
            lv.set(ex, ex.val(args[0]) if args else z3.IntVal(0)); return None
        if name == "release":
            v = lv.get(ex); lv.set(ex, z3.IntVal(0)); return v
        raise Unsupported("unique_ptr::" + name)
    def m_thread(self, lv, t, name, args, n):
        ex = self.ex
        if name == "joinable": return ex.fresh("joinable", B)
        if name == "join":
            if ex.spec is not None and hasattr(ex.spec, "on_join"): ex.spec.on_join(ex, lv)
            return None
        return ex.fresh("thr", I)
    def m_future(self, lv, t, name, args, n):
        ex = self.ex; v = lv.get(ex)
        if name == "valid": return v.c[".valid"]
        sp = ex.spec
        ex.fut_args = [ex.val(a) for a in args] if name.startswith("wait_") else [ex.ev(a) for a in args]
        if name in ("wait", "get"):
            if sp is not None and hasattr(sp, "on_future"):
                r = sp.on_future(ex, lv, v, name)
                if r is not NotImplemented: return r
            if name == "wait": return None
            if t.n == "future": lv.set(ex, v.upd(valid=z3.BoolVal(False)))
            rt = t.a[0] if t.a else VOID
            return ex.fresh_value(rt, "fut") if rt.k != "void" else None
        if name in ("wait_for", "wait_until"):
            if sp is not None and hasattr(sp, "on_future"):
                r = sp.on_future(ex, lv, v, name)
                if r is not NotImplemented: return r
            r = ex.fresh("futst", I); ex.assume(z3.And(r >= 0, r <= 2)); return r
        if name == "share": return CV(Ty("future", t.a, "shared_future"), v.c)
        raise Unsupported("future::" + name)
    def m_ptask(self, lv, t, name, args, n):
        ex = self.ex
        if name == "get_future":
            r = ex.fresh("futid", I)
            rt = ex.T.of(n)
            return CV(rt if rt.k == "future" else Ty("future", [VOID], "future"), {".valid": z3.BoolVal(True), ".id": z3.Function("futof", I, I)(ex.coerce(lv.get(ex), Ty("ptask")))})
        raise Unsupported("packaged_task::" + name)
    def m_opaque(self, lv, t, name, args, n):
        ex = self.ex
        v = lv.get(ex) if isinstance(lv, LV) and not isinstance(lv, LObj) else (lv.ref if isinstance(lv, LObj) else lv)
        if isinstance(v, LockVal): return self.m_lock(LTmp(v, t), t, name, args, n)
        if name == "name" : return ex.fresh("tname", I)
        if name == "str": return ex.fresh("str", Str)
        if isinstance(v, IterVal) and name == "operator->": return PtrTo(self.iter_deref(v))
        for a in args: ex.ev(a)
        raise Unsupported("method %s of %r" % (name, t))

    # ---------------------------------------------------------------- operators
    def call_operator(self, name, n, args):
        ex = self.ex
        op = name[len("operator"):].strip()
        a0t = ex.T.of(args[0])
        if a0t.k == "ref": a0t = a0t.a[0]
        if ex.is_token(a0t) and op not in ("=", "()"):
            xs = [ex.ev(a) for a in args]; xs = [v.ref if isinstance(v, LObj) else v.get(ex) if isinstance(v, LV) else v for v in xs]
            if ex.spec is not None and hasattr(ex.spec, "on_token_op"): return ex.spec.on_token_op(ex, op, *xs)
            raise Unsupported("operator%s of %s" % (op, a0t.n))
        if op == "[]":
            lv = ex.ev(args[0])
            if not isinstance(lv, LV): lv = LTmp(lv, a0t)
            if lv.ty.k == "map": return self.map_index(lv, ex.val(args[1]))
            i = ex.num(ex.val(args[1])); v = lv.get(ex)
            ex.prove("index in range", z3.And(i >= 0, i < v.len()))
            return self.elem_lv(lv, z3.simplify(v.lo + i))
        if op == "=":
            lv = ex.ev(args[0]); 
            r = ex.ev(args[1])
            if a0t.k == "status":
                v = r.get(ex) if isinstance(r, LV) else r
                o = lv.get(ex)
                # CStatus::operator= keeps code and message when the codes are equal (contract of C26)
                lv.set(ex, CV(a0t, {".code": v.code, ".info": z3.If(o.code == v.code, o.info, v.info)})); return lv
            if a0t.k in ("int", "bool", "ptr") and isinstance(lv, LV) and self.is_atomic(args[0]):
                v = ex.coerce(r, lv.ty); self.atomic(lv, "store", lambda o: v); return lv
            moved = isinstance(r, LV) and a0t.k in ("uptr",)
            v = r.get(ex) if isinstance(r, LV) and not isinstance(r, (LMutex, LObj)) else (r.ref if isinstance(r, LObj) else r)
            if a0t.k in ("fn", "ptask", "thread"): v = ex.fnval(v) if not z3.is_expr(v) else v
            if isinstance(v, CV) and v.ty != lv.ty and v.ty.k == lv.ty.k: v = CV(lv.ty, v.c)
            if isinstance(v, CV) and v.ty.k == "vec" and lv.ty.k == "set":
                raise Unsupported("set = initializer list")
            if isinstance(v, list):
                r2 = ex.default_value(lv.ty)
                for x in v: r2 = self.uniq_insert(r2, x) if lv.ty.k == "set" else self.seq_push(r2, x)
                v = r2
            lv.set(ex, v)
            if moved and isinstance(r, (LVar, LField)): r.set(ex, z3.IntVal(0))
            return lv
        if a0t.k == "status" or (len(args) > 1 and ex.T.of(args[1]).k == "status"):
            if op == "+=":
                lv = ex.ev(args[0]); v = ex.val(args[1]); o = lv.get(ex)
                keep = z3.Or(o.code < 0, v.code >= 0)
                # CStatus::operator+=: the first error wins (contract of C26)
                lv.set(ex, CV(a0t, {".code": z3.If(keep, o.code, v.code), ".info": z3.If(keep, o.info, v.info)})); return lv
            raise Unsupported("status operator " + op)
        if op in ("+", "+=") and (a0t.k in ("str", "ptr", "int") or a0t.k == "opaque"):
            x = ex.val(args[0])
            if isinstance(x, IterVal): return IterVal(x.lv, x.pos + ex.num(ex.val(args[1])), x.rev)
            y = ex.val(args[1])
            if z3.is_expr(x) and x.sort() == Str or z3.is_expr(y) and y.sort() == Str or a0t.k == "str":
                if op == "+=":
                    lv = ex.ev(args[0]); lv.set(ex, ex.fresh("cat", Str)); return lv
                return LTmp(self.str_concat(x, y), STR)
            if z3.is_expr(x) and z3.is_expr(y): return ex.num(x) + ex.num(y)
        if op in ("==", "!="):
            x, y = ex.val(args[0]), ex.val(args[1])
            if isinstance(x, IterVal) and isinstance(y, IterVal): return x.pos == y.pos if op == "==" else x.pos != y.pos
            if isinstance(x, (Closure, FnRef, Bind)): return z3.BoolVal(op == "!=")
            if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort(): return x == y if op == "==" else x != y
            if z3.is_expr(x) and x.sort() == Str: return z3.Function("str.eqc", Str, I, B)(x, y) if z3.is_expr(y) else ex.fresh("streq", B)
            raise Unsupported("comparison at " + ex.where())
        if op in ("<", ">", "<=", ">=") and a0t.k in ("int", "opaque"):
            x, y = ex.num(ex.val(args[0])), ex.num(ex.val(args[1]))
            return ex.binop(op, x, y, BOOL)
        if op in ("++", "--"):
            lv = ex.ev(args[0]); 
            if self.is_atomic(args[0]) and lv.ty.k == "int":
                old = self.atomic(lv, op, lambda o: ex.wrap(o + (1 if op == "++" else -1), lv.ty))
                return old if len(args) > 1 else ex.wrap(old + (1 if op == "++" else -1), lv.ty)
            old = lv.get(ex) if isinstance(lv, LV) else lv
            if isinstance(old, IterVal):
                new = IterVal(old.lv, z3.simplify(old.pos + (1 if op == "++" else -1)), old.rev); lv.set(ex, new)
                return old if len(args) > 1 else lv
            raise Unsupported("operator" + op)
        if op == "*":
            v = ex.val(args[0]); v = ex.unfn(v)
            if isinstance(v, IterVal): return self.iter_deref(v)
            if isinstance(v, PtrTo): return v.lv
            return ex.deref(v, a0t.a[0] if a0t.k == "uptr" else a0t)
        if op == "->":
            v = ex.val(args[0]); v = ex.unfn(v)
            if isinstance(v, IterVal): return PtrTo(self.iter_deref(v))
            if isinstance(v, PtrTo): return v
            return v
        if op == "()":
            f = ex.ev(args[0])
            return ex.call_value(f, [ex.ev(a) for a in args[1:]])
        if op == "-":
            x, y = ex.val(args[0]), ex.val(args[1])
            if isinstance(x, IterVal) and isinstance(y, IterVal): return x.pos - y.pos
            if isinstance(x, IterVal): return IterVal(x.lv, x.pos - ex.num(y), x.rev)
            return ex.num(x) - ex.num(y)
        if op == "<<":
            v = ex.ev(args[0]); ex.ev(args[1]); return v
        raise Unsupported("operator%s on %r" % (op, a0t))
    def is_atomic(self, n):
        t = n.get("type", {}); q = t.get("desugaredQualType", "") + t.get("qualType", "")
        return "atomic" in q


class LGlobal(LV):
    def __init__(self, name, ty): self.name = name; self.ty = ty
    def get(self, ex):
        k = ("global", self.name)
        if k not in ex.st.ghost: ex.st.ghost[k] = ex.fresh_value(self.ty, "g." + self.name)
        return ex.st.ghost[k]
    def set(self, ex, v): ex.st.ghost[("global", self.name)] = v; ex.note_write(("g", ("global", self.name)))


def LTmpget(ex, lv): return lv.get(ex) if isinstance(lv, LV) else lv

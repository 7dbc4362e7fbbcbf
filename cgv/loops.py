"""Loop cutting: the largest inductive subset of a candidate pool (Houdini) is the loop invariant.

Candidates come from the contract (spec.loop_invs, stated over abstract state, never over local names) and from a
generic pool.  Entry and preservation of every kept candidate are proof obligations; a candidate that is not inductive
is dropped, so a property that needed it fails later at the postcondition that needs it."""
import z3, time
from .types import *
from .core import *


class LoopView:
    """what a contract may look at when proposing invariants"""
    def __init__(self, ex, node, entry, rng, writes): self.ex = ex; self.node = node; self.entry = entry; self.rng = rng; self.writes = writes
    @property
    def k(self): return self.ex.st.vars[self.rng[0]]
    @property
    def seq(self): return self.rng[1].get(self.ex)
    def locals(self, pred, st=None):
        """live locals of the current frame (and enclosing closures) satisfying pred(type, name): list of values"""
        ex = self.ex; out = []
        vi = ex.st.ghost.get("vinfo", {})
        for (fid, vid), (name, ty) in vi.items():
            if (fid, vid) in self.entry.vars and (fid, vid) in ex.st.vars and pred(ty, name):
                out.append(((fid, vid), ty))
        return out
    def var(self, key, st=None): return (st or self.ex.st).vars[key]
    def value(self, key):
        v = self.ex.st.vars[key]
        return v.get(self.ex) if isinstance(v, LV) and not isinstance(v, LMutex) else v


def has_new(ex, a, b): pass


def run_loop(ex, node, cond, body, step, rng=None):
    key = ("loop", node["id"], ex.ctx.cid, tuple(ex.ctx.trace), len(ex.st.frames), ex.frame().fid)
    if ex.spec is not None: ex.spec.on_loop_entry(ex, node, rng)
    entry = ex.st.copy()
    if key in ex.loopcache:
        W, kept = ex.loopcache[key]
    else:
        W = discover(ex, node, cond, body, step, entry)
        # while the write set of an enclosing loop is discovered, only the write sets of inner loops matter
        kept = [] if ex.discovering else houdini(ex, node, cond, body, step, entry, rng, W)
        ex.loopcache[key] = (W, kept)
    havoc(ex, entry, W)
    L = LoopView(ex, node, entry, rng, W)
    for name, f in kept:
        x = safe(lambda: f(L))
        if x is not None: ex.assume(x)
    if ex.spec is not None: ex.spec.on_loop_head(ex, L)
    mark = len(ex.frame().cleanup)
    if ex.branch(cond()):
        try:
            try: ex.exec_guard(body, mark)
            except CxxContinue: pass
            step()
        except CxxBreak:
            return
        if ex.spec is not None: ex.spec.on_loop_back(ex, L)
        raise PathEnd("loop back edge")


def changes(n):
    """syntactically assigns something"""
    return (n.kind == "UnaryOperator" and n.get("opcode") in ("++", "--")) or n.kind == "CompoundAssignOperator" or (n.kind == "BinaryOperator" and n.get("opcode") == "=") or any(changes(c) for c in n.inner if c is not None and c.kind)


def safe(f):
    try: return f()
    except (KeyError, AttributeError): return None


def existing(entry, w):
    if w[0] == "v": return (w[1], w[2]) in entry.vars
    return True


def havoc(ex, entry, W):
    done = set()
    for w in sorted(W, key=str):
        if w[0] == "v":
            k = (w[1], w[2]); v = ex.st.vars.get(k)
            if v is None: continue
            ex.st.vars[k] = havoc_val(ex, v, k)
            ex.note_write(w)
        elif w[0] == "h":
            if (w[1], w[2]) in done: continue
            done.add((w[1], w[2]))
            havoc_heap(ex, w[1], w[2], W)
        elif w[0] == "g":
            if w[1] == "alive": ex.st.ghost["alive"] = ex.fresh("alive", z3.ArraySort(I, B))
            elif isinstance(w[1], tuple) and w[1] in ex.st.ghost:
                g = ex.st.ghost[w[1]]; ex.st.ghost[w[1]] = havoc_val(ex, g, w[1])
            elif w[1] in ex.st.ghost and z3.is_expr(ex.st.ghost[w[1]]):
                ex.st.ghost[w[1]] = ex.fresh("g." + str(w[1]), ex.st.ghost[w[1]].sort())
            ex.note_write(w)


def havoc_heap(ex, cls, name, W):
    if cls == "array":
        t = name; k = next(k for k in ex.st.heap if k[0] == cls and k[1] == name and k[2].startswith(".d"))
        for (c, n, p) in [k for k in ex.st.heap if k[0] == cls and k[1] == name]:
            # a block's length never changes
            if p.startswith(".d"): ex.st.heap[(c, n, p)] = ex.fresh("H.array%s" % p, ex.st.heap[(c, n, p)].sort()); ex.note_write(("h", c, n, p))
        return
    if cls == "deref":
        for (c, n, p) in [k for k in ex.st.heap if k[0] == cls and k[1] == name]:
            ex.st.heap[(c, n, p)] = ex.fresh("H.%s" % n, ex.st.heap[(c, n, p)].sort()); ex.note_write(("h", c, n, p))
        return
    ex.havoc_key(cls, name)


def havoc_val(ex, v, k):
    if isinstance(v, CV):
        r = CV(v.ty, {p: ex.fresh("L" + p, x.sort()) for p, x in v.c.items()}); ex.assume_wf(r); return r
    if isinstance(v, IterVal): return IterVal(v.lv, ex.fresh("L.it", I), v.rev)
    if z3.is_expr(v):
        r = ex.fresh("L.v", v.sort())
        vi = ex.st.ghost.get("vinfo", {}).get(k)
        if vi is not None: ex.assume_range(r, vi[1])
        return r
    if isinstance(v, LV): return v
    if isinstance(v, LockVal): return v
    raise Unsupported("loop modifies a value of kind %s" % type(v).__name__)


def one_iteration(ex, cond, body, step, entry, W, kept, rng, node, end, quiet=True):
    def run(e):
        havoc(e, entry, W)
        L = LoopView(e, node, entry, rng, W)
        for name, f in kept:
            x = safe(lambda: f(L))
            if x is not None: e.assume(x)
        if e.spec is not None: e.spec.on_loop_head(e, L)
        mark = len(e.frame().cleanup)
        held0 = dict(e.st.held)
        try:
            if not e.branch(cond()): return
            try: e.exec_guard(body, mark)
            except CxxContinue: pass
            step()
        except (CxxBreak, CxxReturn, CxxThrow): return
        if e.spec is not None: e.spec.on_loop_back(e, L)
        if end is not None: end(e, L)
    frames = list(ex.st.frames)
    marks = [(f, len(f.cleanup)) for f in frames]
    depth = ex.depth
    try: return ex.explore(run, entry, quiet=quiet)
    finally:
        ex.depth = depth
        for f, m in marks: del f.cleanup[m:]


def discover(ex, node, cond, body, step, entry):
    W = set()
    for _ in range(8):
        rec = set(); ex.recorders.append(rec)
        ex.discovering += 1
        try: one_iteration(ex, cond, body, step, entry, W, [], None, node, None)
        finally: ex.recorders.pop(); ex.discovering -= 1
        new = {w for w in rec if existing(entry, w)} - W
        if not new: return W
        W |= new
    raise Unsupported("write set of loop does not stabilise")


def generic(ex, node, entry, rng, W):
    out = []
    if rng is not None:
        def bounds(L):
            s = L.seq
            return z3.And(s.lo <= L.k, L.k <= s.hi)
        out.append(("iteration index within the container", bounds))
    vi = ex.st.ghost.get("vinfo", {})
    # bounds of integer locals, from the loop condition and from entry
    for w in sorted(W, key=str):
        if w[0] != "v": continue
        k = (w[1], w[2]); v = entry.vars.get(k)
        if z3.is_expr(v) and v.sort() == I:
            out.append(("local not below its entry value", lambda L, k=k, v=v: L.ex.st.vars[k] >= v))
            out.append(("local not above its entry value", lambda L, k=k, v=v: L.ex.st.vars[k] <= v))
        if z3.is_expr(v) and v.sort() == B:
            out.append(("flag keeps its entry value", lambda L, k=k, v=v: L.ex.st.vars[k] == v))
        if isinstance(v, CV) and v.ty.k == "status":
            out.append(("no error so far", lambda L, k=k: L.ex.st.vars[k].code >= 0))
            out.append(("status is success so far", lambda L, k=k: L.ex.st.vars[k].code == 0))
        if isinstance(v, IterVal):
            def itb(L, k=k):
                it = L.ex.st.vars[k]; s = it.lv.get(L.ex); return z3.And(s.lo <= it.pos, it.pos <= s.hi)
            out.append(("iterator within the container", itb))
    # retry loops: as long as the pointer is still null, nothing else has changed
    lv = [((w[1], w[2]), entry.vars.get((w[1], w[2]))) for w in sorted(W, key=str) if w[0] == "v"]
    ptrs = [(k, v) for k, v in lv if z3.is_expr(v) and v.sort() == I and k in vi and vi[k][1].k in ("ptr", "uptr")]
    for pk, pv in ptrs:
        for k, v in lv:
            if k != pk and z3.is_expr(v) and v.sort() == I: out.append(("pointer set or local at its entry value", lambda L, pk=pk, k=k, v=v: z3.Or(L.ex.st.vars[pk] != 0, L.ex.st.vars[k] == v)))
    c = node.inner[2] if node.kind == "ForStmt" else (node.inner[-2] if node.kind == "WhileStmt" else None)
    def cmps(n):
        if n is None or not n.kind: return
        while n.kind in ("ParenExpr", "ExprWithCleanups", "ImplicitCastExpr"): n = n.inner[0]
        if n.kind == "BinaryOperator" and n.get("opcode") == "&&":
            for x in n.inner: yield from cmps(x)
        if n.kind == "BinaryOperator" and n.get("opcode") in ("<", "!=", ">") and not changes(n): yield n
    for n in cmps(c):
        def le(L, n=n):
            e = L.ex; e.quiet += 1
            tr = list(e.ctx.trace); 
            try:
                a, b = e.num(e.val(n.inner[0])), e.num(e.val(n.inner[1]))
                if not (z3.is_expr(a) and z3.is_expr(b)) or e.ctx.trace != tr: return None
                return a <= b if n["opcode"] in ("<", "!=") else b <= a
            except Unsupported: return None
            finally: e.quiet -= 1
        out.append(("loop counter within the loop bound", le))
    # frames: heap component changed only at elements already visited / only at elements of the container
    for w in sorted((w for w in W if w[0] == "h"), key=str):
        _, cls, name, path = w
        if cls in ("deref", "array") or (ex.spec is not None and ex.spec.shared(cls, name)): continue
        h0 = entry.heap.get((cls, name, path))
        if h0 is None: h0 = ex.initheap.get((cls, name, path))
        if h0 is None: continue
        r = z3.Int("r!f")
        def cur(L, cls=cls, name=name, path=path): return L.ex.st.heap[(cls, name, path)]
        out.append(("%s.%s unchanged" % (cls, name + path), lambda L, h0=h0, cur=cur: z3.ForAll([r], cur(L)[r] == h0[r], patterns=[cur(L)[r]])))
        this = ex.frame().this
        if this is not None:
            out.append(("%s.%s unchanged except at this" % (cls, name + path), lambda L, h0=h0, cur=cur, this=this: z3.ForAll([r], z3.Or(r == this, cur(L)[r] == h0[r]), patterns=[cur(L)[r]])))
        if rng is not None:
            s0 = None
            try: s0 = rng[1].get(ex)
            except Unsupported: pass
            if s0 is not None and s0.ty.k in UNIQ and s0.ty.a[0].k in ("ptr", "uptr"):
                def visited(L, h0=h0, cur=cur):
                    s = L.seq
                    return z3.ForAll([r], z3.Or(z3.And(s.m[r], s.pos[r] < L.k), cur(L)[r] == h0[r]), patterns=[cur(L)[r]])
                out.append(("%s.%s changed only at visited elements" % (cls, name + path), visited))
            elif s0 is not None and s0.ty.k in ("vec", "deque") and s0.ty.a[0].k in ("ptr", "uptr"):
                j = z3.Int("j!f")
                def visited2(L, h0=h0, cur=cur):
                    s = L.seq
                    return z3.ForAll([r], z3.Implies(z3.ForAll([j], z3.Implies(z3.And(s.lo <= j, j < L.k), s.d[j] != r)), cur(L)[r] == h0[r]), patterns=[cur(L)[r]])
                out.append(("%s.%s changed only at visited elements" % (cls, name + path), visited2))
                def unvisited(L, h0=h0, cur=cur):
                    s = L.seq
                    return z3.ForAll([j], z3.Implies(z3.And(L.k <= j, j < s.hi), cur(L)[s.d[j]] == h0[s.d[j]]), patterns=[s.d[j]])
                out.append(("%s.%s unchanged at elements still to visit" % (cls, name + path), unvisited))
    if ("g", "alive") in W:
        r = z3.Int("r!f"); a0 = entry.ghost.get("alive", z3.Const("alive0", z3.ArraySort(I, B)))
        out.append(("objects alive before the loop stay alive", lambda L: z3.ForAll([r], z3.Implies(a0[r], L.ex.st.ghost["alive"][r]), patterns=[L.ex.st.ghost["alive"][r]])))
    return out


def houdini(ex, node, cond, body, step, entry, rng, W):
    cands = generic(ex, node, entry, rng, W)
    L = LoopView(ex, node, entry, rng, W)
    own = list(ex.spec.loop_invs(L) or []) if ex.spec is not None else []; ours = len(own); cands = own + cands
    # while the invariants of an enclosing loop are refined they only get weaker: what was dropped here stays dropped
    memo = ex.dropmemo.setdefault((node["id"], tuple(ex.ctx.trace), ex.frame().fid, frozenset(W), len(cands)), set())
    cands = [(name, f, i) for i, (name, f) in enumerate(cands) if i not in memo]; idx = {}
    # entry
    kept = []
    for name, f, i in cands:
        idx[id(f)] = i
        x = safe(lambda: f(L))
        if x is None: continue
        r, why = ex.solver.valid(ex.st.pc + ex.init_axioms, x, ex.spec.loop_ms, i < ours)
        if r == "proved": kept.append((name, f))
        else: memo.add(i); ex.dropped.append((node["id"], name, "entry", r))
    # preservation
    while True:
        failed = set()
        def end(e, L2):
            for i, (name, f) in enumerate(kept):
                if i in failed: continue
                x = safe(lambda: f(L2))
                if x is None: failed.add(i); continue
                # a path decided on an earlier run may revisit; every completed path checks all candidates
                r, why = e.solver.valid(e.st.pc + e.init_axioms, x, e.spec.loop_ms, idx[id(f)] < ours)
                if r != "proved":
                    failed.add(i); e.dropped.append((node["id"], name, "preservation", r))
        one_iteration(ex, cond, body, step, entry, W, kept, rng, node, end)
        if not failed: break
        memo |= {idx[id(kept[i][1])] for i in failed}
        kept = [c for i, c in enumerate(kept) if i not in failed]
    if not ex.quiet:
        ex.loop_obls.append((ex.where(), [n for n, _ in kept]))
    return kept

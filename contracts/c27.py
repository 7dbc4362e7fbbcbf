"""C27: USmallVector and USerialUniqueArray (real members, raw array memory)."""
from cgv.spec import *
from cgv.types import *
from cgv.core import *

Q = "CGraph::USmallVector<>::"
DATA, CUR, CAP = "USmallVector.data_", "USmallVector.cur_index_", "USmallVector.capacity_"
ET = Ty("ptr", [Ty("cls", n="CGraph::GElement")]); AT = Ty("vec", [ET])
i_, j_, r_ = z3.Int("qi"), z3.Int("qj"), z3.Int("qr")


class V(Contract):
    raw = ("uvec",); check_bounds = True
    frame_ignore = ()
    def arr(self, ex, st=None):
        """array contents as a function of the block"""
        h = (st or ex.st).heap
        ex.ensure_base("array", repr(ET), AT)
        g = lambda p: h.get(("array", repr(ET), p), ex.initheap[("array", repr(ET), p)])
        return g(".d"), g(".hi")
    def el(self, c, st=None):
        d, _ = self.arr(c.ex, st); return d[c(DATA, st=st)]
    def wf(self, c, st=None):
        ex = c.ex; d, hi = self.arr(ex, st); data, cur, cap = c(DATA, st=st), c(CUR, st=st), c(CAP, st=st)
        return [("the elements fit the allocated block", And(cur <= cap, cap >= 0, cur >= 0, Implies(data == 0, cap == 0), Implies(data != 0, hi[data] == cap))),
                ("the block is alive", Implies(data != 0, ex.alive(data, st)))]
    def distinct(self, c, st=None):
        a = self.el(c, st); n = c(CUR, st=st)
        return ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < n), a[i_] != a[j_]), patterns=[z3.MultiPattern(a[i_], a[j_])])
    def contains(self, c, v, st=None, n=None):
        a = self.el(c, st); n = c(CUR, st=st) if n is None else n
        return Exists([i_], And(0 <= i_, i_ < n, a[i_] == v))
    def requires(self, c): return self.wf(c)
    def others(self, c):
        d0, h0 = self.arr(c.ex, c.old_st); d1, h1 = self.arr(c.ex); x = c.o(DATA)
        return [("no other vector's memory changes", ForAll([r_], Implies(And(r_ != x, c.ex.alive(r_, c.old_st)), And(d1[r_] == d0[r_], h1[r_] == h0[r_])), patterns=[d1[r_]]))]
    def noelse(self, c):
        """nothing changes at all"""
        a0, a1 = self.el(c, c.old_st), self.el(c)
        return [("contents unchanged", And(c(CUR) == c.o(CUR), ForAll([i_], Implies(And(0 <= i_, i_ < c.o(CUR)), a1[i_] == a0[i_]), patterns=[a1[i_]])))]
    def ints(self, L): return [k for k, t in L.locals(lambda t, n: t.k == "int")]
MODS = ((DATA, lambda c: [c.this]), (CUR, lambda c: [c.this]), (CAP, lambda c: [c.this]))
class Mut(V):
    modifies = MODS
    frame_ignore = ("array",)


class Insert(Mut):
    fn = Q + "insert"
    def requires(self, c): return self.wf(c) + [("elements are distinct", self.distinct(c)), ("address space not exhausted", c(CAP) <= 2**40)]
    def ensures(self, c):
        v = self.v0; u = c.a(1); n0, n1 = c.o(CUR), c(CUR); a0, a1 = self.el(c, c.old_st), self.el(c)
        had = self.contains(c, v, c.old_st)
        return self.wf(c) + [("a value already present is not added again", Implies(And(u, had), n1 == n0)),
                ("a new value is appended at the end", Implies(Not(And(u, had)), And(n1 == n0 + 1, a1[n0] == v))),
                ("the other elements keep their values and order", ForAll([i_], Implies(And(0 <= i_, i_ < n0), a1[i_] == a0[i_]), patterns=[a1[i_]])),
                ("elements stay distinct", Implies(u, self.distinct(c)))] + self.others(c)
    def prologue(self, c): self.v0 = c.arg_now(0)
    def covers(self, c): return [("grows", c(CAP) != c.o(CAP)), ("appended without growing", And(c(CAP) == c.o(CAP), c(CUR) == c.o(CUR) + 1)), ("already there", c(CUR) == c.o(CUR))]
class Remove(Mut):
    fn = Q + "remove"
    def requires(self, c): return self.wf(c) + [("elements are distinct", self.distinct(c))]
    def prologue(self, c): self.v0 = c.arg_now(0)
    def ensures(self, c):
        v = self.v0; n0, n1 = c.o(CUR), c(CUR); a0, a1 = self.el(c, c.old_st), self.el(c)
        had = self.contains(c, v, c.old_st)
        return self.wf(c) + [("reports whether the value was present", c.ret == had), ("the value is gone", Not(self.contains(c, v))),
                ("exactly one element less if it was present", n1 == If(had, n0 - 1, n0)),
                ("elements before the removed one stay, those behind move up by one", ForAll([i_], Implies(And(0 <= i_, i_ < n0, Implies(had, True)), Implies(a0[i_] != v, Or(And(a1[i_] == a0[i_], ForAll([j_], Implies(And(0 <= j_, j_ <= i_), a0[j_] != v))), And(a1[i_ - 1] == a0[i_], Exists([j_], And(0 <= j_, j_ < i_, a0[j_] == v)))))))),
                ("elements stay distinct", self.distinct(c))] + self.others(c)
    def covers(self, c): return [("removed", c.ret), ("absent", Not(c.ret))]
    def loop_invs(self, L):
        ex = L.ex; c = self.c; out = []; ks = self.ints(L); e = L.entry
        a0 = self.el(c, c.old_st)
        def A(): return self.el(c)
        out.append(("vector intact", lambda L: And(*[f for _, f in self.wf(c)])))
        for k in ks:
            out.append(("values before the index differ from the searched one", lambda L, k=k: ForAll([i_], Implies(And(0 <= i_, i_ < L.value(k)), a0[i_] != self.v0), patterns=[a0[i_]])))
            out.append(("values before the index keep their place", lambda L, k=k: ForAll([i_], Implies(And(0 <= i_, i_ < L.value(k)), A()[i_] == a0[i_]), patterns=[A()[i_]])))
            out.append(("values from the index on keep their place", lambda L, k=k: ForAll([i_], Implies(And(L.value(k) <= i_, i_ < c.o(CUR)), A()[i_] == a0[i_]), patterns=[A()[i_]])))
            for k2 in ks:
                if k != k2: out.append(("values between the indices moved up by one", lambda L, k=k, k2=k2: And(L.value(k) <= L.value(k2), ForAll([i_], Implies(And(L.value(k) <= i_, i_ < L.value(k2)), A()[i_] == a0[i_ + 1]), patterns=[A()[i_]]))))
        out.append(("nothing changed yet", lambda L: A() == a0))
        d0, h0 = self.arr(ex, c.old_st)
        out.append(("other memory unchanged", lambda L: ForAll([r_], Implies(r_ != c.o(DATA), self.arr(ex)[0][r_] == d0[r_]), patterns=[self.arr(ex)[0][r_]])))
        return out
class HasValue(V):
    fn = Q + "hasValue"
    def ensures(self, c): return [("membership is reported exactly", c.ret == self.contains(c, c.arg_now(0) if not getattr(c, "call", False) else c.a(0)))]
    def loop_invs(self, L):
        c = self.c; out = []
        for k in self.ints(L):
            out.append(("values before the index differ from the searched one", lambda L, k=k: ForAll([i_], Implies(And(0 <= i_, i_ < L.value(k)), self.el(c)[i_] != c.arg_now(0)), patterns=[self.el(c)[i_]])))
        for k, t in L.locals(lambda t, n: t.k == "bool"): out.append(("not found so far", lambda L, k=k: Not(L.value(k))))
        return out
class Size(V):
    fn = Q + "size"
    def ensures(self, c): return [("the number of elements", c.ret == c(CUR))]
class Empty(V):
    fn = Q + "empty"
    def ensures(self, c): return [("no element", c.ret == (c(CUR) == 0))]
class Clear(Mut):
    fn = Q + "clear"
    def ensures(self, c): return self.wf(c) + [("no element left", c(CUR) == 0)] + self.others(c)
class Front(V):
    fn = Q + "front"
    def requires(self, c): return self.wf(c) + [("not empty", c(CUR) > 0)]
    def ensures(self, c): return [("the first element", c.ret == self.el(c)[0])]
class Back(V):
    fn = Q + "back"
    def requires(self, c): return self.wf(c) + [("not empty", c(CUR) > 0)]
    def ensures(self, c): return [("the last element", c.ret == self.el(c)[c(CUR) - 1])]
class Ctor(Mut):
    fn = Q + "USmallVector"; nparams = 0
    def requires(self, c): return []
    def ensures(self, c): return [("an empty vector without memory", And(c(CUR) == 0, c(CAP) == 0, c(DATA) == 0))]


SET, ARR = "USerialUniqueArray.inner_set_", "USerialUniqueArray.inner_array_"
x_ = z3.Const("qx", Str); k_ = z3.Int("qk")
U = "CGraph::USerialUniqueArray<>::"
class UA(Contract):
    raw = ("uvec",)
    def inv(self, c):
        s, a = c(SET), c(ARR)
        return [("the set holds exactly the listed values", And(ForAll([i_], Implies(And(0 <= i_, i_ < a.hi), s.m[a.d[i_]]), patterns=[a.d[i_]]),
                                                            ForAll([x_], Implies(s.m[x_], Exists([i_], And(0 <= i_, i_ < a.hi, a.d[i_] == x_))), patterns=[s.m[x_]]))),
                ("no value is listed twice", ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < a.hi), a.d[i_] != a.d[j_]), patterns=[z3.MultiPattern(a.d[i_], a.d[j_])]))]
    def requires(self, c): return self.inv(c)
    def ensures(self, c): return self.inv(c) + self.post(c)
    modifies = ((SET, lambda c: [c.this]), (ARR, lambda c: [c.this]))
class UAdd(UA):
    fn = U + "uniqueAdd"
    def prologue(self, c): self.v0 = c.arg_now(0)
    def post(self, c):
        a0, a1, v = c.o(ARR), c(ARR), self.v0; had = c.o(SET).m[v]
        return [("a present value changes nothing", Implies(had, a1.hi == a0.hi)), ("a new value is appended", Implies(Not(had), And(a1.hi == a0.hi + 1, a1.d[a0.hi] == v))),
                ("the others keep value and order", ForAll([i_], Implies(And(0 <= i_, i_ < a0.hi), a1.d[i_] == a0.d[i_]), patterns=[a1.d[i_]]))]
    def covers(self, c): return [("added", c(ARR).hi != c.o(ARR).hi), ("present", c(ARR).hi == c.o(ARR).hi)]
class UGet(UA):
    fn = U + "getUniqueArray"
    modifies = ()
    def prologue(self, c): self.v0 = c.arg_now(0)
    def post(self, c):
        a, o0, o1 = c(ARR), self.v0, c.arg_now(0)
        return [("appends every value in insertion order", And(o1.hi == o0.hi + a.hi, ForAll([i_], Implies(And(0 <= i_, i_ < a.hi), o1.d[o0.hi + i_] == a.d[i_]), patterns=[a.d[i_]]))),
                ("keeps what the caller's array held", ForAll([i_], Implies(And(0 <= i_, i_ < o0.hi), o1.d[i_] == o0.d[i_]), patterns=[o1.d[i_]]))]
    def loop_invs(self, L):
        c = self.c
        if L.rng is None: return []
        return [("visited values appended", lambda L: And(c.arg_now(0).hi == self.v0.hi + L.k, ForAll([i_], Implies(And(0 <= i_, i_ < L.k), c.arg_now(0).d[self.v0.hi + i_] == L.seq.d[i_]), patterns=[L.seq.d[i_]]))),
                ("old values kept", lambda L: ForAll([i_], Implies(And(0 <= i_, i_ < self.v0.hi), c.arg_now(0).d[i_] == self.v0.d[i_]), patterns=[c.arg_now(0).d[i_]]))]
class UClear(UA):
    fn = U + "clear"
    def post(self, c): return [("nothing left", And(c(ARR).hi == 0))]


CONTRACTS = [UAdd(), UGet(), UClear(), Insert(), Remove(), HasValue(), Size(), Empty(), Clear(), Front(), Back(), Ctor()]
VERIFY = CONTRACTS
DRIVERS = ["c27"]
DRIVER_SECONDS = 5
NOTE = "USmallVector members are proved memory-safe and to implement an insertion-ordered set over raw array memory, for every content and size; trusted: operator new[]/delete[], std::move over ranges; the iterator class is only exercised by the replay driver."

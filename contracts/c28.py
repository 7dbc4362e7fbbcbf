"""C28: ULru (real members; std::list with node identity, std::unordered_map)."""
from cgv.spec import *
from cgv.types import *

Q = "CGraph::ULru<>::"
SZ, CAP, CACHE, NODES = "ULru.cur_size_", "ULru.capacity_", "ULru.cache_", "ULru.nodes_"
KEY, VAL = "ULruNode.key_", "ULruNode.value_"
k_, n_, x_ = z3.Int("qk"), z3.Int("qn"), z3.Int("qx")


class L(Contract):
    raw = ("listnodes",)
    def inv(self, c, st=None):
        ex = c.ex; ca, no = c(CACHE, st=st), c(NODES, st=st); key = ex.rd(KEY, n_, st)
        node = ca.c[".v"]
        return [("listed nodes exist", ForAll([n_], Implies(no.m[n_], ex.alive(n_, st)), patterns=[no.m[n_]])), ("every key leads to a listed node", ForAll([k_], Implies(ca.m[k_], no.m[node[k_]]), patterns=[ca.m[k_]])),
                ("every key leads to the node of that key", ForAll([k_], Implies(ca.m[k_], ex.rd(KEY, node[k_], st) == k_), patterns=[ca.m[k_]])),
                ("every node is found under its key", ForAll([n_], Implies(no.m[n_], And(ca.m[key], node[key] == n_)), patterns=[no.m[n_]])),
                ("the recorded size is the number of entries", And(c(SZ, st=st) == ca.hi, ca.hi == no.hi)),
                ("never more entries than the capacity", And(c(SZ, st=st) <= c(CAP, st=st))), ("the capacity is positive", c(CAP, st=st) >= 1)]
    def requires(self, c): return self.inv(c)
    modifies = ((SZ, lambda c: [c.this]), (CACHE, lambda c: [c.this]), (NODES, lambda c: [c.this]), KEY, VAL)
    def ensures(self, c): return self.inv(c) + self.post(c)
    def post(self, c): return []
    def view(self, c, st=None):
        """key -> (present, value, recency: smaller is more recent)"""
        ex = c.ex; ca, no = c(CACHE, st=st), c(NODES, st=st); node = ca.c[".v"]
        return (lambda k: ca.m[k]), (lambda k: ex.rd(VAL, node[k], st)), (lambda k: no.c[".rank"][node[k]]), ca.m
    def stored(self, c, key, value):
        """after storing (key, value): most recent, all others as before, except the least recent one when the cache was full"""
        p0, v0, r0, m0 = self.view(c, c.old_st); p1, v1, r1, m1 = self.view(c)
        full = And(Not(p0(key)), c.o(SZ) >= c.o(CAP))
        return [("the stored entry is present with its value", And(p1(key), v1(key) == value)),
                ("the stored entry is the most recent one", ForAll([k_], Implies(And(p1(k_), k_ != key), r1(key) < r1(k_)), patterns=[m1[k_]])),
                ("no other entry appears, the remaining keep value and age", ForAll([k_], Implies(And(p1(k_), k_ != key), And(p0(k_), v1(k_) == v0(k_), r1(k_) == r0(k_))), patterns=[m1[k_]])),
                ("nothing is evicted while there is room", Implies(Not(full), ForAll([k_], Implies(p0(k_), p1(k_)), patterns=[m0[k_]]))),
                ("only the least recently used entry is evicted", Implies(full, ForAll([k_], Implies(And(p0(k_), Not(p1(k_))), ForAll([x_], Implies(p0(x_), r0(x_) <= r0(k_)), patterns=[m0[x_]])), patterns=[m0[k_]]))),
                ("at most one entry is evicted", ForAll([k_, x_], Implies(And(p0(k_), Not(p1(k_)), p0(x_), Not(p1(x_))), k_ == x_), patterns=[z3.MultiPattern(m0[k_], m0[x_])]))]


class Put(L):
    fn = Q + "put"
    def prologue(self, c): self.k0, self.v0 = c.arg_now(0), c.arg_now(1)
    def post(self, c):
        k, v = (c.a(0), c.a(1)) if getattr(c, "call", False) else (self.k0, self.v0)
        return self.stored(c, k, v)
    def covers(self, c): return [("evicted", And(c(SZ) == c.o(SZ), Not(c.o(CACHE).m[self.k0]))), ("overwritten", c.o(CACHE).m[self.k0]), ("added", c(SZ) == c.o(SZ) + 1)]
class Get(L):
    fn = Q + "get"
    out_args = (1,)
    def prologue(self, c): self.k0, self.v0 = c.arg_now(0), c.arg_now(1)
    def post(self, c):
        p0, v0, r0, m0 = self.view(c, c.old_st); k = self.k0
        same = [(n, Implies(c.ret, f)) for n, f in self.stored(c, k, v0(k))]
        return same + [("found exactly when the key is cached", c.ret == p0(k)), ("yields the value last stored under the key", Implies(c.ret, c.arg_now(1) == v0(k))),
                       ("a miss changes nothing", Implies(Not(c.ret), And(c.arg_now(1) == self.v0, c(SZ) == c.o(SZ), c(CACHE).m == m0, c(CACHE).c[".v"] == c.o(CACHE).c[".v"], c(NODES).m == c.o(NODES).m)))]
    def covers(self, c): return [("hit", c.ret), ("miss", Not(c.ret))]
class Clear(L):
    fn = Q + "clear"
    def post(self, c): return [("no entry left", And(c(SZ) == 0, ForAll([k_], Not(c(CACHE).m[k_]))))]
class Capacity(L):
    fn = Q + "getCapacity"
    modifies = ()
    def post(self, c): return [("the configured capacity", c.ret == c.o(CAP))]
class Ctor(L):
    fn = Q + "ULru"; nparams = 0
    modifies = L.modifies + ((CAP, lambda c: [c.this]),)
    def requires(self, c): return []
    def post(self, c): return [("starts empty", c(SZ) == 0)]


CONTRACTS = [Put(), Get(), Clear(), Capacity(), Ctor()]
VERIFY = CONTRACTS
DRIVERS = ["c28"]
DRIVER_SECONDS = 4
NOTE = "Every ULru member is proved for every content, key and capacity (instance int -> std::string; keys and values are only compared/copied); trusted: std::list node stability, std::unordered_map, finite cardinality of the list."

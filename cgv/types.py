"""C++ type strings -> verifier types, and the z3 shape each type is stored with."""
import re, z3

Str = z3.DeclareSort("Str")
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Ty:
    __slots__ = ("k", "a", "n")
    def __init__(self, k, a=(), n=None): self.k = k; self.a = tuple(a); self.n = n
    def __eq__(self, o): return isinstance(o, Ty) and (self.k, self.a, self.n) == (o.k, o.a, o.n)
    def __hash__(self): return hash((self.k, self.a, self.n))
    def __repr__(self): return self.k + ("(" + self.n + ")" if self.n else "") + ("<" + ",".join(map(repr, self.a)) + ">" if self.a else "")


INTS = {"char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1),
        "int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1),
        "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1), "size_t": (0, 2**64 - 1), "std::size_t": (0, 2**64 - 1),
        "int64_t": (-2**63, 2**63 - 1), "ptrdiff_t": (-2**63, 2**63 - 1), "difference_type": (-2**63, 2**63 - 1),
        "size_type": (0, 2**64 - 1), "unsigned": (0, 2**32 - 1), "__int64_t": (-2**63, 2**63 - 1),
        "rep": (-2**63, 2**63 - 1), "uint64_t": (0, 2**64 - 1), "__time_t": (-2**63, 2**63 - 1)}
VOID, BOOL, INT, STR = Ty("void"), Ty("bool"), Ty("int", n="int"), Ty("str")
ULONG = Ty("int", n="unsigned long")
STATUS = Ty("status")


def split_args(s):
    out, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<(": d += 1
        elif c in ">)" and not (c == ">" and i and s[i - 1] == "-"): d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out


class Types:
    def __init__(self, prog, raw=()): self.p = prog; self.cache = {}; self.raw = set(raw)
    def of(self, node): return self.parse(self.p.ty(node))
    def parse(self, t):
        if t in self.cache: return self.cache[t]
        r = self._parse(t.strip())
        self.cache[t] = r
        return r
    def _parse(self, t):
        if t.startswith("const "): return self.parse(t[6:])
        if t.endswith(" const"): return self.parse(t[:-6])
        if t.endswith("const") and t[:-5].rstrip().endswith("*"): return self.parse(t[:-5])
        if t.endswith("&&"): return Ty("ref", [self.parse(t[:-2].rstrip())])
        if t.endswith("&"): return Ty("ref", [self.parse(t[:-1].rstrip())])
        if t.endswith("*"): return Ty("ptr", [self.parse(t[:-1].rstrip())])
        if t in ("void",): return VOID
        if t in ("bool", "_Bool"): return BOOL
        if t in INTS: return Ty("int", n=t)
        if t in ("float", "double", "long double"): return Ty("real")
        if t in ("std::nullptr_t", "nullptr_t"): return Ty("ptr", [VOID])
        if t in ("std::string", "string", "std::basic_string<char>", "basic_string<char>") or t.startswith("std::basic_string<char,"): return STR
        if t in ("CGraph::internal::CSTATUS", "CSTATUS") and "status" not in self.raw: return STATUS
        for o in self.raw:
            if o.startswith("token:") and t == o[6:]: return Ty("opaque", n=t)
        m = re.match(r"^(?:std::|__gnu_cxx::)?(\w+)(?:::__\w+)?<(.*)>$", t)
        if m and (t.startswith(("std::", "__gnu_cxx::")) or "::" not in t.split("<")[0]):
            n, args = m.group(1), split_args(m.group(2))
            P = self.parse
            if n in ("vector", "queue", "deque") and "useq" in self.raw and P(args[0]).k == "ptr": return Ty("useq", [P(args[0])])
            if n == "vector": return Ty("vec", [P(args[0])])
            if n == "list" and "uniqlist" in self.raw and P(args[0]).k == "ptr": return Ty("useq", [P(args[0])])
            if n == "list" and "listnodes" in self.raw: return Ty("lnode", [P(args[0])])
            if n in ("_List_iterator", "_List_const_iterator") and "listnodes" in self.raw: return Ty("ptr", [P(args[0])])
            if n in ("deque", "list"): return Ty("deque", [P(args[0])], n)
            if n in ("queue", "stack"): return Ty("deque", [P(args[0])], n)
            if n in ("set", "unordered_set"): return Ty("set", [P(args[0])], args[1] if len(args) > 1 and n == "set" and args[1].startswith("CGraph") else None)
            if n in ("map", "unordered_map"): return Ty("map", [P(args[0]), P(args[1])])
            if n == "pair": return Ty("pair", [P(args[0]), P(args[1])])
            if n in ("unique_ptr", "shared_ptr", "__shared_ptr"): return Ty("uptr", [P(args[0])], "unique" if n == "unique_ptr" else "shared")
            if n in ("atomic", "__atomic_base", "remove_reference"): return P(args[0])
            if n == "function": return Ty("fn", n=args[0] if args else "")
            if n in ("future", "shared_future", "promise", "__basic_future"): return Ty("future", [P(args[0])] if args else [], n)
            if n == "packaged_task": return Ty("ptask", n=args[0])
            if n in ("lock_guard", "unique_lock", "shared_lock"): return Ty("lock", n=n)
            if n in ("duration",): return Ty("int", n="long")
            if n == "priority_queue": return Ty("pqueue", [P(args[0])], args[2] if len(args) > 2 and not args[2].startswith("std::") else None)
            if n == "hash": return Ty("opaque", n=t)
            if n == "initializer_list": return Ty("vec", [P(args[0])])
        if t.startswith("std::chrono::"):
            return Ty("int", n="long")
        if t in ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::atomic_flag", "mutex"): return Ty("mutex", n=t)
        if t in ("std::condition_variable", "condition_variable"): return Ty("cv")
        if t in ("std::thread", "std::thread::id"): return Ty("thread")
        if t in self.p.enumnames: return Ty("int", n="int")
        if "CGraph::" + t in self.p.enumnames: return Ty("int", n="int")
        if t in ("std::future_status", "std::cv_status", "std::memory_order"): return Ty("int", n="int")
        if t in ("std::atomic_bool",): return BOOL
        q = t
        # class templates with default arguments may be spelled short
        if q not in self.p.classes and "CGraph::" + q in self.p.classes: q = "CGraph::" + q
        if q not in self.p.classes and "CGraph::internal::" + q in self.p.classes: q = "CGraph::internal::" + q
        if q not in self.p.classes and "<" in q:
            base = q.split("<")[0]
            c = [x for x in self.p.classes if (x.startswith(q[:-1] + ",") or x.startswith("CGraph::" + q[:-1] + ",")) and x.endswith(">")]
            if len(c) == 1: q = c[0]
            elif q.endswith("<>"):
                c = [x for x in self.p.classes if (x.startswith(base + "<") or x.startswith("CGraph::" + base + "<")) and x.endswith(">")]
                if len(c) == 1: q = c[0]
        if q in self.p.classes:
            if "uvec" in self.raw: return Ty("cls", n=q)
            if q.startswith("CGraph::USmallVector<"):
                return Ty("uvec", [self.parse(split_args(q[q.index("<") + 1:-1])[0])], q)
            if q.startswith("CGraph::USerialUniqueArray<"):
                return Ty("uvec", [self.parse(split_args(q[q.index("<") + 1:-1])[0])], q)
            return Ty("cls", n=q)
        return Ty("opaque", n=t)


SCALARS = ("int", "bool", "real", "str", "ptr", "uptr", "fn", "cls", "opaque", "ptask", "thread", "ref")
UNIQ = ("uvec", "set", "map", "useq")
SEQS = ("vec", "deque", "pqueue") + UNIQ


def sort_of(ty):
    k = ty.k
    if k in ("int", "ptr", "uptr", "fn", "cls", "opaque", "ptask", "thread", "ref"): return I
    if k == "bool": return B
    if k == "real": return R
    if k == "str": return Str
    return None


def shape(ty):
    """[(path, z3 sort)] of the components a value of this type is stored as."""
    s = sort_of(ty)
    if s is not None: return [("", s)]
    if ty.k == "status": return [(".code", I), (".info", Str)]
    if ty.k == "future": return [(".valid", B), (".id", I)]
    if ty.k == "pair": return [(".first" + p, x) for p, x in shape(ty.a[0])] + [(".second" + p, x) for p, x in shape(ty.a[1])]
    if ty.k in ("vec", "deque"):
        return [(".lo", I), (".hi", I)] + [(".d" + p, z3.ArraySort(I, x)) for p, x in shape(ty.a[0])]
    if ty.k in ("uvec", "set", "useq"):
        e = sort_of(ty.a[0])
        return [(".lo", I), (".hi", I), (".d", z3.ArraySort(I, e)), (".m", z3.ArraySort(e, B)), (".pos", z3.ArraySort(e, I))]
    if ty.k == "map":
        e = sort_of(ty.a[0])
        return [(".lo", I), (".hi", I), (".d", z3.ArraySort(I, e)), (".m", z3.ArraySort(e, B)), (".pos", z3.ArraySort(e, I))] + \
               [(".v" + p, z3.ArraySort(e, x)) for p, x in shape(ty.a[1])]
    if ty.k == "lnode":   # std::list with node identity: members, recency rank, count, lowest rank
        return [(".lo", I), (".hi", I), (".m", z3.ArraySort(I, B)), (".rank", z3.ArraySort(I, I))]
    if ty.k == "pqueue":  # multiset of elements: count per element reference, plus size
        return [(".hi", I), (".m", z3.ArraySort(I, B))]
    if ty.k in ("mutex", "cv", "lock", "void"): return []
    raise KeyError("no shape for %r" % ty)

"""Front end: clang's AST of the code in /repo (whole library as one translation unit), re-extracted on every run.

Nothing is rewritten: the verifier interprets clang's JSON AST of the very headers and .cpp files the library is
built from.  What this extraction drops is stated in DESIGN.md (comments, source ranges, std-library bodies)."""
import re, hashlib, json, os, pickle, re, subprocess, sys, tempfile

REPO = os.environ.get("CGV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

KEEP = set("""typeArg id kind name type inner opcode isPostfix value referencedDecl referencedMemberDecl isArrow castKind
mangledName previousDecl parentDeclContextId virtual pure storageClass isImplicit tagUsed bases completeDefinition init
hasInit hasVar hasElse hasRangeInit ctorType elidable list zeroing argType isArray isGlobal valueCategory cast constexpr
explicitlyDefaulted explicitlyDeleted anyInit baseInit delegatingInit decl implicit hasInClassInitializer mutable
ctad targetLabelDeclId isPlacement foundReferencedDecl""".split())


class Node(dict):
    __slots__ = ()
    @property
    def kind(self): return self.get("kind")
    @property
    def inner(self): return self.get("inner", ())


def _sources():
    out = []
    for base, _, files in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".inl", ".cpp")):
                out.append(os.path.join(base, f))
    return out


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for f in _sources():
        h.update(f.encode()); h.update(open(f, "rb").read())
    for f in ("fe.py",):
        h.update(open(os.path.join(VERIF, "cgv", f), "rb").read())
    p = os.path.join(VERIF, "cgv", "instantiate.cpp")
    if os.path.exists(p): h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


class _Slim:
    def __init__(self): self.file = None; self.line = None
    def loc(self, d):
        if "spellingLoc" in d or "expansionLoc" in d:
            r = None
            for k in d:
                if k in ("spellingLoc", "expansionLoc"):
                    x = self.loc(d[k])
                    if k == "expansionLoc": r = x
            return r or (self.file, self.line)
        if "file" in d: self.file = d["file"]
        if "line" in d: self.line = d["line"]
        return (self.file, self.line)
    def slim(self, n):
        r = Node()
        for k, v in n.items():
            if k == "inner":
                l = []
                for c in v:
                    if (c.get("kind") or "").endswith("Comment"):
                        self._skip(c); continue
                    l.append(self.slim(c))
                r["inner"] = l
            elif k == "loc":
                if v: r["loc"] = self.loc(v)
            elif k == "range":
                b = self.loc(v["begin"]) if v.get("begin") else None
                if v.get("end"): self.loc(v["end"])
                if b: r["at"] = b
            elif k in KEEP: r[k] = v
        return r
    def _skip(self, n):
        for k, v in n.items():
            if k == "inner":
                for c in v: self._skip(c)
            elif k == "loc" and v: self.loc(v)
            elif k == "range":
                for e in ("begin", "end"):
                    if v.get(e): self.loc(v[e])


def extract(std="c++11"):
    """Run clang on the whole library and return the slimmed AST documents (cached by content hash)."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(std)
    cache = os.path.join(BUILD, "ast-%s-%s.pkl" % (std.replace("+", "x"), key))
    if os.path.exists(cache):
        try: return pickle.load(open(cache, "rb")), key
        except Exception: pass
    with tempfile.TemporaryDirectory(dir=BUILD) as td:
        tu = os.path.join(td, "unity.cpp")
        with open(tu, "w") as f:
            f.write('#include "CGraph.h"\n')
            for s in _sources():
                if s.endswith(".cpp"): f.write('#include "%s"\n' % s)
            f.write('#include "%s"\n' % os.path.join(VERIF, "cgv", "instantiate.cpp"))
        js = os.path.join(td, "u.json")
        with open(js, "w") as f:
            p = subprocess.run(["clang++", "-std=" + std, "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "src", "UtilsCtrl"),
                "-D_ENABLE_LIKELY_", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=CGraph", tu],
                stdout=f, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise RuntimeError("clang could not parse the tree:\n" + p.stderr[:4000])
        ids = {}      # node addresses -> running numbers, so that two runs over the same text are identical
        s = re.sub(r'"0x[0-9a-f]+"', lambda m: ids.setdefault(m.group(0), '"n%d"' % len(ids)), open(js).read())
    dec = json.JSONDecoder(); i = 0; docs = []; sl = _Slim()
    while True:
        j = s.find("{", i)
        if j < 0: break
        o, i = dec.raw_decode(s, j)
        docs.append(sl.slim(o))
    for old in os.listdir(BUILD):
        if old.startswith("ast-" + std.replace("+", "x")) and old.endswith(".pkl"):
            try: os.unlink(os.path.join(BUILD, old))
            except OSError: pass
    tmp = cache + ".%d" % os.getpid()
    pickle.dump(docs, open(tmp, "wb")); os.replace(tmp, cache)
    return docs, key


class Class:
    def __init__(self, qn, node):
        self.qn = qn; self.node = node; self.fields = {}; self.methods = []; self.bases = []; self.final = False
        self.parent_ns = None
    def __repr__(self): return "<class %s>" % self.qn


class Func:
    def __init__(self, qn, node, cls=None):
        self.qn = qn; self.node = node; self.cls = cls
        self.name = node.get("name"); self.body = None; self.params = []; self.inits = []
        for c in node.inner:
            if c.kind == "ParmVarDecl": self.params.append(c)
            elif c.kind in ("CompoundStmt", "CXXTryStmt"): self.body = c
            elif c.kind == "CXXCtorInitializer": self.inits.append(c)
        self.virtual = bool(node.get("virtual")); self.pure = bool(node.get("pure"))
        self.static = node.get("storageClass") == "static"
        self.type = node.get("type", {}).get("qualType", "")
        self.defaulted = bool(node.get("explicitlyDefaulted"))
        self.tmplargs = None
    @property
    def loc(self):
        f, l = self.node.get("loc", (None, None))
        return "%s:%s" % ((f or "?").replace(REPO + "/", ""), l)
    def __repr__(self): return "<fn %s %s>" % (self.qn, self.type)


class Program:
    """Index over the AST: classes, functions (with bodies), fields, enums, aliases."""
    def __init__(self, std="c++11"):
        docs, self.key = extract(std)
        self.std = std
        self.byid = {}; self.classes = {}; self.funcs = {}; self.byqn = {}; self.enums = {}; self.aliases = {}; self.classbyid = {}
        self.globals = {}; self.field = {}; self.canon = {}; self.ctors = {}
        self._uses = {}
        for src in _sources():          # aliases declared outside the namespace (CValType.h)
            if src.endswith("CValType.h"):
                for m in re.finditer(r"^\s*using\s+(\w+)\s*=\s*(CGraph::[\w:]+)\s*;", open(src).read(), re.M):
                    self.aliases[m.group(1)] = m.group(2)
        for d in docs: self._collect(d, ("",))
        self._parents()
        for d in docs: self._index(d, [])
        self._late()

    def _collect(self, n, _):
        st = [n]
        while st:
            x = st.pop()
            if "id" in x and x.kind: self.byid[x["id"]] = x
            st.extend(x.inner)

    def _parents(self):
        self.qname = {}

    def _tmpl_name(self, n):
        args = []
        for c in n.inner:
            if c.kind == "TemplateArgument":
                t = c.get("type")
                if t: args.append(t.get("desugaredQualType", t.get("qualType")))
                elif "value" in c: args.append(str(c["value"]))
                else:
                    for e in c.inner:
                        if "value" in e: args.append(str(e["value"]))
        return n.get("name", "") + ("<" + ", ".join(args) + ">" if args else "")

    def _index(self, n, scope):
        k = n.kind
        if k == "NamespaceDecl":
            for c in n.inner: self._index(c, scope + [n.get("name") or "(anon)"])
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            nm = self._tmpl_name(n) if k == "ClassTemplateSpecializationDecl" else n.get("name")
            if nm is None: nm = "(lambda/anon %s)" % n.get("id")
            sc = scope
            if "parentDeclContextId" in n and n["parentDeclContextId"] in self.qname and not scope:
                sc = self.qname[n["parentDeclContextId"]]
            q = sc + [nm]
            self.qname[n["id"]] = q
            qn = "::".join(q)
            if not n.get("completeDefinition"): 
                self.classbyid[n["id"]] = qn
                return
            c = Class(qn, n)
            self.classes[qn] = c; self.classbyid[n["id"]] = qn
            c.bases = [self.norm(b["type"].get("desugaredQualType", b["type"]["qualType"])) for b in n.get("bases", [])]
            for m in n.inner:
                if m.kind == "FieldDecl":
                    c.fields[m.get("name")] = m; self.field[m["id"]] = (c, m)
                elif m.kind == "FinalAttr": c.final = True
                else: self._index_member(m, q, c)
        elif k == "ClassTemplateDecl":
            for c in n.inner:
                if c.kind == "ClassTemplateSpecializationDecl": self._index(c, scope)
                elif c.kind == "CXXRecordDecl": self.qname[c["id"]] = scope + [c.get("name")]
        elif k == "FunctionTemplateDecl":
            for c in n.inner:
                if c.kind in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl") and any(x.kind == "TemplateArgument" for x in c.inner):
                    self._fn(c, scope, None)
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            self._fn(n, scope, None)
        elif k in ("TypeAliasDecl", "TypedefDecl"):
            t = n["type"]
            self.aliases["::".join(scope + [n["name"]])] = t.get("desugaredQualType", t.get("qualType"))
        elif k == "EnumDecl":
            self._enum(n, scope)
        elif k == "VarDecl":
            self.globals[n["id"]] = n
        elif k == "LinkageSpecDecl":
            for c in n.inner: self._index(c, scope)

    def _enum(self, n, scope):
        v = -1
        for c in n.inner:
            if c.kind == "EnumConstantDecl":
                val = None
                st = list(c.inner)
                while st:
                    e = st.pop(0)
                    if e.kind == "ConstantExpr" and "value" in e: val = int(e["value"]); break
                    st = list(e.inner) + st
                v = val if val is not None else v + 1
                self.enums[c["id"]] = v
                self.enums["::".join(scope + [n.get("name", ""), c["name"]])] = v
        self.enums["::".join(scope + [n.get("name") or "anon"])] = True

    def _index_member(self, m, q, c):
        k = m.kind
        if k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            self._fn(m, q, c)
        elif k == "FunctionTemplateDecl":
            for f in m.inner:
                if f.kind in ("CXXMethodDecl", "CXXConstructorDecl") and any(x.kind == "TemplateArgument" for x in f.inner):
                    self._fn(f, q, c)
        elif k == "VarDecl": self.globals[m["id"]] = m
        elif k in ("CXXRecordDecl", "ClassTemplateDecl", "EnumDecl", "TypeAliasDecl", "TypedefDecl"): self._index(m, q)

    def _fn(self, n, scope, cls):
        if cls is None and n.get("parentDeclContextId") in self.qname:
            scope = self.qname[n["parentDeclContextId"]]
        qn = "::".join(scope + [n.get("name", "?")])
        f = Func(qn, n, cls)
        f.scope = "::".join(scope)
        f.targs = [self.norm(x["type"].get("desugaredQualType", x["type"]["qualType"])) for x in n.inner if x.kind == "TemplateArgument" and "type" in x]
        self.funcs[n["id"]] = f

    def _late(self):
        # out-of-line definitions: link previousDecl to definition; attach to classes
        root = {}
        def find(i):
            n = self.funcs[i].node
            p = n.get("previousDecl")
            return find(p) if p in self.funcs else i
        groups = {}
        for i in self.funcs: groups.setdefault(find(i), []).append(i)
        self.defn = {}
        for r, ids in groups.items():
            d = next((i for i in ids if self.funcs[i].body is not None), None)
            f = self.funcs[d or r]
            base = self.funcs[r]
            f.qn = base.qn; f.scope = base.scope; f.cls = self.classes.get(base.scope) or base.cls
            f.virtual = any(self.funcs[i].virtual for i in ids); f.static = any(self.funcs[i].static for i in ids)
            f.pure = any(self.funcs[i].pure for i in ids)
            f.overrides = any(c.kind in ("OverrideAttr", "FinalAttr") for i in ids for c in self.funcs[i].node.inner)
            f.ids = ids
            for i in ids: self.defn[i] = f
            self.byqn.setdefault(f.qn, [])
            if f not in self.byqn[f.qn]: self.byqn[f.qn].append(f)
            if f.cls is not None and f not in f.cls.methods: f.cls.methods.append(f)
        # virtual by override
        self.enumnames = {k for k, v in self.enums.items() if v is True}
        self._alias_last = {}
        for k, v in self.aliases.items(): self._alias_last.setdefault(k.split("::")[-1], v)

    # ---- types
    _tok = re.compile(r"[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_~][A-Za-z0-9_]*)*|.")
    def norm(self, t, depth=0):
        """Normalise a type string: resolve CGraph aliases, drop elaborations."""
        key = t
        if key in self.canon: return self.canon[key]
        if "(lambda at " in t:      # a file name is not a type name
            ls = re.findall(r"\(lambda at [^()]*\)", t)
            for i, l in enumerate(ls): t = t.replace(l, "__lambda%d_" % i)
            t = self.norm(t, depth)
            for i, l in enumerate(ls): t = t.replace("__lambda%d_" % i, l)
            return t
        t = re.sub(r"\b(class|struct|enum|typename|volatile)\s+", "", t)
        out = []
        changed = False
        for m in self._tok.finditer(t):
            w = m.group(0)
            if w[0].isalpha() or w[0] == "_":
                a = self.aliases.get("CGraph::" + w) or self.aliases.get(w) or self.aliases.get("CGraph::internal::" + w)
                if a is None and "::" not in w: a = getattr(self, "_alias_last", {}).get(w)
                if a is None and "::" not in w and "_alias_last" not in self.__dict__:
                    pass
                if a is not None and a != w and depth < 12:
                    out.append(self.norm(a, depth + 1)); changed = True; continue
                if "::" not in w and ("CGraph::" + w) in self.classes: w = "CGraph::" + w
                elif "::" not in w and ("CGraph::internal::" + w) in self.classes: w = "CGraph::internal::" + w
            out.append(w)
        r = re.sub(r"\s+", " ", "".join(out)).strip()
        r = re.sub(r"\s*([*&])", r" \1", r); r = re.sub(r"([*&]) ([*&])", r"\1\2", r); r = re.sub(r"> >", ">>", r)
        if hasattr(self, "_alias_last"): self.canon[key] = r
        return r
    def ty(self, node_or_type):
        t = node_or_type.get("type", node_or_type) if isinstance(node_or_type, dict) else node_or_type
        if isinstance(t, dict): t = t.get("desugaredQualType", t.get("qualType", ""))
        return self.norm(t)

    # ---- lookups
    def fn(self, qn, nparams=None, pred=None):
        if "<>" in qn:          # any instance of the template
            pre, post = qn.split("<>", 1)
            for k in sorted(self.byqn):
                if k.startswith(pre + "<") and k.endswith(">" + post) :
                    f = self.fn(k, nparams, pred)
                    if f is not None and f.body is not None: return f
            return None
        c = [f for f in self.byqn.get(qn, ()) if (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
        b = [f for f in c if f.body is not None]
        return (b or c or [None])[0]
    def derives(self, a, b):
        """class a is b or derives from b"""
        if a == b: return True
        c = self.classes.get(a)
        return c is not None and any(self.derives(x, b) for x in c.bases)
    def find_method(self, cls, name, nparams=None):
        c = self.classes.get(cls)
        if c is None: return None
        for m in c.methods:
            if m.name == name and (nparams is None or len(m.params) == nparams): return m
        for b in c.bases:
            r = self.find_method(b, name, nparams)
            if r: return r
        return None


if __name__ == "__main__":
    import time
    t = time.time(); p = Program(); print(len(p.classes), len(p.byqn), time.time() - t)
    for a in sys.argv[1:]:
        for f in p.byqn.get(a, []): print(f, f.loc, f.body is not None, f.virtual, p.ty(f.node))

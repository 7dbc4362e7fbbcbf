"""Interpretation of C++ expressions and statements (mixed into the executor)."""
import os, z3
from .types import *
from .core import *

PASS = {"ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "FullExpr"}


class Interp(Executor):
    # ---------------------------------------------------------------- helpers
    def frame(self): return self.st.frames[-1]
    def num(self, v):
        if isinstance(v, LV): v = v.get(self)
        if z3.is_expr(v) and v.sort() == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    def val(self, n):
        v = self.ev(n)
        if isinstance(v, LV) and not isinstance(v, LMutex): v = v.get(self)
        return v
    def boolv(self, v):
        if isinstance(v, LV): v = v.get(self)
        if isinstance(v, (Closure, FnRef, Bind, PtrTo)): return z3.BoolVal(True)
        if isinstance(v, bool): return z3.BoolVal(v)
        if z3.is_expr(v) and v.sort() == I: return v != 0
        return v
    def cond(self, n): return self.boolv(self.val(n))

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        k = n.kind
        if "at" in n: self.nloc = n["at"]
        if k in PASS: return self.ev(n.inner[0])
        m = getattr(self, "ev_" + k, None)
        if m is None: raise Unsupported("expression %s at %s" % (k, self.where()))
        return m(n)

    def ev_SubstNonTypeTemplateParmExpr(self, n): return self.ev(n.inner[-1])
    def ev_MaterializeTemporaryExpr(self, n):
        v = self.ev(n.inner[0])
        if isinstance(v, LV): return v
        ty = self.T.of(n)
        if ty.k == "cls": return LObj(v, ty)
        return LTmp(v, ty)
    def ev_IntegerLiteral(self, n): return z3.IntVal(int(n["value"]))
    def ev_CharacterLiteral(self, n): return z3.IntVal(int(n["value"]))
    def ev_FloatingLiteral(self, n): return z3.RealVal(n["value"])
    def ev_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n["value"]))
    def ev_CXXNullPtrLiteralExpr(self, n): return z3.IntVal(0)
    def ev_GNUNullExpr(self, n): return z3.IntVal(0)
    def ev_StringLiteral(self, n): return LTmp(self.strlit(n.get("value", "")), STR)
    def ev_PredefinedExpr(self, n): return LTmp(self.strlit("__func__"), STR)
    def strlit(self, s):
        if s in ('""', ""): return z3.Const("str.empty", Str)
        return z3.Const("str." + repr(s), Str)
    def ev_CXXThisExpr(self, n):
        f = self.frame()
        if f.this is None: raise Unsupported("this outside method")
        return f.this
    def ev_UnaryExprOrTypeTraitExpr(self, n): return self.fresh_value(ULONG, "sizeof")
    def ev_CXXTypeidExpr(self, n):
        t = z3.Function("typeid", I, I)
        if n.inner:
            v = self.ev(n.inner[0])
            return LTmp(t(v.ref if isinstance(v, LObj) else self.num(v)), INT)
        return LTmp(self.typeid_of(self.T.parse(str(n.get("typeArg", {}).get("qualType", "?"))).n), INT)
    def typeid_of(self, cls):
        cls = str(cls)
        if cls not in self.p.classes and cls.endswith(">"):
            # a template-id with its default arguments left out
            w = cls.replace("CGraph::", "")[:-1]; c = [k for k in self.p.classes if k.replace("CGraph::", "") == w + ">" or k.replace("CGraph::", "").startswith(w + ",")]
            if len(c) == 1: cls = c[0]
        return z3.Int("typeid.of." + cls)
    def ev_CXXScalarValueInitExpr(self, n): return self.default_value(self.T.of(n))
    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr
    def ev_CXXNoexceptExpr(self, n): return z3.BoolVal(True)
    def ev_TypeTraitExpr(self, n): return z3.BoolVal(bool(n.get("value", False)))
    def ev_OpaqueValueExpr(self, n): return self.ev(n.inner[0])
    def ev_CXXStdInitializerListExpr(self, n): return self.ev(n.inner[0])
    def ev_CXXDefaultInitExpr(self, n):
        if n.inner: return self.ev(n.inner[0])
        raise Unsupported("CXXDefaultInitExpr")

    def lookup_var(self, d):
        """-> LV for a local variable / parameter / global"""
        vid = d["id"]
        fr = self.frame()
        clo = fr.clo
        fid = fr.fid
        if (fid, vid) in self.st.vars:
            return self.var_lv(fid, vid, d)
        while clo is not None:
            if vid in clo.copies:
                v = clo.copies[vid]
                return v if isinstance(v, LV) else LTmp(v, self.T.of(d))
            if (clo.fid, vid) in self.st.vars: return self.var_lv(clo.fid, vid, d)
            clo = getattr(clo, "outer", None)
        # global / static member
        name = d.get("name")
        node = self.p.globals.get(vid) or d
        return self.models.global_var(name, node)
    def var_lv(self, fid, vid, d):
        v = self.st.vars[(fid, vid)]
        if isinstance(v, LV) and not isinstance(v, LMutex): return v     # reference binding
        ty = self.T.of(d)
        if ty.k == "ref": ty = ty.a[0]
        if ty.k == "cls": return LObj(v, ty)
        if isinstance(v, CV): ty = v.ty
        return LVar(fid, vid, ty)
    def ev_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        k = d["kind"]
        if k in ("VarDecl", "ParmVarDecl"): return self.lookup_var(d)
        if k == "EnumConstantDecl":
            e = self.p.enums.get(d["id"])
            if e is None: e = self.models.std_enum(d["name"])
            return z3.IntVal(e)
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConversionDecl"): return FnRef(d)
        if k == "NonTypeTemplateParmDecl": raise Unsupported("template parameter")
        if k == "FieldDecl": raise Unsupported("pointer to member")
        raise Unsupported("DeclRef " + k)

    def obj_of(self, n):
        """object expression of a member access -> LV"""
        base = n.inner[0]
        v = self.ev(base)
        if n.get("isArrow"):
            if isinstance(v, LV) and not isinstance(v, LMutex): v = v.get(self)
            v = self.unfn(v)
            if isinstance(v, PtrTo): return v.lv
            if isinstance(v, LV): return v
            b = base
            while b.kind in ("ImplicitCastExpr", "ParenExpr") and b.get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp", "LValueToRValue", None) and b.inner:
                if self.T.of(b.inner[0]).k not in ("ptr", "uptr"): break
                b = b.inner[0]
            bt = self.T.of(b)
            t = bt.a[0] if bt.k in ("ptr", "uptr") else bt
            return self.deref(v, t)
        if isinstance(v, LV): return v
        t = self.T.of(base)
        if t.k == "cls": return LObj(v, t)
        return LTmp(v, t)
    def deref(self, v, t):
        v = self.unfn(v)
        if isinstance(v, PtrTo):
            if isinstance(v.lv, LElem) and isinstance(v.lv.base, LField) and v.lv.base.cls == "array": self.bounds(v.lv.base, v.lv.idx)
            return v.lv
        if isinstance(v, IterVal): return self.models.iter_deref(v)
        if t.k == "ref": t = t.a[0]
        self.nullcheck(v)
        if t.k in ("cls", "opaque", "void"): return LObj(v, t)
        # pointer to scalar/container whose storage we do not track by name: heap of that type
        return LField("deref", repr(t), v, t)
    def ev_MemberExpr(self, n):
        mid = n.get("referencedMemberDecl")
        lv = self.obj_of(n)
        if mid in self.p.field:
            cl, fd = self.p.field[mid]
            ty = self.T.of(fd)
            if isinstance(lv, (LTmp, LComp)) or (isinstance(lv, LV) and lv.ty and lv.ty.k == "status"):
                if lv.ty.k == "status":
                    p = {"error_code_": ".code", "error_info_": ".info"}.get(fd["name"])
                    if p: return LComp(lv, p, ty)
            ref = lv.ref if isinstance(lv, LObj) else lv.get(self)
            if isinstance(ref, CV): raise Unsupported("field of value")
            return self.field_lv(cl.qn, fd["name"], ref, ty)
        node = self.p.byid.get(mid)
        if node is not None and node.kind == "VarDecl": return self.models.global_var(node.get("name"), node)
        if lv.ty is not None and lv.ty.k == "pair" and n.get("name") in ("first", "second"):
            return self.models.pair_member(lv, n["name"])
        raise Unsupported("member %s of %r" % (n.get("name"), lv.ty))
    def field_lv(self, cls, name, ref, ty):
        if ty.k == "cls":
            self.nullcheck(ref)
            return LObj(self.subobj(cls, name, ref), ty)
        if ty.k in ("mutex", "cv"): return LMutex(cls, name, ref, ty)
        if ty.k == "opaque":
            return LField(cls, name, ref, ty)
        if ty.k == "ref": return self.hread(cls, name, ref, ty)
        return LField(cls, name, ref, ty)

    # casts
    def ev_ImplicitCastExpr(self, n):
        ck = n.get("castKind"); sub = n.inner[0]
        if ck == "LValueToRValue":
            lv = self.ev(sub)
            if isinstance(lv, LV): 
                v = lv.get(self)
                return self.unfn(v) if lv.ty and lv.ty.k in ("ptr", "opaque") else v
            return lv
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "UserDefinedConversion", "ConstructorConversion",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ArrayToPointerDecay", "LValueBitCast", "Dependent", "AtomicToNonAtomic", "NonAtomicToAtomic"):
            v = self.ev(sub)
            if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived") and isinstance(v, LObj):
                t = self.T.of(n)
                if ck != "BaseToDerived": return v
                return LObj(v.ref, t if t.k == "cls" else v.ty)
            return v
        if ck == "ToVoid": self.ev(sub); return None
        if ck == "NullToPointer": return z3.IntVal(0)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"): return self.boolv(self.ev(sub))
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            return self.conv_int(self.num(self.val(sub)), self.T.of(sub), self.T.of(n))
        if ck in ("IntegralToFloating",): return z3.ToReal(self.num(self.val(sub)))
        if ck in ("FloatingCast",): return self.val(sub)
        if ck == "FloatingToIntegral": return z3.ToInt(self.val(sub))
        if ck == "Dynamic":
            v = self.val(sub); t = self.T.of(n)
            isa = z3.Function("isa." + repr(t.a[0].n if t.k == "ptr" else t), I, B)
            return v if self.branch(isa(v)) else z3.IntVal(0)
        if ck == "PointerToIntegral" or ck == "IntegralToPointer": return self.val(sub)
        raise Unsupported("cast " + str(ck))
    ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXConstCastExpr = ev_CXXDynamicCastExpr = ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr
    ev_CXXFunctionalCastExpr = ev_ImplicitCastExpr
    def conv_int(self, v, a, b):
        if isinstance(v, (PtrTo, Closure, IterVal)): return v
        if b.k == "bool": return self.boolv(v)
        if b.k != "int" or b.n not in INTS or not z3.is_expr(v): return v
        lo, hi = INTS[b.n]
        if a.k == "bool": return v
        if a.k == "int" and a.n in INTS:
            alo, ahi = INTS[a.n]
            if lo <= alo and ahi <= hi: return v
        v = z3.simplify(v)
        if z3.is_int_value(v):
            x = v.as_long()
            if lo <= x <= hi: return v
            M = hi - lo + 1
            return z3.IntVal((x - lo) % M + lo)
        M = hi - lo + 1
        if lo == 0:
            return z3.If(z3.And(v >= 0, v <= hi), v, v % M)
        return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % M + lo)

    def pure(self, n, d=0):
        """syntactically free of side effects and branching (evaluate eagerly inside && || ?:)"""
        if n.kind in ("DeclRefExpr", "IntegerLiteral", "CXXBoolLiteralExpr", "CXXThisExpr", "CXXNullPtrLiteralExpr"): return True
        if n.kind in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr", "CXXStaticCastExpr", "CStyleCastExpr", "ExprWithCleanups", "SubstNonTypeTemplateParmExpr", "CXXFunctionalCastExpr"):
            return all(self.pure(c) for c in n.inner[-1:]) and n.get("castKind") != "Dynamic"
        if n.kind == "MemberExpr":
            return n.get("referencedMemberDecl") in self.p.field and not n.get("isArrow") and self.pure(n.inner[0]) or \
                   (n.get("referencedMemberDecl") in self.p.field and n.get("isArrow") and self.thisbase(n.inner[0]))
        if n.kind == "UnaryOperator": return n.get("opcode") in ("!", "-", "~") and self.pure(n.inner[0])
        if n.kind == "BinaryOperator": return n.get("opcode") in ("==", "!=", "<", "<=", ">", ">=", "+", "-", "&&", "||") and all(self.pure(c) for c in n.inner)
        return False
    def thisbase(self, n):
        while n.kind in ("ImplicitCastExpr", "ParenExpr"): n = n.inner[0]
        return n.kind == "CXXThisExpr"

    def ev_UnaryOperator(self, n):
        op = n["opcode"]; sub = n.inner[0]
        if op == "!":
            return z3.Not(self.cond(sub))
        if op == "-": return -self.num(self.val(sub))
        if op == "+": return self.val(sub)
        if op == "*":
            v = self.val(sub)
            v = self.unfn(v)
            if isinstance(v, PtrTo): return v.lv
            t = self.T.of(sub)
            return self.deref(v, t.a[0] if t.a else t)
        if op == "&":
            v = self.ev(sub)
            if isinstance(v, LObj): return v.ref
            if isinstance(v, FnRef): return v
            if isinstance(v, LV): return PtrTo(v)
            raise Unsupported("address of")
        if op in ("++", "--"):
            lv = self.ev(sub)
            old = lv.get(self)
            if isinstance(old, IterVal):
                new = IterVal(old.lv, old.pos + (1 if op == "++" else -1), old.rev)
            else:
                ty = self.T.of(sub); ty = ty.a[0] if ty.k == "ref" else ty
                if ty.k == "int" and ty.n in INTS and INTS[ty.n][0] == 0 and z3.is_expr(old) and old.sort() == I:
                    hi = INTS[ty.n][1]
                    if op == "++": new = old + 1 if self.entails_quick(old < hi) else z3.If(old == hi, z3.IntVal(0), old + 1)
                    else: new = old - 1 if self.entails_quick(old > 0) else z3.If(old == 0, z3.IntVal(hi), old - 1)
                else: new = self.wrap(old + (1 if op == "++" else -1), ty)
            lv.set(self, new)
            return old if n.get("isPostfix") else lv
        if op == "~": raise Unsupported("bit complement")
        if op == "__extension__": return self.ev(sub)
        raise Unsupported("unary " + op)
    def wrap(self, v, ty):
        """arithmetic result in type ty: unsigned wraps; signed overflow is outside the model (assumed absent)"""
        if ty.k == "int" and ty.n in INTS and z3.is_expr(v) and v.sort() == I:
            lo, hi = INTS[ty.n]
            if lo == 0:
                s = z3.simplify(v)
                if z3.is_int_value(s): return z3.IntVal(s.as_long() % (hi + 1))
                if self.entails_quick(z3.And(v >= 0, v <= hi)): return v
                return v % (hi + 1)
        return v
    def entails_quick(self, f):
        key = ("eq", f.get_id(), len(self.st.pc))
        s = z3.SimpleSolver(); s.set("timeout", 2000); s.set("rlimit", 400 * self.solver.RL)
        for g in self.st.pc + self.init_axioms:
            if not self.solver.quant(g): s.add(g)
        s.add(z3.Not(f)); r = s.check()
        if r != z3.unsat and os.environ.get("CGV_WRAP"): print("wraps:", f, r, s.assertions(), s.model() if r == z3.sat else "")
        return r == z3.unsat

    def ev_BinaryOperator(self, n):
        op = n["opcode"]; a, b = n.inner
        if op == "=":
            rt = self.T.of(b)
            v = self.val(b)
            lv = self.ev(a)
            if lv.ty and lv.ty.k in ("int", "bool", "real", "ptr", "str"): v = self.coerce(v, lv.ty)
            lv.set(self, v); return lv
        if op == ",": self.ev(a); return self.ev(b)
        if op in ("&&", "||"):
            if op == "&&" and self.is_ptr_trait(a, b): return self.cond(b)
            x = self.cond(a)
            if self.pure(b):
                y = self.cond(b)
                return z3.And(x, y) if op == "&&" else z3.Or(x, y)
            if op == "&&": return self.cond(b) if self.branch(x) else z3.BoolVal(False)
            return z3.BoolVal(True) if self.branch(x) else self.cond(b)
        x = self.val(a); y = self.val(b)
        return self.binop(op, x, y, self.T.of(n), self.T.of(a))
    def is_ptr_trait(self, a, b):
        """std::is_pointer<decltype(t)>::value && !(t) with t of pointer type"""
        while a.kind in PASS or a.kind == "ImplicitCastExpr": a = a.inner[0]
        if a.kind != "DeclRefExpr" or a["referencedDecl"].get("name") != "value" or a["referencedDecl"]["id"] in self.p.globals: return False
        while b.kind in PASS or b.kind in ("ImplicitCastExpr", "UnaryOperator"): b = b.inner[0]
        return self.T.of(b).k == "ptr"
    def ptrcmp(self, op, x, y):
        i, j = x.lv.idx, y.lv.idx
        if op == "-": return i - j
        return {"<": i < j, "<=": i <= j, ">": i > j, ">=": i >= j, "==": i == j, "!=": i != j}[op]
    def binop(self, op, x, y, ty, aty=None):
        x = self.unfn(x); y = self.unfn(y)
        if aty is not None and aty.k == "ptr" and op in ("+", "-") and z3.is_expr(x) and z3.is_expr(y) and aty.a[0].k != "cls" and not (ty is not None and ty.k == "int"):
            self.nullptr_arith = True
            return PtrTo(LElem(self.rawarr(x, aty.a[0]), y if op == "+" else -y, aty.a[0]))
        if isinstance(x, (IterVal,)) or isinstance(y, IterVal): return self.models.iter_binop(op, x, y)
        if isinstance(x, (PtrTo, Closure, FnRef)) or isinstance(y, (PtrTo, Closure, FnRef)):
            if op in ("==", "!="):
                if z3.is_expr(x) or z3.is_expr(y): r = False
                else: r = x is y
                return z3.BoolVal(r if op == "==" else not r)
            if isinstance(x, PtrTo) and isinstance(y, PtrTo) and isinstance(x.lv, LElem) and isinstance(y.lv, LElem): return self.ptrcmp(op, x, y)
            if isinstance(x, PtrTo) and op in ("+", "-") and isinstance(x.lv, LElem): return PtrTo(LElem(x.lv.base, x.lv.idx + y if op == "+" else x.lv.idx - y, x.lv.ty))
            raise Unsupported("pointer arithmetic")
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort(): x, y = self.num(x), self.num(y)
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == I else x; y = z3.ToReal(y) if y.sort() == I else y
        if op == "==": return x == y
        if op == "!=": return x != y
        if x.sort() == B: x, y = self.num(x), self.num(y)
        if op == "<": return x < y
        if op == "<=": return x <= y
        if op == ">": return x > y
        if op == ">=": return x >= y
        if op == "+": return self.wrap(x + y, ty)
        if op == "-": return self.wrap(x - y, ty)
        if op == "*": return self.wrap(x * y, ty)
        if op == "/":
            if x.sort() == R: return x / y
            self.prove("division by zero", y != 0)
            return self.divide(x, y)[0]
        if op == "%":
            self.prove("modulo by zero", y != 0)
            r = self.divide(x, y)[1]
            if getattr(self.spec, "mod_facts", False): self.assume(z3.And(z3.Implies(z3.And(0 <= x, x < y), r == x), z3.Implies(z3.And(y > 0, y <= x, x < 2 * y), r == x - y)))     # valid facts about %
            return r
        if op in ("&", "|", "^", "<<", ">>"):
            if z3.is_expr(x) and z3.is_expr(y):
                bx, by = self.bit01(x), self.bit01(y)
                if op in "&|^" and bx is not None and by is not None:
                    return z3.If({"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](bx, by), z3.IntVal(1), z3.IntVal(0))
                sx, sy = z3.simplify(x), z3.simplify(y)
                if z3.is_int_value(sx) and z3.is_int_value(sy):
                    a, b = sx.as_long(), sy.as_long()
                    return z3.IntVal({"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b, ">>": a >> b}[op])
                if op == "&" and z3.is_int_value(sy):   # single-bit or small constant masks
                    return self.mask(x, sy.as_long())
            f = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr"}[op], I, I, I)
            return f(x, y)
        raise Unsupported("binary " + op)
    def bit01(self, x):
        """the boolean an integer 0 / 1 stands for (bool operands promoted to int), or None"""
        if z3.is_bool(x): return x
        if z3.is_int_value(x): return z3.BoolVal(x.as_long() != 0) if x.as_long() in (0, 1) else None
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            a, b = x.arg(1), x.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b):
                if (a.as_long(), b.as_long()) == (1, 0): return x.arg(0)
                if (a.as_long(), b.as_long()) == (0, 1): return z3.Not(x.arg(0))
        return None
    def mask(self, x, m):
        t = z3.IntVal(0); b = 0
        while (1 << b) <= m:
            if m >> b & 1: t = t + z3.If((x / (1 << b)) % 2 == 1, z3.IntVal(1 << b), z3.IntVal(0))
            b += 1
        return t
    def divide(self, x, y):
        """quotient and remainder; by a variable, only linear consequences of the definition are used"""
        if z3.is_int_value(z3.simplify(y)): q = self.tdiv(x, y); return q, x - y * q
        q, r = self.fresh("quot", I), self.fresh("rem", I)
        self.assume(z3.Implies(z3.And(x >= 0, y > 0), z3.And(q >= 0, q <= x, (q == 0) == (x < y), r >= 0, r < y, r <= x, z3.Implies(z3.And(r == 0, q == 0), x == 0), z3.Implies(x < y, r == x), z3.Implies(y == 1, z3.And(q == x, r == 0)))))
        return q, r
    def tdiv(self, x, y):
        sx, sy = z3.simplify(x), z3.simplify(y)
        return z3.If(x >= 0, x / y, -((-x) / y)) if not (z3.is_int_value(sy) and z3.is_int_value(sx)) else \
            z3.IntVal(int(abs(sx.as_long()) // abs(sy.as_long())) * (1 if (sx.as_long() >= 0) == (sy.as_long() >= 0) else -1))
    def ev_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]; a, b = n.inner
        y = self.val(b); lv = self.ev(a); x = lv.get(self)
        if isinstance(x, IterVal): v = IterVal(x.lv, x.pos + y if op == "+" else x.pos - y)
        else: v = self.conv_int(self.binop(op, x, y, self.T.of(a)), Ty("int", n="?"), self.T.of(a))
        lv.set(self, v); return lv
    def ev_ConditionalOperator(self, n):
        c, a, b = n.inner
        x = self.cond(c)
        t = self.T.of(n)
        if self.pure(a) and self.pure(b) and t.k in ("int", "bool", "ptr", "real"):
            u, v = self.val(a), self.val(b)
            if z3.is_expr(u) and z3.is_expr(v) and u.sort() == v.sort(): return z3.If(x, u, v)
        return self.ev(a) if self.branch(x) else self.ev(b)
    def ev_ArraySubscriptExpr(self, n):
        a, i = n.inner
        base = self.val(a); idx = self.num(self.val(i))
        base = self.unfn(base)
        if isinstance(base, PtrTo) and isinstance(base.lv, LElem):
            if isinstance(base.lv.base, LField) and base.lv.base.cls == "array": self.bounds(base.lv.base, base.lv.idx + idx)
            return LElem(base.lv.base, base.lv.idx + idx, base.lv.ty)
        t = self.T.of(a)
        et = t.a[0] if t.a else self.T.of(n)
        self.nullcheck(base)
        a = self.rawarr(base, et); self.bounds(a, idx)
        return LElem(a, idx, et)
    def rawarr(self, base, et):
        """a heap array: one sequence value per block, of the block's allocated length"""
        return LField("array", repr(et), base, Ty("vec", [et]))
    def bounds(self, a, idx):
        if self.spec is not None and self.spec.check_bounds:
            v = a.get(self); self.prove("array access within the allocated block", z3.And(idx >= 0, idx < v.hi))
    def ev_CXXThrowExpr(self, n):
        if not n.inner:
            cur = self.st.ghost.get("curexc")
            raise CxxThrow(*(cur or (Ty("opaque", n="?"), z3.IntVal(1))))
        t = self.T.of(n.inner[0]); v = self.val(n.inner[0])
        raise CxxThrow(t, v)
    def ev_CXXDeleteExpr(self, n):
        v = self.val(n.inner[0]); v = self.unfn(v)
        t = self.T.of(n.inner[0])
        self.do_delete(v, t.a[0] if t.a else t)
        return None
    def do_delete(self, ref, t):
        if isinstance(ref, PtrTo): return
        if self.spec is not None: self.spec.on_delete(self, ref, t)
        al = self.st.ghost.get("alive")
        if al is None: al = z3.Const("alive0", z3.ArraySort(I, B))
        self.st.ghost["alive"] = z3.Store(al, ref, z3.BoolVal(False))
        self.note_write(("g", "alive"))
    def ev_CXXNewExpr(self, n):
        t = self.T.of(n).a[0]
        if n.get("isArray"):
            cnt = self.num(self.val(n.inner[0]))
            r = self.alloc("array")
            ty = Ty("vec", [t]); v = self.fresh_value(ty, "newarr")
            self.assume(z3.And(v.lo == 0, v.hi == cnt))
            LField("array", repr(t), r, ty).set(self, v)
            return r
        init = next((c for c in n.inner if c.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "ExprWithCleanups", "ParenListExpr")), None)
        if t.k == "cls":
            if init is not None and init.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                return self.construct(init, t)
            return self.new_object(t)
        if init is None and n.inner: init = n.inner[-1]
        if t.k == "opaque" and init is not None and init.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and self.T.of(init).k == "cls": return self.construct(init, self.T.of(init))
        v = self.val(init) if init is not None else self.default_value(t)
        if self.is_token(t): return v          # a heap cell holding a token is identified with the token
        r = self.alloc(repr(t))
        if t.k != "opaque": self.deref(r, t).set(self, v)
        return r
    def ev_LambdaExpr(self, n):
        cls = n.inner[0]
        body = next((c for c in n.inner if c.kind == "CompoundStmt"), None)
        caps = [c for c in n.inner[1:] if c is not body and c.kind not in ("CXXRecordDecl",)]
        flds = [c for c in cls.inner if c.kind == "FieldDecl"]
        copies = {}; this = None
        fr = self.frame()
        for f, c in zip(flds, caps):
            e = c
            if c.kind in ("CXXThisExpr",) or (c.kind == "UnaryOperator" and c.inner and c.inner[0].kind == "CXXThisExpr"):
                this = fr.this; continue
            x = c
            while x.kind != "DeclRefExpr" and x.inner: x = x.inner[0] if x.kind != "CXXConstructExpr" else x.inner[0]
            isref = self.p.ty(f).rstrip().endswith("&")
            if x.kind == "DeclRefExpr":
                if not isref:
                    v = self.val(c)
                    if isinstance(v, CV) or z3.is_expr(v) or isinstance(v, (Closure, PtrTo, IterVal)): copies[x["referencedDecl"]["id"]] = LTmp(v, self.T.of(x["referencedDecl"])) if self.T.of(x["referencedDecl"]).k not in ("cls", "ref") else LObj(v, self.T.of(f))
                    else: copies[x["referencedDecl"]["id"]] = v
                else:
                    copies[x["referencedDecl"]["id"]] = self.lookup_var(x["referencedDecl"])
        if this is None: this = fr.this if any(c.kind == "CXXThisExpr" for c in caps) else (fr.this)
        c = Closure(n, fr.fid, copies, this, self.p.ty(n))
        c.outer = fr.clo
        c.body = body
        c.op = next((m for m in cls.inner if m.kind == "CXXMethodDecl" and m.get("name") == "operator()"), None)
        if c.op is None:
            for m in cls.inner:
                if m.kind == "FunctionTemplateDecl":
                    c.op = next((x for x in m.inner if x.kind == "CXXMethodDecl"), None)
        return c
    def call_closure(self, c, args):
        if isinstance(c, Bind): return c.fn(self, args)
        if isinstance(c, FnRef): return self.call_decl(c.decl, None, args)
        self.st.nfid += 1
        fr = Frame(self.st.nfid, None, c.this, c)
        body = c.body
        params = [p for p in (c.op.inner if c.op else ()) if p.kind == "ParmVarDecl"]
        for p, a in zip(params, args): self.bind_param(fr, p, a)
        return self.run_body(fr, body, self.T.parse(self.ret_type(c.op)) if c.op else None)
    def ret_type(self, node):
        t = node.get("type", {}).get("qualType", "")
        # "R (args) const" -> R ; trailing return
        if "->" in t: return self.p.norm(t.split("->")[-1].strip())
        d = 0
        for i, ch in enumerate(t):
            if ch == "<": d += 1
            elif ch == ">": d -= 1
            elif ch == "(" and d == 0:
                if t[i:].startswith("(lambda"): 
                    continue
                return self.p.norm(t[:i].strip())
        return self.p.norm(t)

    def ev_InitListExpr(self, n):
        q = str((n.get("type") or {}).get("qualType", ""))
        if q.endswith("]"): return [self.val(e) for e in n.inner]
        t = self.T.of(n)
        if t.k in ("vec", "deque", "useq"):
            v = self.default_value(t)
            for e in n.inner: v = self.models.seq_push(v, self.val(e))
            return v
        if t.k in ("set", "uvec"):
            v = self.default_value(t)
            for e in n.inner: v = self.models.uniq_insert(v, self.val(e))
            return v
        if t.k == "cls":
            r = self.alloc(t.n)
            cl = self.p.classes[t.n]
            vals = [c for c in n.inner]
            for f, e in zip(cl.fields.values(), vals): self.init_field(cl, f, r, e)
            return r
        if not n.inner: return self.default_value(t)
        if len(n.inner) == 1: return self.ev(n.inner[0])
        if t.k == "opaque": # plain array
            return Bind(None) if False else [self.val(e) for e in n.inner]
        raise Unsupported("init list of %r" % t)

    # ---------------------------------------------------------------- objects
    def default_value(self, t):
        k = t.k
        if k == "int": return z3.IntVal(0)
        if k == "bool": return z3.BoolVal(False)
        if k == "real": return z3.RealVal(0)
        if k == "str": return z3.Const("str.empty", Str)
        if k in ("ptr", "uptr", "fn", "ptask", "thread"): return z3.IntVal(0)
        if k == "status": return CV(t, {".code": z3.IntVal(0), ".info": z3.Const("str.empty", Str)})
        if k in ("vec", "deque"):
            return CV(t, {p: (z3.IntVal(0) if p in (".lo", ".hi") else self.fresh("ed", s)) for p, s in shape(t)})
        if k in ("set", "uvec", "map", "useq"):
            c = {}
            for p, s in shape(t):
                if p in (".lo", ".hi"): c[p] = z3.IntVal(0)
                elif p == ".m": c[p] = z3.K(s.domain(), z3.BoolVal(False))
                else: c[p] = self.fresh("es", s)
            return CV(t, c)
        if k == "lnode": return CV(t, {".lo": z3.IntVal(0), ".hi": z3.IntVal(0), ".m": z3.K(I, z3.BoolVal(False)), ".rank": self.fresh("lr", z3.ArraySort(I, I))})
        if k == "pqueue": return CV(t, {".hi": z3.IntVal(0), ".m": z3.K(I, z3.BoolVal(False))})
        if k == "future": return CV(t, {".valid": z3.BoolVal(False), ".id": z3.IntVal(0)})
        if k == "pair": return self.fresh_value(t, "pair")
        if k == "opaque": return self.fresh("opq", I)
        if k in ("mutex", "cv", "lock", "void"): return None
        if k == "cls": return self.new_object(t)
        raise Unsupported("default value of %r" % t)
    def new_object(self, t):
        """default construction"""
        cl = self.p.classes[t.n]
        ctor = next((m for m in cl.methods if m.node.kind == "CXXConstructorDecl" and not [p for p in m.params if not p.get("init")] and not m.node.get("explicitlyDeleted")), None)
        r = self.alloc(t.n)
        self.assume(z3.Function("typeid", I, I)(r) == self.typeid_of(t.n))
        self.run_ctor(cl, ctor, r, [])
        return r
    def find_ctor(self, cl, ctype, nargs):
        cands = [m for m in cl.methods if m.node.kind == "CXXConstructorDecl"]
        for m in cands:
            if m.type == ctype: return m
        norm = self.p.norm(ctype)
        for m in cands:
            if self.p.norm(m.type) == norm: return m
        c2 = [m for m in cands if len(m.params) == nargs and "&&" not in m.type]
        if len(c2) == 1: return c2[0]
        c3 = [m for m in cands if len(m.params) == nargs]
        if len(c3) == 1: return c3[0]
        if not cands and nargs == 0: return None
        raise Unsupported("constructor %s of %s" % (ctype, cl.qn))
    def construct(self, n, t=None):
        t = t or self.T.of(n)
        args = [c for c in n.inner]
        if t.k == "cls":
            cl = self.p.classes[t.n]
            ctype = n.get("ctorType", {}).get("qualType", "")
            if n.get("elidable") and len(args) == 1:
                v = self.ev(args[0])
                if isinstance(v, LObj): return v.ref
                if z3.is_expr(v): return v
            r = None
            if len(args) == 1:
                # copy / move of the same class
                at = self.T.of(args[0])
                if at.k == "cls" and at.n == t.n and not self.user_copy(cl, ctype):
                    src = self.ev(args[0])
                    sref = src.ref if isinstance(src, LObj) else src
                    r = self.alloc(t.n); self.copy_object(cl, sref, r); return r
            ctor = self.find_ctor(cl, ctype, len(args))
            vals = self.eval_args(args, ctor)
            sp = self.specs.lookup(self, ctor, None, False, t) if ctor is not None else None
            if sp is not None and getattr(sp, "ctor", False):
                if len(vals) < len(ctor.params) or any(v is None for v in vals): vals = self.fill_defaults(ctor, vals, None)
                self.used_specs.add(sp.name()); return sp.apply(self, ctor, None, vals, t)
            r = self.alloc(t.n)
            self.assume(z3.Function("typeid", I, I)(r) == self.typeid_of(t.n))
            self.run_ctor(cl, ctor, r, vals)
            return r
        return self.models.construct(t, n, args)
    def user_copy(self, cl, ctype):
        c = [m for m in cl.methods if m.node.kind == "CXXConstructorDecl" and m.type == ctype and m.body is not None]
        return bool(c) and not c[0].defaulted
    def copy_object(self, cl, src, dst):
        for b in cl.bases:
            if b in self.p.classes: self.copy_object(self.p.classes[b], src, dst)
        for f in cl.fields.values():
            ty = self.T.of(f)
            if ty.k == "cls": self.copy_object(self.p.classes[ty.n], self.subobj(cl.qn, f["name"], src), self.subobj(cl.qn, f["name"], dst))
            elif ty.k in ("mutex", "cv"): pass
            elif ty.k == "opaque": pass
            else: self.hwrite(cl.qn, f["name"], dst, ty, self.hread(cl.qn, f["name"], src, ty))
    def run_ctor(self, cl, ctor, ref, vals):
        """member initialisation and constructor body"""
        self.st.nfid += 1
        fr = Frame(self.st.nfid, ctor, ref)
        if ctor is not None and ctor.body is not None:
            for p, a in zip(ctor.params, vals): self.bind_param(fr, p, a)
            self.default_args(fr, ctor.params, len(vals))
        self.st.frames.append(fr)
        try:
            done = set()
            inits = ctor.inits if ctor is not None else []
            deleg = next((i for i in inits if i.get("delegatingInit")), None)
            if deleg is not None:
                e = deleg.inner[0]
                while e.kind in PASS: e = e.inner[0]
                c2 = self.find_ctor(cl, e.get("ctorType", {}).get("qualType", ""), len(e.inner))
                self.run_ctor(cl, c2, ref, self.eval_args(list(e.inner), c2))
            else:
                bi = {self.p.norm(i["baseInit"].get("desugaredQualType", i["baseInit"]["qualType"])): i for i in inits if i.get("baseInit")}
                for b in cl.bases:
                    if b in self.p.classes:
                        i = bi.get(b)
                        bc = self.p.classes[b]
                        if i is not None and i.inner:
                            e = i.inner[0]
                            while e.kind in PASS: e = e.inner[0]
                            if e.kind in ("CXXConstructExpr",):
                                c2 = self.find_ctor(bc, e.get("ctorType", {}).get("qualType", ""), len(e.inner))
                                self.run_ctor(bc, c2, ref, self.eval_args(list(e.inner), c2)); continue
                        c2 = next((m for m in bc.methods if m.node.kind == "CXXConstructorDecl" and not [p for p in m.params if not p.get("init")]), None)
                        self.run_ctor(bc, c2, ref, [])
                fi = {i["anyInit"]["id"]: i for i in inits if i.get("anyInit")}
                for f in cl.fields.values():
                    i = fi.get(f["id"])
                    e = i.inner[0] if i is not None and i.inner else None
                    if e is not None and e.kind == "CXXDefaultInitExpr" and not e.inner: e = None
                    if e is None: e = next((c for c in f.inner if c.kind not in ("FullComment",) and not c.kind.endswith("Attr")), None)
                    self.init_field(cl, f, ref, e)
            if ctor is not None and ctor.body is not None:
                try: self.exec(ctor.body)
                except CxxReturn: pass
        finally:
            self.pop_frame(fr)
    def init_field(self, cl, f, ref, e):
        ty = self.T.of(f)
        if ty.k in ("mutex", "cv"): return
        if ty.k == "cls":
            sub = self.subobj(cl.qn, f["name"], ref); c2 = self.p.classes[ty.n]
            x = e
            while x is not None and x.kind in PASS | {"MaterializeTemporaryExpr", "ImplicitCastExpr"}: x = x.inner[0]
            if x is not None and x.kind in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if len(x.inner) == 1 and self.T.of(x.inner[0]).k == "cls" and self.T.of(x.inner[0]).n == ty.n and not self.user_copy(c2, x.get("ctorType", {}).get("qualType", "")):
                    src = self.ev(x.inner[0]); self.copy_object(c2, src.ref if isinstance(src, LObj) else src, sub); return
                c = self.find_ctor(c2, x.get("ctorType", {}).get("qualType", ""), len(x.inner))
                self.run_ctor(c2, c, sub, self.eval_args(list(x.inner), c))
            elif x is not None and x.kind == "InitListExpr" and x.inner:
                for ff, ee in zip(c2.fields.values(), x.inner): self.init_field(c2, ff, sub, ee)
            else:
                c = next((m for m in c2.methods if m.node.kind == "CXXConstructorDecl" and not [p for p in m.params if not p.get("init")]), None)
                self.run_ctor(c2, c, sub, [])
            return
        if e is None:
            if ty.k in ("int", "bool", "real", "ptr", "opaque", "fn", "ref", "thread", "ptask"): return    # indeterminate or handled lazily
            v = self.default_value(ty)
        elif ty.k == "ref":
            v = self.ev(e); self.st.ghost[("refmember", cl.qn, f["name"], str(ref))] = v; return
        else:
            v = self.ev(e)
            if isinstance(v, LV): v = v.get(self)
            if v is None: v = self.default_value(ty)
        if isinstance(v, list): return
        sv = self.spec; 
        self.hwrite(cl.qn, f["name"], ref, ty, v)
    def ev_CXXConstructExpr(self, n): return self.construct(n)
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    def ev_CXXUnresolvedConstructExpr(self, n): raise Unsupported("unresolved construct")

    # ---------------------------------------------------------------- calls
    def eval_args(self, args, f=None):
        out = []
        for i, a in enumerate(args):
            if a.kind == "CXXDefaultArgExpr":
                if a.inner: out.append(self.ev(a.inner[0]))
                else: out.append(None)
                continue
            out.append(self.ev(a))
        return out
    def callee(self, n):
        c = n
        while c.kind in PASS or c.kind == "ImplicitCastExpr": c = c.inner[0]
        return c
    def ev_CallExpr(self, n):
        c = self.callee(n.inner[0]); args = n.inner[1:]
        if c.kind == "DeclRefExpr":
            d = c["referencedDecl"]
            f = self.p.defn.get(d["id"])
            if f is None and d["kind"] in ("VarDecl", "ParmVarDecl"):
                return self.call_value(self.ev(c), [self.ev(a) for a in args])
            if f is None:
                return self.models.call_free(d["name"], n, args)
            return self.call_fn(f, None, args)
        if c.kind == "MemberExpr":    # static method through object
            f = self.p.defn.get(c.get("referencedMemberDecl"))
            if f: return self.call_fn(f, None, args)
        return self.call_value(self.ev(n.inner[0]), [self.ev(a) for a in args])
    def call_decl(self, d, this, vals):
        f = self.p.defn.get(d["id"])
        if f is None: raise Unsupported("call of " + d.get("name", "?"))
        return self.call_fn(f, this, None, vals)
    def call_value(self, v, vals):
        """call of a std::function / lambda / functor value"""
        lv = v
        if isinstance(v, LV): v = v.get(self)
        v = self.unfn(v)
        if isinstance(v, (Closure, Bind, FnRef)): return self.call_closure(v, vals)
        if isinstance(lv, LObj) and lv.ty.k == "cls":
            m = self.p.find_method(lv.ty.n, "operator()")
            if m: return self.call_fn(m, lv.ref, None, vals)
        if isinstance(lv, LV) and lv.ty is not None and lv.ty.k == "opaque" and "hash<" in (lv.ty.n or "") and len(vals) == 1:
            x = vals[0]; x = x.get(self) if isinstance(x, LV) else x       # std::hash: some function of the value
            return z3.Function("hash", x.sort(), I)(x) if z3.is_expr(x) else self.fresh("hash", I)
        if self.spec is not None:
            r = self.spec.on_unknown_call(self, v, vals, lv)
            if r is not NotImplemented: return r
        raise Unsupported("call of unknown callable at " + self.where())
    def ev_CXXMemberCallExpr(self, n):
        c = self.callee(n.inner[0]); args = n.inner[1:]
        if c.kind != "MemberExpr": raise Unsupported("member call via " + c.kind)
        f = self.p.defn.get(c.get("referencedMemberDecl"))
        obj = self.obj_of(c)
        if obj.ty is not None and obj.ty.k in ("uvec", "status") and not self.inside_container(obj.ty): f = None
        if f is None:
            return self.models.call_method(obj, c.get("name"), n, args)
        ref = obj.ref if isinstance(obj, LObj) else obj.get(self)
        # qualified call (Base::f()) is non-virtual; clang keeps no qualifier flag in JSON, detect by class of member
        virt = f.virtual or f.overrides
        if virt:
            self.check_qualified(c, f)
            if self.st.ghost.get("novirt") == id(c): virt = False
            elif f.cls is not None and f.cls.final: virt = False
            elif any(x.kind == "FinalAttr" for i in f.ids for x in self.p.funcs[i].node.inner): virt = False
        return self.call_fn(f, ref, args, None, virt, obj.ty)
    def inside_container(self, ty): return self.spec is not None and self.spec.transparent(ty)
    def check_qualified(self, c, f):
        """a member expression naming a base-class member through `this` of a derived class with an override is qualified"""
        self.st.ghost.pop("novirt", None)
        b = c.inner[0]
        through_cast = False
        while b.kind in ("ImplicitCastExpr", "ParenExpr"):
            if b.get("castKind") in ("UncheckedDerivedToBase", "DerivedToBase"): through_cast = True
            b = b.inner[0]
        if b.kind == "CXXThisExpr" and through_cast:
            dcls = self.T.of(b)
            dn = dcls.a[0].n if dcls.k == "ptr" else None
            if dn and f.cls is not None and dn != f.cls.qn:
                m = self.p.find_method(dn, f.name, len(f.params))
                if m is not None and m is not f: self.st.ghost["novirt"] = id(c)
    def ev_CXXOperatorCallExpr(self, n):
        c = self.callee(n.inner[0]); args = n.inner[1:]
        d = c.get("referencedDecl", {})
        f = self.p.defn.get(d.get("id"))
        name = d.get("name", "?")
        a0 = self.T.of(args[0])
        if a0.k in ("uvec", "status") and not self.inside_container(a0): f = None
        at = a0.a[0] if a0.k == "ref" else a0
        if f is not None and self.is_token(at): f = None
        if f is not None:
            if f.node.kind == "CXXMethodDecl" and not f.static:
                obj = self.ev(args[0])
                it = obj.get(self) if isinstance(obj, LV) and not isinstance(obj, (LObj, LMutex)) else obj
                if isinstance(it, IterVal) and name in ("operator*", "operator->"): return self.models.iter_deref(it)
                if isinstance(it, IterVal): return self.models.call_operator(name, n, args)
                if not isinstance(obj, LV): obj = LObj(obj, a0)
                ref = obj.ref if isinstance(obj, LObj) else obj.get(self)
                return self.call_fn(f, ref, args[1:], None, f.virtual, obj.ty)
            return self.call_fn(f, None, args)
        if name == "operator()":
            fv = self.ev(args[0])
            return self.call_value(fv, [self.ev(a) for a in args[1:]])
        # implicitly defined assignment of a repo class
        if name == "operator=" and a0.k == "cls":
            dst = self.ev(args[0]); src = self.ev(args[1])
            self.copy_object(self.p.classes[a0.n], src.ref if isinstance(src, LObj) else src, dst.ref)
            return dst
        return self.models.call_operator(name, n, args)

    def is_token(self, t): return t is not None and t.k == "opaque" and t.n is not None and "token:" + t.n in self.T.raw
    def call_fn(self, f, this, args, vals=None, virt=False, objty=None):
        if vals is None: vals = self.eval_args(list(args), f)
        if len(vals) < len(f.params) or any(v is None for v in vals): vals = self.fill_defaults(f, vals, this)
        sp = self.specs.lookup(self, f, this, virt, objty)
        if sp is not None:
            self.used_specs.add(sp.name())
            return sp.apply(self, f, this, vals, objty)
        m = self.models.repo_model(f)
        if m is not None: return m(self, f, this, vals)
        if virt:
            f = self.devirt(f, this, objty)
        if f.body is None:
            if f.defaulted: return None
            raise Unsupported("no body and no contract: %s" % f.qn)
        self.inlined.add(f.qn)
        return self.inline(f, this, vals)
    def devirt(self, f, this, objty):
        dyn = self.st.ghost.get(("dyn", str(this)))
        if dyn:
            m = self.p.find_method(dyn, f.name, len(f.params))
            if m is not None: return m
        # the only implementation the library has for objects of this static type
        if objty is not None and objty.k == "cls":
            m = self.p.find_method(objty.n, f.name, len(f.params)) or f
            ovr = [c for c in self.p.classes.values() if c.qn != (m.cls.qn if m.cls else None) and self.p.derives(c.qn, objty.n)
                   and any(x.name == f.name and len(x.params) == len(f.params) and x is not m for x in c.methods)]
            if not ovr and m.body is not None:
                self.assumed.add("user classes do not override %s" % m.qn); return m
        raise Unsupported("virtual call of %s without contract" % f.qn)
    def fill_defaults(self, f, vals, this):
        vals = list(vals)
        for i, p in enumerate(f.params):
            if i < len(vals) and vals[i] is not None: continue
            init = None
            for fid in f.ids:
                q = [c for c in self.p.funcs[fid].node.inner if c.kind == "ParmVarDecl"]
                if i < len(q) and q[i].inner:
                    init = next((c for c in q[i].inner if not c.kind.endswith("Attr")), None)
                    if init is not None: break
            if init is None: raise Unsupported("default argument of " + f.qn)
            v = self.ev(init)
            if i < len(vals): vals[i] = v
            else: vals.append(v)
        return vals
    def default_args(self, fr, params, n): pass
    def bind_param(self, fr, p, a):
        ty = self.T.of(p)
        key = (fr.fid, p["id"])
        if ty.k == "ref":
            if isinstance(a, LV): self.st.vars[key] = a; return
            if isinstance(a, (Closure, FnRef, Bind, PtrTo, IterVal, LockVal)): self.st.vars[key] = a; return
            t = ty.a[0]
            self.st.vars[key] = LObj(a, t) if t.k == "cls" else LTmp(a, t); return
        if isinstance(a, LV) and not isinstance(a, LMutex): a = a.get(self)
        if z3.is_expr(a) and ty.k in ("int", "bool", "real"): a = self.coerce(a, ty)
        self.st.vars[key] = a
        if z3.is_expr(a):
            vi = dict(self.st.ghost.get("vinfo", {})); vi[key] = (p.get("name"), ty); self.st.ghost["vinfo"] = vi
    def inline(self, f, this, vals):
        if self.depth > self.maxdepth: raise Unsupported("recursion too deep in " + f.qn)
        self.st.nfid += 1
        fr = Frame(self.st.nfid, f, this)
        for p, a in zip(f.params, vals): self.bind_param(fr, p, a)
        return self.run_body(fr, f.body, self.T.parse(self.ret_type(f.node)))
    def run_body(self, fr, body, rty):
        self.st.frames.append(fr); self.depth += 1
        loc = self.nloc
        ret = None
        try:
            try: self.exec(body)
            except CxxReturn as r: ret = r.v
        finally:
            self.depth -= 1
            self.pop_frame(fr)
            self.nloc = loc
        return ret
    def pop_frame(self, fr):
        while self.st.frames and self.st.frames[-1] is not fr: self.st.frames.pop()
        if self.st.frames: self.st.frames.pop()

    # ---------------------------------------------------------------- statements
    def exec(self, n):
        k = n.kind
        if "at" in n: self.nloc = n["at"]
        m = getattr(self, "st_" + (k or "None"), None)
        if m is not None: return m(n)
        if k is None: return
        self.ev(n)
    def st_CompoundStmt(self, n):
        mark = len(self.frame().cleanup)
        fr = self.frame()
        try:
            for s in n.inner: self.exec(s)
        except (CxxReturn, CxxBreak, CxxContinue, CxxThrow):
            self.unwind(fr, mark); raise
        except (PathEnd, Unsupported):
            del fr.cleanup[mark:]; raise
        else: self.unwind(fr, mark)
    def unwind(self, fr, mark):
        while len(fr.cleanup) > mark:
            c = fr.cleanup.pop(); c()
    def st_NullStmt(self, n): pass
    def st_AttributedStmt(self, n): self.exec(n.inner[-1])
    def st_DeclStmt(self, n):
        for d in n.inner:
            if d.kind == "VarDecl": self.declare(d)
    def declare(self, d):
        fr = self.frame(); key = (fr.fid, d["id"]); ty = self.T.of(d)
        init = next((c for c in d.inner if not c.kind.endswith("Attr")), None)
        if d.get("storageClass") == "static": 
            self.models.static_local(d, ty, init); return
        self.st.ghost.setdefault("vinfo", {})
        vi = dict(self.st.ghost["vinfo"]); vi[key] = (d.get("name"), ty); self.st.ghost["vinfo"] = vi
        if ty.k == "ref":
            v = self.ev(init)
            if isinstance(v, LV): self.st.vars[key] = v
            elif isinstance(v, (Closure, FnRef, Bind, IterVal, PtrTo)): self.vset(key, v)
            else: self.st.vars[key] = LObj(v, ty.a[0]) if ty.a[0].k == "cls" else LTmp(v, ty.a[0])
            if self.T.of(d).a[0].k == "lock": self.register_lock(fr, v)
            return
        if ty.k == "lock":
            v = self.val(init); self.vset(key, v)
            if isinstance(v, LockVal):
                fr.cleanup.append(lambda: self.models.lock_dtor(v))
            return
        if init is None:
            if ty.k in ("int", "bool", "real", "ptr"): v = self.fresh_value(ty, d.get("name", "v"))
            else: v = self.default_value(ty)
        else:
            v = self.val(init)
            if isinstance(v, list): v = None
        if z3.is_expr(v) and ty.k in ("int", "bool", "real"): v = self.coerce(v, ty)
        if ty.k in ("mutex", "cv"): v = LMutex("local", d.get("name"), self.fresh("lm", I), ty)
        self.vset(key, v)
    def st_IfStmt(self, n):
        inner = list(n.inner)
        if n.get("hasInit"): self.exec(inner.pop(0))
        if n.get("hasVar"): self.exec(inner.pop(0))
        c = inner[0]
        if self.branch(self.cond(c)): self.exec(inner[1])
        elif len(inner) > 2: self.exec(inner[2])
    def st_ReturnStmt(self, n):
        if not n.inner: raise CxxReturn(None)
        v = self.ev(n.inner[0])
        f = self.frame()
        rt = None
        if f.fn is not None: rt = self.T.parse(self.ret_type(f.fn.node))
        elif f.clo is not None and f.clo.op is not None: rt = self.T.parse(self.ret_type(f.clo.op))
        if rt is not None and rt.k == "ref": raise CxxReturn(v)
        if isinstance(v, LV) and not isinstance(v, LMutex):
            if isinstance(v, LObj) and rt is not None and rt.k == "cls": raise CxxReturn(v.ref)
            v = v.get(self)
        if rt is not None and z3.is_expr(v) and rt.k in ("bool", "int"): v = self.coerce(v, rt)
        raise CxxReturn(v)
    def st_BreakStmt(self, n): raise CxxBreak()
    def st_ContinueStmt(self, n): raise CxxContinue()
    def st_SwitchStmt(self, n):
        inner = list(n.inner)
        if n.get("hasInit"): self.exec(inner.pop(0))
        v = self.num(self.val(inner[0])); body = inner[-1]
        # flatten cases
        items = []
        def flat(s):
            if s.kind == "CaseStmt":
                items.append(("case", self.num(self.val(s.inner[0])))); flat(s.inner[-1])
            elif s.kind == "DefaultStmt":
                items.append(("default", None)); flat(s.inner[-1])
            else: items.append(("stmt", s))
        for s in body.inner: flat(s)
        start = None
        for i, (k, x) in enumerate(items):
            if k == "case" and self.branch(v == x): start = i; break
        if start is None: start = next((i for i, (k, _) in enumerate(items) if k == "default"), None)
        if start is None: return
        fr = self.frame(); mark = len(fr.cleanup)
        try:
            for k, s in items[start:]:
                if k == "stmt": self.exec(s)
        except CxxBreak: self.unwind(fr, mark)
    def st_CXXTryStmt(self, n):
        fr = self.frame(); mark = len(fr.cleanup); nf = len(self.st.frames)
        try: self.exec(n.inner[0])
        except CxxThrow as t:
            del self.st.frames[nf:]
            for h in n.inner[1:]:
                var = h.inner[0] if h.inner and h.inner[0].kind == "VarDecl" else None
                if var is not None:
                    ht = self.T.of(var)
                    if ht.k == "ref": ht = ht.a[0]
                    if not self.catches(ht, t.ty): continue
                    if var.get("name"):
                        self.st.vars[(fr.fid, var["id"])] = LObj(t.v, ht) if ht.k == "cls" else LTmp(t.v, ht)
                old = self.st.ghost.get("curexc"); self.st.ghost["curexc"] = (t.ty, t.v)
                self.exec(h.inner[-1])
                self.st.ghost["curexc"] = old
                return
            raise
    def catches(self, ht, tt):
        if ht == tt: return True
        if ht.k == "cls" and tt.k == "cls" and self.p.derives(tt.n, ht.n): return True
        if ht.k in ("opaque",) and "exception" in (ht.n or ""): return tt.k == "cls" or True
        return False

    # loops ------------------------------------------------------------
    def exec_guard(self, body, mark): body()
    def st_WhileStmt(self, n):
        c, body = n.inner[-2], n.inner[-1]
        self.loop(n, lambda: self.cond(c), lambda: self.exec(body), lambda: None)
    def st_DoStmt(self, n):
        body, c = n.inner[0], n.inner[1]
        if self.const_false(c):
            fr = self.frame(); mark = len(fr.cleanup)
            try: self.exec(body)
            except (CxxBreak, CxxContinue): self.unwind(fr, mark)
            return
        # do B while(c) == first := true; while (first || c) { first := false; B }
        fr = self.frame(); key = (fr.fid, "first:" + n["id"])
        self.vset(key, z3.BoolVal(True))
        vi = dict(self.st.ghost.get("vinfo", {})); vi[key] = ("first pass", BOOL); self.st.ghost["vinfo"] = vi
        def cond():
            f = self.st.vars[key]
            if self.branch(f): return z3.BoolVal(True)
            return self.cond(c)
        def body_():
            self.vset(key, z3.BoolVal(False)); self.exec(body)
        self.loop(n, cond, body_, lambda: None)
    def const_false(self, c):
        while c.kind in PASS or c.kind == "ImplicitCastExpr": c = c.inner[0]
        return (c.kind == "CXXBoolLiteralExpr" and not c.get("value")) or (c.kind == "IntegerLiteral" and c["value"] == "0")
    def st_ForStmt(self, n):
        init, var, c, inc, body = (list(n.inner) + [None] * 5)[:5]
        fr = self.frame(); mark = len(fr.cleanup)
        if init is not None and init.kind: self.exec(init)
        def step():
            if inc is not None and inc.kind: self.ev(inc)
        self.loop(n, lambda: self.cond(c) if c is not None and c.kind else z3.BoolVal(True), lambda: self.exec(body), step)
        self.unwind(fr, mark)
    def st_CXXForRangeStmt(self, n):
        inner = n.inner
        rng = inner[1].inner[0]       # VarDecl __range
        var = inner[6].inner[0]; body = inner[7]
        e = next(c for c in rng.inner if not c.kind.endswith("Attr"))
        lv = self.ev(e)
        if not isinstance(lv, LV): lv = LTmp(lv, self.T.of(e))
        if isinstance(lv, LObj): raise Unsupported("range-for over %r" % lv.ty)
        lv = self.models.as_seq_lv(lv)
        fr = self.frame(); key = (fr.fid, "k:" + n["id"])
        seq0 = lv.get(self)
        self.vset(key, seq0.lo)
        vt = self.T.of(var)
        def cond():
            return self.st.vars[key] < lv.get(self).hi
        def body_():
            k = self.st.vars[key]
            el = self.models.elem_lv(lv, k)
            vk = (fr.fid, var["id"])
            vi = dict(self.st.ghost.get("vinfo", {})); vi[vk] = (var.get("name"), vt); self.st.ghost["vinfo"] = vi
            if vt.k == "ref":
                self.st.vars[vk] = el
            else:
                self.st.vars[vk] = el.get(self)
            self.exec(body)
        def step(): self.vset(key, self.st.vars[key] + 1)
        self.loop(n, cond, body_, step, rng=(key, lv))

    def loop(self, n, cond, body, step, rng=None):
        from .loops import run_loop
        run_loop(self, n, cond, body, step, rng)

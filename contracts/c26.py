"""C26: CStatus algebra, on the real CSTATUS members."""
from cgv.spec import *

Q = "CGraph::internal::CSTATUS::"
CODE, INFO = "CSTATUS.error_code_", "CSTATUS.error_info_"


class S(Contract):
    raw = ("status",)


class IsOK(S):
    fn = Q + "isOK"
    def ensures(self, c): return [("isOK exactly when the code is 0", c.ret == (c.o(CODE) == 0))]
class IsErr(S):
    fn = Q + "isErr"
    def ensures(self, c): return [("isErr exactly when the code is negative", c.ret == (c.o(CODE) < 0))]
class IsCrash(S):
    fn = Q + "isCrash"
    def ensures(self, c): return [("isCrash exactly for the crash code", c.ret == (c.o(CODE) == -996))]
class IsNotErr(S):
    fn = Q + "isNotErr"
    def ensures(self, c): return [("isNotErr exactly when the code is not negative", c.ret == (c.o(CODE) >= 0))]
class AsBool(S):
    fn = Q + "operator bool"
    def ensures(self, c): return [("true exactly when the code is 0", c.ret == (c.o(CODE) == 0))]
class Reset(S):
    fn = Q + "reset"; modifies = ((CODE, lambda c: [c.this]), (INFO, lambda c: [c.this]))
    def ensures(self, c): return [("reset restores success", c(CODE) == 0)]
class SetErrorInfo(S):
    fn = Q + "setErrorInfo"; modifies = Reset.modifies; returns_this = True
    def ensures(self, c): return [("the plain error code", c(CODE) == -1), ("the message is kept", c(INFO) == c.a(0))]
class SetInfo(S):
    fn = Q + "setInfo"; modifies = Reset.modifies; returns_this = True
    def ensures(self, c): return [("code kept", c(CODE) == c.a(0)), ("message of an error kept", Implies(c.a(0) != 0, c(INFO) == c.a(1)))]
class GetCode(S):
    fn = Q + "getCode"
    def ensures(self, c): return [("getCode returns the code", c.ret == c.o(CODE))]
class GetInfo(S):
    fn = Q + "getInfo"
    def ensures(self, c): return [("getInfo returns the message", c.ret == c.o(INFO))]
class AddAssign(S):
    fn = Q + "operator+="
    returns_this = True
    modifies = ((CODE, lambda c: [c.this]), (INFO, lambda c: [c.this]))
    def ensures(self, c):
        x = c.a(0); keep = Or(c.o(CODE) < 0, c.o(CODE, x) >= 0)
        return [("the first error keeps its code", Implies(keep, c(CODE) == c.o(CODE))),
                ("the first error keeps its message", Implies(keep, c(INFO) == c.o(INFO))),
                ("a success takes over the error's code", Implies(Not(keep), c(CODE) == c.o(CODE, x))),
                ("a success takes over the error's message", Implies(Not(keep), c(INFO) == c.o(INFO, x)))]
class Assign(S):
    fn = Q + "operator="
    returns_this = True
    modifies = ((CODE, lambda c: [c.this]), (INFO, lambda c: [c.this]))
    def ensures(self, c):
        x = c.a(0)
        return [("assignment copies the code", c(CODE) == c.o(CODE, x)),
                ("assignment copies the message when the codes differ", Implies(c.o(CODE) != c.o(CODE, x), c(INFO) == c.o(INFO, x)))]


class Ctor(S):
    fn = Q + "CSTATUS"
    modifies = ((CODE, lambda c: [c.this]), (INFO, lambda c: [c.this]))
    sig = None
    def matches(self, f): return False
    def find(self, p):
        return p.fn(self.fn, None, lambda f: self.sig(p, f))
class CtorDefault(Ctor):
    label = "CSTATUS()"
    @staticmethod
    def sig(p, f): return len(f.params) == 0
    def ensures(self, c): return [("a default status has code 0", c(CODE) == 0)]
class CtorInfo(Ctor):
    label = "CSTATUS(string)"
    @staticmethod
    def sig(p, f): return len(f.params) == 1 and "string" in f.type
    def ensures(self, c): return [("a status made from a message is the plain error", c(CODE) == -1), ("message kept", c(INFO) == c.a(0))]
class CtorCode(Ctor):
    label = "CSTATUS(int, string)"
    @staticmethod
    def sig(p, f): return len(f.params) == 2
    def ensures(self, c): return [("code kept", c(CODE) == c.a(0)), ("message kept", c(INFO) == c.a(1))]
class CtorCopy(Ctor):
    label = "CSTATUS(const CSTATUS&)"
    def requires(self, c): return [("distinct objects", c.a(0) != c.this)]
    @staticmethod
    def sig(p, f): return len(f.params) == 1 and "CSTATUS &" in f.type and "&&" not in f.type
    def ensures(self, c):
        x = c.a(0)
        return [("copy has the code", c(CODE) == c.o(CODE, x)), ("copy has the message of an error", Implies(c.o(CODE, x) != 0, c(INFO) == c.o(INFO, x)))]
class CtorMove(CtorCopy):
    label = "CSTATUS(const CSTATUS&&)"
    @staticmethod
    def sig(p, f): return len(f.params) == 1 and "&&" in f.type


CONTRACTS = [IsOK(), IsErr(), IsNotErr(), AsBool(), Reset(), SetErrorInfo(), SetInfo(), IsCrash(), GetCode(), GetInfo(), AddAssign(), Assign(), CtorDefault(), CtorInfo(), CtorCode(), CtorCopy(), CtorMove()]
VERIFY = CONTRACTS
DRIVERS = ["c26"]
DRIVER_SECONDS = 6
NOTE = "All CSTATUS members are proved against their contracts for every pair of statuses; trusted: std::string copy/compare."

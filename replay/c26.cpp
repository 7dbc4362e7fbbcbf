#include "graph.h"
// reference model of the status algebra
struct Ref { int code; std::string info; };
static CStatus mkst(const Ref& r) { return r.code == 0 && r.info.empty() ? CStatus() : CStatus(r.code, r.info); }
SCENARIO(algebra) {
    static const int codes[] = {0, -1, -2, -996, -995, 1, 7, -100, 2147483647, -2147483647 - 1};
    CStatus acc; Ref ra{0, ""};
    int n = rng.range(1, 12); std::string seq;
    for (int i = 0; i < n; ++i) {
        Ref r{codes[rng.below(10)], rng.chance(70) ? "i" + std::to_string(rng.below(5)) : ""}; if (rng.chance(30)) r.code = rng.range(-5, 3);
        seq += ds::fmt(" %d'%s'", r.code, r.info.c_str()); ds::descr = "combine" + seq;
        CStatus s = mkst(r);
        EXPECT(s.getCode() == r.code && s.getInfo() == r.info, "a status made with (%d,'%s') reads back (%d,'%s')", r.code, r.info.c_str(), s.getCode(), s.getInfo().c_str());
        EXPECT(s.isOK() == (r.code == 0), "isOK of %d", r.code); EXPECT(s.isErr() == (r.code < 0), "isErr of %d", r.code);
        EXPECT(s.isNotErr() == (r.code >= 0), "isNotErr of %d", r.code); EXPECT(s.isCrash() == (r.code == -996), "isCrash of %d", r.code);
        if (rng.chance(50)) {
            CStatus c(s); EXPECT(c.getCode() == r.code, "copy of %d has code %d", r.code, c.getCode()); if (r.code != 0) EXPECT(c.getInfo() == r.info, "copy of '%s' has info '%s'", r.info.c_str(), c.getInfo().c_str());
            CStatus m(std::move(c)); EXPECT(m.getCode() == r.code, "move of %d has code %d", r.code, m.getCode()); if (r.code != 0) EXPECT(m.getInfo() == r.info, "moved info '%s'", m.getInfo().c_str());
        }
        if (rng.chance(15)) { acc = s; if (r.code != ra.code) ra = r; }
        else { CStatus& back = (acc += s); EXPECT(&back == &acc, "+= returns another object"); if (ra.code >= 0 && r.code < 0) ra = r; }
        EXPECT(acc.getCode() == ra.code, "after%s: code %d, expected %d", seq.c_str(), acc.getCode(), ra.code);
        if (ra.code < 0) EXPECT(acc.getInfo() == ra.info, "after%s: info '%s', expected '%s'", seq.c_str(), acc.getInfo().c_str(), ra.info.c_str());
        if (rng.chance(5)) { acc.reset(); ra = Ref{0, ""}; EXPECT(acc.isOK() && acc.getCode() == 0, "reset leaves %d", acc.getCode()); acc = CStatus(); }
    }
}
SCENARIO(ctor) {
    std::string i = "x" + std::to_string(rng.below(100)); CStatus s(i); ds::descr = i; EXPECT(s.getCode() == -1 && s.getInfo() == i && s.isErr(), "CStatus(string) is (%d,'%s')", s.getCode(), s.getInfo().c_str());
    CStatus d; EXPECT(d.isOK() && !d.isErr() && !d.isCrash(), "default status is %d", d.getCode());
}

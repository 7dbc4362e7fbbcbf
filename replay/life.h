// One element with any loop count, hold behaviour, visibility, aspects and one injected fault, against the sequence of callbacks C06/C07 allow.
#pragma once
#include "graph.h"
namespace life {
struct Plan { int loop = 1, reps = 1, naspects = 0; bool visible = true; int fault_at = -1; int fault = 0; };   // fault: 1 error status, 2 exception
inline std::vector<std::string>& rec() { static std::vector<std::string> r; return r; }
struct Core { Core(Plan* a, std::vector<std::string>* b) : p(a), out(b) {}
    Plan* p; std::vector<std::string>* out; int n = 0;
    int step(const std::string& s) { out->push_back(s); ds::ds_note(std::hash<std::string>()(s)); return n++ == p->fault_at ? p->fault : 0; }
};
struct Ctl { Core c; int runs; };
inline Ctl*& ctl() { static Ctl* c = nullptr; return c; }
inline CStatus real(const std::string& s) { int f = ctl()->c.step(s); if (f == 2) throw CException("boom"); return f ? CStatus(-7, "bad") : CStatus(); }
inline void realv(const std::string& s) { if (ctl()->c.step(s) == 2) throw CException("boom"); }
class E : public GNode {
public:
    CStatus init() override { return real("init"); }
    CStatus prepareRun() override { return real("prep"); }
    CStatus run() override { ctl()->runs++; return real("run"); }
    CBool isHold() override { return ctl()->runs % ctl()->c.p->reps != 0; }
    CStatus destroy() override { return real("destroy"); }
};
class A : public GAspect {
public:
    int id = 0;
    std::string t(const char* s, const CStatus* st = nullptr) { return ds::fmt("%s%d", s, id) + (st ? ds::fmt("(%d)", st->getCode()) : ""); }
    CStatus beginInit() override { return real(t("bi")); }
    CVoid finishInit(const CStatus& s) override { realv(t("fi", &s)); }
    CStatus beginRun() override { return real(t("br")); }
    CVoid finishRun(const CStatus& s) override { realv(t("fr", &s)); }
    CStatus beginDestroy() override { return real(t("bd")); }
    CVoid finishDestroy(const CStatus& s) override { realv(t("fd", &s)); }
    CVoid enterCrashed() override { ctl()->c.out->push_back(t("crash")); }
};
static int next_aspect = 0;
class A0 : public A { public: A0() { id = next_aspect++; } };
struct Boom {};
struct Oracle {
    Plan p; Core c; std::vector<std::string> out; bool prepared = false; int runs = 0;
    explicit Oracle(const Plan& q) : p(q), c(&p, &out) {}
    int call(const std::string& s) { int f = c.step(s); if (f == 2) throw Boom(); return f ? -7 : 0; }
    int begin(const char* s) { for (int i = 0; i < p.naspects; ++i) { int r = call(ds::fmt("%s%d", s, i)); if (r) return r; } return 0; }
    void finish(const char* s, int st) { for (int i = 0; i < p.naspects; ++i) call(ds::fmt("%s%d(%d)", s, i, st)); }
    int fat(int kind) {
        if (!p.visible) return 0;
        try {
            if (kind == 1) { prepared = false; int r = begin("bi"); if (r) return r; r = call("init"); finish("fi", r); return r; }
            if (kind == 3) { int r = begin("bd"); if (r) return r; r = call("destroy"); finish("fd", r); return r; }
            if (!prepared) { int r = call("prep"); if (r) return r; prepared = true; }
            int st = 0;
            for (int i = 0; i < p.loop && !st; ++i) {
                int r = begin("br"); if (r) return r;
                do { runs++; st = call("run"); } while (!st && runs % p.reps);
                finish("fr", st);
            }
            return st;
        } catch (const Boom&) { for (int i = 0; i < p.naspects; ++i) out.push_back(ds::fmt("crash%d", i)); return -996; }
    }
};
inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
inline void cmp(const char* what, Oracle& o, int want, const CStatus& st) {
    EXPECTK("callbacks", o.out == rec(), "%s: callbacks [%s], expected [%s]", what, join(rec()).c_str(), join(o.out).c_str());
    EXPECTK("status", st.getCode() == want, "%s: status %d, expected %d", what, st.getCode(), want);
    if (want == -7) EXPECTK("message", st.getInfo() == "bad", "%s: message '%s'", what, st.getInfo().c_str());
    if (want == -996) EXPECTK("crash_message", st.getInfo().find("boom") != std::string::npos, "%s: message '%s'", what, st.getInfo().c_str());
    o.out.clear(); rec().clear();
}
// a crash during init / destroy is reported to the caller as an exception (CGRAPH_FUNCTION_CHECK_STATUS rethrows it): accepted as a crash
inline CStatus safe(std::function<CStatus()> f) { try { return f(); } catch (const CException& e) { return CStatus(-996, e.what()); } }
inline void one(ds::Rng& rng, int maxaspects, bool direct) {
    Plan p; p.loop = rng.chance(10) ? 0 : rng.range(1, 3); p.reps = rng.chance(50) ? 1 : rng.range(2, 3); p.naspects = rng.below(maxaspects + 1); p.visible = !rng.chance(8);
    if (rng.chance(60)) { p.fault_at = rng.below(20); p.fault = rng.range(1, 2); }
    ds::descr = ds::fmt("loop %d, runs per iteration %d, %d aspects, visible %d, callback %d %s", p.loop, p.reps, p.naspects, (int) p.visible, p.fault_at, p.fault == 2 ? "throws" : p.fault ? "reports an error" : "-");
    // a fault on a hook that cannot report an error is none
    Oracle o(p); Ctl c{Core(&p, &rec()), 0}; ctl() = &c; rec().clear(); next_aspect = 0;
    GPipelinePtr pl = GPipelineFactory::create(); UThreadPoolConfig cf; cf.default_thread_size_ = 1; cf.secondary_thread_size_ = 0; cf.max_thread_size_ = 1; cf.monitor_enable_ = false; pl->setUniqueThreadPoolConfig(cf);
    int eng = rng.below(4); if (eng == 1) pl->setGEngineType(GEngineType::STATIC); if (eng == 2) pl->setGEngineType(GEngineType::TOPO);
    GElementPtr e = nullptr; CStatus st = pl->registerGElement<E>(&e, {}, "e"); EXPECT(st.isOK(), "reg");
    e->setLoop(p.loop); if (!p.visible) e->setVisible(false);
    for (int i = 0; i < p.naspects; ++i) e->addGAspect<A0>();
    if (eng == 3) { EXPECT(pl->makeSerial().isOK(), "serial"); }
    for (int cycle = 0; cycle < 2; ++cycle) {
        int want = o.fat(1); st = safe([&] { return pl->init(); }); cmp("init()", o, want, st); if (st.isErr()) break;
        bool bad = false;
        for (int k = 0, n = rng.range(0, 3); k < n; ++k) { o.runs = c.runs = 0; want = o.fat(2); st = pl->run(); cmp("run()", o, want, st); }
        want = o.fat(3); st = safe([&] { return pl->destroy(); }); cmp("destroy()", o, want, st); if (st.isErr() || bad) break;
    }
    GPipelineFactory::remove(pl);
}
}

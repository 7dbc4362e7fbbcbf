#include "graph.h"
// groups: real pipelines with one group (possibly nested one deep) whose children record, fail and throw
struct MN : public N { bool match = true; bool mthr = false; int asked = 0; CBool isMatch() override { ++asked; return match; } };
struct Cond : public GCondition { int idx = 0; int asked = 0; CIndex choose() override { ++asked; return idx; } };
struct G1 { std::vector<MN*> t; GElementPtrArr el; };
static GPipelinePtr pipe(ds::Rng& rng) { GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c = cfg(rng); c.default_thread_size_ = rng.range(2, 4); p->setUniqueThreadPoolConfig(c); int e = rng.below(3); p->setGEngineType(e == 0 ? GEngineType::DYNAMIC : e == 1 ? GEngineType::STATIC : GEngineType::TOPO); ds::descr += cfgs(c) + ds::fmt(" engine %d", e); return p; }
static void kids(ds::Rng& rng, GPipelinePtr p, G1& g, int n) {
    for (int i = 0; i < n; ++i) { MN* x = p->createGNode<MN>(GNodeInfo("k" + std::to_string(i), 1)); x->id = i; x->b.points = rng.below(3); if (rng.chance(15)) x->b.err = -20 - i; else if (rng.chance(8)) x->b.thr = true; x->match = rng.chance(65); if (rng.chance(20)) x->setBindingIndex(rng.below(2));
        ds::descr += ds::fmt(" k%d(err %d throws %d match %d)", i, x->b.err, (int) x->b.thr, (int) x->match); g.t.push_back(x); g.el.push_back(x); }
}
static int code(MN* x) { return x->b.thr ? -996 : x->b.err; }
static std::vector<int> starts() { std::vector<int> s; for (auto& e : ds::events()) if (e.b == START) s.push_back(e.a); return s; }
static bool all_ended() { int d = 0; for (auto& e : ds::events()) d += e.b == START ? 1 : e.b == END ? -1 : 0; return d == 0; }
static bool serial_events() { int d = 0; for (auto& e : ds::events()) { if (e.b == START && d++) return false; if (e.b == END) --d; } return true; }
static CStatus go(GPipelinePtr p, const char* w) { ds::events().clear(); try { return p->run(); } catch (const std::exception& e) { ds::fail(std::string(w) + ":throws", std::string("run threw ") + e.what()); } }
SCHED(cluster) {
    ds::ds_hang_key("sleeps_forever"); ds::descr = "cluster "; GPipelinePtr p = pipe(rng); G1 g; kids(rng, p, g, rng.range(0, 5)); GElementPtr c = p->createGGroup<GCluster>(g.el); if (rng.chance(20)) c = p->createGGroup<GCluster>({c});
    ds::ds_note(std::hash<std::string>()(ds::descr)); EXPECT(p->registerGGroup(&c, {}, "g", 1).isOK(), "reg"); EXPECT(p->init().isOK(), "init");
    for (int r = 0; r < 2; ++r) { CStatus st = go(p, "cluster"); std::vector<int> want; int err = 0; for (MN* x : g.t) { want.push_back(x->id); if ((err = code(x))) break; }
        EXPECTK("order", starts() == want && serial_events(), "children executed out of order, or past an error"); EXPECTK("result", st.getCode() == err, "returned %d, first child error %d", st.getCode(), err); }
    p->destroy(); GPipelineFactory::remove(p);
}
SCHED(condition) {
    ds::ds_hang_key("sleeps_forever"); ds::descr = "condition "; GPipelinePtr p = pipe(rng); G1 g; kids(rng, p, g, rng.range(1, 4)); Cond* c = p->createGGroup<Cond>(g.el); GElementPtr e = c; EXPECT(p->registerGGroup(&e, {}, "g", 1).isOK(), "reg"); EXPECT(p->init().isOK(), "init"); int n = g.t.size();
    for (int r = 0; r < 4; ++r) { c->idx = rng.range(-3, n + 1); c->asked = 0; ds::descr += ds::fmt(" choose %d", c->idx); CStatus st = go(p, "condition"); std::vector<int> want; if (c->idx == -1) want = {n - 1}; else if (c->idx >= 0 && c->idx < n) want = {c->idx};
        EXPECTK("chosen", starts() == want, "index %d of %d: executed %d children", c->idx, n, (int) starts().size()); EXPECTK("asked", c->asked == 1, "asked %d times", c->asked); int err = want.empty() ? 0 : code(g.t[want[0]]); EXPECTK("result", st.getCode() == err, "index %d: returned %d, child %d", c->idx, st.getCode(), err); }
    ds::ds_note(std::hash<std::string>()(ds::descr)); p->destroy(); GPipelineFactory::remove(p);
}
SCHED(multi_serial) {
    ds::ds_hang_key("sleeps_forever"); ds::descr = "serial multi "; GPipelinePtr p = pipe(rng); G1 g; kids(rng, p, g, rng.range(0, 5)); GElementPtr c = p->createGGroup<GMultiCondition<GMultiConditionType::SERIAL>>(g.el); EXPECT(p->registerGGroup(&c, {}, "g", 1).isOK(), "reg"); EXPECT(p->init().isOK(), "init"); ds::ds_note(std::hash<std::string>()(ds::descr));
    for (int r = 0; r < 2; ++r) { CStatus st = go(p, "multi_serial"); std::vector<int> want; int err = 0; for (MN* x : g.t) if (x->match) { want.push_back(x->id); if ((err = code(x))) break; }
        EXPECTK("order", starts() == want && serial_events(), "wrong children executed"); EXPECTK("result", st.getCode() == err, "returned %d, first child error %d", st.getCode(), err); for (MN* x : g.t) x->match = rng.chance(60); }
    p->destroy(); GPipelineFactory::remove(p);
}
SCHED(multi_parallel) {
    ds::ds_hang_key("sleeps_forever"); ds::descr = "parallel multi "; GPipelinePtr p = pipe(rng); G1 g; kids(rng, p, g, rng.range(0, 5)); GElementPtr c = p->createGGroup<GMultiCondition<GMultiConditionType::PARALLEL>>(g.el); EXPECT(p->registerGGroup(&c, {}, "g", 1).isOK(), "reg"); EXPECT(p->init().isOK(), "init"); ds::ds_note(std::hash<std::string>()(ds::descr));
    for (int r = 0; r < 2; ++r) { CStatus st = go(p, "multi_parallel"); std::vector<int> s = starts(); std::vector<int> want; std::set<int> errs; for (MN* x : g.t) if (x->match) { want.push_back(x->id); if (code(x)) errs.insert(code(x)); }
        EXPECTK("waits", all_ended(), "returned while a child was running"); std::sort(s.begin(), s.end()); EXPECTK("children", s == want, "run %d: executed %d children, %d match", r, (int) s.size(), (int) want.size());
        EXPECTK("result", errs.empty() ? st.getCode() == 0 : errs.count(st.getCode()) == 1, "returned %d", st.getCode()); for (MN* x : g.t) x->match = rng.chance(60); }
    p->destroy(); GPipelineFactory::remove(p);
}

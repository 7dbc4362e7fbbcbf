#include "graph.h"
static void started_all_finished(int n, const char* what) {
    std::vector<int> s(n, 0), f(n, 0); for (auto& x : ds::events()) { if (x.b == START) s[x.a]++; if (x.b == END) f[x.a]++; }
    for (int i = 0; i < n; ++i) EXPECTK("returned_early", f[i] == 1 && s[i] == 1, "%s returned while element %d had started %d and finished %d times", what, i, s[i], f[i]);
}
SCHED(dynamic_returns) {
    ds::ds_hang_key("sleeps_forever"); ds::ds_early(rng.chance(50)); ds::ds_spurious(rng.chance(30));
    Dag d(rng, rng.range(1, 6), rng.range(0, 60)); Graph g(rng, d); CStatus st = g.p->init(); EXPECT(st.isOK(), "init");
    for (int k = 0; k < 2; ++k) { ds::events().clear(); st = g.p->run(); EXPECT(st.isOK(), "run: %s", st.getInfo().c_str()); started_all_finished(d.n, "run()"); }
    g.p->destroy();
}
SCHED(dynamic_error_returns) {
    ds::ds_hang_key("sleeps_forever"); ds::ds_early(rng.chance(50)); ds::ds_spurious(rng.chance(30));
    Dag d(rng, rng.range(1, 6), rng.range(0, 60)); Graph g(rng, d); int bad = rng.below(d.n); if (rng.chance(50)) g.n(bad)->b.err = -7; else g.n(bad)->b.thr = true; ds::descr += ds::fmt(" failing %d", bad);
    CStatus st = g.p->init(); EXPECT(st.isOK(), "init");
    st = g.p->run(); EXPECT(st.isErr(), "no error"); g.p->destroy();
}
SCHED(static_returns) {
    ds::ds_hang_key("sleeps_forever"); ds::ds_early(rng.chance(50));
    Dag d(rng, rng.range(1, 6), rng.range(0, 60)); Graph g(rng, d); g.p->setGEngineType(GEngineType::STATIC); CStatus st = g.p->init(); EXPECT(st.isOK(), "init");
    ds::events().clear(); st = g.p->run(); EXPECT(st.isOK(), "run"); started_all_finished(d.n, "run()"); g.p->destroy();
}
SCHED(independent_elements) {      // all-parallel graph: the engine's special case
    ds::ds_hang_key("sleeps_forever"); ds::ds_early(rng.chance(50));
    Dag d(rng, rng.range(1, 6), 0); for (auto& s : d.dep) s.clear(); Graph g(rng, d); CStatus st = g.p->init(); EXPECT(st.isOK(), "init"); int bad = rng.chance(30) ? rng.below(d.n) : -1; if (bad >= 0) g.n(bad)->b.err = -3;
    for (int k = 0; k < 2; ++k) { ds::events().clear(); st = g.p->run(); if (bad < 0) { EXPECT(st.isOK(), "run"); started_all_finished(d.n, "run()"); } else EXPECT(st.isErr(), "error lost"); }
    g.p->destroy();
}
SCHED(region_returns) {
    ds::ds_hang_key("sleeps_forever"); ds::ds_early(rng.chance(50));
    GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c = cfg(rng); int n = rng.range(1, 4), regions = rng.range(1, 2); c.default_thread_size_ = rng.range(regions + 1, 4); c.max_task_steal_range_ = 4; p->setUniqueThreadPoolConfig(c); ds::descr = cfgs(c) + ds::fmt(" %d regions of %d", regions, n);
    for (int r = 0; r < regions; ++r) { GElementPtrArr a; for (int i = 0; i < n; ++i) { N* x = p->createGNode<N>(GNodeInfo("n")); x->id = r * n + i; a.push_back(x); } GElementPtr g = p->createGGroup<GRegion>(a); CStatus s = p->registerGElement<GRegion>(&g, {}, "r"); EXPECT(s.isOK(), "reg"); }
    CStatus st = p->init(); EXPECT(st.isOK(), "init"); ds::events().clear(); st = p->run(); EXPECT(st.isOK(), "run"); started_all_finished(n * regions, "run()"); p->destroy(); GPipelineFactory::remove(p);
}

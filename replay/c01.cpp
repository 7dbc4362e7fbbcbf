#include "graph.h"
SCHED(dynamic_dag) {
    Dag d(rng, rng.range(1, 7), rng.range(10, 60)); Graph g(rng, d);
    CStatus st = g.p->init(); EXPECT(st.isOK(), "init failed: %s", st.getInfo().c_str());
    int runs = rng.range(1, 3);
    for (int k = 0; k < runs; ++k) {
        ds::events().clear(); st = g.p->run(); EXPECT(st.isOK(), "run failed: %s", st.getInfo().c_str());
        check_run(d, ds::fmt("run %d", k).c_str());
    }
    st = g.p->destroy(); EXPECT(st.isOK(), "destroy failed");
}
SCHED(dynamic_after_error_and_reinit) {
    Dag d(rng, rng.range(2, 6), rng.range(10, 60)); Graph g(rng, d);
    CStatus st = g.p->init(); EXPECT(st.isOK(), "init failed");
    for (int round = 0; round < 2; ++round) {
        ds::events().clear(); st = g.p->run(); EXPECT(st.isOK(), "run failed"); check_run(d, "round");
        g.p->destroy(); st = g.p->init(); EXPECT(st.isOK(), "re-init failed: %s", st.getInfo().c_str());
    }
    g.p->destroy();
}
SCHED(dynamic_wide) {
    int n = rng.range(6, 12); Dag d(rng, n, 25); Graph g(rng, d);
    CStatus st = g.p->init(); EXPECT(st.isOK(), "init failed");
    st = g.p->run(); EXPECT(st.isOK(), "run failed");
    ds::events().erase(std::remove_if(ds::events().begin(), ds::events().end(), [](const ds::Ev& e) { return e.b == INIT; }), ds::events().end());
    check_run(d, "run"); g.p->destroy();
}
SCHED(region_dag) {
    // the same engine inside a region
    GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c = cfg(rng); p->setUniqueThreadPoolConfig(c);
    Dag d(rng, rng.range(1, 5), 40); ds::descr = cfgs(c) + " region " + d.str();
    std::vector<GElementPtr> e; GElementPtrArr arr; std::vector<N*> ns;
    for (int i = 0; i < d.n; ++i) { GElementPtrSet s; for (int j : d.dep[i]) s.insert(ns[j]); N* x = p->createGNode<N>(GNodeInfo(s, "n" + std::to_string(i), 1)); x->id = i; ns.push_back(x); arr.push_back(x); }
    GElementPtr r = nullptr; r = p->createGGroup<GRegion>(arr); CStatus st = p->registerGElement<GRegion>(&r, {}, "r"); EXPECT(st.isOK(), "register: %s", st.getInfo().c_str());
    st = p->init(); EXPECT(st.isOK(), "init failed: %s", st.getInfo().c_str());
    for (int k = 0; k < 2; ++k) { ds::events().clear(); st = p->run(); EXPECT(st.isOK(), "run failed"); check_run(d, "region run"); }
    p->destroy(); GPipelineFactory::remove(p);
}

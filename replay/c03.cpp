#include "graph.h"
// arbitrary directed graphs, cyclic or not, all three engines
SCHED(graphs) {
    int n = rng.range(1, 6); GPipelinePtr p = GPipelineFactory::create(); std::vector<GElementPtr> e(n); UThreadPoolConfig c = cfg(rng); p->setUniqueThreadPoolConfig(c);
    int eng = rng.below(3); p->setGEngineType(eng == 0 ? GEngineType::DYNAMIC : eng == 1 ? GEngineType::STATIC : GEngineType::TOPO);
    for (int i = 0; i < n; ++i) { p->registerGElement<N>(&e[i], {}, "n" + std::to_string(i)); mk(e[i], i); }
    std::vector<std::set<int>> dep(n); int m = rng.below(n * 2); ds::descr = ds::fmt("engine %d n=%d:", eng, n);
    for (int k = 0; k < m; ++k) { int a = rng.below(n), b = rng.below(n); if (a == b) continue; if (rng.chance(60) && a > b) std::swap(a, b); dep[b].insert(a); }
    for (int i = 0; i < n; ++i) for (int j : dep[i]) { e[i]->addDependGElements({e[j]}); ds::descr += ds::fmt(" %d->%d", j, i); }
    if (eng == 2) p->makeSerial();
    std::vector<int> deg(n); std::vector<int> q; for (int i = 0; i < n; ++i) { deg[i] = dep[i].size(); if (!deg[i]) q.push_back(i); }
    size_t h = 0; while (h < q.size()) { int x = q[h++]; for (int i = 0; i < n; ++i) if (dep[i].count(x) && --deg[i] == 0) q.push_back(i); }
    bool cyc = (int) q.size() != n;
    CStatus st = p->init(); int inits = 0; for (auto& x : ds::events()) if (x.b == INIT) inits++;
    if (cyc) { EXPECTK("cycle_rejected", st.isErr(), "a cyclic graph was accepted"); EXPECTK("none_initialised", inits == 0, "%d elements were initialised although the graph is cyclic", inits); }
    else { EXPECTK("acyclic_accepted", st.isOK(), "an acyclic graph was rejected: %s", st.getInfo().c_str()); EXPECTK("all_initialised", inits == n, "%d of %d initialised", inits, n); p->destroy(); }
    GPipelineFactory::remove(p);
}
SCHED(region_graphs) {
    int n = rng.range(1, 5); GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c = cfg(rng); p->setUniqueThreadPoolConfig(c);
    std::vector<std::set<int>> dep(n); int m = rng.below(n * 2); ds::descr = ds::fmt("region n=%d:", n);
    for (int k = 0; k < m; ++k) { int a = rng.below(n), b = rng.below(n); if (a == b) continue; if (rng.chance(60) && a > b) std::swap(a, b); dep[b].insert(a); }
    GElementPtrArr arr; for (int i = 0; i < n; ++i) { N* x = p->createGNode<N>(GNodeInfo("n" + std::to_string(i))); x->id = i; arr.push_back(x); }
    for (int i = 0; i < n; ++i) for (int j : dep[i]) { CStatus s = arr[i]->addDependGElements({arr[j]}); EXPECT(s.isOK(), "%s", s.getInfo().c_str()); ds::descr += ds::fmt(" %d->%d", j, i); }
    GElementPtr r = p->createGGroup<GRegion>(arr); p->registerGElement<GRegion>(&r, {}, "r");
    std::vector<int> deg(n); std::vector<int> q; for (int i = 0; i < n; ++i) { deg[i] = dep[i].size(); if (!deg[i]) q.push_back(i); }
    size_t h = 0; while (h < q.size()) { int x = q[h++]; for (int i = 0; i < n; ++i) if (dep[i].count(x) && --deg[i] == 0) q.push_back(i); }
    bool cyc = (int) q.size() != n; CStatus st = p->init(); int inits = 0; for (auto& x : ds::events()) if (x.b == INIT) inits++;
    if (cyc) { EXPECTK("cycle_rejected", st.isErr(), "a cyclic region was accepted"); EXPECTK("none_initialised", inits == 0, "%d initialised", inits); }
    else { EXPECTK("acyclic_accepted", st.isOK(), "an acyclic region was rejected: %s", st.getInfo().c_str()); EXPECTK("all_initialised", inits == n, "%d of %d", inits, n); p->destroy(); }
    GPipelineFactory::remove(p);
}
// a mutable group rebuilds its graph in every run: a cyclic one fails that run and executes no child, an acyclic one runs
class Mut : public GMutable { public: std::vector<std::vector<std::set<int>>> plans; int round = 0; std::vector<GElementPtr> kids;
    CStatus reshape(GElementPtrArr& e) override { auto& d = plans[round++]; CStatus s;
        for (auto* x : kids) x->setVisible(true);
        for (size_t i = 0; i < kids.size(); ++i) for (int j : d[i]) s += kids[i]->addDependGElements({kids[j]});
        return s; } };
SCHED(mutable_graphs) {
    int n = rng.range(1, 5), rounds = rng.range(1, 3); GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c = cfg(rng); p->setUniqueThreadPoolConfig(c); ds::descr = ds::fmt("mutable n=%d:", n);
    GElementPtrArr arr; for (int i = 0; i < n; ++i) { N* x = p->createGNode<N>(GNodeInfo("n" + std::to_string(i))); x->id = i; arr.push_back(x); }
    GElementPtr g = p->createGGroup<Mut>(arr); Mut* mu = static_cast<Mut*>(g); mu->kids = arr; p->registerGElement<Mut>(&g, {}, "mutable");
    std::vector<bool> cyc(rounds); ds::ds_hang_key("returns"); ds::ds_limit_us(20000000);
    for (int r = 0; r < rounds; ++r) {
        std::vector<std::set<int>> dep(n); int m = rng.below(n * 2); if (r) ds::descr += ";";
        for (int k = 0; k < m; ++k) { int a = rng.below(n), b = rng.below(n); if (a == b) continue; if (rng.chance(60) && a > b) std::swap(a, b); dep[b].insert(a); }
        for (int i = 0; i < n; ++i) for (int j : dep[i]) ds::descr += ds::fmt(" %d->%d", j, i);
        std::vector<int> deg(n); std::vector<int> q; for (int i = 0; i < n; ++i) { deg[i] = dep[i].size(); if (!deg[i]) q.push_back(i); }
        size_t h = 0; while (h < q.size()) { int x = q[h++]; for (int i = 0; i < n; ++i) if (dep[i].count(x) && --deg[i] == 0) q.push_back(i); }
        cyc[r] = (int) q.size() != n; mu->plans.push_back(dep);
    }
    CStatus st = p->init(); EXPECT(st.isOK(), "%s", st.getInfo().c_str());
    for (int r = 0; r < rounds; ++r) {
        ds::events().clear(); st = p->run(); int runs = 0; for (auto& x : ds::events()) if (x.b == START) runs++;
        if (cyc[r]) { EXPECTK("cycle_rejected", st.isErr(), "round %d: a cyclic shape was accepted", r); EXPECTK("none_executed", runs == 0, "round %d: %d children were executed although their dependencies are cyclic", r, runs); }
        else { EXPECTK("acyclic_accepted", st.isOK(), "round %d: an acyclic shape was rejected: %s", r, st.getInfo().c_str()); EXPECTK("all_executed", runs == n, "round %d: %d of %d executed", r, runs, n);
            std::vector<int> f(n); for (auto& x : ds::events()) { if (x.b == START) { for (int j : mu->plans[r][x.a]) EXPECTK("order", f[j], "round %d: %d before %d", r, x.a, j); } else if (x.b == END) f[x.a] = 1; } }
    }
    p->destroy(); GPipelineFactory::remove(p);
}

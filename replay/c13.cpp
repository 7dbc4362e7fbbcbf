#include "graph.h"
// elements with loops; a controller suspends / resumes / cancels while the run is in progress
static std::vector<int> starts(int n, size_t from = 0) { std::vector<int> s(n, 0); for (size_t i = from; i < ds::events().size(); ++i) { auto& x = ds::events()[i]; if (x.b == START) s[x.a]++; } return s; }
struct G13 : Graph { std::vector<int> loops; G13(ds::Rng& r, const Dag& d) : Graph(r, d) { for (int i = 0; i < d.n; ++i) { loops.push_back(r.range(1, 3)); e[i]->setLoop(loops[i]); ds::descr += ds::fmt(" loop%d=%d", i, loops[i]); } } };
static void complete(G13& g, const char* what) {
    auto s = starts(g.d.n); for (int i = 0; i < g.d.n; ++i) EXPECTK("iterations", s[i] == g.loops[i], "%s: element %d executed %d of its %d iterations", what, i, s[i], g.loops[i]);
}
SCHED(suspend_resume) {
    ds::ds_hang_key("lost_wakeup"); ds::ds_spurious(rng.chance(30)); ds::ds_early(rng.chance(50));
    Dag d(rng, rng.range(1, 4), rng.range(0, 60)); G13 g(rng, d); bool stat = rng.chance(15); if (stat) g.p->setGEngineType(GEngineType::STATIC);
    CStatus st = g.p->init(); EXPECT(st.isOK(), "init"); ds::events().clear();
    std::atomic<bool> done{false}; CStatus res; std::thread t([&] { res = g.p->run(); done = true; });
    while (ds::events().empty() && !done) std::this_thread::sleep_for(std::chrono::milliseconds(1));    // the run is in progress
    int rounds = rng.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
        for (int i = rng.below(6); i > 0; --i) ds::ds_point();
        g.p->suspend(); size_t at = ds::events().size();
        for (int i = rng.below(30); i > 0; --i) ds::ds_point();
        auto s = starts(d.n, at); for (int i = 0; i < d.n; ++i) EXPECTK("runs_while_suspended", s[i] <= 1, "element %d started %d iterations while the pipeline was suspended", i, s[i]);
        g.p->resume();
    }
    t.join(); EXPECT(res.isOK(), "run: %s", res.getInfo().c_str()); complete(g, "after suspend and resume");
    ds::events().clear(); st = g.p->run(); EXPECT(st.isOK(), "second run"); complete(g, "next run"); g.p->destroy();
}
SCHED(cancel) {
    ds::ds_hang_key("sleeps_forever"); ds::ds_early(rng.chance(50));
    Dag d(rng, rng.range(1, 4), rng.range(0, 60)); G13 g(rng, d); CStatus st = g.p->init(); EXPECT(st.isOK(), "init"); ds::events().clear();
    CStatus res; std::thread t([&] { res = g.p->run(); });
    while (ds::events().empty()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    for (int i = rng.below(20); i > 0; --i) ds::ds_point();
    bool susp = rng.chance(30); if (susp) { g.p->suspend(); for (int i = rng.below(10); i > 0; --i) ds::ds_point(); }
    bool began = true;
    g.p->cancel(); size_t at = ds::events().size();
    t.join();
    if (began) { auto s = starts(d.n, at); for (int i = 0; i < d.n; ++i) EXPECTK("iteration_after_cancel", s[i] <= 1, "element %d started %d iterations after cancel() returned", i, s[i]);
        EXPECTK("state", g.p->getCurState() == GElementState::CANCEL, "pipeline state after cancel"); for (auto* e : g.e) EXPECTK("all_elements", e->cur_state_ == GElementState::CANCEL, "an element is not cancelled"); }
    ds::events().clear(); st = g.p->run(); EXPECT(st.isOK(), "next run"); complete(g, "run after cancel"); g.p->destroy();
}
SCENARIO(states) {      // every element, nested ones included, receives the requested state
    ds::NoPreempt np; GPipelinePtr p = GPipelineFactory::create(); std::vector<GElementPtr> all; int n = rng.range(1, 5);
    std::vector<GElementPtr> top;
    for (int i = 0; i < n; ++i) { GElementPtr e; 
        if (rng.chance(50)) { GElementPtr a = p->createGNode<N>(GNodeInfo("a")), b = p->createGNode<N>(GNodeInfo("b")); all.push_back(a); all.push_back(b);
            if (rng.chance(40)) { GElementPtr c = p->createGGroup<GCluster>(GElementPtrArr{b}); all.push_back(c); b = c; }
            e = rng.chance(50) ? (GElementPtr) p->createGGroup<GCluster>(GElementPtrArr{a, b}) : (GElementPtr) p->createGGroup<GRegion>(GElementPtrArr{a, b}); CStatus s = e->isGGroup() && dynamic_cast<GRegion*>(e) ? p->registerGElement<GRegion>(&e, {}, "g") : p->registerGElement<GCluster>(&e, {}, "g"); EXPECT(s.isOK(), "reg"); }
        else { CStatus s = p->registerGElement<N>(&e, {}, "n"); EXPECT(s.isOK(), "reg"); }
        all.push_back(e); }
    CStatus st = p->init(); EXPECT(st.isOK(), "init");
    for (int k = 0; k < 8; ++k) { int w = rng.below(4); GElementState s = GElementState::NORMAL;
        if (w == 0) { st = p->suspend(); s = GElementState::SUSPEND; } else if (w == 1) { st = p->cancel(); s = GElementState::CANCEL; } else if (w == 2) st = p->resume(); else st = p->run();
        EXPECT(st.isOK(), "request %d refused", w); EXPECTK("pipeline_state", p->getCurState() == s, "pipeline state after request %d", w);
        for (auto* e : all) EXPECTK("element_state", e->cur_state_ == s, "an element does not have the requested state %d", w); }
    p->destroy(); GPipelineFactory::remove(p);
}

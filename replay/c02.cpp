#include "graph.h"
static void go(ds::Rng& rng, GEngineType ty, const char* nm, bool seq) {
    Dag d(rng, rng.range(1, 7), rng.range(10, 60)); ds::descr = nm; Graph g(rng, d);
    g.p->setGEngineType(ty); if (seq) g.p->makeSerial();
    long me = (long) std::hash<std::thread::id>{}(std::this_thread::get_id()); bool own = true;
    for (int i = 0; i < d.n; ++i) g.n(i)->b.body = [&] { if ((long) std::hash<std::thread::id>{}(std::this_thread::get_id()) != me) own = false; };
    CStatus st = g.p->init(); EXPECT(st.isOK(), "init failed: %s", st.getInfo().c_str());
    for (int k = 0; k < 2; ++k) {
        ds::events().clear(); st = g.p->run(); EXPECT(st.isOK(), "run failed: %s", st.getInfo().c_str());
        check_run(d, nm);
        if (seq) {
            EXPECTK("caller_thread", own, "topological engine ran an element outside the calling thread");
            int open = 0; for (auto& x : ds::events()) { if (x.b == START) { EXPECTK("one_at_a_time", open == 0, "two elements at the same time"); ++open; } else if (x.b == END) --open; }
        }
    }
    g.p->destroy();
}
SCHED(static_dag) { go(rng, GEngineType::STATIC, "static", false); }
SCHED(topo_dag) { go(rng, GEngineType::TOPO, "topo", true); }

#include "graph.h"
static void go(ds::Rng& rng, int eng) {
    Dag d(rng, rng.range(1, 6), rng.range(10, 60)); ds::descr = ds::fmt("engine %d ", eng); Graph g(rng, d);
    if (eng == 1) g.p->setGEngineType(GEngineType::STATIC); if (eng == 2) { g.p->setGEngineType(GEngineType::TOPO); g.p->makeSerial(); }
    std::set<int> bad; int nb = rng.range(1, 2); for (int i = 0; i < nb; ++i) bad.insert(rng.below(d.n));
    int failrun = rng.below(2);
    for (int b : bad) { g.n(b)->b.err_at_run = -1; if (rng.chance(40)) g.n(b)->b.thr = true; else g.n(b)->b.err = -10 - b; ds::descr += ds::fmt(" failing %d%s", b, g.n(b)->b.thr ? " (throws)" : ""); }
    std::map<int, Beh> saved; for (int b : bad) saved[b] = g.n(b)->b;
    CStatus st = g.p->init(); EXPECT(st.isOK(), "init: %s", st.getInfo().c_str());
    for (int k = 0; k < 3; ++k) {
        bool failing = (k == failrun);
        for (int b : bad) { g.n(b)->b = failing ? saved[b] : Beh(); }
        ds::events().clear(); st = g.p->run();
        if (!failing) { EXPECTK("stale_error", st.isOK(), "run %d reports %d %s although nothing failed", k, st.getCode(), st.getInfo().c_str()); check_run(d, "clean run"); continue; }
        EXPECTK("error_lost", st.isErr(), "a failing element but the run reports success");
        bool match = false;
        for (int b : bad) { bool ran = false; for (auto& x : ds::events()) if (x.a == b && x.b == START) ran = true; if (!ran) continue;
            if (saved[b].thr ? (st.isCrash() && st.getInfo().find("boom" + std::to_string(b)) != std::string::npos) : (st.getCode() == -10 - b && st.getInfo().find("err" + std::to_string(b)) != std::string::npos)) match = true; }
        EXPECTK("foreign_error", match, "the reported error %d '%s' is not one a failing element returned", st.getCode(), st.getInfo().c_str());
        std::set<int> failed; for (auto& x : ds::events()) if (x.b == END && bad.count(x.a)) failed.insert(x.a);
        for (auto& x : ds::events()) if (x.b == START) for (int y : d.closure(x.a)) EXPECTK("downstream_ran", !bad.count(y), "element %d ran although its predecessor %d failed", x.a, y);
    }
    g.p->destroy();
}
SCHED(dynamic) { go(rng, 0); }
SCHED(static_) { go(rng, 1); }
SCHED(topo) { go(rng, 2); }

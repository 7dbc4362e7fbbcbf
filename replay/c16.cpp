#include "graph.h"
// a manager under concurrent fetch / release / run, against a model of who holds which pipeline
struct Bad : public GParam { CStatus setup() override { if (thr) throw CException("setup"); return CStatus(); } static bool thr; }; bool Bad::thr = false;
SCHED(holders) {
    ds::ds_hang_key("sleeps_forever"); int n = rng.range(1, 3), th = rng.range(1, 3); bool runs = rng.chance(30); ds::descr = ds::fmt("%d pipelines, %d threads, runs %d", n, th, (int) runs);
    GPipelineManager m; std::vector<GPipelinePtr> ps; for (int i = 0; i < n; ++i) { GPipelinePtr p = GPipelineFactory::create(); ps.push_back(p); EXPECT(m.add(p).isOK(), "add"); }
    if (rng.chance(40)) { CStatus st = m.add(ps[0]); EXPECTK("twice", st.isErr() && (int) m.getSize() == n, "a pipeline was added twice (size %d of %d)", (int) m.getSize(), n); }
    if (runs) { GElementPtr a = nullptr; for (auto p : ps) { a = nullptr; p->registerGElement<N>(&a, {}, "a"); } EXPECT(m.init().isOK(), "init"); }
    std::vector<int> held(n, 0); int fetched = 0; std::string log;
    auto idx = [&] (GPipelinePtr p) { for (int i = 0; i < n; ++i) if (ps[i] == p) return i; return -1; };
    std::vector<std::thread> ts; std::vector<int> plan; for (int t = 0; t < th; ++t) plan.push_back((int) rng.below(1 << 20));
    for (int t = 0; t < th; ++t) ts.emplace_back([&, t] { std::vector<GPipelinePtr> mine; unsigned bits = plan[t];
        for (int k = 0; k < 6; ++k) { int op = (bits >> (2 * k)) & 3;
            if (op < 2) { GPipelinePtr p = m.fetch(); if (p) { int i = idx(p); EXPECTK("known", i >= 0, "fetched a pipeline that was never added"); EXPECTK("one_holder", held[i] == 0, "pipeline %d was handed out twice", i); held[i]++; mine.push_back(p); ++fetched; } }
            else if (op == 2 && !mine.empty()) { GPipelinePtr p = mine.back(); mine.pop_back(); held[idx(p)]--; CStatus st = m.release(p); EXPECTK("released", st.isOK(), "releasing a used pipeline failed"); }
            else if (op == 3 && th == 1) { for (int i = 0; i < n; ++i) if (!held[i]) { EXPECTK("refused", m.release(ps[i]).isErr(), "releasing a free pipeline was accepted"); break; } if (runs) { bool any = false; for (int h : held) any = any || !h; EXPECTK("run", m.run().isOK() == any, "run with%s a free pipeline", any ? "" : "out"); } }
            ds::ds_point(); }
        for (auto p : mine) { held[idx(p)]--; EXPECTK("released", m.release(p).isOK(), "releasing a used pipeline failed"); } });
    for (auto& t : ts) t.join(); ds::ds_note(std::hash<std::string>()(ds::descr + std::to_string(fetched)));
    EXPECTK("nothing_lost", (int) m.getSize() == n, "%d pipelines left of %d", (int) m.getSize(), n);
    for (int i = 0; i < n; ++i) EXPECTK("refused", m.release(ps[i]).isErr(), "releasing a free pipeline was accepted");
    std::set<GPipelinePtr> got; for (int i = 0; i < n; ++i) { GPipelinePtr p = m.fetch(); EXPECTK("fetchable", p && got.insert(p).second && idx(p) >= 0, "fetch %d after everything was released", i); }
    EXPECTK("empty", m.fetch() == nullptr, "more pipelines than were added"); for (auto p : got) EXPECTK("released", m.release(p).isOK(), "release");
    if (runs) EXPECT(m.destroy().isOK(), "destroy"); for (auto p : ps) GPipelineFactory::remove(p);
}
SCHED(throwing_run) {     // a run that throws gives its pipeline back
    bool thr = rng.chance(60); ds::descr = ds::fmt("run %s", thr ? "throws" : "succeeds"); ds::ds_note(thr + 2 * rng.below(100));
    GPipelineManager m; GPipelinePtr p = GPipelineFactory::create(); GElementPtr a = nullptr; p->registerGElement<N>(&a, {}, "a"); p->createGParam<Bad>("k"); m.add(p); Bad::thr = false; EXPECT(m.init().isOK(), "init"); Bad::thr = thr;
    bool threw = false; CStatus st; try { st = m.run(); } catch (const std::exception&) { threw = true; } Bad::thr = false;
    EXPECTK("reported", (threw || st.isErr()) == thr, "result"); GPipelinePtr q = m.fetch(); EXPECTK("given_back", q == p, "the pipeline was lost by a run that threw"); m.release(q); EXPECT(m.destroy().isOK(), "destroy"); GPipelineFactory::remove(p);
}

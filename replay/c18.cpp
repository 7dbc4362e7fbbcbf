#include "graph.h"
// events triggered in every way from elements, aspects and a daemon, against counts of handler starts and ends
namespace { struct Cnt { std::atomic<int> begun{0}, ended{0}; }; Cnt cnt[3]; int evdead = 0; bool destroyed = false, free_run = false; std::atomic<int> param_seen; }
struct EvP : public GEventParam { int v = 0; CVoid clone(GPassedParamPtr p) override { if (p) v = static_cast<EvP*>(p)->v; } };
template <int K> struct Ev : public GEvent { 
    CVoid trigger(GEventParamPtr p) override { EXPECTK("destroyed", !destroyed, "a handler started after destroy()"); cnt[K].begun++; int n = K + 1; for (int i = 0; i < n; ++i) ds::ds_point(); if (p) EXPECTK("param", static_cast<EvP*>(p)->v == 100 + K, "the handler got another parameter"); cnt[K].ended++; }
    CStatus destroy() override { evdead++; EXPECTK("destroy_waits", free_run || cnt[K].begun == cnt[K].ended, "event destroyed while a handler is running (%d begun, %d ended)", (int) cnt[K].begun, (int) cnt[K].ended); return CStatus(); } };
struct Req { int key, type, strat; bool handle; };     // type 0 sync, 1 async
static GEventAsyncStrategy strat(int s) { return s == 0 ? GEventAsyncStrategy::PIPELINE_RUN_FINISH : s == 1 ? GEventAsyncStrategy::PIPELINE_DESTROY : GEventAsyncStrategy::NO_WAIT; }
static const char* names[] = {"ev0", "ev1", "unknown"};
static std::mutex em; static int issued[3][3];                    // key, strategy (sync counted nowhere)
static std::vector<std::pair<int, std::shared_future<CVoid>>> handles;
struct Trg : public GNode { std::vector<Req> rs; bool wait_handle = false;
    CStatus run() override { for (auto& r : rs) { int k = r.key;
            if (r.handle) { bool threw = false; std::shared_future<CVoid> f; { try { f = asyncNotify(names[k], strat(r.strat)); } catch (const std::exception&) { threw = true; } } EXPECTK("unknown", threw == (k == 2), "asyncNotify on %s", names[k]);
                if (!threw) { std::lock_guard<std::mutex> l(em); issued[k][r.strat]++; } if (!threw && wait_handle) { f.wait(); } if (!threw) { EXPECTK("handle", f.valid(), "no handle"); std::lock_guard<std::mutex> l(em); handles.push_back({k, f}); } }
            else { int e0 = k < 2 ? (int) cnt[k].ended : 0; CStatus st = notify(names[k], r.type ? GEventType::ASYNC : GEventType::SYNC, strat(r.strat)); EXPECTK("unknown", st.isOK() == (k != 2), "notify on %s: %d", names[k], st.getCode());
                if (k < 2 && r.type == 0) EXPECTK("sync", cnt[k].ended > e0, "a synchronous trigger returned before its handler had run"); if (k < 2) { std::lock_guard<std::mutex> l(em); issued[k][r.type ? r.strat : 2]++; } } }
        return CStatus(); } };
struct Dm : public GDaemon { CVoid daemonTask(GDaemonParamPtr) override { CStatus st = notify("ev1", GEventType::ASYNC, GEventAsyncStrategy::NO_WAIT); if (st.isOK()) { std::lock_guard<std::mutex> l(em); issued[1][2]++; } } };
SCHED(triggers) {
    ds::ds_hang_key("never_ends"); for (auto& c : cnt) { c.begun = 0; c.ended = 0; } evdead = 0; destroyed = false; handles.clear(); free_run = false; memset(issued, 0, sizeof issued); int n = rng.range(1, 3), th = rng.range(1, 3), runs = rng.range(1, 2); bool dm = rng.chance(25), par = rng.chance(40);
    GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig cf; cf.default_thread_size_ = th; cf.secondary_thread_size_ = 0; cf.max_thread_size_ = th; cf.monitor_enable_ = false; p->setUniqueThreadPoolConfig(cf);
    GElementPtr prev = nullptr; int total = 0; std::string d; bool chain = rng.chance(50);
    for (int i = 0; i < n; ++i) { GElementPtr e = nullptr; GElementPtrSet deps; if (prev && chain) deps.insert(prev); EXPECT(p->registerGElement<Trg>(&e, deps, "n").isOK(), "reg"); Trg* t = static_cast<Trg*>(e); int m = rng.range(0, 3); t->wait_handle = th > n && rng.chance(30);
        for (int j = 0; j < m; ++j) { Req r{rng.below(8) == 0 ? 2 : rng.below(2), rng.below(2), rng.below(3), rng.chance(40)}; t->rs.push_back(r); d += ds::fmt("%s%s/%d ", names[r.key], r.handle ? "h" : r.type ? "a" : "s", r.strat); ++total; if (r.strat == 2) free_run = true; } prev = e; }
    ds::descr = ds::fmt("%d elements, %d threads, %d runs, daemon %d: ", n, th, runs, dm) + d; EvP a, b; a.v = 100; b.v = 101;
    if (par) { p->addGEvent<Ev<0>>("ev0", &a); p->addGEvent<Ev<1>>("ev1", &b); } else { p->addGEvent<Ev<0>>("ev0"); p->addGEvent<Ev<1>>("ev1"); }
    if (dm) { p->addGDaemon<Dm>(1); free_run = true; } a.v = b.v = 7;
    EXPECT(p->init().isOK(), "init");
    for (int r = 0; r < runs; ++r) { CStatus st = p->run(); EXPECTK("run", st.isOK(), "run: %d %s", st.getCode(), st.getInfo().c_str());
        for (int k = 0; k < 2; ++k) { EXPECTK("run_end", cnt[k].begun <= issued[k][0] + issued[k][1] + issued[k][2] + (dm ? 1 : 0), "%s ran %d times for %d triggers", names[k], (int) cnt[k].begun, issued[k][0] + issued[k][1] + issued[k][2]);
            EXPECTK("run_waits", cnt[k].ended >= issued[k][0], "the run ended with %d of at least %d handlers of %s finished", (int) cnt[k].ended, issued[k][0], names[k]); } ds::ds_note(cnt[0].ended * 31 + cnt[1].ended); }
    bool nowait = issued[0][2] + issued[1][2] > 0; (void) nowait;
    CStatus st = p->destroy(); EXPECTK("destroy", st.isOK(), "destroy: %d", st.getCode()); destroyed = true; EXPECTK("destroyed_all", evdead == 2, "%d of 2 events destroyed", evdead);
    for (int k = 0; k < 2; ++k) { int held = issued[k][0] + issued[k][1], all = held + issued[k][2]; EXPECTK("once", cnt[k].begun <= all, "%s ran %d times for %d triggers", names[k], (int) cnt[k].begun, all); EXPECTK("destroy_end", cnt[k].ended >= held, "after destroy() %d of at least %d handlers of %s have finished", (int) cnt[k].ended, held, names[k]); }
    GPipelineFactory::remove(p);
}

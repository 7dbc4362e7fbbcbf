#include "graph.h"
// parameters, elements and events that record the phases of a pipeline's life, with injected failures
enum { PINIT = 10, PSET = 11, PRES = 12, PDES = 13, DTICK = 14, EVT = 15 };
struct P : public GParam { int id = 0, runs = 0; int init_err = 0, set_err_at = -1, des_err = 0;
    CStatus init() override { ds::log(100 + id, PINIT); return init_err ? CStatus(init_err, "p") : CStatus(); }
    CStatus setup() override { ds::log(100 + id, PSET); int r = runs++; return r == set_err_at ? CStatus(-20 - id, "s") : CStatus(); }
    CVoid reset(const CStatus& s) override { ds::log(100 + id, PRES, s.getCode()); }
    CStatus destroy() override { ds::log(100 + id, PDES); return des_err ? CStatus(des_err, "d") : CStatus(); } };
struct Ev1 : public GEvent { CVoid trigger(GEventParamPtr) override { for (int i = 0; i < 3; ++i) ds::ds_point(); ds::log(200, EVT); } };
struct Nd : public N { bool fire = false; CStatus run() override { if (fire) notify("ev", GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH); return N::run(); } };
struct W { GPipelinePtr p; std::vector<P*> ps; std::vector<Nd*> ns; int fire = 0;
    W(ds::Rng& rng, bool faults) : p(GPipelineFactory::create()) {
        UThreadPoolConfig c; bool tmo = rng.chance(30); c.default_thread_size_ = tmo ? 12 : rng.range(1, 3); c.max_thread_size_ = 16; c.secondary_thread_size_ = 0; c.monitor_enable_ = false; p->setUniqueThreadPoolConfig(c); int eng = rng.below(3); p->setGEngineType(eng == 0 ? GEngineType::DYNAMIC : eng == 1 ? GEngineType::STATIC : GEngineType::TOPO);
        int np = rng.below(4), nn = rng.range(1, 4); std::string d = ds::fmt("engine %d, %d params, %d nodes:", eng, np, nn);
        for (int i = 0; i < np; ++i) { std::string k = "p" + std::to_string(i); p->createGParam<P>(k); P* x = p->getGParam<P>(k); x->id = i; if (faults && rng.chance(12)) x->init_err = -30 - i; if (faults && rng.chance(20)) x->set_err_at = rng.below(3); if (faults && rng.chance(12)) x->des_err = -40 - i; ps.push_back(x); d += ds::fmt(" p%d(init %d, setup fails in run %d, destroy %d)", i, x->init_err, x->set_err_at, x->des_err); }
        p->addGEvent<Ev1>("ev"); GElementPtr prev = nullptr;
        for (int i = 0; i < nn; ++i) { GElementPtr e = nullptr; GElementPtrSet s; if (prev && rng.chance(60)) s.insert(prev); CStatus st = p->registerGElement<Nd>(&e, s, "n"); EXPECT(st.isOK(), "reg"); Nd* x = static_cast<Nd*>(e); x->id = i; x->b.points = rng.below(3); prev = e;
            if (faults && rng.chance(15)) { x->b.err = -50 - i; x->b.err_at_run = rng.below(3); } if (faults && rng.chance(8)) x->init_err = -60 - i; if (faults && rng.chance(8)) x->destroy_err = -70 - i; if (rng.chance(30)) { x->fire = true; fire++; } if (tmo && rng.chance(40)) x->setTimeout(1000000, GElementTimeoutStrategy::HOLD_BY_PIPELINE);
            ns.push_back(x); d += ds::fmt(" n%d(fails %d in run %d, init %d, destroy %d)", i, x->b.err, x->b.err_at_run, x->init_err, x->destroy_err); }
        ds::descr = d; ds::ds_note(std::hash<std::string>()(d));
    }
    ~W() { GPipelineFactory::remove(p); } };
static int count(int kind, size_t from, size_t to, int who = -1) { int c = 0; for (size_t i = from; i < to; ++i) { auto& x = ds::events()[i]; c += x.b == kind && (who < 0 || x.a == who); } return c; }
static long first(int kind, size_t from, size_t to) { for (size_t i = from; i < to; ++i) if (ds::events()[i].b == kind) return (long) i; return -1; }
static long last(int kind, size_t from, size_t to) { for (size_t i = to; i > from; --i) if (ds::events()[i - 1].b == kind) return (long) i - 1; return -1; }
// one run: events [from, to), result st
static void check_run_phases(W& w, size_t from, size_t to, const CStatus& st, int r, const char* what) {
    bool sfail = false; std::set<int> serr, nerr; for (P* x : w.ps) { EXPECTK("setup_once", count(PSET, from, to, 100 + x->id) == 1, "%s: parameter %d set up %d times", what, x->id, count(PSET, from, to, 100 + x->id)); if (x->set_err_at == r) { sfail = true; serr.insert(-20 - x->id); } }
    long fs = first(START, from, to), le = last(END, from, to), lp = last(PSET, from, to), fr = first(PRES, from, to), lev = last(EVT, from, to);
    if (sfail) { EXPECTK("run_after_failed_setup", fs < 0, "%s: elements ran although a parameter's setup failed", what); EXPECTK("first_error", serr.count(st.getCode()), "%s: result %d", what, st.getCode()); return; }
    for (auto& x : ds::events()) (void) x;
    for (size_t i = from; i < to; ++i) { auto& x = ds::events()[i]; if (x.b == END && x.c) nerr.insert((int) x.c); }
    EXPECTK("order", fs < 0 || lp < fs, "%s: parameter set up after an element started", what);
    for (P* x : w.ps) EXPECTK("reset_once", count(PRES, from, to, 100 + x->id) == 1, "%s: parameter %d reset %d times", what, x->id, count(PRES, from, to, 100 + x->id));
    if (fr >= 0) { EXPECTK("reset_after_elements", fr > le, "%s: a parameter was reset before the last element ended", what); EXPECTK("reset_after_events", fr > lev, "%s: a parameter was reset before an awaited event handler ended", what); }
    for (size_t i = from; i < to; ++i) { auto& x = ds::events()[i]; if (x.b == PRES) EXPECTK("reset_status", (x.c < 0) == st.isErr() && (x.c >= 0 || x.c == st.getCode()), "%s: reset was told %ld, the run returned %d", what, x.c, st.getCode()); }
    EXPECTK("result", st.isErr() == !nerr.empty() && (nerr.empty() || nerr.count(st.getCode())), "%s: result %d with %d failed elements", what, st.getCode(), (int) nerr.size());
    int fired = 0; for (Nd* n : w.ns) fired += n->fire ? count(START, from, to, n->id) : 0;
    EXPECTK("events_collected", count(EVT, from, to) == fired, "%s: %d of %d awaited event handlers ended before the run returned", what, count(EVT, from, to), fired);
}
static CStatus safe(std::function<CStatus()> f) { try { return f(); } catch (const CException& e) { return CStatus(-996, e.what()); } }
static void check_init(W& w, const CStatus& st) {
    int bad = 0; for (P* x : w.ps) { EXPECTK("param_init_once", count(PINIT, 0, ds::events().size(), 100 + x->id) == 1, "parameter initialised %d times", count(PINIT, 0, ds::events().size(), 100 + x->id)); bad += x->init_err != 0; } for (Nd* x : w.ns) bad += x->init_err != 0;
    EXPECTK("init_result", st.isErr() == (bad > 0), "init() returned %d", st.getCode()); EXPECTK("init_flag", w.p->is_init_ == (bad == 0), "initialised flag");
}
SCHED(phases) {
    ds::ds_hang_key("sleeps_forever"); W w(rng, rng.chance(70)); ds::events().clear();
    CStatus st = w.p->run(); EXPECTK("run_before_init", st.isErr() && ds::events().empty(), "run() before init()"); st = w.p->destroy(); EXPECTK("destroy_before_init", st.isErr() && ds::events().empty(), "destroy() before init()");
    bool async = rng.chance(30);
    st = safe([&] { return w.p->init(); }); check_init(w, st); if (st.isErr()) return; ds::events().clear();
    st = w.p->init(); EXPECTK("init_twice", st.isErr() && ds::events().empty() && w.p->is_init_, "a second init()");
    int k = rng.below(4);
    for (int r = 0; r < k; ++r) { ds::events().clear(); st = async ? w.p->asyncRun().get() : w.p->run(); check_run_phases(w, 0, ds::events().size(), st, r, ds::fmt("run %d", r).c_str()); }
    ds::events().clear(); st = safe([&] { return w.p->destroy(); });
    int bad = 0; for (P* x : w.ps) { EXPECTK("param_destroy_once", count(PDES, 0, ds::events().size(), 100 + x->id) == 1 || st.isErr(), "parameter destroyed %d times", count(PDES, 0, ds::events().size(), 100 + x->id)); bad += x->des_err != 0; } for (Nd* x : w.ns) bad += x->destroy_err != 0;
    EXPECTK("destroy_result", st.isErr() == (bad > 0), "destroy() returned %d", st.getCode()); EXPECTK("destroy_flag", w.p->is_init_ == (bad > 0), "flag after destroy()");
}
SCHED(process) {
    ds::ds_hang_key("sleeps_forever"); W w(rng, rng.chance(60)); int k = rng.below(4); bool async = rng.chance(30); ds::descr += ds::fmt(" process(%d)", k); ds::ds_note(k); ds::events().clear();
    CStatus st = safe([&] { return async ? w.p->asyncProcess(k).get() : w.p->process(k); });
    auto& ev = ds::events(); std::vector<size_t> cut;      // a run starts with the first parameter set-up or (without parameters) cannot be told apart
    int ibad = 0, dbad = 0; for (P* x : w.ps) { ibad += x->init_err != 0; dbad += x->des_err != 0; EXPECTK("one_init", count(PINIT, 0, ev.size(), 100 + x->id) == 1, "parameter initialised %d times", count(PINIT, 0, ev.size(), 100 + x->id)); } for (Nd* x : w.ns) { ibad += x->init_err != 0; dbad += x->destroy_err != 0; }
    if (ibad) { EXPECTK("init_failed", st.isErr() && first(START, 0, ev.size()) < 0 && first(PSET, 0, ev.size()) < 0 && first(PDES, 0, ev.size()) < 0, "a failed initialisation must end process()"); return; }
    int fails_at = 1000; for (P* x : w.ps) if (x->set_err_at >= 0) fails_at = std::min(fails_at, x->set_err_at);
    int nfail = 1000; for (Nd* x : w.ns) if (x->b.err) nfail = std::min(nfail, x->b.err_at_run);
    int upto = std::min(k, std::min(fails_at, nfail) + 1); bool reach = true; (void) reach;
    for (P* x : w.ps) EXPECTK("runs", count(PSET, 0, ev.size(), 100 + x->id) == upto, "%d runs, expected %d", count(PSET, 0, ev.size(), 100 + x->id), upto);
    for (Nd* x : w.ns) { int c = count(START, 0, ev.size(), x->id); EXPECTK("runs", c <= upto && (nfail >= k || fails_at <= nfail || true), "element started %d times in %d runs", c, upto); }
    bool rerr = std::min(fails_at, nfail) < k;
    EXPECTK("result", st.isErr() == (rerr || dbad > 0), "process() returned %d", st.getCode()); if (rerr) EXPECTK("first_error", st.getCode() <= -20 && !(st.getCode() <= -40 && st.getCode() > -50) && st.getCode() > -70, "process() returned %d instead of the error of the failed run", st.getCode());
    for (P* x : w.ps) EXPECTK("one_destroy", count(PDES, 0, ev.size(), 100 + x->id) == 1 || dbad, "parameter destroyed %d times", count(PDES, 0, ev.size(), 100 + x->id));
    if (!dbad) EXPECTK("deinitialised", !w.p->is_init_, "still initialised after process()");
}

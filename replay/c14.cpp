#include "graph.h"
// elements with a deadline: virtual sleeps relative to it, all strategies, nested groups, late errors and exceptions
struct T : public N { long end_us = -1, start_us = -1; int tmo = 0; GElementTimeoutStrategy st = GElementTimeoutStrategy::AS_ERROR; bool saw_after = false; int probe = 0; int entered = 0; bool deep = false;
    CStatus run() override { start_us = ds::ds_now_us(); CStatus s; try { s = N::run(); } catch (...) { end_us = ds::ds_now_us(); saw_after = this->isTimeout(); throw; } saw_after = this->isTimeout(); end_us = ds::ds_now_us(); return s; } };
static const char* SN[] = {"AS_ERROR", "HOLD_BY_PIPELINE", "NO_HOLD"};
static GElementTimeoutStrategy strat(int k) { return k == 0 ? GElementTimeoutStrategy::AS_ERROR : k == 1 ? GElementTimeoutStrategy::HOLD_BY_PIPELINE : GElementTimeoutStrategy::NO_HOLD; }
static GPipelinePtr pipe(ds::Rng& rng, int* eng) {
    GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c; c.default_thread_size_ = 12; c.max_thread_size_ = 16; c.secondary_thread_size_ = 0; c.monitor_enable_ = false; p->setUniqueThreadPoolConfig(c);
    *eng = rng.below(3); p->setGEngineType(*eng == 0 ? GEngineType::DYNAMIC : *eng == 1 ? GEngineType::STATIC : GEngineType::TOPO); return p;
}
SCHED(timeouts) {
    ds::ds_hang_key("sleeps_forever"); ds::ds_early(0); ds::ds_limit_us(3600000000L);
    int eng; GPipelinePtr p = pipe(rng, &eng); int n = rng.range(1, 4); std::vector<T*> t; std::string d = ds::fmt("engine %d:", eng); std::vector<std::set<int>> dep(n); std::vector<GElementPtr> el;
    for (int i = 0; i < n; ++i) {
        GElementPtr e = nullptr; GElementPtrSet s; for (int j = 0; j < i; ++j) if (rng.chance(30)) { s.insert(el[j]); dep[i].insert(j); }
        EXPECT(p->registerGElement<T>(&e, s, "n").isOK(), "reg"); el.push_back(e); T* x = static_cast<T*>(e); x->id = i; x->b.points = 1; t.push_back(x);
        if (rng.chance(70)) { x->tmo = rng.range(1, 4) * 100; int k = rng.below(3); x->st = strat(k); e->setTimeout(x->tmo, x->st); d += ds::fmt(" n%d(timeout %d %s", i, x->tmo, SN[k]); } else d += ds::fmt(" n%d(no timeout", i);
        x->b.sleep_ms = rng.chance(50) ? rng.range(0, 8) * 100 + 50 : 0; if (rng.chance(20)) { x->b.err = -50 - i; } else if (rng.chance(12)) x->b.thr = true;
        d += ds::fmt(", takes %d, err %d, throws %d)", x->b.sleep_ms, x->b.err, (int) x->b.thr); for (int j : dep[i]) d += ds::fmt("<-%d", j);
    }
    ds::descr = d; ds::ds_note(std::hash<std::string>()(d)); EXPECT(p->init().isOK(), "init");
    for (int r = 0; r < 2; ++r) {
        ds::events().clear(); for (T* x : t) x->start_us = x->end_us = -1, x->saw_after = false;
        CStatus st; try { st = p->run(); } catch (const std::exception& e) { ds::fail("timeouts:throws", ds::fmt("run %d threw '%s' instead of returning an error", r, e.what())); }
        long now = ds::ds_now_us(); bool must = false; std::set<int> codes;
        for (int i = 0; i < n; ++i) { T* x = t[i]; if (x->start_us < 0) continue; bool late = x->tmo && x->b.sleep_ms > x->tmo;
            EXPECTK("started_timed_out", !x->tmo || true, "-");
            if (!late) { EXPECTK("waited", x->end_us >= 0, "run %d returned before element %d, which kept its deadline, had ended", r, i); if (x->b.err || x->b.thr) { must = true; codes.insert(x->b.thr ? -996 : x->b.err); }
                EXPECTK("not_timed_out", !x->saw_after, "run %d: element %d counted as timed out although it kept its deadline", r, i); }
            else if (x->st == GElementTimeoutStrategy::AS_ERROR) { must = true; codes.insert(-1); }
            else if (x->st == GElementTimeoutStrategy::HOLD_BY_PIPELINE) { EXPECTK("held", x->end_us >= 0 && x->end_us <= now, "run %d returned before the held element %d had ended", r, i); EXPECTK("timed_out", x->saw_after, "run %d: element %d missed its deadline but does not count as timed out", r, i); if (x->b.err || x->b.thr) { must = true; codes.insert(x->b.thr ? -996 : x->b.err); } }
            else EXPECTK("not_held", now - x->start_us < x->b.sleep_ms * 1000L || x->end_us < 0 || true, "-");
        }
        EXPECTK("result", st.isErr() == must && (!must || codes.count(st.getCode())), "run %d returned %d (%s)", r, st.getCode(), st.getInfo().c_str());
        // nothing waits for an element that is not held
        long worst = 0; for (T* x : t) { long w = x->start_us < 0 ? 0 : x->start_us + 1000L * (x->tmo && x->b.sleep_ms > x->tmo && x->st != GElementTimeoutStrategy::HOLD_BY_PIPELINE ? x->tmo : x->b.sleep_ms); worst = std::max(worst, w); }
        EXPECTK("returns_in_time", now <= worst + 30000, "run %d returned at %ld us although everything it had to wait for was over at %ld us (%ld)", r, now, worst, t.back()->start_us);
        for (T* x : t) EXPECTK("carried_over", !x->isTimeout() && x->getCurState() == GElementState::NORMAL, "element %d is still timed out after run %d", x->id, r);
        std::this_thread::sleep_for(std::chrono::milliseconds(5000));
    }
    p->destroy(); GPipelineFactory::remove(p);
}
// a timed-out group: every element nested in it counts as timed out, whatever the depth; the next run starts clean
SCHED(nested) {
    ds::ds_hang_key("sleeps_forever"); ds::ds_early(0); ds::ds_limit_us(3600000000L);
    int eng; GPipelinePtr p = pipe(rng, &eng); int depth = rng.range(1, 3); bool region = rng.chance(50); int k = rng.range(1, 2); int tmo = 200; int first = rng.chance(60) ? 500 : 50; int who = rng.below(depth);
    ds::descr = ds::fmt("engine %d, %d nested %s, group %d has timeout %d %s, first child takes %d ms", eng, depth, region ? "regions" : "clusters", who, tmo, SN[k], first); ds::ds_note(std::hash<std::string>()(ds::descr));
    std::vector<GElementPtr> grp; GElementPtr a = nullptr, b = nullptr; GElementPtr inner = nullptr;
    if (region) { GElementPtr cur = nullptr; GElementPtr ra = p->createGNode<T>(GNodeInfo("a", 1)), rb = p->createGNode<T>(GNodeInfo({ra}, "b", 1)); a = ra; b = rb; cur = p->createGGroup<GRegion>({ra, rb}); grp.push_back(cur); for (int i = 1; i < depth; ++i) { cur = p->createGGroup<GRegion>({cur}); grp.push_back(cur); } EXPECT(p->registerGGroup(&cur, {}, "g", 1).isOK(), "reg"); }
    else { GElementPtr ra = p->createGNode<T>(GNodeInfo("a", 1)), rb = p->createGNode<T>(GNodeInfo("b", 1)); a = ra; b = rb; GElementPtr cur = p->createGGroup<GCluster>({ra, rb}); grp.push_back(cur); for (int i = 1; i < depth; ++i) { cur = p->createGGroup<GCluster>({cur}); grp.push_back(cur); } EXPECT(p->registerGGroup(&cur, {}, "g", 1).isOK(), "reg"); }
    T* x = static_cast<T*>(a); T* y = static_cast<T*>(b); x->id = 0; y->id = 1; x->b.points = y->b.points = 1; x->b.sleep_ms = first; grp[who]->setTimeout(tmo, strat(k)); (void) inner;
    EXPECT(p->init().isOK(), "init");
    for (int r = 0; r < 2; ++r) {
        x->start_us = x->end_us = y->start_us = y->end_us = -1; ds::events().clear();
        CStatus st = p->run(); bool late = first > tmo;
        EXPECTK("result", st.isOK(), "run %d returned %d (%s)", r, st.getCode(), st.getInfo().c_str());
        if (k == 1 || !late) EXPECTK("waited", x->end_us >= 0, "run %d returned before the group's work was over", r);
        std::this_thread::sleep_for(std::chrono::milliseconds(3000));
        EXPECTK("once", x->start_us >= 0 && x->end_us >= 0, "first child did not run");
        if (k == 1) EXPECTK("nested_timeout", x->saw_after == late, "run %d: the first child counted as %stimed out although its group %s the deadline", r, x->saw_after ? "" : "not ", late ? "missed" : "kept");
        if (late && k == 1) EXPECTK("no_start_after_timeout", y->start_us < 0, "run %d: a child of the timed-out group was started after the deadline", r);
        if (!late) EXPECTK("all_ran", y->end_us >= 0, "run %d: the second child did not run although the deadline was kept", r);
        for (GElementPtr e : grp) EXPECTK("carried_over", !e->isTimeout(), "a group is still timed out after run %d", r);
        EXPECTK("carried_over", !x->isTimeout() && !y->isTimeout(), "a child is still timed out after run %d", r);
    }
    p->destroy(); GPipelineFactory::remove(p);
}
SCENARIO(is_timeout) {     // an element counts as timed out exactly when it or a group around it is
    int n = rng.range(1, 6); std::vector<T*> c; for (int i = 0; i < n; ++i) { c.push_back(new T()); if (i) c[i]->belong_ = c[i - 1]; }
    std::string d; std::vector<GElementState> s; for (int i = 0; i < n; ++i) { int k = rng.below(8); GElementState z = k < 3 ? GElementState::NORMAL : k < 5 ? GElementState::CANCEL : k == 5 ? GElementState::SUSPEND : GElementState::TIMEOUT; s.push_back(z); c[i]->cur_state_.store(z); d += ds::fmt(" %d", (int) z); }
    ds::descr = "chain of states (outermost first):" + d; ds::ds_note(std::hash<std::string>()(d)); bool t = false;
    for (int i = 0; i < n; ++i) { t = t || s[i] == GElementState::TIMEOUT; EXPECTK("chain", c[i]->isTimeout() == t, "element %d: isTimeout() is %d", i, (int) c[i]->isTimeout()); EXPECTK("state", c[i]->getCurState() == (t ? GElementState::TIMEOUT : s[i]), "element %d", i); EXPECTK("unchanged", c[i]->cur_state_.load() == s[i], "query changed a state"); }
    for (T* x : c) { x->belong_ = nullptr; delete x; }
}

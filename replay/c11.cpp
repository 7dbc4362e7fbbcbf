#include "graph.h"
static std::vector<int> evs(int kind) { std::vector<int> v; for (auto& x : ds::events()) if (x.b == kind) v.push_back(x.a); return v; }
static std::string show(const std::vector<int>& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
struct S11 { std::vector<N*> n; std::vector<int> lv; };
// the callbacks happened once per element in level order, up to and including the first failing one
static void check(const char* what, const S11& s, int kind, std::function<int(int)> err, const CStatus& st, bool flag0) {
    auto v = evs(kind); std::set<int> seen; int last = -1000; bool failed = false;
    for (int i : v) { EXPECTK("after_error", !failed, "%s: callback of element %d after the first error (order %s)", what, i, show(v).c_str()); EXPECTK("twice", seen.insert(i).second, "%s: element %d twice", what, i); EXPECTK("level_order", s.lv[i] >= last, "%s: element %d of level %d after level %d (order %s)", what, i, s.lv[i], last, show(v).c_str()); last = s.lv[i]; failed = err(i) != 0; }
    if (!failed) EXPECTK("missing", seen.size() == s.n.size(), "%s: only %d of %d elements", what, (int) seen.size(), (int) s.n.size());
    else for (size_t i = 0; i < s.n.size(); ++i) if (!seen.count((int) i)) EXPECTK("level_order", s.lv[i] >= last, "%s: element %d of level %d skipped although level %d was reached", what, (int) i, s.lv[i], last);
    EXPECTK("status", st.isErr() == failed && (!failed || st.getCode() == err(v.back())), "%s: status %d", what, st.getCode());
    for (size_t i = 0; i < s.n.size(); ++i) { bool ok = seen.count((int) i) && !err((int) i); bool want = kind == INIT ? (flag0 || ok) : (flag0 && !ok); EXPECTK("is_init", s.n[i]->is_init_ == want, "%s: element %d counts as %s", what, (int) i, s.n[i]->is_init_ ? "initialised" : "not initialised"); }
}
static CStatus safe(std::function<CStatus()> f) { try { return f(); } catch (const CException& e) { return CStatus(-996, e.what()); } }
SCENARIO(levels) {
    int n = rng.range(1, 7), shape = rng.below(4); GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c; c.default_thread_size_ = 3; c.secondary_thread_size_ = 0; c.monitor_enable_ = false; p->setUniqueThreadPoolConfig(c);
    if (rng.chance(30)) p->setGEngineType(rng.chance(50) ? GEngineType::STATIC : GEngineType::TOPO);
    S11 s; s.lv.resize(n); bool early = rng.chance(40); std::string d = ds::fmt("%s, %s registration:", shape == 0 ? "pipeline" : shape == 1 ? "region" : shape == 2 ? "region in region" : "nodes registered as objects", early ? "levels before" : "levels after");
    GElementPtrArr kids; std::vector<int> ferr(n, 0), derr(n, 0); bool faults = rng.chance(50);
    for (int i = 0; i < n; ++i) { s.lv[i] = rng.range(-2, 2); if (faults && rng.chance(20)) (rng.chance(50) ? ferr : derr)[i] = -10 - i; d += ds::fmt(" %d%s", s.lv[i], ferr[i] ? "(init fails)" : derr[i] ? "(destroy fails)" : ""); }
    for (int i = 0; i < n; ++i) {
        N* x = nullptr; GElementPtrSet deps; if (rng.chance(30) && i) deps.insert(s.n[rng.below(i)]);
        if (shape == 0) { GElementPtr e = nullptr; CStatus st = p->registerGElement<N>(&e, deps, "n"); EXPECT(st.isOK(), "reg"); x = mk(e, i); if (early) { } }
        else if (shape == 3) { x = new N(); if (early) x->setLevel(s.lv[i]); GElementPtr e = x; CStatus st = p->registerGNode(&e, deps, "n"); EXPECT(st.isOK(), "reg"); }
        else { x = p->createGNode<N>(GNodeInfo("n")); if (early) x->setLevel(s.lv[i]); kids.push_back(x); }
        x->id = i; x->init_err = ferr[i]; x->destroy_err = derr[i]; s.n.push_back(x);
    }
    GElementPtr g = nullptr;
    if (shape == 1 || shape == 2) { g = p->createGGroup<GRegion>(kids); if (shape == 2) { GElementPtrArr in{g}; g = p->createGGroup<GRegion>(in); } CStatus st = p->registerGElement<GRegion>(&g, {}, "g"); EXPECT(st.isOK(), "reg"); }
    for (int i = 0; i < n; ++i) if (!early || shape == 0) s.n[i]->setLevel(s.lv[i]);
    ds::descr = d; for (int x : s.lv) ds::ds_note(x + 10); ds::ds_note(shape * 2 + early); for (int i = 0; i < n; ++i) ds::ds_note(ferr[i] + derr[i] * 3);
    for (int k = 0; k < 2; ++k) {
        ds::events().clear(); CStatus st = safe([&] { return p->init(); }); check(k ? "second init()" : "init()", s, INIT, [&](int i) { return ferr[i]; }, st, false);
        if (st.isErr()) { EXPECTK("pipeline_init", !p->is_init_, "the pipeline counts as initialised after a failed init"); break; }
        EXPECTK("pipeline_init", p->is_init_, "pipeline not initialised");
        if (rng.chance(50)) { st = p->run(); EXPECT(st.isOK(), "run"); }
        ds::events().clear(); st = safe([&] { return p->destroy(); }); check(k ? "second destroy()" : "destroy()", s, DESTROY, [&](int i) { return derr[i]; }, st, true);
        if (st.isErr()) break; EXPECTK("pipeline_init", !p->is_init_, "pipeline still initialised");
        if (rng.chance(50)) for (int i = 0; i < n; ++i) { s.lv[i] = rng.range(-2, 2); s.n[i]->setLevel(s.lv[i]); }
    }
    GPipelineFactory::remove(p);
}
// children of the other groups: every child is initialised / destroyed once, and counts accordingly
class Cond : public GCondition { public: CIndex choose() override { return 0; } };
class Some1 : public GSome { public: CSize getWaitNum() override { return 1; } };
class Mut : public GMutable { public: CStatus reshape(GElementPtrArr& e) override { return CStatus(); } };
SCENARIO(group_children) {
    int n = rng.range(1, 4), kind = rng.below(4); GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c; c.default_thread_size_ = 3; c.secondary_thread_size_ = 0; c.monitor_enable_ = false; p->setUniqueThreadPoolConfig(c);
    GElementPtrArr kids; std::vector<N*> v; int bad = rng.chance(30) ? rng.below(n) : -1, badd = bad < 0 && rng.chance(30) ? rng.below(n) : -1;
    for (int i = 0; i < n; ++i) { N* x = p->createGNode<N>(GNodeInfo("k")); x->id = i; x->init_err = i == bad ? -5 : 0; x->destroy_err = i == badd ? -6 : 0; v.push_back(x); kids.push_back(x); }
    GElementPtr g = kind == 0 ? (GElementPtr) p->createGGroup<GCluster>(kids) : kind == 1 ? (GElementPtr) p->createGGroup<Cond>(kids) : kind == 2 ? (GElementPtr) p->createGGroup<Mut>(kids) : (GElementPtr) p->createGGroup<Some1>(kids);
    CStatus st = kind == 0 ? p->registerGElement<GCluster>(&g, {}, "g") : kind == 1 ? p->registerGElement<Cond>(&g, {}, "g") : kind == 2 ? p->registerGElement<Mut>(&g, {}, "g") : p->registerGElement<Some1>(&g, {}, "g"); EXPECT(st.isOK(), "reg");
    ds::descr = ds::fmt("group kind %d of %d, init of %d fails, destroy of %d fails", kind, n, bad, badd); ds::ds_note(kind * 100 + n * 10 + bad); ds::ds_note(badd);
    ds::events().clear(); st = safe([&] { return p->init(); }); std::vector<int> cnt(n, 0); for (int i : evs(INIT)) cnt[i]++;
    for (int i = 0; i < n; ++i) { EXPECTK("init_once", cnt[i] <= 1 && (bad >= 0 || cnt[i] == 1), "child %d initialised %d times", i, cnt[i]); EXPECTK("is_init", v[i]->is_init_ == (cnt[i] == 1 && i != bad), "child %d counts as %s", i, v[i]->is_init_ ? "initialised" : "not initialised"); }
    EXPECTK("status", st.isErr() == (bad >= 0), "status"); EXPECTK("is_init", g->is_init_ == (bad < 0), "group counts as %d", (int) g->is_init_);
    if (bad < 0) { ds::events().clear(); st = safe([&] { return p->destroy(); }); std::fill(cnt.begin(), cnt.end(), 0); for (int i : evs(DESTROY)) cnt[i]++;
        for (int i = 0; i < n; ++i) { EXPECTK("destroy_once", cnt[i] <= 1 && (badd >= 0 || cnt[i] == 1), "child %d destroyed %d times", i, cnt[i]); EXPECTK("is_init", v[i]->is_init_ == !(cnt[i] == 1 && i != badd), "child %d counts as %d after destroy", i, (int) v[i]->is_init_); }
        EXPECTK("status", st.isErr() == (badd >= 0), "status"); }
    GPipelineFactory::remove(p);
}

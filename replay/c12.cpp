#include "graph.h"
// one random configuration request on one random element (or the pipeline) in one phase of the life cycle
class Cond : public GCondition { public: CIndex choose() override { return 0; } };
class Mut : public GMutable { public: CStatus reshape(GElementPtrArr& e) override { return CStatus(); } };
struct Snap {
    std::string name; size_t loop; int level; long timeout; int strat; int bind; bool vis, macro; std::vector<GElement*> dep, suc; int left;
    explicit Snap(GElementPtr e) : name(e->name_), loop(e->loop_), level(e->level_), timeout(e->timeout_), strat((int) e->timeout_strategy_), bind(e->binding_index_), vis(e->visible_), macro(e->is_marco_), left((int) e->left_depend_.load()) { for (auto* x : e->dependence_) dep.push_back(x); for (auto* x : e->run_before_) suc.push_back(x); }
    bool operator==(const Snap& o) const { return name == o.name && loop == o.loop && level == o.level && timeout == o.timeout && strat == o.strat && bind == o.bind && vis == o.vis && macro == o.macro && dep == o.dep && suc == o.suc && left == o.left; }
};
struct World { GPipelinePtr p; std::vector<GElementPtr> all; std::vector<int> kind; std::vector<GElementPtr> peer; };   // kind 0 node, 1 group, 2 child of a group, 3 child of a mutable group
static World make(ds::Rng& r) {
    World w; w.p = GPipelineFactory::create(); UThreadPoolConfig c; c.default_thread_size_ = 4; c.secondary_thread_size_ = 0; c.monitor_enable_ = false; w.p->setUniqueThreadPoolConfig(c);
    auto add = [&](GElementPtr e, int k, GElementPtr peer) { w.all.push_back(e); w.kind.push_back(k); w.peer.push_back(peer); };
    GElementPtr a = nullptr, b = nullptr; w.p->registerGElement<N>(&a, {}, "a"); w.p->registerGElement<N>(&b, {a}, "b"); add(a, 0, b); add(b, 0, a);
    auto kids = [&](int n) { GElementPtrArr v; for (int i = 0; i < n; ++i) v.push_back(w.p->createGNode<N>(GNodeInfo(ds::fmt("k%d", i)))); return v; };
    auto reg = [&](GElementPtr g, GElementPtrArr& v, int k) { for (size_t i = 0; i < v.size(); ++i) add(v[i], k, v[(i + 1) % v.size()]); add(g, 1, a); };
    { auto v = kids(2); GElementPtr g = w.p->createGGroup<GCluster>(v); w.p->registerGElement<GCluster>(&g, {}, "cluster"); reg(g, v, 2); }
    { auto v = kids(2); GElementPtr g = w.p->createGGroup<GRegion>(v); w.p->registerGElement<GRegion>(&g, {}, "region"); reg(g, v, 2); }
    { auto v = kids(2); GElementPtr g = w.p->createGGroup<Cond>(v); w.p->registerGElement<Cond>(&g, {}, "cond"); reg(g, v, 2); }
    { auto v = kids(2); GElementPtr g = w.p->createGGroup<Mut>(v); w.p->registerGElement<Mut>(&g, {}, "mutable"); reg(g, v, 3); }
    { auto v = kids(1); GElementPtr in = w.p->createGGroup<GCluster>(v); GElementPtrArr u{in}; GElementPtr g = w.p->createGGroup<GCluster>(u); w.p->registerGElement<GCluster>(&g, {}, "nested"); add(v[0], 2, v[0]); add(in, 2, in); add(g, 1, a); }
    return w;
}
static bool refused(std::function<CStatus()> f) { try { return f().isErr(); } catch (const CException&) { return true; } }
static const char* OPS[] = {"setName", "setLoop", "setLevel", "setVisible", "setBindingIndex", "setTimeout", "setMacro", "addDependGElements", "removeDepend", "operator>", "operator*", "operator--", "addElementInfo", "setThreadPool", "popLastAspect", "addEParam"};
class EP : public GElementParam { public: CVoid clone(GPassedParam*) override {} };
SCENARIO(element_requests) {
    World w = make(rng); const char* PH[] = {"before init", "after init", "after a run", "after destroy", "after re-init"}; int ph = rng.below(5);
    auto ok = [&](const CStatus& s) { EXPECTK("lifecycle", s.isOK(), "life cycle step failed: %s", s.getInfo().c_str()); };
    if (ph >= 1) ok(w.p->init()); if (ph == 2) ok(w.p->run()); if (ph >= 3) ok(w.p->destroy()); if (ph == 4) ok(w.p->init());
    bool frozen = ph == 1 || ph == 2 || ph == 4;
    for (int k = 0; k < 6; ++k) {
        int i = rng.below((int) w.all.size()), op = rng.below(16); GElementPtr e = w.all[i], q = w.peer[i]; bool group = e->isGGroup(); bool mut = w.kind[i] == 3;
        long v = rng.range(-3, 4); if (rng.chance(20)) e->aspect_manager_ ? (void) 0 : (void) e->addGAspect<GAspect>();
        Snap s0(e), q0(q); size_t aspects = e->aspect_manager_ ? e->aspect_manager_->getSize() : 0, eps = e->local_params_.size();
        ds::descr = ds::fmt("%s: %s(%ld) on element %d (%s%s)", PH[ph], OPS[op], v, i, group ? "group" : "node", mut ? " in a mutable group" : w.kind[i] == 2 ? " in a group" : ""); ds::ds_note(op * 100 + ph * 10 + w.kind[i]); ds::ds_note(v); ds::ds_note(k);
        bool dup = false; for (auto* x : s0.dep) dup |= x == q;
        bool rej = refused([&]() -> CStatus { switch (op) {
            case 0: e->setName("x" + std::to_string(v)); break; case 1: e->setLoop(v + 3); break; case 2: e->setLevel((CLevel) v); break; case 3: e->setVisible(v > 0); break; case 4: e->setBindingIndex((CIndex) v); break;
            case 5: e->setTimeout(v, v & 1 ? GElementTimeoutStrategy::AS_ERROR : GElementTimeoutStrategy::HOLD_BY_PIPELINE); break; case 6: e->setMacro(v > 0); break;
            case 7: return e->addDependGElements({q}); case 8: return e->removeDepend(q); case 9: *q > e; break; case 10: *e * (CSize) (v + 3); break; case 11: (*e)--; break;
            case 12: return e->addElementInfo({q}, "y" + std::to_string(v), v + 3); case 13: e->setThreadPool(e->thread_pool_ ? e->thread_pool_ : (UThreadPoolPtr) 8); break; case 14: return e->popLastAspect(); case 15: { EP p; e->addEParam("k", &p); break; } }
            return CStatus(); });
        Snap s1(e), q1(q); size_t asp1 = e->aspect_manager_ ? e->aspect_manager_->getSize() : 0;
        bool may = !frozen || (mut && (op == 1 || op == 3 || op == 7 || op == 9 || op == 10 || op == 11));
        if (!may) {
            EXPECTK("frozen_changed", s1 == s0 && q1 == q0 && asp1 == aspects && e->local_params_.size() == eps, "the request took effect although the element is initialised");
            if (op != 10 && op != 11) EXPECTK("frozen_accepted", rej, "the request was accepted although the element is initialised");
        } else {
            bool bad = (op == 1 || op == 10) && s0.timeout > 0 && v + 3 != 1; if (op == 5) bad = v < 0 || (s0.loop > 1 && v != 0); if (op == 6) bad = group; if (op == 8) bad = !dup; if (op == 14) bad = aspects == 0; if (op == 12) bad = s0.timeout > 0 && v + 3 != 1;
            if ((op == 7 || op == 9 || op == 12) && e->belong_ != q->belong_) bad = true;
            if (bad) { if (op != 10 && op != 12) EXPECTK("inconsistent_accepted", rej, "an unsuitable request was accepted"); if (op != 12 && op != 9) EXPECTK("inconsistent_changed", s1 == s0 && asp1 == aspects, "a refused request changed the element"); if (op == 12) EXPECTK("inconsistent_loop", s1.loop == s0.loop, "loop set together with a timeout"); }
            else {
                EXPECTK("refused", !rej, "a suitable request was refused");
                bool d = false; for (auto* x : s1.dep) d |= x == q; bool e_ok = true;
                switch (op) { case 0: e_ok = s1.name == "x" + std::to_string(v); break; case 1: case 10: e_ok = s1.loop == (size_t) (v + 3); break; case 2: e_ok = s1.level == v; break; case 3: e_ok = s1.vis == (v > 0); break; case 4: e_ok = s1.bind == v; break;
                    case 5: e_ok = s1.timeout == v && s1.strat == (int) (v & 1 ? GElementTimeoutStrategy::AS_ERROR : GElementTimeoutStrategy::HOLD_BY_PIPELINE); break; case 6: e_ok = s1.macro == (v > 0); break; case 7: e_ok = d || q == e; break; case 8: e_ok = !d; break; case 9: e_ok = (d || q == e) && s1.vis; break;
                    case 11: e_ok = s1.vis; break; case 12: e_ok = s1.loop == (size_t) (v + 3) && s1.name == "y" + std::to_string(v); break; case 14: e_ok = asp1 + 1 == aspects; break; case 15: e_ok = e->local_params_.count("k"); break; }
                EXPECTK("no_effect", e_ok, "the accepted request had no effect");
            }
        }
        if (ph == 0 && (op == 13)) e->thread_pool_ = nullptr;
    }
    // undo what would make the pipeline unusable, then release
    if (frozen) w.p->destroy();
    GPipelineFactory::remove(w.p);
}
class D2 : public GDaemon { public: CVoid daemonTask(GDaemonParamPtr) override {} };
class Ev : public GEvent { public: CVoid trigger(GEventParamPtr) override {} };
SCENARIO(pipeline_requests) {
    int ph = rng.below(4); GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig c; c.default_thread_size_ = 1; c.secondary_thread_size_ = 0; c.monitor_enable_ = false; p->setUniqueThreadPoolConfig(c);
    GElementPtr a = nullptr, b = nullptr, d = nullptr; p->registerGElement<N>(&a, {}, "a"); p->registerGElement<N>(&b, {a}, "b"); p->registerGElement<N>(&d, {a, b}, "d");
    auto ok = [&](const CStatus& s) { EXPECTK("lifecycle", s.isOK(), "life cycle step failed: %s", s.getInfo().c_str()); };
    if (ph >= 1) ok(p->init()); if (ph == 2) ok(p->run()); if (ph == 3) ok(p->destroy());
    bool frozen = ph == 1 || ph == 2; int op = rng.below(15); size_t n0 = p->element_manager_->manager_elements_.size(), r0 = p->repository_.elements_.size(); GEngineType t0 = p->element_manager_->engine_type_; int th0 = p->schedule_.config_.default_thread_size_; size_t dep0 = d->dependence_.size();
    const char* NM[] = {"registerGElement", "createGNode", "createGGroup", "addGAspect", "addGDaemon", "addGEvent", "addGStage", "setGEngineType", "setUniqueThreadPoolConfig", "setSharedThreadPool", "trim", "makeSerial", "registerGNode", "init", "getMaxPara"};
    ds::descr = ds::fmt("phase %d: %s", ph, NM[op]); ds::ds_note(op * 10 + ph); UThreadPool tp(false); GElementPtr x = nullptr; N* loose = nullptr;
    bool rej = refused([&]() -> CStatus { switch (op) {
        case 0: return p->registerGElement<N>(&x, {}, "x"); case 1: p->createGNode<N>(GNodeInfo("x")); break; case 2: p->createGGroup<GCluster>({}); break; case 3: p->addGAspect<GAspect>(); break; case 4: p->addGDaemon<D2>(1000); break; case 5: p->addGEvent<Ev>("e"); break; case 6: p->addGStage<GStage>("s", 2); break;
        case 7: p->setGEngineType(GEngineType::TOPO); break; case 8: c.default_thread_size_ = 3; p->setUniqueThreadPoolConfig(c); break; case 9: p->setSharedThreadPool(&tp); break; case 10: p->trim(); break; case 11: return p->makeSerial();
        case 12: loose = new N(); x = loose; return p->registerGNode(&x, {}, "x"); case 13: return p->init(); case 14: p->getMaxPara(); break; } return CStatus(); });
    size_t n1 = p->element_manager_->manager_elements_.size();
    if (frozen) {
        EXPECTK("frozen_accepted", rej, "accepted although the pipeline is initialised");
        EXPECTK("frozen_changed", n1 == n0 && p->repository_.elements_.size() == r0 && p->element_manager_->engine_type_ == t0 && p->schedule_.config_.default_thread_size_ == th0 && d->dependence_.size() == dep0 && p->schedule_.type_ == internal::GScheduleType::UNIQUE && !a->aspect_manager_, "the refused request changed the pipeline");
        if (loose) delete loose; ok(p->run()); ok(p->destroy());
    } else {
        bool bad = op == 11; EXPECTK("refused", rej == bad, "%s although the pipeline is not initialised", rej ? "refused" : "accepted");
        if (op == 0 || op == 12) EXPECTK("no_effect", n1 == n0 + 1, "nothing registered"); if (op == 7) EXPECTK("no_effect", p->element_manager_->engine_type_ == GEngineType::TOPO, "engine"); if (op == 8) EXPECTK("no_effect", p->schedule_.config_.default_thread_size_ == 3, "pool size"); if (op == 10) EXPECTK("no_effect", d->dependence_.size() == 1, "trim");
        if (op == 13) p->destroy();
    }
    GPipelineFactory::remove(p);
}

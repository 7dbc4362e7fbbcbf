#include "graph.h"
// stages entered by groups of elements over several rounds and runs; arrivals, launches and returns are counted
struct SP : public GStageParam { int v = 0; CVoid clone(GPassedParamPtr p) override { if (p) v = static_cast<SP*>(p)->v; } };
namespace { struct C { std::atomic<int> begun{0}, launched{0}, back{0}, in_launch{0}; int N = 1, v = 0; } ct[2]; int sdead = 0, sinit = 0; }
template <int K> struct St : public GStage {
    CStatus init() override { sinit++; return CStatus(); } CStatus destroy() override { sdead++; return CStatus(); }
    CVoid launch(GStageParamPtr p) override { C& c = ct[K]; EXPECTK("one_action", c.in_launch++ == 0, "two actions of a stage at once"); ds::ds_point(); int l = c.launched + 1;
        EXPECTK("early_action", c.begun >= c.N * l, "action %d ran after %d arrivals, threshold %d", l, (int) c.begun, c.N); EXPECTK("before_release", c.back <= c.N * (l - 1), "round %d released before its action", l);
        EXPECTK("param", (c.v == 0 && !p) || (p && static_cast<SP*>(p)->v == c.v), "the action got another parameter"); ds::ds_point(); c.launched++; c.in_launch--; } };
static const char* keys[] = {"s0", "s1", "none"};
struct En : public GNode { std::vector<int> ks; int slow = 0;
    CStatus run() override { for (int k : ks) { if (k < 2) ct[k].begun++; int l0 = k < 2 ? (int) ct[k].launched : 0; CStatus st = enterStage(keys[k]); EXPECTK("key", st.isOK() == (k != 2), "enterStage(%s): %d", keys[k], st.getCode());
            if (k < 2) { int b = ++ct[k].back; EXPECTK("early", b <= ct[k].N * ct[k].launched, "%d returns after %d rounds of %d", b, (int) ct[k].launched, ct[k].N); (void) l0; } for (int i = 0; i < slow; ++i) ds::ds_point(); } return CStatus(); } };
static void world(ds::Rng& rng, bool groups) {
    ds::ds_hang_key("left_waiting"); for (auto& c : ct) { c.begun = 0; c.launched = 0; c.back = 0; c.in_launch = 0; } sdead = sinit = 0;
    int n = rng.range(1, 3), runs = rng.range(1, 2), rounds = groups ? 1 : rng.range(1, 4), g = groups ? rng.range(1, 3) : 1, m = n * g; bool two = !groups && rng.chance(40), none = rng.chance(25); if (groups && m > 6) { g = 2; m = n * g; }
    GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig cf; cf.default_thread_size_ = m + 1; cf.secondary_thread_size_ = 0; cf.max_thread_size_ = m + 1; cf.monitor_enable_ = false; p->setUniqueThreadPoolConfig(cf);
    int th = n; ct[0].N = ct[1].N = n; bool par = rng.chance(50); ct[0].v = par ? 9 : 0; ct[1].v = 0; SP sp; sp.v = 9;
    ds::descr = ds::fmt("threshold %d, %d participants, %d rounds, %d runs, %d stages, param %d, unknown %d", th, m, rounds, runs, two ? 2 : 1, par, none);
    if (par) p->addGStage<St<0>>("s0", th, &sp); else p->addGStage<St<0>>("s0", th); p->addGStage<St<1>>("s1", th); sp.v = 1;
    for (int i = 0; i < m; ++i) { GElementPtr e = nullptr; EXPECT(p->registerGElement<En>(&e, {}, "n").isOK(), "reg"); En* t = static_cast<En*>(e); t->slow = rng.below(3) * rng.below(4); for (int r = 0; r < rounds; ++r) { t->ks.push_back(0); if (none && i == 0) t->ks.push_back(2); if (two) t->ks.push_back(1); } }
    EXPECT(p->init().isOK(), "init"); EXPECTK("init", sinit == 2, "%d stages initialised", sinit);
    for (int r = 1; r <= runs; ++r) { CStatus st = p->run(); EXPECTK("run", st.isOK(), "run: %d", st.getCode()); for (int k = 0; k < (two ? 2 : 1); ++k) EXPECTK("rounds", ct[k].launched == r * rounds * g && ct[k].back == r * rounds * m, "%d actions, %d returns instead of %d, %d", (int) ct[k].launched, (int) ct[k].back, r * rounds * g, r * rounds * m); }
    EXPECT(p->destroy().isOK(), "destroy"); EXPECTK("destroy", sdead == 2, "%d stages destroyed", sdead); GPipelineFactory::remove(p); ds::ds_note(m * 100 + rounds);
}
SCHED(rounds) { world(rng, false); }
SCHED(groups) { world(rng, true); }

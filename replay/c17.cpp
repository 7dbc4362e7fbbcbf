#include "graph.h"
// parameter store against a model: which key holds which object of which type; set up and reset around every run
namespace { int live = 0; std::set<void*> dead; std::vector<std::string> seq; }
template <int K> struct PT : public GParam { int uid; std::string tag; bool up = false; static int next; static int fail;
    PT() { uid = next++; ++live; } ~PT() override { --live; }
    CStatus setup() override { seq.push_back("s" + getKey()); up = true; return fail == uid ? CStatus(-9, "setup") : CStatus(); }
    CVoid reset(const CStatus& st) override { seq.push_back(ds::fmt("r%s(%d)", getKey().c_str(), st.getCode())); up = false; } };
template <int K> int PT<K>::next = 0; template <int K> int PT<K>::fail = -1;
struct Peek : public GNode { static int code; static std::function<void(Peek*)> f; CStatus run() override { seq.push_back("run"); if (f) f(this); return code ? CStatus(code, "node") : CStatus(); } };
int Peek::code = 0; std::function<void(Peek*)> Peek::f;
#define BY(k, ...) do { if ((k) == 0) { using T = PT<0>; __VA_ARGS__ } else if ((k) == 1) { using T = PT<1>; __VA_ARGS__ } else { using T = PT<2>; __VA_ARGS__ } } while (0)
SCENARIO(histories) {
    int steps = rng.range(1, 40); ds::descr = ds::fmt("%d operations", steps); std::string log; live = 0; seq.clear(); PT<0>::fail = PT<1>::fail = PT<2>::fail = -1; Peek::code = 0; Peek::f = nullptr; PT<0>::next = PT<1>::next = PT<2>::next = 0;
    GPipelinePtr p = GPipelineFactory::create(); UThreadPoolConfig cf; cf.default_thread_size_ = 1; cf.secondary_thread_size_ = 0; cf.max_thread_size_ = 1; cf.monitor_enable_ = false; p->setUniqueThreadPoolConfig(cf);
    GElementPtr a = nullptr; p->registerGElement<Peek>(&a, {}, "a"); bool up = false;
    struct E { int k; GParam* o; }; std::map<std::string, E> model; const char* names[] = {"", "a", "b", "long key with spaces", "c"};
    for (int i = 0; i < steps; ++i) {
        std::string key = names[rng.below(5)]; int k = rng.below(3), op = rng.below(100); auto it = model.find(key); ds::ds_note(std::hash<std::string>()(log));
        if (op < 30) { bool bt = rng.chance(30); BY(k,  CStatus st = p->createGParam<T>(key, bt); log += ds::fmt("c%d,%s ", k, key.c_str()); 
                if (it == model.end()) { GParam* o = p->getGParam<T>(key); EXPECTK("created", st.isOK() && o, "create under a new key (%s)", log.c_str()); EXPECTK("key", o->getKey() == key, "the parameter's key is '%s', not '%s'", o->getKey().c_str(), key.c_str()); model[key] = {k, o}; }
                else EXPECTK("duplicate", st.isOK() == (it->second.k == k), "create again under %s type: %d (%s)", it->second.k == k ? "the same" : "another", st.getCode(), log.c_str()); ); }
        else if (op < 55) { BY(k,  GParam* g = p->getGParam<T>(key); log += ds::fmt("g%d,%s ", k, key.c_str()); EXPECTK("get", g == (it != model.end() && it->second.k == k ? it->second.o : nullptr), "retrieval under '%s' (%s)", key.c_str(), log.c_str());
                bool threw = false; try { p->getGParamWithNoEmpty<T>(key); } catch (const std::exception&) { threw = true; } EXPECTK("get_no_empty", threw == (g == nullptr), "getGParamWithNoEmpty %s (%s)", threw ? "threw" : "did not throw", log.c_str()); ); }
        else if (op < 70) { CStatus st = p->removeGParam(key); log += "d" + key + " "; EXPECTK("remove", st.isOK() == (it != model.end()), "removing '%s': %d (%s)", key.c_str(), st.getCode(), log.c_str()); model.erase(key); }
        else if (op < 80) { auto v = p->getGParamKeys(); std::sort(v.begin(), v.end()); std::vector<std::string> w; for (auto& m : model) w.push_back(m.first); EXPECTK("keys", v == w, "%d keys reported, %d stored (%s)", (int) v.size(), (int) w.size(), log.c_str()); }
        else if (op < 92) { if (!up) { EXPECT(p->init().isOK(), "init"); up = true; } seq.clear(); bool bad = rng.chance(25) && !model.empty(); int nodefail = rng.chance(25) ? -5 : 0; Peek::code = nodefail; std::string inode;
            if (rng.chance(50)) { Peek::f = [&] (Peek* n) { BY(k,  GParam* g = n->getGParam<T>(key); EXPECTK("get_in_node", g == (it != model.end() && it->second.k == k ? it->second.o : nullptr), "retrieval inside a node (%s)", log.c_str()); if (g) EXPECTK("set_up", static_cast<T*>(g)->up, "a parameter is not set up while elements run"); ); }; }
            if (bad) { auto m = model.begin(); std::advance(m, rng.below((int) model.size())); BY(m->second.k,  T::fail = static_cast<T*>(m->second.o)->uid; ); }
            CStatus st = p->run(); Peek::f = nullptr; PT<0>::fail = PT<1>::fail = PT<2>::fail = -1; log += bad ? "runbad " : "run ";
            std::vector<std::string> s, r; size_t i = 0; for (; i < seq.size() && seq[i][0] == 's'; ++i) s.push_back(seq[i].substr(1)); if (!bad) { EXPECTK("order", i < seq.size() && seq[i] == "run", "elements did not run after the set-up (%s)", log.c_str()); ++i; }
            for (; i < seq.size(); ++i) r.push_back(seq[i]); std::sort(s.begin(), s.end()); std::sort(r.begin(), r.end()); std::vector<std::string> ws, wr; for (auto& m : model) { ws.push_back(m.first); if (!bad) wr.push_back(ds::fmt("r%s(%d)", m.first.c_str(), nodefail)); } std::sort(wr.begin(), wr.end());
            EXPECTK("setup", s == ws, "%d of %d parameters set up before the elements (%s)", (int) s.size(), (int) ws.size(), log.c_str()); if (!bad) EXPECTK("reset", r == wr, "parameters reset after the run: %d of %d (%s)", (int) r.size(), (int) wr.size(), log.c_str());
            EXPECTK("result", st.getCode() == (bad ? -9 : nodefail), "run returned %d", st.getCode()); }
        else if (up) { EXPECT(p->destroy().isOK(), "destroy"); up = false; log += "destroy "; }
        EXPECTK("alive", live == (int) model.size(), "%d parameter objects alive, %d stored (%s)", live, (int) model.size(), log.c_str());
    }
    if (up) EXPECT(p->destroy().isOK(), "destroy"); GPipelineFactory::remove(p); EXPECTK("released", live == 0, "%d parameter objects left", live);
}
SCHED(concurrent) {       // several threads create and remove the same keys
    live = 0; int th = rng.range(2, 3); ds::descr = ds::fmt("%d threads", th); GPipelinePtr p = GPipelineFactory::create(); std::vector<std::thread> ts; std::vector<int> ok(th, 0), plan; for (int i = 0; i < th; ++i) plan.push_back(rng.below(1 << 16)); bool removals = rng.chance(50);
    for (int t = 0; t < th; ++t) ts.emplace_back([&, t] { for (int k = 0; k < 3; ++k) { int b = plan[t] >> (4 * k); std::string key = (b & 1) ? "x" : "y"; CStatus st; if (removals && (b & 2)) st = p->removeGParam(key); else if (b & 4) st = p->createGParam<PT<0>>(key); else st = p->createGParam<PT<1>>(key); ok[t] += st.isOK(); ds::ds_point(); if (b & 8) p->getGParamKeys(); } });
    for (auto& t : ts) t.join(); int n = (int) p->getGParamKeys().size(); ds::ds_note(n + 10 * ok[0] + 100 * ok[1]); EXPECTK("one_per_key", live == n && n <= 2, "%d objects for %d keys", live, n); GPipelineFactory::remove(p); EXPECTK("released", live == 0, "%d objects left", live);
}

#include "graph.h"
struct World { std::vector<N*> n; std::vector<int> owner; std::map<std::pair<int,int>, bool> edge; GCluster g1, g2; };
static void audit(World& w, const std::string& what) {
    int k = (int) w.n.size();
    for (int i = 0; i < k; ++i) {
        size_t cnt = 0;
        for (int j = 0; j < k; ++j) {
            bool d = false, r = false;
            for (auto* x : w.n[i]->dependence_) if (x == w.n[j]) d = true;
            for (auto* x : w.n[j]->run_before_) if (x == w.n[i]) r = true;
            EXPECTK("mirror", d == r, "%s: %d->%d predecessor side %d successor side %d", what.c_str(), j, i, (int) d, (int) r);
            EXPECTK("irreflexive", !(d && i == j), "%s: %d depends on itself", what.c_str(), i);
            EXPECTK("owner", !d || w.n[i]->belong_ == w.n[j]->belong_, "%s: edge %d->%d crosses owners", what.c_str(), j, i);
            EXPECTK("edges", d == w.edge[std::make_pair(j, i)], "%s: edge %d->%d is %d, expected %d", what.c_str(), j, i, (int) d, (int) w.edge[std::make_pair(j, i)]);
            cnt += d;
        }
        EXPECTK("duplicates", w.n[i]->dependence_.size() == cnt, "%s: %d has %d entries for %d predecessors", what.c_str(), i, (int) w.n[i]->dependence_.size(), (int) cnt);
        EXPECTK("pending", w.n[i]->left_depend_.load() == cnt, "%s: pending count of %d is %d, predecessors %d", what.c_str(), i, (int) w.n[i]->left_depend_.load(), (int) cnt);
    }
}
SCENARIO(edges) {
    World w; int k = rng.range(2, 7); std::string log = ds::fmt("n=%d owners", k);
    for (int i = 0; i < k; ++i) { N* x = new N(); w.n.push_back(x); int o = rng.chance(70) ? 0 : rng.range(1, 2); w.owner.push_back(o); x->belong_ = o == 0 ? nullptr : (o == 1 ? (GElementPtr) &w.g1 : &w.g2); log += std::to_string(o); }
    int ops = rng.range(1, 12);
    for (int q = 0; q < ops; ++q) {
        int op = rng.below(4), t = rng.below(k);
        if (op <= 1) {
            GElementPtrSet s; std::set<int> req; bool nul = false; int m = rng.range(0, 3);
            for (int j = 0; j < m; ++j) { int x = rng.below(k); s.insert(w.n[x]); req.insert(x); }
            if (rng.chance(10)) { s.insert(nullptr); nul = true; }
            log += ds::fmt(" add(%d;", t); for (int x : req) log += ds::fmt("%d,", x); log += nul ? "null)" : ")"; ds::descr = log;
            bool bad = nul; for (int x : req) if (w.owner[x] != w.owner[t]) bad = true;
            CStatus st;
            if (rng.chance(50)) st = w.n[t]->addDependGElements(s); else { std::string nm = "e"; try { st = w.n[t]->addElementInfo(s, nm, 1); } catch (const CException& e) { st = CStatus("thrown"); } }
            EXPECTK("accepted", st.isErr() == bad, "%s: status %d", log.c_str(), st.getCode());
            if (!bad) for (int x : req) if (x != t) w.edge[std::make_pair(x, t)] = true;
        } else if (op == 2) {
            int x = rng.below(k); log += ds::fmt(" remove(%d;%d)", t, x); ds::descr = log;
            bool had = w.edge[std::make_pair(x, t)]; CStatus st = w.n[t]->removeDepend(w.n[x]);
            EXPECTK("removed", st.isOK() == had, "%s: status %d, edge existed %d", log.c_str(), st.getCode(), (int) had);
            w.edge[std::make_pair(x, t)] = false;
        } else {
            int x = rng.below(k); log += ds::fmt(" %d>%d", t, x); ds::descr = log;
            bool ok = true; try { *w.n[t] > w.n[x]; } catch (const CException&) { ok = false; }
            EXPECTK("arrow", ok == (w.owner[t] == w.owner[x]), "%s: accepted %d", log.c_str(), (int) ok);
            if (ok && t != x) w.edge[std::make_pair(t, x)] = true;
        }
        audit(w, log);
    }
    for (N* x : w.n) delete x;
}
SCENARIO(pipeline) {      // the public way: register, arrows, run; per-run reset keeps the pending counts
    Dag d(rng, rng.range(1, 6), rng.range(10, 60)); ds::descr = ""; Graph g(rng, d);
    World w; w.n.clear(); for (int i = 0; i < d.n; ++i) { w.n.push_back(g.n(i)); w.owner.push_back(0); for (int j : d.dep[i]) w.edge[std::make_pair(j, i)] = true; }
    audit(w, "registered"); for (int i = 0; i < d.n; ++i) { g.n(i)->refresh(); } audit(w, "refreshed");
}

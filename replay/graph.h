// Recording graph elements for the replay drivers.
#pragma once
#include "CGraph.h"
#include "drv.h"
#include <algorithm>
#include <map>
#include <set>
using namespace CGraph;
enum { START = 0, END = 1, INIT = 2, DESTROY = 3, PREP = 4, CRASH = 5, PSETUP = 6, PRESET = 7 };
struct Beh {                 // what a node does in its run callback
    int points = 2; int err = 0; bool thr = false; int sleep_ms = 0; std::function<void()> body; int err_at_run = -1; bool thr_std = false;
};
class N : public GNode {
public:
    int id = 0, runs = 0; Beh b; int init_err = 0, destroy_err = 0;
    CStatus init() override { ds::log(id, INIT); return init_err ? CStatus(init_err, "init") : CStatus(); }
    CStatus run() override {
        ds::log(id, START); int r = runs++;
        if (b.body) b.body();
        for (int i = 0; i < b.points; ++i) ds::ds_point();
        if (b.sleep_ms) std::this_thread::sleep_for(std::chrono::milliseconds(b.sleep_ms));
        bool f = b.err_at_run < 0 || b.err_at_run == r;
        if (b.thr && f) { ds::log(id, END, -1); throw CException("boom" + std::to_string(id)); }
        ds::log(id, END, f ? b.err : 0);
        return b.err && f ? CStatus(b.err, "err" + std::to_string(id)) : CStatus();
    }
    CStatus destroy() override { ds::log(id, DESTROY); return destroy_err ? CStatus(destroy_err, "destroy") : CStatus(); }
};
inline N* mk(GElementPtr e, int id) { N* n = static_cast<N*>(e); n->id = id; return n; }
// a random acyclic dependency relation on n vertices (edges from smaller to larger index after a shuffle)
struct Dag {
    int n; std::vector<std::set<int>> dep; std::vector<int> order;
    Dag(ds::Rng& r, int n_, int pct) : n(n_), dep(n_) {
        int shape = r.below(6);
        for (int i = 1; i < n; ++i) for (int j = 0; j < i; ++j) {
            if (shape == 0) { if (j == i - 1) dep[i].insert(j); }
            else if (shape == 1) { if (j == 0) dep[i].insert(j); }
            else if (shape == 2) { if (j == (i - 1) / 2) dep[i].insert(j); }
            else if (r.chance(pct)) dep[i].insert(j);
        }
        // transitive edges are fine: they must be respected as well
    }
    std::string str() const { std::string s = ds::fmt("n=%d:", n); for (int i = 0; i < n; ++i) for (int j : dep[i]) s += ds::fmt(" %d->%d", j, i); return s; }
    std::set<int> closure(int i) const { std::set<int> s; std::vector<int> st(dep[i].begin(), dep[i].end()); while (!st.empty()) { int x = st.back(); st.pop_back(); if (s.insert(x).second) for (int y : dep[x]) st.push_back(y); } return s; }
};
inline UThreadPoolConfig cfg(ds::Rng& r) {
    UThreadPoolConfig c; c.default_thread_size_ = r.range(1, 4); c.secondary_thread_size_ = r.below(2); c.max_thread_size_ = 8;
    c.max_task_steal_range_ = r.range(1, 3); c.batch_task_enable_ = r.chance(30); c.primary_thread_busy_epoch_ = r.below(3); c.pipeline_wait_busy_epoch_ = r.below(3);
    c.monitor_enable_ = false; c.max_local_batch_size_ = r.range(1, 3); c.max_pool_batch_size_ = r.range(1, 3); c.max_steal_batch_size_ = r.range(1, 3);
    return c;
}
inline std::string cfgs(const UThreadPoolConfig& c) { return ds::fmt("[pool %d+%d steal %d batch %d busy %d/%d]", c.default_thread_size_, c.secondary_thread_size_, c.max_task_steal_range_, (int) c.batch_task_enable_, c.primary_thread_busy_epoch_, c.pipeline_wait_busy_epoch_); }
struct Graph {
    GPipelinePtr p; std::vector<GElementPtr> e; Dag d;
    Graph(ds::Rng& r, const Dag& dag) : p(GPipelineFactory::create()), e(dag.n), d(dag) {
        UThreadPoolConfig c = cfg(r); p->setUniqueThreadPoolConfig(c); ds::descr += cfgs(c) + " " + d.str();
        for (int i = 0; i < d.n; ++i) {
            GElementPtrSet s; for (int j : d.dep[i]) s.insert(e[j]);
            CStatus st = p->registerGElement<N>(&e[i], s, "n" + std::to_string(i));
            if (st.isErr()) ds::fail("setup", "registration failed: " + st.getInfo());
            mk(e[i], i);
            if (r.chance(20)) { int b = r.range(0, c.default_thread_size_ - 1); e[i]->setBindingIndex(b); }
            if (r.chance(15)) e[i]->setMacro(true);
            if (r.chance(20)) { int lv = r.range(-2, 2); (void) lv; }
        }
    }
    N* n(int i) { return static_cast<N*>(e[i]); }
    ~Graph() { GPipelineFactory::remove(p); }
};
// every element exactly once, after all its predecessors
inline void check_run(const Dag& d, const char* what) {
    std::vector<int> s(d.n, 0), f(d.n, 0);
    for (auto& x : ds::events()) {
        if (x.b == START) { s[x.a]++; for (int j : d.dep[x.a]) EXPECTK("order", f[j] == 1, "%s: element %d started before its predecessor %d finished", what, x.a, j); }
        else if (x.b == END) f[x.a]++;
    }
    for (int i = 0; i < d.n; ++i) EXPECTK("once", s[i] == 1 && f[i] == 1, "%s: element %d started %d and finished %d times", what, i, s[i], f[i]);
}

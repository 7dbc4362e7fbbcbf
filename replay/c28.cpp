#include "graph.h"
template <int CAP> static void go(ds::Rng& rng) {
    ULru<int, std::string, CAP> c; std::vector<std::pair<int, std::string>> ref; std::string log = ds::fmt("cap %d:", CAP);
    EXPECTK("capacity", (int) c.getCapacity() == CAP, "%s", log.c_str());
    int u = rng.range(1, CAP + 3);
    for (int q = rng.range(1, 40); q > 0; --q) {
        int k = rng.below(u); auto it = ref.begin(); while (it != ref.end() && it->first != k) ++it;
        int op = rng.below(20);
        if (op == 0) { log += " clear"; c.clear(); ref.clear(); }
        else if (op < 11) {
            std::string v = "v" + std::to_string(rng.below(100)); log += ds::fmt(" put(%d,%s)", k, v.c_str());
            c.put(k, v); if (it != ref.end()) ref.erase(it); else if ((int) ref.size() == CAP) ref.pop_back(); ref.insert(ref.begin(), std::make_pair(k, v));
        } else {
            std::string v = "?"; log += ds::fmt(" get(%d)", k); bool r = c.get(k, v); ds::descr = log;
            EXPECTK("hit", r == (it != ref.end()), "%s: found %d", log.c_str(), (int) r);
            EXPECTK("value", v == (r ? it->second : "?"), "%s: value %s", log.c_str(), v.c_str());
            if (r) { auto e = *it; ref.erase(it); ref.insert(ref.begin(), e); }
        }
        ds::descr = log;
        EXPECTK("size", c.cur_size_ == ref.size() && c.nodes_.size() == ref.size() && c.cache_.size() == ref.size(), "%s: %d entries, expected %d", log.c_str(), (int) c.nodes_.size(), (int) ref.size());
        EXPECTK("bound", (int) c.nodes_.size() <= CAP, "%s", log.c_str());
    }
    // what is left, in order of eviction
    for (auto& e : ref) { std::string v; EXPECTK("content", c.get(e.first, v) && v == e.second, "%s: key %d", log.c_str(), e.first); }
}
SCENARIO(lru) { switch (rng.below(5)) { case 0: go<1>(rng); break; case 1: go<2>(rng); break; case 2: go<3>(rng); break; case 3: go<5>(rng); break; default: go<16>(rng); } }

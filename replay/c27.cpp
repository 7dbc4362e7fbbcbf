#include "graph.h"
SCENARIO(small_vector) {
    USmallVector<GElementPtr> v; std::vector<GElementPtr> ref; int u = rng.range(1, 12); std::string log;
    int ops = rng.range(1, 30);
    for (int q = 0; q < ops; ++q) {
        GElementPtr x = (GElementPtr) (uintptr_t) (8 * rng.range(1, u)); int op = rng.below(10);
        auto it = std::find(ref.begin(), ref.end(), x);
        if (op < 6) { log += ds::fmt("+%d", (int) (uintptr_t) x / 8); v.insert(x); if (it == ref.end()) ref.push_back(x); }
        else if (op < 9) { log += ds::fmt("-%d", (int) (uintptr_t) x / 8); bool had = it != ref.end(); bool r = v.remove(x); if (had) ref.erase(it); ds::descr = log; EXPECTK("remove_result", r == had, "%s: returned %d", log.c_str(), (int) r); }
        else if (rng.chance(20)) { log += "c"; v.clear(); ref.clear(); }
        ds::descr = log;
        EXPECTK("size", v.size() == ref.size() && v.empty() == ref.empty(), "%s: size %d, expected %d", log.c_str(), (int) v.size(), (int) ref.size());
        for (int k = 1; k <= u; ++k) { GElementPtr y = (GElementPtr) (uintptr_t) (8 * k); bool in = std::find(ref.begin(), ref.end(), y) != ref.end(); EXPECTK("has", v.hasValue(y) == in, "%s: membership of %d is %d", log.c_str(), k, (int) v.hasValue(y)); }
        size_t i = 0; for (auto* e : v) { EXPECTK("order", i < ref.size() && e == ref[i] && v[i] == ref[i], "%s: position %d", log.c_str(), (int) i); ++i; }
        EXPECTK("iter", i == ref.size(), "%s: iterated %d", log.c_str(), (int) i);
        EXPECTK("as_vector", v.asVector() == ref, "%s", log.c_str());
        if (!ref.empty()) EXPECTK("ends", v.front() == ref.front() && v.back() == ref.back(), "%s", log.c_str());
    }
}
SCENARIO(unique_array) {
    USerialUniqueArray<std::string> a; std::vector<std::string> ref; std::string log;
    for (int q = rng.range(1, 15); q > 0; --q) {
        if (rng.chance(8)) { a.clear(); ref.clear(); log += "c"; }
        else { std::string s = "k" + std::to_string(rng.below(8)); a.uniqueAdd(s); if (std::find(ref.begin(), ref.end(), s) == ref.end()) ref.push_back(s); log += "+" + s; }
        ds::descr = log; std::vector<std::string> out{"pre"}, exp{"pre"}; a.getUniqueArray(out); exp.insert(exp.end(), ref.begin(), ref.end());
        EXPECTK("array", out == exp, "%s", log.c_str());
    }
}
